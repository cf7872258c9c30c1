"""C38 metrics on groups of meters, and the alignment of two meters."""
import contextlib
import io
import math
import warnings
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE
boot.load()
import o_shares
from o_shares import at
from nilmtk import metrics
from nilmtk.electric import align_two_meters
from nilmtk.elecmeter import ElecMeterID
from nilmtk.metergroup import MeterGroup, iterate_through_submeters_of_two_metergroups
from nilmtk.timeframe import TimeFrame


class Fake(o_shares.Fake):
    """samples [[second, power]], read in the sections asked for, in pieces of at most `piece` samples"""

    def __init__(self, i, spec, all_, log, ds):
        o_shares.Fake.__init__(self, i, spec, all_, log)
        self.identifier = ElecMeterID(i + 1, 1, ds)
        self.asked = []

    def good_sections(self, **kw):
        return [TimeFrame(at(a), at(b)) for a, b in self.spec['good']]

    def total_energy(self, **kw):
        if 'sections' in kw:
            self.asked.append([(s.start, s.end) for s in kw.pop('sections')])
        return o_shares.Fake.total_energy(self, **kw)

    def power_series(self, sections=None, **kw):
        if kw:
            raise TypeError(kw)
        l = self.spec['power']
        for s in sections:
            p = [(at(t), float(v)) for t, v in l if s.start <= at(t) < s.end]
            n = self.spec['piece'] or max(len(p), 1)
            for j in range(0, max(len(p), 1), n):
                q = p[j:j + n]
                yield pd.Series([v for _, v in q], index=pd.DatetimeIndex([t for t, _ in q], tz=BASE.tz), dtype=float)

    def on_power_threshold(self):
        return 10


def stretches(a, b):
    """[(first, second)]: the buckets of each stretch, {bucket: [values]}"""
    p, out = a.spec['period'], []
    for lo, hi in a.spec['good']:
        l = [(t, v) for t, v in a.spec['power'] if lo <= t < hi]
        n = a.spec['piece'] or max(len(l), 1)
        for j in range(0, len(l), n):
            m = l[j:j + n]
            if len(m) < 2:
                continue
            s = [(t, v) for t, v in b.spec['power'] if m[0][0] <= t < m[-1][0]]
            if b.spec['piece']:
                s = s[:b.spec['piece']]
            if s:
                out.append([bucket(x, p) for x in (m, s)])
    return out


DAY = int((BASE - BASE.normalize()).total_seconds())


def bucket(l, p):
    d = {}
    for t, v in l:
        d.setdefault((DAY + t) // p, []).append(float(v))
    return d


def mean(l):
    return sum(l) / len(l)


def close(x, y, tol=1e-6):
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


@prop('C38')
class Metrics(object):
    @staticmethod
    def gen(g):
        n = g.size(1, 3, 5)
        period = g.choice([1, 1, 2, 5, 10])

        def power():
            l, t = [], g.r.randint(0, 3) * period
            for _ in range(g.size(0, 14, 40)):
                l.append([t, g.choice([0, 5, 9, 10, 11, 100, 250.5, 2000])])
                t += period * g.choice([1, 1, 1, 1, 2, 7]) if g.flag(0.85) else g.choice([1, 3, 11])
            return l
        def spec(first):
            s = dict(up=0, e=dict((a, round(g.r.uniform(0, 50), 2)) for a in (['active'] if g.flag(0.8) else ['active', 'apparent'])),
                     good=[], period=period if first else g.choice([period, period, 1, 6]), piece=g.choice([0, 0, 0, 2, 3, 5]) if first else 0,
                     power=power(), whole=1000, rate=0.0)
            cuts = sorted(set(g.r.randint(0, 60) for _ in range(g.choice([0, 2, 2, 4, 6]))))
            s['good'] = [[cuts[j], cuts[j + 1]] for j in range(0, len(cuts) - 1, 2)] if len(cuts) > 1 else [[0, 1000]]
            return s
        pred = [spec(True) for _ in range(n)]
        truth = []
        for s in pred:
            t = spec(False)
            if g.flag(0.6):         # samples at mostly the same times
                t['power'] = [[x, v if g.flag(0.6) else g.choice([0, 8, 10, 12, 120])] for x, v in s['power'] if g.flag(0.9)]
            truth.append(t)
        return dict(pred=pred, truth=truth, order=g.r.sample(range(n), n), second=g.r.randint(0, n) if g.flag(0.4) else 0)

    @staticmethod
    def check(case):
        n = len(case['pred'])
        if n != len(case['truth']) or not n or sorted(case['order']) != list(range(n)):
            raise Invalid()
        for s in case['pred'] + case['truth']:
            ts = [t for t, _ in s['power']]
            flat = [x for a in s['good'] for x in a]
            if ts != sorted(set(ts)) or s['up'] != 0 or 'active' not in s['e'] or s['period'] < 1 or flat != sorted(set(flat)) or \
                    any(len(a) != 2 for a in s['good']) or s['piece'] < 0 or any(v < 0 for v in s['e'].values()):
                raise Invalid()
        if any(s['period'] not in (1, 2, 5, 10) for s in case['pred']):
            raise Invalid()
        groups = []
        for ds, l in (('P', case['pred']), ('T', case['truth'])):
            all_ = []
            top = dict(l[0], up=None, power=[], good=[])
            for i, s in enumerate([top] + l):
                all_.append(Fake(i, s, all_, [], ds))
            groups.append(all_)
        pred = MeterGroup(groups[0])
        truth = MeterGroup([groups[1][0]] + [groups[1][1 + j] for j in case['order']])
        pairs = list(zip(groups[0][1:], groups[1][1:]))
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            Metrics.buildings(case)
            Metrics.aligned(pairs)
            Metrics.numbers(pred, truth, pairs)

    @staticmethod
    def buildings(case):
        """the same meters once more, the first ones again in a second building"""
        groups = []
        for ds, l, order in (('P', case['pred'], range(len(case['pred']))), ('T', case['truth'], case['order'])):
            meters = []
            for b, m in ((1, l), (2, l[:case.get('second', 0)])):
                all_ = []
                for i, s in enumerate([dict(l[0], up=None)] + m):
                    x = Fake(i, s, all_, [], ds)
                    x.identifier = x.identifier._replace(building=b)
                    all_.append(x)
                meters += all_[:1] + [all_[1 + j] for j in order if 1 + j < len(all_)]
            groups.append(MeterGroup(meters))
        for f in (lambda: iterate_through_submeters_of_two_metergroups(*groups), lambda: iterate_through_submeters_of_two_metergroups(*groups[::-1])):
            got = list(f())
            a = got[0][0].identifier.dataset
            own = [m for m in groups[a == 'T'].meters if m.spec['up'] is not None]
            must([x.identifier for x, _ in got] == [m.identifier for m in own], 'the submeters of the first group')
            for x, y in got:
                must(y.identifier == x.identifier._replace(dataset='T' if a == 'P' else 'P') and any(y is m for g in groups for m in g.meters),
                     '%r goes with %r' % (x.identifier, y.identifier))

    @staticmethod
    def aligned(pairs):
        for a, b in pairs:
            want = stretches(a, b)
            got = list(align_two_meters(a, b))
            must(len(got) == len(want), '%d aligned stretches, expected %d' % (len(got), len(want)))
            for f, (x, y) in zip(got, want):
                must(f.shape[1] == 2, 'two columns')
                for col, d in ((0, x), (1, y)):
                    v = f.iloc[:, col].dropna()
                    k = [int((t - BASE.normalize()).total_seconds()) for t in v.index]
                    must(k == sorted(q * a.spec['period'] for q in d), 'column %d at seconds %r, expected buckets %r' % (col, k, sorted(d)))
                    must(all(close(z, mean(d[q])) for z, q in zip(v.values, sorted(d))), 'column %d is not the mean of each period' % col)

    @staticmethod
    def numbers(pred, truth, pairs):
        want = {'mne': {}, 'rms': {}, 'f1': {}, 'energy': {}}
        for a, b in pairs:
            i = a.identifier.instance
            st = stretches(a, b)
            both = [(mean(x[k]), mean(y[k])) for x, y in st for k in sorted(set(x) & set(y))]
            total = sum(mean(v) for _, y in st for v in y.values())
            want['mne'][i] = sum(abs(p - q) for p, q in both) / total if total else None
            want['rms'][i] = math.sqrt(sum((p - q) ** 2 for p, q in both) / len(both)) if both else None
            scores = []
            for x, y in st:
                on = [(min(x[k]) >= 10, min(y[k]) >= 10) for k in set(x) & set(y)]
                tp = sum(p and q for p, q in on)
                d = sum(p for p, _ in on) + sum(q for _, q in on)
                scores.append((2.0 * tp / d if d else 0.0, len(on)))
            m = sum(k for _, k in scores)
            want['f1'][i] = sum(s * k for s, k in scores) / m if m else math.nan
            if any(k == 0 for _, k in scores):
                want['f1'][i] = None            # scikit-learn refuses empty input
            want['energy'][i] = dict((t, abs(a.spec['e'][t] - b.spec['e'][t])) for t in a.spec['e'] if t in b.spec['e'])
        for name, f in (('mne', metrics.mean_normalized_error_power), ('rms', metrics.rms_error_power), ('f1', metrics.f1_score)):
            if any(v is None for v in want[name].values()):
                continue                        # no samples to compare: outside the property
            r = f(pred, truth)
            must(list(r.index) == sorted(want[name]), '%s of meters %r' % (name, list(r.index)))
            for i, v in want[name].items():
                must((math.isnan(v) and math.isnan(r[i])) or close(r[i], v), '%s of meter %d is %r, expected %r' % (name, i, r[i], v))
        r = metrics.error_in_assigned_energy(pred, truth)
        must(list(r.index) == sorted(want['energy']), 'energy errors of meters %r' % list(r.index))
        for i, v in want['energy'].items():
            for t, e in v.items():
                must(close(r[i][t], e), 'energy error of meter %d is %r, expected %r' % (i, r[i], v))
        for a, b in pairs:
            s = [(at(x), at(y)) for x, y in a.spec['good']]
            must(a.asked[-1:] == [s] and b.asked[-1:] == [s], 'energies are not of the good sections of the prediction')
        fr = []
        for k in (0, 1):
            e = [p[k].spec['e']['active'] for p in pairs]        # of the AC type that is best
            if not sum(e):
                return
            fr.append([x / sum(e) for x in e])
        r = metrics.fraction_energy_assigned_correctly(pred, truth)
        w = sum(min(x, y) for x, y in zip(*fr))
        must(close(r, w), 'fraction assigned correctly %r, expected %r' % (r, w))
