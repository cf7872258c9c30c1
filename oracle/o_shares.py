"""C33 energy statistics over several meters; C34 train/test split."""
import contextlib
import io
import math
import warnings
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE
boot.load()
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup
from nilmtk.stats.totalenergyresults import TotalEnergyResults
from nilmtk.stats.dropoutrateresults import DropoutRateResults

AC = ['active', 'apparent', 'reactive']         # in order of preference


def at(s):
    return BASE + pd.Timedelta(seconds=s)


class Store(object):
    all_sections_smaller_than_chunksize = True


class Fake(ElecMeter):
    """a meter whose own statistics are given"""

    def __init__(self, i, spec, all_, log):
        self.identifier, self.spec, self.all, self.log = ElecMeterID(i + 1, 1, 'D'), spec, all_, log
        self.metadata = {'site_meter': True} if spec['up'] is None else {'submeter_of': spec['up'] + 1}
        self.appliances, self.store = [], Store()

    def upstream_meter(self, raise_warning=True):
        return None if self.spec['up'] is None else self.all[self.spec['up']]

    def sample_period(self):
        return self.spec.get('period', 6)

    def types(self):
        return [a for a in AC if a in self.spec['e']]

    def available_ac_types(self, q):
        return self.types()

    def good_sections(self, **kw):
        self.log.append(('good', self.identifier.instance - 1, kw))
        return TimeFrameGroup([TimeFrame(at(a), at(b)) for a, b in self.spec['good']])

    def get_timeframe(self):
        return TimeFrame(at(0), at(self.spec.get('whole', 100)))

    def chosen(self, kw):
        t = kw.get('ac_type')
        if t is None:
            return self.types()
        if t == 'best':
            return self.types()[:1]
        if t not in self.types():
            raise KeyError(t)
        return [t]

    def total_energy(self, **kw):
        self.log.append(('total_energy', self.identifier.instance - 1, kw))
        e = dict((a, float(self.spec['e'][a])) for a in self.chosen(kw))
        if kw.get('full_results'):
            r = TotalEnergyResults()
            r.append(TimeFrame(at(0), at(50)), e)
            r.append(TimeFrame(at(50), at(90)), dict((a, 2 * v) for a, v in e.items()))
            return r
        return pd.Series(e, dtype=float)

    def dropout_rate(self, **kw):
        self.log.append(('dropout_rate', self.identifier.instance - 1, kw))
        if kw.get('full_results'):
            r = DropoutRateResults()
            r.append(TimeFrame(at(0), at(50)), {'dropout_rate': self.spec['rate'], 'n_samples': 10})
            return r
        return self.spec['rate']


def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def sums(es):
    out = {}
    for e in es:
        for a, v in e.items():
            out[a] = out.get(a, 0.0) + v
    return out


def share(own, other):
    """proportion_of_energy by its definition"""
    if sum(other.values()) == 0:
        return float('nan')
    if not own:
        return 0.0
    sh = [a for a in AC if a in own and a in other]
    if sh:
        return sum(own[a] / other[a] for a in sh) / len(sh)
    return [own[a] for a in AC if a in own][0] / [other[a] for a in AC if a in other][0]


@prop('C33')
class Shares(object):
    @staticmethod
    def gen(g):
        n = g.size(1, 6, 12)
        ms = []
        for i in range(n):
            ts = g.choice([['active'], ['active'], ['apparent'], ['active', 'apparent'], ['reactive'], AC, ['active', 'reactive']]) \
                if not g.flag(0.07) else []
            ms.append(dict(e=dict((a, g.choice([0.5, 1, 2.25, 3, 10, 40])) for a in ts), rate=g.choice([0, 0.1, 0.25, 0.5, 1]),
                           up=None if i == 0 else 0 if g.flag(0.7) else g.r.randint(0, i - 1),
                           good=[[10 * k, 10 * k + g.r.randint(1, 9)] for k in range(g.r.choice([0, 1, 1, 2, 3]))]))
        if g.flag(0.1):
            ms[0]['e'] = dict((a, 0) for a in ms[0]['e'])
        nest = sorted(set(g.r.randint(0, n - 1) for _ in range(3))) if n > 2 and g.flag(0.3) else []
        return dict(op=g.choice(['total', 'total', 'full', 'dropout', 'share', 'submetered', 'average', 'table', 'table',
                                 'remainder', 'upstream', 'fraction']),
                    meters=ms, nest=nest, ac=g.choice([None, None, 'best', 'active']), sections=g.flag(0.4),
                    which=[g.r.randint(0, n - 1), g.r.randint(0, n - 1)], per=g.choice(['D', 'h', '30min', '6s']),
                    use=g.choice([None, True, False]), verbose=g.flag(0.3), labels=False, extra=g.flag(0.5))

    @staticmethod
    def check(case):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            Shares.run(case)

    @staticmethod
    def run(case):
        ms, op = case['meters'], case['op']
        for i, m in enumerate(ms):
            if not set(m['e']) <= set(AC) or any(v < 0 or v > 1e6 for v in m['e'].values()) or not 0 <= m['rate'] <= 1 or \
                    (m['up'] is None) != (i == 0) or (m['up'] is not None and not 0 <= m['up'] < i) or \
                    any(not a < b for a, b in m['good']) or any(p[1] >= q[0] for p, q in zip(m['good'], m['good'][1:])):
                raise Invalid()
            if 0 < sum(v == 0 for v in m['e'].values()) < len(m['e']) or (i > 0 and any(v == 0 for v in m['e'].values())):
                raise Invalid()
        if not ms or any(not 0 <= i < len(ms) for i in case['nest'] + case['which']) or len(case['which']) != 2:
            raise Invalid()
        log, fakes = [], []
        for i, m in enumerate(ms):
            fakes.append(Fake(i, m, fakes, log))
        members, parts = [], []
        inner = [fakes[i] for i in case['nest']] if len(case['nest']) > 1 else []
        if inner:
            members.append(MeterGroup(inner))
            parts.append([fakes.index(f) for f in inner])
        for i, f in enumerate(fakes):
            if f not in inner:
                members.append(f)
                parts.append([i])
        group = MeterGroup(list(members))
        kw = {}
        if case['ac'] is not None:
            kw['ac_type'] = case['ac']
        if case['sections']:
            kw['sections'] = 'SECTIONS'
        ac = kw.get('ac_type')
        if ac == 'active' and any('active' not in m['e'] for m in ms):
            raise Invalid()
        if not all(m['e'] for m in ms) and op in ('table', 'remainder', 'fraction', 'upstream', 'average'):
            raise Invalid()

        def en(i, t=ac):
            f = fakes[i]
            return dict((a, float(f.spec['e'][a])) for a in f.chosen({'ac_type': t}))

        def asked(stat, want, who=None):
            got = [(i, k) for s, i, k in log if s == stat]
            who = range(len(fakes)) if who is None else who
            must(sorted(i for i, _ in got) == sorted(who), '%s asked of meters %s: %s' % (stat, [i for i, _ in got], case))
            for _, k in got:
                k = dict(k)
                if not k.get('full_results', True):
                    del k['full_results']
                must(k == want, '%s asked with %s, expected %s: %s' % (stat, k, want, case))
        kw0 = dict(kw)
        if op == 'total':
            r = group.total_energy(**kw)
            asked('total_energy', kw0)
            want = sums(en(i) for i in range(len(fakes)))
            got = dict(r)
            must(set(got) == set(want) and all(close(got[a], want[a]) for a in want), 'total energy %s, expected %s: %s' % (got, want, case))
            for f in fakes:
                if dict(f.total_energy()) != dict((a, float(v)) for a, v in f.spec['e'].items()):
                    must(False, 'a meter changed')
        elif op == 'full':
            if len(set(tuple(sorted(en(i))) for i in range(len(fakes)))) > 1 or not en(0):
                raise Invalid()
            try:
                r = group.total_energy(full_results=True, **kw)
            except RuntimeError:
                must(len(members) > 1 and 'sections' not in kw or inner and 'sections' not in kw, 'full results refused: %s' % case)
                return
            must(len(members) == 1 or 'sections' in kw, 'full results of several meters over unknown sections: %s' % case)
            want = sums(en(i) for i in range(len(fakes)))
            p = r.per_period()
            must(list(p.index) == [at(0), at(50)] and all(close(p[a].iloc[0], want[a]) and close(p[a].iloc[1], 2 * want[a]) for a in want),
                 'full results\n%s\nexpected %s: %s' % (p, want, case))
        elif op == 'dropout':
            if case['extra'] and 'sections' in kw and not inner:
                r = group.dropout_rate(full_results=True, **kw)
                must(isinstance(r, DropoutRateResults) and r.per_period()['n_samples'].iloc[0] == 10 * len(fakes),
                     'full dropout results: %s' % case)
                asked('dropout_rate', dict(kw0, full_results=True))
                return
            r = group.dropout_rate(**kw)
            asked('dropout_rate', kw0)
            rates = [ms[p[0]]['rate'] if len(p) == 1 else sum(ms[i]['rate'] for i in p) / len(p) for p in parts]
            must(close(r, sum(rates) / len(rates)), 'dropout rate %s, expected the mean of %s: %s' % (r, rates, case))
        elif op == 'share':
            a, b = case['which']
            if a == b:
                raise Invalid()
            other = group if case['extra'] and not inner else fakes[b]
            oe = sums(en(i) for i in range(len(fakes))) if other is group else en(b)
            if sum(oe.values()) and not all(oe.values()):
                raise Invalid()
            r = fakes[a].proportion_of_energy(other, **kw)
            must(close(r, share(en(a), oe)), 'share %s, expected %s: %s' % (r, share(en(a), oe), case))
            first = 0 if other is group else b
            sects = [repr(k.get('sections')) for s, _, k in log if s == 'total_energy']
            want = repr('SECTIONS') if 'sections' in kw else repr(fakes[first].good_sections())
            must(all(x == want for x in sects), 'energies over the sections %s: %s' % (sects, case))
        elif op == 'submetered':
            if case['verbose']:
                kw['verbose'] = True
                # meters accept only what load() accepts; the stub ignores it
            down = [i for i in range(1, len(fakes)) if ms[i]['up'] == 0]
            if not down or inner:
                raise Invalid()
            r = group.proportion_of_energy_submetered(**kw)
            sh = [share(en(i), en(0)) for i in down]
            sh = [x for x in sh if x == x]
            must(close(r, sum(sh) if sh else float('nan')), 'submetered %s, expected the sum of %s: %s' % (r, sh, case))
        elif op == 'average':
            f = fakes[case['which'][0]]
            kw.pop('sections', None)
            args = dict(kw)
            if case['use'] is not None:
                args['use_uptime'] = case['use']
            r = f.average_energy_per_period(case['per'], **args)
            secs = sum(b - a for a, b in f.spec['good']) if case['use'] is not False else 100
            per = {'D': 86400, 'h': 3600, '30min': 1800, '6s': 6}.get(case['per'])
            if per is None:
                raise Invalid()
            if not secs:
                must(isinstance(r, float) and r != r, 'average %s without time: %s' % (r, case))
                return
            want = dict((a, v * per / secs) for a, v in en(case['which'][0]).items())
            must(set(r.index) == set(want) and all(close(r[a], want[a]) for a in want), 'average %s, expected %s: %s' % (r, want, case))
            asked('total_energy', kw, [case['which'][0]])
        elif op in ('table', 'fraction'):
            t = kw.get('ac_type', 'best')
            want = [sums(en(i, t) for i in p) for p in parts]
            if op == 'fraction':
                r = group.fraction_per_meter(**kw)
                tops = [max(w.values()) for w in want]
                if not sum(tops):
                    raise Invalid()
                must(len(r) == len(members) and all(close(r[m.identifier], x / sum(tops)) for m, x in zip(members, tops)),
                     'fractions %s, expected %s: %s' % (r, tops, case))
                return
            if case['extra']:
                kw.pop('sections', None)
                if inner:
                    raise Invalid()
                if case['use'] is not None:
                    kw['use_uptime'] = case['use']
                r = group.energy_per_meter(per_period=case['per'], **kw)
                per = {'D': 86400, 'h': 3600, '30min': 1800, '6s': 6}[case['per']]
                for j, f in enumerate(fakes):
                    secs = sum(b - a for a, b in f.spec['good']) if case['use'] else 100
                    want[j] = dict((a, v * per / secs) for a, v in want[j].items()) if secs else {}
            else:
                r = group.energy_per_meter(**kw)
                asked('total_energy', dict(kw0, ac_type=t))
            must(r.shape[1] == len(members), '%d columns: %s' % (r.shape[1], case))
            for m, w in zip(members, want):
                col = r[m.identifier]
                for a in AC:
                    v = col[a] if a in col.index else float('nan')
                    must(close(float(v), w.get(a, float('nan'))), 'energy of meter %s: %s, expected %s: %s' % (m.identifier, dict(col), w, case))
        elif op == 'remainder':
            if len(fakes) < 2 or inner or ac == 'active' and False:
                raise Invalid()
            subs = MeterGroup(fakes[1:])
            t = kw.get('ac_type', 'best')
            cols = [en(i, t) for i in range(1, len(fakes))]
            names = [a for e in cols for a in e]
            counts = dict((a, names.count(a)) for a in names)
            top = max(counts.values())
            tops = [a for a in counts if counts[a] == top]
            if len(tops) > 1:
                raise Invalid()
            r = subs.energy_per_meter(mains=fakes[0], **kw)
            me = ms[0]['e']
            use = tops[0] if tops[0] in me else [a for a in AC if a in me][0]
            total = sum(v for e in cols for v in e.values())
            must(close(r['Remainder'], me[use] - total), 'remainder %s, expected %s - %s: %s' % (r['Remainder'], me[use], total, case))
            for f, e in zip(fakes[1:], cols):
                must(close(r[f.identifier], sum(e.values())), 'energy of %s: %s: %s' % (f.identifier, r, case))
            must(list(r) == sorted(r, reverse=True), 'order: %s' % case)
        elif op == 'upstream':
            i = case['which'][0]
            if i == 0:
                raise Invalid()
            u = ms[i]['up']
            sh = [a for a in AC if a in ms[i]['e'] and a in ms[u]['e'] and ms[u]['e'][a]]
            if not sh or any(v == 0 for v in ms[u]['e'].values()):
                raise Invalid()
            r = fakes[i].proportion_of_upstream()
            must(close(r, ms[i]['e'][sh[0]] / ms[u]['e'][sh[0]]), 'share of upstream %s (%s of %s): %s' % (r, ms[i]['e'], ms[u]['e'], case))
            sects = [repr(k.get('sections')) for s, _, k in log if s == 'total_energy']
            must(sects == [repr(fakes[u].good_sections())] * 2, 'energies over the sections %s: %s' % (sects, case))
        else:
            raise Invalid()
        must(op in ('average', 'table', 'submetered') or kw == kw0, 'the arguments are changed: %s' % kw)


@prop('C34')
class Split(object):
    @staticmethod
    def gen(g):
        P = g.choice([1, 1, 6, 10, 60])
        good, t = [], 0
        for _ in range(g.size(1, 5, 12)):
            t += g.r.randint(1, 200)
            ln = g.choice([1, 3, P, 2 * P, 10 * P, 20 * P, g.r.randint(1, 500), 7 * P + 1])
            good.append([t, t + ln])
            t += ln
        return dict(good=good, period=P, f=g.choice([None, 0.5, 0.25, 0.75, 0.1, 0.9, 0.999, 0.001, 1 / 3., g.r.random()]), subs=g.flag(0.5))

    @staticmethod
    def check(case):
        good, P, f = case['good'], case['period'], case['f']
        if not good or P < 1 or f is not None and not 0 < f < 1 or any(not a < b for a, b in good) or \
                any(p[1] >= q[0] for p, q in zip(good, good[1:])):
            raise Invalid()
        n = [int((b - a) // P) for a, b in good]
        if sum(n) < 1:
            raise Invalid()
        fakes = []
        specs = [dict(e={'active': 1}, rate=0, up=None, good=good, period=P)]
        if case['subs']:
            specs.insert(0, dict(e={'active': 1}, rate=0, up=1, good=[[0, 10000]], period=3))
        for i, s in enumerate(specs):
            fakes.append(Fake(i, s, fakes, []))
        group = MeterGroup(fakes)
        r = group.train_test_split() if f is None else group.train_test_split(train_fraction=f)
        f = 0.5 if f is None else f
        must(r is not None, 'no split time: %s' % case)
        want = f * sum(n) * P
        best = None
        for j, (a, b) in enumerate(good):
            d = (r - at(a)).total_seconds()
            if -1e-6 <= d <= b - a + 1e-6:
                err = want - (sum(n[:j]) * P + d)
                best = err if best is None or abs(err) < abs(best) else best
        must(best is not None, 'the split %s lies in no good section: %s' % (r, case))
        must(-1e-3 <= best < max(1, P), 'the split %s is %s seconds of records short of the fraction: %s' % (r, best, case))
