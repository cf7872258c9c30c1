"""C39 tables over all meters of a group, and selections of its meters."""
import contextlib
import io
import warnings
import pandas as pd
import boot
from common import prop, must, Invalid
boot.load()
import o_shares
from o_shares import at
from nilmtk.elecmeter import ElecMeterID
from nilmtk.metergroup import MeterGroup, MeterGroupID


class Fake(o_shares.Fake):
    """chunks [[[second, active, reactive or None]...]...]; an entropy; a symmetrical number per pair"""

    def load(self, **kw):
        self.asked.append(dict((k, list(v) if isinstance(v, list) else v) for k, v in kw.items()))
        if isinstance(kw.get('sections'), list):
            kw['sections'].append('spoilt')
        for l in self.spec['chunks']:
            two = any(len(x) == 3 for x in l)
            d = pd.DataFrame([x[1:] for x in l], columns=[('power', 'active'), ('power', 'reactive')][:2 if two else 1],
                             index=pd.DatetimeIndex([at(x[0]) for x in l], tz=at(0).tz), dtype=float)
            yield d

    def entropy(self):
        return self.spec['entropy']

    def together(self, other):
        a, b = sorted((self.identifier.instance, other.identifier.instance))
        return a * 1000.5 + b


@prop('C39')
class Whole(object):
    @staticmethod
    def gen(g):
        n = g.size(1, 4, 7)
        rounds = g.r.randint(0, 5)
        meters = []
        gone = [g.flag(0.25) for _ in range(rounds)]        # nobody has data in this round
        for i in range(n):
            chunks, t = [], 0
            for r in range(rounds if g.flag(0.7) else g.r.randint(0, rounds)):
                l = []
                two = g.flag(0.2)
                for _ in range(0 if gone[r] or g.flag(0.2) else g.r.randint(1, 4)):
                    l.append([100 * r + 10 * len(l)] + [g.choice([0, 1.5, 10, 200]) for _ in range(1 + two)])
                chunks.append(l)
            meters.append(dict(up=0 if i else None, e=dict(active=0), good=[], period=6, chunks=chunks, entropy=0))
        for k in ('entropy', 'energy'):
            v = g.r.sample(range(1, 50), n)
            for m, x in zip(meters, v):
                if k == 'entropy':
                    m['entropy'] = x / 10.0
                else:
                    m['e']['active'] = float(x)
        groups = [sorted(g.r.sample(range(n), g.r.randint(2, n))) for _ in range(g.r.randint(0, 2))] if n > 1 else []
        kw = dict((k, v) for k, v in (('sample_period', 60), ('ac_type', 'active'), ('physical_quantity', 'energy')) if g.flag(0.3))
        if g.flag(0.3):
            kw['sections'] = ['S']
        wanted = []
        for _ in range(g.size(0, 5)):
            if groups and g.flag(0.35):
                wanted.append(['group' if g.flag() else 'tuple', g.choice(groups)])
            elif n > 1 and g.flag(0.15):
                wanted.append(['group', sorted(g.r.sample(range(n), 2))])
            else:
                wanted.append(['meter', g.r.randint(0, n - 1)])
        return dict(meters=meters, groups=groups, kw=kw, wanted=wanted, k=g.r.randint(0, n + 1), asc=g.flag(0.3), rest=g.flag(), by=g.choice(['energy', 'entropy']))

    @staticmethod
    def check(case):
        n = len(case['meters'])
        if n < 1:
            raise Invalid()
        for i, m in enumerate(case['meters']):
            if m['up'] != (0 if i else None):
                raise Invalid()
        for key in ('entropy', 'energy'):
            v = [m['entropy'] if key == 'entropy' else m['e']['active'] for m in case['meters']]
            if len(set(v)) < n or min(v) <= 0:
                raise Invalid()
        for l in case['groups']:
            if len(set(l)) != len(l) or len(l) < 2 or not all(0 <= i < n for i in l):
                raise Invalid()
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            for f in (Whole.table, Whole.pairs, Whole.selected, Whole.top):
                f(case)

    @staticmethod
    def make(case, nested=False):
        all_ = []
        for i, s in enumerate(case['meters']):
            m = Fake(i, s, all_, [])
            m.asked = []
            all_.append(m)
        g = MeterGroup(list(all_) + ([MeterGroup([all_[i] for i in l]) for l in case['groups']] if nested else []))
        return g, all_

    @staticmethod
    def table(case):
        g, all_ = Whole.make(case)
        kw = dict((k, list(v) if isinstance(v, list) else v) for k, v in case['kw'].items())
        d = g.dataframe_of_meters(**kw)
        want = dict(dict(sample_period=6, ac_type='best', physical_quantity='power'), **case['kw'])
        for m in all_:
            must(m.asked == [want], 'meter loaded with %r, expected %r' % (m.asked, want))
        cols = [ElecMeterID(*c) for c in d.columns]
        for m in all_:
            w = [(at(x[0]), float(sum(x[1:]))) for l in m.spec['chunks'] for x in l]
            if m.identifier not in cols:
                must(not w, 'meter %r is not in the table' % (m.identifier,))
                continue
            must(cols.count(m.identifier) == 1, 'meter %r more than once' % (m.identifier,))
            s = d.iloc[:, cols.index(m.identifier)].dropna()
            got = sorted(zip(s.index, s.values.astype(float)))
            must(got == sorted(w), 'column %r is %r, expected %r' % (m.identifier, got, w))
        times = set(at(x[0]) for m in all_ for l in m.spec['chunks'] for x in l)
        must(set(d.index) == times, 'times of the table')

    @staticmethod
    def pairs(case):
        g, all_ = Whole.make(case)
        d = g.pairwise('together')
        must(d.shape == (len(all_), len(all_)), 'shape %r' % (d.shape,))
        for i, a in enumerate(all_):
            for j, b in enumerate(all_):
                must(tuple(d.index[i]) == tuple(a.identifier) and tuple(d.columns[j]) == tuple(b.identifier), 'labels')
                must(d.iloc[i, j] == a.together(b), 'pair %d, %d is %r' % (i, j, d.iloc[i, j]))

    @staticmethod
    def selected(case):
        g, all_ = Whole.make(case, nested=True)
        ids = []
        for kind, x in case['wanted']:
            if kind == 'meter':
                ids.append(all_[x].identifier)
            else:
                t = tuple(all_[i].identifier for i in x)
                ids.append(MeterGroupID(meters=t) if kind == 'group' else t)
        seen, want = set(), []
        for i in ids:
            if i not in seen:
                seen.add(i)
                want.append(i)
        r = g.from_list(ids)
        must(len(r.meters) == len(want), '%d meters, expected %d' % (len(r.meters), len(want)))
        for m, i in zip(r.meters, want):
            if isinstance(i, ElecMeterID):
                must(any(m is a for a in all_) and m.identifier == i, 'meter of %r is %r' % (i, m))
                continue
            own = [x for x in g.meters if isinstance(x, MeterGroup) and set(x.identifier.meters) == set(getattr(i, 'meters', i))]
            must(m is own[0] if own else isinstance(m, MeterGroup) and [x.identifier for x in m.meters] == list(getattr(i, 'meters', i)), 'group of %r is %r' % (i, m))

    @staticmethod
    def top(case):
        g, all_ = Whole.make(case)
        k, by = case['k'], case['by']
        r = g.select_top_k(k, by=by, asc=case['asc'], group_remainder=case['rest'])
        l = sorted(all_, key=lambda m: m.spec['entropy'] if by == 'entropy' else m.spec['e']['active'], reverse=not case['asc'])
        top, rest = l[:k], l[k:]
        got = list(r.meters)
        if case['rest']:
            o = got.pop()
            must(isinstance(o, MeterGroup) and o.name == 'others', 'the others')
            must([m.identifier for m in o.meters] == [m.identifier for m in rest], 'others %r' % (o.meters,))
        must([m.identifier for m in got] == [m.identifier for m in top], 'top %d by %s: %r, expected %r' % (k, by, got, top))
        must(all(any(m is a for a in all_) for m in got), 'its own meters')
