"""C14 / C15 / C16: measurement selection, store keys, pipeline requirements and clipping."""
import itertools
import warnings
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, T
boot.load()
from nilmtk.elecmeter import ElecMeter
from nilmtk.exceptions import MeasurementError
from nilmtk import measurement as M
from nilmtk.datastore.key import Key
from nilmtk.datastore.datastore import join_key
from nilmtk.node import Node, find_unsatisfied_requirements, UnsatisfiedRequirementsError
from nilmtk.preprocessing import Clip, Apply

PREF = ['active', 'apparent', 'reactive']
PQ = ['power', 'energy', 'cumulative energy', 'voltage', 'current', 'pf', 'frequency', 'power factor', 'state',
      'phase angle']
WITH_AC = ['power', 'energy', 'cumulative energy']


def best(avail):
    for t in PREF:
        if t in avail:
            return t
    return None


def aslist(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


@prop('C14')
class Columns(object):
    @staticmethod
    def gen(g):
        pqs = ['power', 'power', 'energy', 'cumulative energy', 'voltage', 'current', 'frequency']
        ms = []
        for _ in range(g.size(0, 6, 12)):
            pq = g.choice(pqs)
            ms.append([pq, g.choice(PREF) if pq in WITH_AC and g.flag(0.92) else None])
        def rq(opts, bad):
            k = g.r.random()
            if k < 0.3:
                return None
            if k < 0.65:
                return g.choice(opts + [bad] * g.flag(0.1))
            n = g.choice([0, 1, 2, 2, 3])
            return [g.choice(opts + [bad] * g.flag(0.05)) for _ in range(n)]
        pq, ac = rq(pqs, 'powr'), rq(PREF, 'actve')
        if g.flag(0.3):
            ac = 'best'
        cols = None
        if g.flag(0.2):
            cols = [list(g.choice([[m[0], m[1] or ''] for m in ms] or [['power', 'active']])) for _ in
                    range(g.choice([0, 1, 2]))]
            if g.flag(0.3):
                cols.append(['power', g.choice(PREF)])
            if g.flag(0.8):
                pq = ac = None
        return dict(ms=ms, pq=pq, ac=ac, cols=cols, extra=g.flag())

    @staticmethod
    def check(case):
        ms = [dict(physical_quantity=p, **({} if t is None else {'type': t})) for p, t in case['ms']]
        avail = sorted(set((p, t or '') for p, t in case['ms']))
        m = ElecMeter(metadata={'device_model': 'd'})
        ElecMeter.meter_devices = {'d': {'measurements': ms, 'sample_period': 1, 'max_sample_period': 5}}
        pq, ac = case['pq'], case['ac']
        cols = None if case['cols'] is None else [tuple(c) for c in case['cols']]
        kw = {'sections': 7} if case.get('extra') else {}
        what = 'available %s, asked quantity %s AC type %s columns %s' % (avail, pq, ac, cols)
        must(sorted(m.available_columns()) == avail, 'available columns of %s: %s' % (ms, m.available_columns()))
        must(sorted(m.available_physical_quantities()) == sorted(set(p for p, _ in avail)),
             'available quantities: %s' % what)
        for q in set(p for p, _ in avail):
            must(sorted(set(m.available_ac_types(q))) == sorted(set(t for p, t in avail if p == q and t)),
                 'available AC types of %s: %s' % (q, what))
        if pq == [] and ac == 'best':
            raise Invalid()         # an empty list of quantities: nothing is asked for
        # expected
        bad = [x for x in (aslist(pq) if pq else []) if x not in PQ] + \
            [x for x in (aslist(ac) if ac and ac != 'best' else []) if x not in PREF]
        exp, err = None, None
        if cols:
            if pq or ac:
                err = ValueError
            elif not set(cols) <= set(avail):
                err = MeasurementError
            else:
                exp = cols
        elif bad:
            err = MeasurementError
        elif ac == 'best':
            qs = set(aslist(pq)) if pq else set(p for p, _ in avail)
            exp = [(q, best([t for p, t in avail if p == q])) for q in qs]
            exp = [c for c in exp if c[1]]
        else:
            exp = [c for c in avail if (not pq or c[0] in aslist(pq)) and (not ac or c[1] in aslist(ac))]
        if exp is not None and not exp and (pq or ac):
            err = MeasurementError
        try:
            r = m._convert_physical_quantity_and_ac_type_to_cols(physical_quantity=pq, ac_type=ac, columns=cols, **kw)
        except (MeasurementError, ValueError) as e:
            must(err is not None and isinstance(e, err), '%s: raised %r' % (what, e))
            return
        must(err is None, '%s: %s instead of %s' % (what, r, err))
        got = [tuple(c) for c in r.pop('columns')]
        must(sorted(got) == sorted(exp), '%s: selected %s, expected %s' % (what, sorted(got), sorted(exp)))
        if cols:
            must(got == cols, '%s: columns were reordered to %s' % (what, got))
        must(r == kw, '%s: other arguments became %s' % (what, r))


@prop('C14')
class Best(object):
    @staticmethod
    def gen(g):
        opts = PREF + ['other']
        return dict(av=[g.choice(opts) for _ in range(g.r.randint(0, 4))],
                    mains=None if g.flag(0.3) else [g.choice(opts) for _ in range(g.r.randint(0, 3))])

    @staticmethod
    def fixed():
        out = []
        for r in range(4):
            for av in itertools.permutations(PREF, r):
                out.append(dict(av=list(av), mains=None))
                for q in range(4):
                    for mn in itertools.combinations(PREF, q):
                        out.append(dict(av=list(av), mains=list(mn)))
        return out

    @staticmethod
    def check(case):
        av, mains = case['av'], case['mains']
        what = 'select_best_ac_type(%s, %s)' % (av, mains)
        exp = best(av) if mains is None else best([a for a in av if a in mains])
        fallback = exp is None and mains is not None
        if fallback:
            exp = best(av)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                r = M.select_best_ac_type(list(av), None if mains is None else list(mains))
            except KeyError:
                must(exp is None, '%s raised KeyError, expected %s' % (what, exp))
                return
        must(r == exp, '%s is %s, expected %s' % (what, r, exp))
        must(bool(w) == fallback, '%s: %s warnings' % (what, len(w)))


@prop('C14')
class MCols(object):
    @staticmethod
    def gen(g):
        return dict(t=[[g.choice(PQ + ['watts'] * g.flag(0.1)), g.choice(PREF + ['', 'x'] * g.flag(0.2))]
                       for _ in range(g.r.randint(1, 5))])

    @staticmethod
    def check(case):
        t = [tuple(x) for x in case['t']]
        ok = all(p in PQ and (p not in WITH_AC or a in PREF) for p, a in t)
        try:
            r = M.measurement_columns(t)
        except MeasurementError:
            must(not ok, 'measurement_columns(%s) raised' % t)
            return
        must(ok, 'measurement_columns(%s) accepted an unknown measurement' % t)
        must(list(r) == t and list(r.names) == ['physical_quantity', 'type'], 'measurement_columns(%s) is %s' % (t, r))


@prop('C15')
class Keys(object):
    @staticmethod
    def gen(g):
        def num():
            h = g.hint(0.3)
            if h is not None and h >= 1:
                return int(h)
            return g.choice([1, 2, 9, 10, 11, 42, 99, 100, 101, 1000, g.r.randint(1, 10 ** 6)])
        return dict(b=num(), m=num() if g.flag(0.7) else None, pre=g.choice(['', '/', '//']),
                    post=g.choice(['', '/', '//']), bad=g.choice(
                        ['', '/', 'meter1', 'elec/meter1', 'building', 'buildingx', 'building0', 'building-1',
                         'building1.5', 'building1/elec/meter', 'building1/elec/meter0', 'building1/elec/meter-2',
                         'building1/elec/meterx', 'building1/elec/cache', 'Building1', 'house1', '1', 'building1x',
                         'xbuilding1', 'building1/elec/1', 'building0/elec/meter1', 'buildingx/elec/meter1']))

    @staticmethod
    def check(case):
        b, m = case['b'], case['m']
        if b < 1 or m is not None and m < 1:
            raise Invalid()
        k = Key(building=b, meter=m)
        txt = '/building%d' % b + ('' if m is None else '/elec/meter%d' % m)
        must(repr(k) == txt, 'Key(%s, %s) prints %s' % (b, m, k))
        s = case['pre'] + txt.strip('/') + case['post']
        p = Key(s)
        must((p.building, p.meter) == (b, m), 'Key(%r) is building %s meter %s' % (s, p.building, p.meter))
        must(repr(p) == txt, 'Key(%r) prints %s' % (s, p))
        must(p.utility == (None if m is None else 'elec'), 'Key(%r) has utility %s' % (s, p.utility))
        p = Key('building%d/elec' % b)
        must((p.building, p.meter, p.utility) == (b, None, 'elec'), 'Key(building%d/elec) is %s' % (b, p.__dict__))
        for w in (case['bad'], '/' + case['bad'], case['bad'] + '/'):
            try:
                p = Key(w)
            except (AssertionError, ValueError):
                pass
            else:
                must(False, 'malformed key %r accepted as building %s meter %s' % (w, p.building, p.meter))
        for bb, mm in ((0, None), (-1, None), (b, 0), (b, -3), (None, 1)):
            try:
                Key(building=bb, meter=mm)
            except (AssertionError, ValueError, TypeError):
                pass
            else:
                must(False, 'Key(building=%s, meter=%s) accepted' % (bb, mm))


@prop('C15')
class Join(object):
    @staticmethod
    def gen(g):
        base = ['building1', 'elec', 'meter1', 'cache', 'a', 'b/c', '', '', 'x y', 'meter//2', 7]
        parts = [g.choice(base) for _ in range(g.size(0, 5, 9))]
        return dict(parts=parts, sl=[[g.choice([0, 0, 1, 2]), g.choice([0, 0, 1, 2])] for _ in parts])

    @staticmethod
    def check(case):
        args = ['/' * a + str(p) + '/' * b if isinstance(p, str) else p for p, (a, b) in
                zip(case['parts'], case['sl'])]
        exp = '/' + '/'.join(str(p) for p in case['parts'] if str(p))
        r = join_key(*args)
        must(r == exp, 'join_key%s is %r, expected %r' % (tuple(args), r, exp))


# ------------------------------------------------------------------ C16
KEYS = ['device', 'preprocessing_applied', 'clip', 'gaps', 'a', 'b']
VALS = ['ANY VALUE', 1, 2, 'x', True, None]


def gen_req(g, depth):
    d = {}
    for _ in range(g.r.randint(0, 3)):
        d[g.choice(KEYS)] = gen_req(g, depth - 1) if depth and g.flag(0.4) else g.choice(VALS)
    return d


def gen_state(g, req):
    s = {}
    for k, v in req.items():
        if g.flag(0.15):
            continue
        if isinstance(v, dict):
            s[k] = gen_state(g, v)
        elif v == 'ANY VALUE' or g.flag(0.25):
            s[k] = g.choice([1, 2, 'x', {}, None, False])
        else:
            s[k] = v
    if g.flag(0.3):
        s[g.choice(KEYS)] = s.get('q', 5) if 'q' in s else {'z': 1}
    return s


def unmet(st, req):
    out = []
    for k, v in req.items():
        if k not in st:
            out.append(k)
        elif isinstance(v, dict):
            if not isinstance(st[k], dict):
                raise Invalid()
            out += unmet(st[k], v)
        elif v != 'ANY VALUE' and st[k] != v:
            out.append(k)
    return out


class Up(object):
    def __init__(self, md, chunks=()):
        self.md, self.chunks = md, chunks

    def dry_run_metadata(self):
        return self.md

    get_metadata = dry_run_metadata

    def process(self):
        for c in self.chunks:
            yield c


@prop('C16')
class Reqs(object):
    @staticmethod
    def gen(g):
        r = gen_req(g, g.choice([0, 1, 2, 3]))
        return dict(req=r, st=gen_state(g, r))

    @staticmethod
    def check(case):
        req, st = case['req'], case['st']
        exp = unmet(st, req)
        r = find_unsatisfied_requirements(st, req)
        what = 'state %s requirements %s' % (st, req)
        must(len(r) == len(exp), '%s: %d unmet reported (%s), expected %s' % (what, len(r), r, exp))
        for k, m in zip(exp, r):
            must("'%s" % k in m, '%s: message %r does not name %r' % (what, m, k))
        n = Node(Up(st))
        n.requirements = req
        try:
            n.check_requirements()
        except UnsatisfiedRequirementsError as e:
            must(exp, '%s: raised %s' % (what, e))
            for k in exp:
                must("'%s" % k in str(e), '%s: error does not name %r' % (what, k))
        else:
            must(not exp, '%s: not refused' % what)


def chunk_of(case):
    n = len(case['vals'][0]) if case['vals'] else 0
    ix = pd.date_range('2013-01-01', periods=n, freq='s')
    cols = [tuple(c) for c in case['cols']]
    df = pd.DataFrame({c: [np.nan if v is None else float(v) for v in vs] for c, vs in zip(cols, case['vals'])},
                      index=ix)
    df.columns = pd.MultiIndex.from_tuples(cols, names=['physical_quantity', 'type'])
    return df


@prop('C16')
class Clipping(object):
    @staticmethod
    def gen(g):
        cols = [['power', 'active'], ['power', 'reactive'], ['voltage', ''], ['energy', 'active']]
        g.r.shuffle(cols)
        cols = cols[:g.r.randint(1, 4)]
        n = g.size(1, 5, 12)
        vals = [[None if g.flag(0.1) else g.choice([-5, 0, 1, 3, 5, 7.5, 100, 1000]) for _ in range(n)] for _ in cols]
        ms = []
        for c in cols + [['current', '']]:
            if g.flag(0.85):
                lo = g.choice([None, 0, 0, -1, 3])
                hi = g.choice([None, 5, 5, 100, 7])
                ms.append([c[0], c[1], lo, hi])
                if g.flag(0.1):
                    ms.append([c[0], c[1], 1, 2])
        g.r.shuffle(ms)
        return dict(cols=cols, vals=vals, ms=ms, lower=g.choice([None] * 4 + [0, 1]), upper=g.choice([None] * 4 + [4, 6]),
                    have=g.flag(0.9), k=g.r.randint(0, n))

    @staticmethod
    def check(case):
        df = chunk_of(case)
        ms = []
        for p, t, lo, hi in case['ms']:
            d = {'physical_quantity': p, 'type': t}
            if lo is not None:
                d['lower_limit'] = lo
            if hi is not None:
                d['upper_limit'] = hi
            ms.append(d)
        md = {'device': {'measurements': ms}} if case['have'] else {'device': {}}
        cuts = [df.iloc[:case['k']].copy(), df.iloc[case['k']:].copy()]
        for i, c in enumerate(cuts):
            c.__dict__['timeframe'] = 'tf%d' % i
            c.__dict__['look_ahead'] = 'la%d' % i
        node = Clip(Up(md, cuts))
        node.lower, node.upper = case['lower'], case['upper']
        exp = df.copy()
        for col in df.columns:
            lo = hi = None
            for p, t, l, h in case['ms']:
                if (p, t) == col:
                    lo, hi = l, h
                    break
            lo = lo if case['lower'] is None else case['lower']
            hi = hi if case['upper'] is None else case['upper']
            if lo is None or hi is None:
                continue
            if lo > hi:
                raise Invalid()
            v = df[col].values.copy()
            exp[col] = [x if x != x else (lo if x < lo else hi if x > hi else x) for x in v]
        try:
            out = list(node.process())
        except UnsatisfiedRequirementsError:
            must(not case['have'], 'clip refused metadata %s' % md)
            return
        must(case['have'], 'clip ran without measurements in the metadata')
        must(len(out) == 2, 'clip yields %d chunks of 2' % len(out))
        a, b = 0, 0
        for i, c in enumerate(out):
            b = a + len(c)
            e = exp.iloc[a:b]
            must(list(c.index) == list(e.index) and list(c.columns) == list(e.columns) and
                 np.array_equal(c.values, e.values, equal_nan=True),
                 'clip with limits %s (%s, %s) of %s gives %s' % (case['ms'], case['lower'], case['upper'],
                                                              df.iloc[a:b].values.tolist(), c.values.tolist()))
            must(getattr(c, 'timeframe', None) == 'tf%d' % i and getattr(c, 'look_ahead', None) == 'la%d' % i,
                 'clip loses the time frame or the look-ahead')
            a = b
        must(b == len(df), 'clip loses rows')


@prop('C16')
class Applying(object):
    @staticmethod
    def gen(g):
        return dict(cols=[['power', 'active']], vals=[[1, 2, 3, 4]], k=g.r.randint(0, 4), f=g.r.randint(0, 2),
                    la=[g.flag(), g.flag()])

    @staticmethod
    def check(case):
        df = chunk_of(case)
        cuts = [df.iloc[:case['k']].copy(), df.iloc[case['k']:].copy()]
        keep = [c.copy() for c in cuts]
        for i, c in enumerate(cuts):
            c.__dict__['timeframe'] = 'tf%d' % i
            if case['la'][i]:
                c.__dict__['look_ahead'] = 'la%d' % i
        f = [lambda c: c * 2, lambda c: c.copy(), lambda c: c][case['f']]
        node = Apply(Up({}, cuts), func=f)
        out = list(node.process())
        must(len(out) == 2, 'apply yields %d chunks of 2' % len(out))
        for i, (c, k) in enumerate(zip(out, keep)):
            must(np.array_equal(c.values, f(k).values) and list(c.index) == list(k.index), 'apply result')
            must(getattr(c, 'timeframe', None) == 'tf%d' % i, 'apply loses the time frame')
            must(getattr(c, 'look_ahead', None) == ('la%d' % i if case['la'][i] else None), 'apply: look-ahead')
