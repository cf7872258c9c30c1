"""C09-C13: good sections, result tables, energy, dropout rate."""
import copy
import math
import numpy as np
import pandas as pd
from common import *
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup
from nilmtk.stats.goodsections import get_good_sections, GoodSections
from nilmtk.stats.goodsectionsresults import GoodSectionsResults
from nilmtk.stats.totalenergy import get_total_energy
from nilmtk.stats.totalenergyresults import TotalEnergyResults
from nilmtk.stats.dropoutrate import get_dropout_rate
from nilmtk.stats.dropoutrateresults import DropoutRateResults
from nilmtk.results import Results

NANV = float('nan')


def frame(times, valid=None, tz=None, ncol=1):
    ix = pd.DatetimeIndex([T(t, tz) for t in times])
    if len(ix) == 0:
        ix = pd.DatetimeIndex([], tz=tz)
    v = [1.0 if valid is None or valid[i] else NANV for i in range(len(times))]
    cols = {('power', 'active'): v}
    if ncol == 2:
        w = list(v)
        # missing in either column makes the row invalid
        cols = {('power', 'active'): [x if i % 2 else 1.0 if x == x else 1.0 for i, x in enumerate(v)],
                ('power', 'apparent'): [1.0 for _ in v]}
        for i, x in enumerate(v):
            if x != x:
                cols[('power', 'active') if i % 2 else ('power', 'apparent')][i] = NANV
    return pd.DataFrame(cols, index=ix)


def times_of(g, n, maxp):
    out, t = [], g.choice([0, 0, 3, 1.5, 86400 * 89.99])
    for _ in range(n):
        out.append(t)
        k = g.r.random()
        if k < 0.55:
            d = g.choice([maxp, maxp, maxp / 2.0, maxp / 4.0, 1e-6 * max(1, int(maxp * 1e6) - 1)])
        elif k < 0.9:
            d = g.choice([maxp * 2, maxp + 1, maxp + 1e-6, maxp * 10, maxp + 0.5])
        else:
            h = g.hint(0.7)
            d = abs(h) if h else maxp * 1.5
        t = t + max(d, 1e-6)
        t = round(t * 1e6) / 1e6       # microseconds: Timedelta.total_seconds() has no finer unit
    return out


def runs(ts, maxp, prev, nxt):
    """reference: maximal runs, open at the ends according to prev / nxt"""
    n = len(ts)
    if n == 0:
        return []
    link = [ns(ts[i + 1]) - ns(ts[i]) <= ns(maxp) for i in range(n - 1)]
    link.append(nxt is not None and ns(nxt) - ns(ts[-1]) <= ns(maxp))
    out = []
    cur = 'open' if prev else None
    for i in range(n):
        before = prev if i == 0 else link[i - 1]
        if not before and link[i]:
            cur = ts[i]
        if before and not link[i]:
            out.append((None if cur == 'open' else cur, ts[i]))
            cur = None
        if i == n - 1 and link[i]:
            out.append((None if cur == 'open' else cur, None))
    return [(s, e) for s, e in out if s is None or e is None or ns(s) != ns(e)]


def show(l):
    return [(t.start, t.end) for t in l]


def want(l, tz):
    return [(T(s, tz), T(e, tz)) for s, e in l]


# ------------------------------------------------------------------ C09
@prop('C09')
class C09(object):
    @staticmethod
    def gen(g):
        maxp = g.choice([1, 2, 6, 10, 60, 0.5, 2.5])
        h = g.hint(0.15)
        if h and h > 0:
            maxp = h
        n = g.size(0, 9, 60)
        ts = times_of(g, n + 4, maxp)
        la = g.choice(['none', 'empty', 'rows', 'rows', 'allnan', 'nanfirst'])
        return dict(op='sections', times=ts[:n], valid=[g.flag(0.8) for _ in range(n)], max=maxp,
                    prev=g.flag(0.4), la=la, la_times=ts[n:], tz=g.tz(), shuffle=g.flag(0.3),
                    ncol=g.choice([1, 1, 2]), seed=g.r.randint(0, 10**6))

    @staticmethod
    def check(case):
        tz = case.get('tz')
        ts = [round(secs(t) * 1e6) / 1e6 for t in case['times']]
        if any(ns(b) <= ns(a) for a, b in zip(ts, ts[1:])) or case['max'] is None or case['max'] <= 0:
            raise Invalid()
        maxp = case['max']
        valid = [bool(v) for v in case['valid']]
        df = frame(ts, valid, tz, case.get('ncol', 1))
        if case.get('shuffle') and len(ts) > 1:
            df = df.sample(frac=1, random_state=case['seed'])
        lt = [round(secs(t) * 1e6) / 1e6 for t in case['la_times']]
        if lt and ts and ns(lt[0]) <= ns(ts[-1]):
            raise Invalid()
        if any(ns(b) <= ns(a) for a, b in zip(lt, lt[1:])):
            raise Invalid()
        la, nxt = None, None
        k = case['la']
        if k == 'empty':
            la = frame([], None, tz)
        elif k == 'rows' and lt:
            la, nxt = frame(lt, None, tz), lt[0]
        elif k == 'allnan' and lt:
            la = frame(lt, [False] * len(lt), tz)
        elif k == 'nanfirst' and len(lt) > 1:
            la, nxt = frame(lt, [False] + [True] * (len(lt) - 1), tz), lt[1]
        ok = [t for t, v in zip(ts, valid) if v]
        before = df.copy()
        r = get_good_sections(df, maxp, la, bool(case['prev']))
        exp = want(runs(ok, maxp, bool(case['prev']), nxt), tz)
        must(show(r) == exp, 'good sections of %s valid=%s max=%s prev=%s look-ahead=%s %s are %s, expected %s'
             % (ts, valid, maxp, case['prev'], k, lt, show(r), exp))
        must(df.equals(before), 'get_good_sections changed its input')


class Chunks(object):
    def __init__(self, chunks, meta):
        self.chunks, self.meta = chunks, meta

    def get_metadata(self):
        return self.meta

    dry_run_metadata = get_metadata

    def process(self):
        for c in self.chunks:
            yield c


class GS(GoodSections):
    """the node's results class needs its parameter at construction"""
    def __init__(self, up):
        self.upstream, self.generator, self.results = up, None, None
        GoodSections.reset(self)


# ------------------------------------------------------------------ C10
@prop('C10')
class C10(object):
    @staticmethod
    def gen(g):
        maxp = g.choice([1, 2, 6, 10, 60])
        n = g.size(1, 14, 80)
        ts = times_of(g, n, maxp)
        valid = [g.flag(0.9) for _ in range(n)]
        cuts = sorted(set(g.r.randint(1, n) for _ in range(g.r.randint(0, 6))) - {n})
        return dict(op='chunks', times=ts, valid=valid, max=maxp, cuts=cuts, tz=g.tz(), la=g.choice([1, 2, 50]),
                    overlap=g.flag(0.5))

    @staticmethod
    def check(case):
        tz = case.get('tz')
        ts = [secs(t) for t in case['times']]
        maxp = case['max']
        if any(ns(b) <= ns(a) for a, b in zip(ts, ts[1:])) or not maxp or maxp <= 0:
            raise Invalid()
        valid = [bool(v) for v in case['valid']]
        n = len(ts)
        edges = [0] + [c for c in case['cuts'] if 0 < c < n] + [n]
        df = frame(ts, valid, tz)
        chunks = []
        for a, b in zip(edges, edges[1:]):
            hi = b
            if case.get('overlap') and b < n:
                hi = b + 1          # HDF style: chunks share their boundary row
                if hi >= n:
                    hi = b
            if not any(valid[a:b]):
                raise Invalid()
            ch = df.iloc[a:hi].copy()
            la = df.iloc[hi:]
            if not any(valid[hi:]) and hi < n:
                pass
            elif hi < n and not any(valid[hi:hi + case['la']]):
                raise Invalid()
            else:
                la = df.iloc[hi:hi + case['la']]
            end = T(ts[b], tz) if b < n else T(ts[n - 1], tz)
            if not T(ts[a], tz) < end:
                raise Invalid()
            ch.timeframe = TimeFrame(T(ts[a], tz), end)
            ch.look_ahead = la
            chunks.append(ch)
        if case.get('overlap'):
            # the shared row must decide the link: it has to be valid
            for b in edges[1:-1]:
                if b < n and not valid[b]:
                    raise Invalid()
        meta = {'device': {'max_sample_period': maxp}}
        node = GS(Chunks(chunks, meta))
        list(node.process())
        exp = want([x for x in runs([t for t, v in zip(ts, valid) if v], maxp, False, None)], tz)
        r = node.results.combined()
        got = show(r)
        must(got == exp, 'sections of %s valid=%s max=%s cut at %s are %s, whole recording gives %s'
             % (ts, valid, maxp, edges, got, exp))
        must(all(t.start is not None and t.end is not None for t in r), 'an open section remains')
        r2 = show(node.results.combined())
        must(r2 == got, 'combined() again gives %s after %s' % (r2, got))


# ------------------------------------------------------------------ C11
def periods(g, n):
    out, t = [], g.choice([0, 5, 100])
    for _ in range(n):
        d = abs(g.sec(1, 8)) or 1
        out.append([t, t + d])
        t = t + d + g.choice([0, 0, 1, 3, 1e-9])
        t = round(t * 1e9) / 1e9
    return out


def tab(r):
    """rows of a result table: (start, end, {col: val})"""
    d = r._data
    cols = [c for c in d.columns if c != 'end']
    return [(d.index[i], d['end'].iloc[i], {c: d[c].iloc[i] for c in cols if not is_na(d[c].iloc[i])})
            for i in range(len(d))]


def is_na(x):
    try:
        return bool(pd.isnull(x))
    except (TypeError, ValueError):
        return False


def overlap(a, b):
    return ns(max(a[0], b[0])) < ns(min(a[1], b[1]))


@prop('C11')
class C11(object):
    @staticmethod
    def gen(g):
        op = g.choice(['append', 'append', 'update', 'unify', 'combined', 'type'])
        n = g.size(0, 5, 12)
        p = periods(g, n)
        g.r.shuffle(p)
        ac = g.choice([['active'], ['active', 'reactive'], ['apparent'], ['active', 'apparent', 'reactive']])
        rows = [[s, e, {a: g.r.randint(0, 40) / 4.0 for a in (ac if g.flag(0.8) or op == 'unify' else ac[:1])}]
                for s, e in p]
        new, other = None, None
        if op == 'append':
            s = g.sec(0, 30)
            new = [s, s + (abs(g.sec(1, 8)) or 1), {a: 1.5 for a in ac}]
            if rows and g.flag(0.4):
                x = g.choice(rows)
                new[:2] = g.choice([[x[1], x[1] + 0.5], [x[0] - 1, x[0]], [x[0] - 1, x[1] + 1], [x[0], x[1]],
                                    [x[0], x[1] + 3], [x[1] - 1e-9, x[1] + 1]])
        if op in ('update', 'unify'):
            q = periods(g, g.size(0, 4, 8))
            k = g.r.random()
            if op == 'unify' and k < 0.75 or k < 0.3:
                q = [r[:2] for r in rows]
                if q and g.flag(0.3):
                    q[g.r.randrange(len(q))][1] += 1
                if q and g.flag(0.2):
                    q.pop()
                if g.flag(0.2):
                    q = q + [[500, 501]]
            elif k < 0.7 and rows:
                hi = max(r[1] for r in rows)
                q = [[s + hi, e + hi] for s, e in q]
            other = [[s, e, {a: g.r.randint(0, 9) / 2.0 for a in ac}] for s, e in q]
        return dict(op=op, rows=rows, new=new, other=other, tz=g.tz())

    @staticmethod
    def build(rows, tz):
        r = TotalEnergyResults()
        for i, (s, e, v) in enumerate(rows):
            if not ns(secs(s)) < ns(secs(e)):
                raise Invalid()
            if any(overlap(rows[i], rows[j]) or ns(rows[i][0]) == ns(rows[j][0]) for j in range(i)):
                raise Invalid()
            r.append(TimeFrame(T(s, tz), T(e, tz)), dict(v))
        return r

    @staticmethod
    def check(case):
        tz = case.get('tz')
        rows = [[secs(a), secs(b), v] for a, b, v in case['rows']]
        for i in range(len(rows)):
            for j in range(i):
                if overlap(rows[i], rows[j]) or ns(rows[i][0]) == ns(rows[j][0]):
                    raise Invalid()
        R = C11.build(rows, tz)

        def exp(rows):
            return [(T(s, tz), T(e, tz), v) for s, e, v in sorted(rows, key=lambda x: x[0])]
        must(tab(R) == exp(rows), 'table holds %s, expected %s' % (tab(R), exp(rows)))
        op = case['op']
        if op == 'type':
            for bad, res in ((None, {}), ('x', {'active': 1}), (TimeFrame(T(0, tz), T(1, tz)), [1])):
                try:
                    R.append(bad, res)
                except (TypeError, AttributeError, KeyError):
                    pass
                else:
                    must(False, 'append accepted %r' % (bad,))
                must(tab(R) == exp(rows), 'failed append changed the table')
            return
        if op == 'append':
            s, e, v = case['new']
            s, e = secs(s), secs(e)
            if not ns(s) < ns(e):
                raise Invalid()
            clash = any(overlap([s, e], r) for r in rows)
            try:
                R.append(TimeFrame(T(s, tz), T(e, tz)), dict(v))
            except ValueError:
                must(clash, 'append of %s..%s to %s raised ValueError without overlap' % (s, e, rows))
                must(tab(R) == exp(rows), 'a refused append changed the table')
            else:
                must(not clash, 'append of %s..%s, which overlaps a row of %s, was accepted' % (s, e, rows))
                must(tab(R) == exp(rows + [[s, e, v]]), 'after append the table is %s' % tab(R))
        elif op == 'update':
            other = [[secs(a), secs(b), v] for a, b, v in case['other']]
            O = C11.build(other, tz)
            clash = any(overlap(a, b) for a in rows for b in other)
            if not clash and any(ns(a[0]) == ns(b[0]) for a in rows for b in other):
                raise Invalid()
            try:
                R.update(O)
            except ValueError:
                must(clash, 'update raised ValueError without overlap: %s / %s' % (rows, other))
            else:
                must(not clash, 'update accepted overlapping periods: %s / %s' % (rows, other))
                must(tab(R) == exp(rows + other), 'after update the table is %s, expected %s'
                     % (tab(R), exp(rows + other)))
            must(tab(O) == exp(other), 'update changed the other table')
        elif op == 'unify':
            other = [[secs(a), secs(b), v] for a, b, v in case['other']]
            O = C11.build(other, tz)
            a = sorted((ns(r[0]), ns(r[1])) for r in rows)
            b = sorted((ns(r[0]), ns(r[1])) for r in other)
            same = all(x in b for x in a)
            try:
                R.unify(O)
            except RuntimeError:
                must(not same, 'unify refused the same periods')
                must(tab(R) == exp(rows), 'refused unify changed the table')
            else:
                must(same, 'unify accepted different periods: %s / %s' % (a, b))
                if a != b:
                    raise Invalid()
                d = {ns(s): v for s, e, v in other}
                want_ = [[s, e, {k: x + d[ns(s)].get(k, NANV) for k, x in v.items()}] for s, e, v in rows]
                w = exp(want_)
                got = tab(R)
                must(len(w) == len(got) and all(
                    x[0] == y[0] and x[1] == y[1] and set(x[2]) == set(y[2]) and
                    all(close(x[2][k], y[2][k]) for k in x[2]) for x, y in zip(got, w)),
                    'unify gives %s, expected %s' % (got, w))
                must(tab(O) == exp(other), 'unify changed the other table')
        elif op == 'combined':
            c = R.combined()
            cols = set(k for _, _, v in rows for k in v)
            for k in cols:
                s = sum(v.get(k, 0) for _, _, v in rows)
                must(close(c[k], s), 'combined %s is %s, expected %s' % (k, c[k], s))
            must(set(c.index) == cols, 'combined reports %s' % list(c.index))
            must([(t.start, t.end) for t in R.timeframes()] == [(a, b) for a, b, _ in exp(rows)],
                 'timeframes() wrong')


def close(a, b, rel=1e-9):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= rel * max(1e-12, abs(a), abs(b)) or a == b


# ------------------------------------------------------------------ C12
@prop('C12')
class C12(object):
    @staticmethod
    def gen(g):
        n = g.size(2, 8, 40)
        maxp = g.choice([1, 6, 10, 60, 2.5])
        h = g.hint(0.1)
        if h and h > 0:
            maxp = h
        ts = times_of(g, n, maxp)
        cols = {}
        for pq in ('power', 'energy', 'cumulative energy'):
            for ac in ('active', 'apparent', 'reactive'):
                if g.flag(0.4):
                    cols['%s|%s' % (pq, ac)] = g.choice([1, 1])
        if g.flag(0.3):
            cols['voltage|'] = 1
        if not cols:
            cols['power|active'] = 1
        names = list(cols)
        g.r.shuffle(names)
        out = []
        for c in names:
            v = []
            for i in range(n):
                if c.startswith('power') and g.flag(0.15):
                    v.append(None)
                else:
                    h = g.hint(0.1)
                    v.append(float(h) if h is not None else g.r.randint(0, 4000) / g.choice([1, 2, 4]))
            if c.startswith('cumulative'):
                v = list(np.cumsum(v))
            out.append([c, [None if x is None else float(x) for x in v]])
        return dict(op='energy', times=ts, cols=out, max=maxp, cut=g.r.randint(1, n), tz=g.tz())

    @staticmethod
    def check(case):
        tz = case.get('tz')
        ts = [secs(t) for t in case['times']]
        maxp = case['max']
        if any(ns(b) <= ns(a) for a, b in zip(ts, ts[1:])) or not maxp or maxp <= 0 or not ts:
            raise Invalid()
        cols = [(tuple(c.split('|')), [NANV if x is None else x for x in v]) for c, v in case['cols']]
        df = pd.DataFrame({c: v for c, v in cols}, index=pd.DatetimeIndex([T(t, tz) for t in ts]))
        df.columns = pd.MultiIndex.from_tuples([c for c, _ in cols], names=['physical_quantity', 'type'])
        before = df.copy()
        r = get_total_energy(df, maxp)
        must(df.equals(before), 'get_total_energy changed its input')

        def exp(a, b):
            e = {}
            d = dict(cols)
            for ac in ('active', 'apparent', 'reactive'):
                if ('cumulative energy', ac) in d:
                    v = d[('cumulative energy', ac)]
                    e[ac] = v[b - 1] - v[a]
                elif ('energy', ac) in d:
                    e[ac] = sum(x for x in d[('energy', ac)][a:b] if x == x)
                elif ('power', ac) in d:
                    v = d[('power', ac)]
                    k = [i for i in range(a, b) if v[i] == v[i]]
                    e[ac] = sum(min((ns(ts[j]) - ns(ts[i])) / 1e9, maxp) * v[i] for i, j in zip(k, k[1:])) / 3.6e6
            return e
        w = exp(0, len(ts))
        must(set(r) == set(w), 'AC types reported %s, expected %s' % (sorted(r), sorted(w)))
        for k in w:
            must(close(r[k], w[k], 1e-9), 'energy of %s over %s (max %s) is %r, expected %r; data %s'
                 % (k, ts, maxp, r[k], w[k], case['cols']))
        # additivity over chunks sharing the boundary sample
        d = dict(cols)
        m = case['cut']
        for ac in ('active', 'apparent', 'reactive'):
            if ac in r and ('energy', ac) not in d or (('cumulative energy', ac) in d and ac in r):
                v = d.get(('cumulative energy', ac)) or d.get(('power', ac))
                if 0 < m < len(ts) and v[m] == v[m]:
                    a = get_total_energy(df.iloc[:m + 1], maxp)
                    b = get_total_energy(df.iloc[m:], maxp)
                    must(close(a[ac] + b[ac], r[ac], 1e-9) or abs(a[ac] + b[ac] - r[ac]) < 1e-9,
                         'chunks give %s + %s, whole %s' % (a[ac], b[ac], r[ac]))


# ------------------------------------------------------------------ C13
@prop('C13')
class C13(object):
    @staticmethod
    def gen(g):
        op = g.choice(['rate', 'rate', 'rate', 'combined', 'unify'])
        if op == 'rate':
            n = g.size(0, 12, 60)
            p = g.choice([1, 6, 10, 60, 0.5, 2.5])
            h = g.hint(0.1)
            if h and h > 0:
                p = h
            ts, t = [], g.choice([0, 7])
            for _ in range(n):
                ts.append(round(t * 1e9) / 1e9)
                t += g.choice([p, p, p, p / 2.0, p * 2, p * 3.5, p * 0.9, p * 1.5, p / 3.0])
            return dict(op=op, times=ts, period=p, series=g.flag(0.4), tz=g.tz(), nan=g.flag(0.3))
        n = g.size(1, 5, 20)
        rows = [[s, e, g.r.randint(0, 16) / 16.0, g.r.randint(0, 50)] for s, e in periods(g, n)]
        if all(r[3] == 0 for r in rows):
            rows[0][3] = 3
        other = [[r[0], r[1], g.r.randint(0, 16) / 16.0, g.r.randint(0, 50)] for r in rows]
        return dict(op=op, rows=rows, other=other, tz=g.tz())

    @staticmethod
    def check(case):
        tz = case.get('tz')
        if case['op'] == 'rate':
            ts = [secs(t) for t in case['times']]
            p = case['period']
            if any(ns(b) <= ns(a) for a, b in zip(ts, ts[1:])) or not p or p <= 0:
                raise Invalid()
            df = frame(ts, [not (case.get('nan') and i % 3 == 1) for i in range(len(ts))], tz)
            if case.get('series'):
                df = df.iloc[:, 0]
            if len(ts) >= 5:
                from fractions import Fraction
                q = Fraction(ns(ts[-1]) - ns(ts[0]), 10**9) / Fraction(p)
                if abs(q - int(q) - Fraction(1, 2)) < Fraction(1, 10**6) and q.denominator != 2:
                    raise Invalid()
            r = get_dropout_rate(df, p)
            if len(ts) < 5:
                must(r != r, 'dropout rate of %d samples is %r, expected NaN' % (len(ts), r))
                return
            expected = round((ns(ts[-1]) - ns(ts[0])) / 1e9 / p) + 1
            w = max(0.0, 1 - len(ts) / float(expected))
            must(close(r, w, 1e-12) and 0 <= r <= 1, 'dropout rate of %s period %s is %r, expected %r' % (ts, p, r, w))
            return
        rows = case['rows']

        def build(rows):
            R = DropoutRateResults()
            for s, e, d, k in rows:
                s, e = secs(s), secs(e)
                if not ns(s) < ns(e) or d is None or not 0 <= d <= 1 or k < 0:
                    raise Invalid()
                R.append(TimeFrame(T(s, tz), T(e, tz)), {'dropout_rate': d, 'n_samples': k})
            return R
        R = build(rows)
        if case['op'] == 'combined':
            tot = sum(r[3] for r in rows)
            if tot == 0:
                raise Invalid()
            w = sum(r[2] * r[3] for r in rows) / float(tot)
            must(close(R.combined(), w, 1e-9) or abs(R.combined() - w) < 1e-9,
                 'combined rate of %s is %r, expected %r' % (rows, R.combined(), w))
        else:
            O = build(case['other'])
            R.unify(O)
            got = [(a, v['dropout_rate'], v['n_samples']) for a, b, v in tab(R)]
            exp = [(T(a[0], tz), (a[2] + b[2]) / 2.0, a[3] + b[3])
                   for a, b in sorted(zip(rows, case['other']), key=lambda x: x[0][0])]
            must(len(got) == len(exp) and all(x[0] == y[0] and close(x[1], y[1]) and x[2] == y[2]
                                              for x, y in zip(got, exp)),
                 'unify gives %s, expected %s' % (got, exp))
