"""Contracts of the statistics: good sections, energy, dropout rate."""
import z3
from vc import core, arrays as A, frames as F
from vc.core import (VNum, VNa, VBool, VTimestamp, VTimedelta, Unsupported, PathEnd, zb, lift, to_real,
                     mkbool, mknum)
from vc.seqs import VList
from vc.unit import unit
from vc.fold import FoldSpec
from units.tfcommon import *

GSF = 'nilmtk/stats/goodsections.py:'


# ------------------------------------------------------------------ inputs
class Times(object):
    """non-decreasing instants U(0..n-1); order facts are added for every
    pair of indices that occurs"""

    def __init__(self, c, name, size=None, strict=False, all_pairs=False):
        self.c, self.name, self.strict, self.all_pairs = c, name, strict, all_pairs
        self.f = c.fresh_fun(name, z3.IntSort(), z3.RealSort())
        self.n = c.fresh(name + '_n', z3.IntSort()) if size is None else z3.IntVal(size)
        c.assume(self.n >= 0)
        self.seen, self.adds, self.ids = [], [], set()
        self.last = z3.simplify(self.n - 1)
        self.size = size
        if size is not None:
            for i in range(size):
                self.at(z3.IntVal(i))

    def u(self, i):
        c = self.c
        i = z3.simplify(i)
        if not c.nobranch and i.get_id() not in self.ids:
            # every pair, except two sums like p + 1
            add = not self.all_pairs and z3.is_add(i) and i.get_id() != self.last.get_id()
            for k in (self.seen if add else self.seen + self.adds):
                g = z3.And(0 <= i, i < self.n, 0 <= k, k < self.n)
                lt = (lambda a, b: a < b) if self.strict else (lambda a, b: a <= b)
                c.assume(z3.Implies(z3.And(g, i < k), lt(self.f(i), self.f(k))))
                c.assume(z3.Implies(z3.And(g, k < i), lt(self.f(k), self.f(i))))
            (self.adds if add else self.seen).append(i)
            self.ids.add(i.get_id())
        return self.f(i)

    def at(self, i):
        return VTimestamp(self.u(i))

    def index(self):
        ix = F.Index(self.n, self.at, self.name)
        ix.srt = True
        return ix

    def model_value(self, mv):
        n = mv(self.n)
        if n is None or n > 60:
            return None
        return [mv(self.f(z3.IntVal(i))) for i in range(n)]


class AbsFrame(object):
    """A DataFrame of which only the row times matter: the rows as they are,
    the rows without missing values, and either of them sorted."""
    _vc_track = False

    def __init__(self, c, name, size=None, drop=False, srt=False, world=None):
        self.c, self.name, self.drop, self.srt, self.size = c, name, drop, srt, size
        self.world = world if world is not None else {}

    def _get(self, drop, srt):
        return AbsFrame(self.c, self.name, self.size, drop, srt, self.world)

    def dropna(self, *a, **k):
        if a or k:
            raise Unsupported('dropna arguments')
        return self._get(True, self.srt)

    def sort_index(self, *a, **k):
        if a or k:
            raise Unsupported('sort_index arguments')
        return self._get(self.drop, True)

    def copy(self, *a, **k):
        return self

    @property
    def times(self):
        key = (self.drop, self.srt)
        if key not in self.world:
            c = self.c
            if self.size is not None:
                # bounded mode: every row is valid and in order
                if 't' not in self.world:
                    self.world['t'] = Times(c, self.name, self.size)
                self.world[key] = self.world['t']
            else:
                t = Times(c, '%s_%d%d' % (self.name, self.drop, self.srt))
                if not self.srt:
                    t.u = lambda i, f=t.f: f(i)      # unordered rows
                self.world[key] = t
                allr = self.world.get((False, True)) or self.world.get((False, False))
                if self.drop and allr is not None:
                    c.assume(t.n <= allr.n)
        return self.world[key]

    @property
    def index(self):
        return self.times.index()

    @property
    def empty(self):
        return mkbool(self.times.n == 0)

    def vlen(self):
        return mknum(self.times.n)


def same_opt(a, b):
    return same(a, b)


@unit('gs.sections', [GSF + 'get_good_sections', 'nilmtk/utils.py:timedelta64_to_secs'],
      sizes=[0, 1, 2, 3, 4], weak=True, budget=120)
def gs_sections(c, E):
    """without look-ahead rows: the sections are the maximal runs of close valid samples"""
    gs_body(c, E, c.choose(2))


@unit('gs.sections_la', [GSF + 'get_good_sections', 'nilmtk/utils.py:timedelta64_to_secs'],
      sizes=[0, 1, 2, 3, 4], weak=True, budget=120)
def gs_sections_la(c, E):
    """with look-ahead rows: the sections are the maximal runs of close valid samples"""
    gs_body(c, E, 2)


def gs_body(c, E, k):
    M = E.load('nilmtk.stats.goodsections')
    df = AbsFrame(c, 'u', E.size)
    U = df.dropna().sort_index().times
    n = U.n
    mx = c.real('maxp')
    c.assume(mx.e > 0)
    prev = c.bool('prev')
    la, nxt, latimes = None, None, None
    if k == 1:
        la = AbsFrame(c, 'la')
        L = la.dropna().times
        c.assume(L.n == 0)
        if c.choose(2) == 0:
            c.assume(la.times.n == 0)
    elif k == 2:
        la = AbsFrame(c, 'la')
        L = la.dropna().times
        c.assume(L.n > 0)
        nxt = L.f(z3.IntVal(0))
        c.assume(z3.Implies(n > 0, nxt > U.u(z3.simplify(n - 1))))
    c.inp('case', dict(op='sections', times=U, valid=[True] * (E.size or 0), max=mx, prev=prev,
                       la=['none', 'allnan', 'rows'][k], la_times=[nxt] if nxt is not None else [0], tz=None))

    def link(i):
        """sample i and the next valid sample are close"""
        inside = z3.simplify(U.u(z3.simplify(i + 1)) - U.u(i) <= mx.e)
        last = z3.BoolVal(False) if nxt is None else nxt - U.u(i) <= mx.e
        return z3.If(i == n - 1, last, inside)

    def before(i):
        return z3.If(i == 0, prev.e, link(z3.simplify(i - 1)))

    def concrete(r, size):
        exp = []
        cur = None
        if size > 0 and bool(prev):
            cur = 'open'
        for i in range(size):
            zi = z3.IntVal(i)
            b = c.branch(before(zi))
            l = c.branch(link(zi))
            if not b and l:
                cur = U.at(zi)
            if b and not l:
                exp.append((None if cur == 'open' else cur, U.at(zi)))
                cur = None
            if i == size - 1 and l:
                exp.append((None if isinstance(cur, str) else cur, None))
        exp = [(s, e) for s, e in exp if s is None or e is None or not c.branch(s.e == e.e)]
        c.prove('number of sections', len(r) == len(exp))
        for t, (s, e) in zip(r, exp):
            c.prove('section is the maximal run', z3.And(same(t.start, s), same(t.end, e)))

    if E.size is not None:
        concrete(list(M.get_good_sections(df, mx, la, prev)), E.size)
        return

    # unbounded proof
    def B(i):
        return before(z3.simplify(i))
    tele = []

    def hook(f):
        f.inst(f.n)
        for g in A.Facts.memo(c).get('filters', []):
            for x, y in ((f, g), (g, f)):
                t = A.Telescope.attempt(c, x, y, B)
                if t is not None:
                    tele.append(t)
                    for i in (z3.IntVal(0), z3.simplify(x.n - 1), x.n):
                        t.fire(i)
    c.filter_hooks = [hook]

    def run_ok(s, e, kk, total):
        """(s, e) is the kk-th maximal run: some p, q as required"""
        fs = [t.f1 for t in tele[:1]]
        c.prove('an open start only for a run open before the block',
                z3.Implies(z3.BoolVal(s is None), z3.And(kk == 0, prev.e)))
        c.prove('a run open before the block has an open start',
                z3.Implies(z3.And(kk == 0, prev.e), z3.BoolVal(s is None)))
        c.prove('an open end only for the last run, open according to the look-ahead',
                z3.Implies(z3.BoolVal(e is None), z3.And(kk == total - 1, link(n - 1))))
        c.prove('a run still open according to the look-ahead has an open end',
                z3.Implies(z3.And(kk == total - 1, link(n - 1)), z3.BoolVal(e is None)))
        off = z3.If(prev.e, 1, 0)
        # the witnesses: positions of the start and of the end
        ps, qs = [], []
        if s is None:
            p = z3.IntVal(-1)
        else:
            p = tele[0].f1.pos(z3.simplify(kk - off)) if tele else z3.simplify(n - 1)
            if tele:
                tele[0].f1.at(z3.simplify(kk - off))
            p = z3.If(z3.And(tele and zb(kk - off < tele[0].f1.m)), p, n - 1) if tele else p
            c.prove('the start is the time of a sample where a run begins',
                    z3.And(0 <= p, p < n, s.e == U.u(p), link(p), z3.Not(before(p))))
        if e is None:
            q = n
        else:
            if tele:
                tele[0].f2.at(kk)
            q = z3.If(zb(kk < tele[0].f2.m), tele[0].f2.pos(kk), n - 1) if tele else n - 1
            c.prove('the end is the time of a sample where a run ends',
                    z3.And(0 <= q, q < n, e.e == U.u(q), before(q), z3.Not(link(q))))
        i = c.fresh('mid', z3.IntSort())
        lo = z3.IntVal(0) if s is None else p + 1
        hi = n - 1 if e is None else q
        for t in tele:
            t.fire(i)
            t.fire(z3.simplify(p + 1)) if s is not None else None
        U.u(i)
        U.u(z3.simplify(i - 1))
        c.prove('the run starts before it ends', z3.Implies(z3.BoolVal(s is not None and e is not None), p < q))
        c.prove('all samples of the run are linked',
                z3.Implies(z3.And(lo <= i, i <= hi, 0 <= i, i < n), before(i)))

    def step(loop, item, new):
        s, e = item
        if s is not None and e is not None:
            zero = z3.simplify(s.e == e.e)
        else:
            zero = z3.BoolVal(False)
        run_ok(s, e, loop.k, loop.n)
        if len(new) == 0:
            c.prove('a dropped run has zero length', zero)
        elif len(new) == 1:
            c.prove('a reported run has positive length', z3.Not(zero))
            c.prove('the section is the run', z3.And(same(new[0].start, s), same(new[0].end, e)))
        else:
            c.prove('each run is reported at most once', False)

    done = []

    def match(lp):
        return str(getattr(lp.it, 'tag', '')).startswith('zip(')

    def complete(loop):
        """every sample where a run begins (ends) is a listed start (end)"""
        starts, ends = loop.it.src
        i0 = c.fresh('any', z3.IntSort())
        c.assume(z3.And(0 <= i0, i0 < n))
        U.u(i0)
        for t in tele:
            t.fire(i0)
        off = z3.If(prev.e, 1, 0)
        which = c.choose(2)
        if which == 0:
            c.assume(z3.And(link(i0), z3.Not(before(i0))))
            kk = (tele[0].f1.rank(i0) if tele else z3.IntVal(0)) + off
            seq = starts
        else:
            c.assume(z3.And(z3.Not(link(i0)), before(i0)))
            kk = tele[0].f2.rank(i0) if tele else z3.IntVal(0)
            seq = ends
        if not c.feasible():
            raise PathEnd()
        kn, kat = seq.seq()
        c.prove('every run is listed: index in range', z3.And(0 <= kk, kk < kn))
        v = kat(z3.simplify(kk))
        c.prove('every sample where a run %s is listed' % ('begins', 'ends')[which],
                z3.BoolVal(False) if v is None else v.e == U.u(i0))
        c.prove('starts and ends pair up', starts.seq()[0] == ends.seq()[0])

    spec = FoldSpec('sections', match, step=step, done=complete)
    E.loop_specs.append(spec)
    zips = []
    E.on_zip = zips.append
    r = M.get_good_sections(df, mx, la, prev)
    if r.base is None:
        if c.branch(n == 1):
            return concrete(list(r), 1)
        c.prove('without runs only an empty block', z3.And(n == 0, len(r) == 0))
        return
    c.prove('the result lists exactly the runs in order',
            z3.Or(z3.BoolVal(r.token == spec.end_token() and not r.tail),
                  z3.And(z3.BoolVal(r.token == ('empty',) and not r.tail), n == 0)))


# ------------------------------------------------------------------ energy
TE = 'nilmtk/stats/totalenergy.py:'


class PowerSeries(object):
    """a series with increasing timestamps whose values may be missing"""

    def __init__(self, c, name, size=None):
        self.T = Times(c, name + '_t', size, strict=True)
        self.n = self.T.n
        self.v = c.fresh_fun(name + '_v', z3.IntSort(), z3.RealSort())
        self.na = c.fresh_fun(name + '_na', z3.IntSort(), z3.BoolSort())
        self.size = size

    def value(self, i):
        return VNa(self.v(i), self.na(i))

    def series(self):
        return F.Series(A.Arr(self.n, self.value, 'power'), self.T.index())

    def model_value(self, mv):
        n = mv(self.n)
        if n is None or n > 60:
            return None
        return [None if mv(self.na(z3.IntVal(i))) else mv(self.v(z3.IntVal(i))) for i in range(n)]


@unit('te.power', [TE + '_energy_for_power_series', 'nilmtk/utils.py:timedelta64_to_secs'],
      sizes=[0, 1, 2, 3], weak=True)
def te_power(c, E):
    """energy of a power series = sum of power x elapsed time, capped, in kWh"""
    M = E.load('nilmtk.stats.totalenergy')
    P = PowerSeries(c, 'p', E.size)
    mx = c.real('maxp')
    c.assume(mx.e > 0)
    c.inp('case', dict(op='energy', times=P.T, cols=[['power|active', P]], max=mx, cut=0, tz=None))
    r = M._energy_for_power_series(P.series(), mx)
    ok = P.series().dropna()
    m = ok.vlen()
    t, v = ok.index, ok.values
    mz = lift(m)

    def at(i):
        d = t.ev(z3.simplify(i + 1)).e - t.ev(i).e
        return VNum(z3.If(d < mx.e, d, mx.e) * v.ev(i).e)
    if c.branch(mz <= 1):
        c.prove('no interval, no energy', to_real(lift(r)) == 0)
        return
    S = A.spec_sum(c, 'energy', z3.simplify(mz - 1), at, (1, 3600000, 1000, 3600, core.Fraction(1, 3600000)))
    c.prove('the energy is the capped integral in kWh', to_real(lift(r)) * 3600000 == S)


PQ = ['cumulative energy', 'energy', 'power']
AC = ['active', 'apparent', 'reactive']


@unit('te.total', [TE + 'get_total_energy'], sizes=None, budget=120)
def te_total(c, E):
    """every AC type present is reported once, by its preferred quantity"""
    M = E.load('nilmtk.stats.totalenergy')
    calls = []

    def energy_contract(series, max_sample_period):
        # callee contract (unit te.power): a number determined by the series
        x = c.real('kwh')
        calls.append((series.name, max_sample_period, x))
        return x
    M._energy_for_power_series = energy_contract
    cols = {}
    T = Times(c, 't', None, strict=True)
    c.assume(T.n >= 1)
    present = {}
    for ac in AC:
        k = c.choose(8)
        for b, pq in enumerate(PQ):
            if k >> b & 1:
                present[(pq, ac)] = 1
    order = list(present)
    if c.choose(2) == 1:
        order = order[::-1]
    if c.choose(2) == 1:
        order = [('voltage', '')] + order
    fn = {}
    for i, col in enumerate(order):
        f = c.fresh_fun('v%d' % i, z3.IntSort(), z3.RealSort())
        fn[col] = f
        cols[col] = A.Arr(T.n, (lambda f: lambda j: VNum(f(j)))(f), 'col')
    df = F.Frame(cols, T.index())
    mx = c.real('maxp')
    r = M.get_total_energy(df, mx)
    want = [ac for ac in AC if any((pq, ac) in present for pq in PQ)]
    c.prove('exactly the AC types present are reported', sorted(r) == sorted(want))
    for ac in want:
        pq = next(p for p in PQ if (p, ac) in present)
        f = fn[(pq, ac)]
        if pq == 'cumulative energy':
            c.prove('cumulative energy gives last minus first',
                    to_real(lift(r[ac])) == f(T.n - 1) - f(z3.IntVal(0)))
        elif pq == 'energy':
            S = A.spec_sum(c, 'sum of energies', T.n, lambda i: VNum(f(i)))
            c.prove('energy readings give their sum', to_real(lift(r[ac])) == S)
        else:
            mine = [x for nme, m, x in calls if nme == (pq, ac) and m is mx]
            c.prove('power gives the integral of its own column with the given cap',
                    bool(mine) and any(x is r[ac] for x in mine))


@unit('te.additive', [TE + '_energy_for_power_series'])
def te_additive(c, E):
    """lemma: chunks that share a valid boundary sample add up to the whole"""
    # over the contract of te.power: the summand of interval j depends only on the samples j, j+1, so
    # sum(0..m-1) = sum(0..k) + sum(k..m-1); proved by induction on the number of intervals after the cut
    t = c.fresh_fun('t', z3.IntSort(), z3.RealSort())
    p = c.fresh_fun('p', z3.IntSort(), z3.RealSort())
    mx = c.real('maxp').e
    k, m = c.fresh('cut', z3.IntSort()), c.fresh('m', z3.IntSort())
    c.assume(z3.And(0 <= k, k <= m))
    W = c.fresh_fun('whole', z3.IntSort(), z3.RealSort())
    R = c.fresh_fun('right', z3.IntSort(), z3.RealSort())

    def term(i):
        d = t(i + 1) - t(i)
        return z3.If(d < mx, d, mx) * p(i)
    # W(i): energy of samples 0..i; R(i): energy of samples k..i
    c.assume(R(k) == 0)
    c.prove('base: nothing after the cut', W(k) == W(k) + R(k))
    c.assume(W(m) == W(k) + R(m))
    c.assume(W(m + 1) == W(m) + term(m))
    c.assume(R(m + 1) == R(m) + term(m))
    c.prove('step: one more sample after the cut', W(m + 1) == W(k) + R(m + 1))


# ------------------------------------------------------------------ dropout rate
DR = 'nilmtk/stats/dropoutrate.py:'


@unit('dr.rate', [DR + 'get_dropout_rate', 'nilmtk/utils.py:get_index'], sizes=[0, 4, 5, 6])
def dr_rate(c, E):
    """1 - present / expected, never below zero; NaN below five samples"""
    M = E.load('nilmtk.stats.dropoutrate')
    T = Times(c, 't', E.size, strict=True)
    p = c.real('period')
    c.assume(p.e > 0)
    n = T.n
    f = c.fresh_fun('v', z3.IntSort(), z3.RealSort())
    v = A.Arr(n, lambda i: VNum(f(i)), 'v')
    ser = c.choose(2) == 1
    c.inp('case', dict(op='rate', times=T, period=p, series=ser, tz=None, nan=False))
    data = F.Series(v, T.index()) if ser else F.Frame({('power', 'active'): v}, T.index())
    c.assume(z3.Implies(n >= 1, T.u(z3.IntVal(0)) <= T.u(z3.simplify(n - 1))))
    r = M.get_dropout_rate(data, p)
    if isinstance(r, float) and r != r:
        c.prove('NaN only for fewer than five samples', n < 5)
        return
    c.prove('fewer than five samples give NaN', n >= 5)
    q = (T.u(z3.simplify(n - 1)) - T.u(z3.IntVal(0))) / p.e
    exp = lift(round(VNum(q)))
    rate = 1 - z3.ToReal(n) / (z3.ToReal(exp) + 1)
    want = z3.If(rate < 0, z3.RealVal(0), rate)
    c.prove('the rate is one minus present over expected', to_real(lift(r)) == want)
    c.prove('the rate is a proportion', z3.And(to_real(lift(r)) >= 0, to_real(lift(r)) <= 1))


@unit('dr.combined', ['nilmtk/stats/dropoutrateresults.py:DropoutRateResults.combined'], sizes=[1, 2, 3], weak=True)
def dr_combined(c, E):
    """mean of the rates weighted by sample counts"""
    M = E.load('nilmtk.stats.dropoutrateresults')
    T = Times(c, 's', E.size, strict=True)
    n = T.n
    fr = c.fresh_fun('rate', z3.IntSort(), z3.RealSort())
    fk = c.fresh_fun('cnt', z3.IntSort(), z3.IntSort())
    R = M.DropoutRateResults()
    R._data = F.Frame({'end': A.Arr(n, lambda i: VTimestamp(c_end(i))),
                       'dropout_rate': A.Arr(n, lambda i: VNum(fr(i))),
                       'n_samples': A.Arr(n, lambda i: VNum(fk(i)))}, T.index())
    if E.size is not None:
        c.inp('case', dict(op='combined', rows=[[T.f(z3.IntVal(i)), T.f(z3.IntVal(i)) + 1, fr(z3.IntVal(i)),
                                                 fk(z3.IntVal(i))] for i in range(E.size)]))
    tot = A.spec_sum(c, 'n', n, lambda i: VNum(fk(i))) if E.size is not None else None
    if E.size is not None:
        for i in range(E.size):
            c.assume(z3.And(fk(i) >= 0, fr(i) >= 0, fr(i) <= 1, T.f(i) >= 0))
            if i:
                c.assume(T.f(i) > T.f(i - 1) + 1)
        c.assume(tot > 0)
        r = R.combined()
        S = A.spec_sum(c, 'w', n, lambda i: VNum(fr(i) * z3.ToReal(fk(i))))
        c.prove('weighted mean', to_real(lift(r)) * tot == S)
        return
    real = lift(R._data['n_samples'].sum())
    c.assume(real > 0)
    r = R.combined()
    S = A.spec_sum(c, 'w', n, lambda i: VNum(fr(i) * z3.ToReal(fk(i))), (1,), sym=[z3.ToReal(real)])
    c.prove('weighted mean', to_real(lift(r)) * z3.ToReal(real) == S)


def c_end(i):
    return z3.Function('end_of', z3.IntSort(), z3.RealSort())(i)
