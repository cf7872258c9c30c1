"""Contracts of activation detection (C24)."""
import z3
from vc import core, arrays as A, frames as F
from vc.core import VNum, VNa, VBool, VTimestamp, Unsupported, PathEnd, zb, lift, to_real, mkbool, mknum
from vc.seqs import VList
from vc.unit import unit
from vc.fold import FoldSpec
from units.stats import Times, PowerSeries

EL = 'nilmtk/electric.py:'
I = z3.IntSort()


@unit('ac.runs', [EL + 'get_activations'], sizes=[0, 1, 2, 3, 4, 5], weak=True, budget=150)
def ac_runs(c, E):
    """without a minimum off duration the activations are the on-runs, long enough and without missing values"""
    body(c, E, None)


@unit('ac.joined_off', [EL + 'get_activations', 'nilmtk/utils.py:timedelta64_to_secs'], weak=True, budget=150)
def ac_joined_off(c, E):
    """with one, runs are joined across shorter off-gaps (series that start off)"""
    body(c, E, False)


@unit('ac.joined_on', [EL + 'get_activations', 'nilmtk/utils.py:timedelta64_to_secs'], weak=True, budget=150)
def ac_joined_on(c, E):
    """with one, runs are joined across shorter off-gaps (series that start on)"""
    body(c, E, True)


def body(c, E, start):
    M = E.load('nilmtk.electric')
    P = PowerSeries(c, 'p', E.size)
    n, T = P.n, P.T
    thr, moff, mon = c.real('thr'), c.real('moff'), c.real('mon')
    c.assume(z3.And(moff.e >= 0, mon.e >= 0))
    if E.size is None:
        border = c.int('border')
        c.assume(border.e >= 0)
    else:
        border = c.choose(3)
    bz = lift(border)
    c.inp('case', dict(times=T, vals=P, thr=thr, off=moff, on=mon, border=border, tz=None))

    def on(i):
        return z3.And(z3.Not(P.na(i)), P.v(i) >= thr.e)
    s = P.series()
    if E.size is None:
        if start is None:
            c.assume(moff.e == 0)
        else:
            c.assume(z3.And(moff.e > 0, on(z3.IntVal(0)) if start else z3.Not(on(z3.IntVal(0)))))
    if E.size is not None:
        return concrete(c, M, P, s, thr, moff, mon, border, on)

    rise = lambda i: z3.And(1 <= i, i < n, on(i), z3.Not(on(i - 1)))
    fall = lambda i: z3.And(1 <= i, i < n, z3.Not(on(i)), on(i - 1))
    tele = []

    def B(i):
        j = z3.simplify(i)
        return on(z3.If(j > 0, j - 1, z3.IntVal(0)))

    def hook(f):
        f.inst(f.n)
        for g in A.Facts.memo(c).get('filters', []):
            for x, y in ((f, g), (g, f)):
                if tele:
                    return
                t = A.Telescope.attempt(c, x, y, B)
                if t is not None:
                    tele.append(t)
                    for i in (z3.IntVal(0), z3.IntVal(1), x.n):
                        t.fire(i)
    c.filter_hooks = [hook]

    def parts():
        if not tele:
            raise Unsupported('rises and falls are not recognised')
        R, Fl = tele[0].f1, tele[0].f2
        G = [f for f in A.Facts.memo(c)['filters'] if f is not R and f is not Fl]
        return R, Fl, (G[0] if G else None)

    def ends(kk, total):
        """first and last run of the kk-th joined run: indices of runs"""
        R, Fl, G = parts()
        if G is None:
            return kk, kk, G
        if len([f for f in A.Facts.memo(c)['filters']]) > 3:
            raise Unsupported('more filters than gaps')
        G.at(z3.simplify(kk))
        G.at(z3.simplify(kk - 1))
        return (z3.If(kk == 0, z3.IntVal(0), G.pos(kk - 1) + 1),
                z3.If(kk == total - 1, runs() - 1, G.pos(kk)), G)

    def off0():
        return z3.If(on(z3.IntVal(0)), 1, 0)

    def runs():
        """the number of runs with a rise and a fall"""
        R, Fl, _ = parts()
        return Fl.m - off0()

    def up(k):
        R, Fl, _ = parts()
        R.at(z3.simplify(k))
        return R.pos(z3.simplify(k))

    def down(k):
        R, Fl, _ = parts()
        k = z3.simplify(k + off0())
        Fl.at(k)
        return Fl.pos(k)

    def step(loop, item, new):
        x, y = item
        x, y = lift(x), lift(y)
        kk = loop.k
        a, b, G = ends(kk, loop.n)
        T.u(x)
        T.u(y)
        t = tele[0]
        c.prove('it begins with a rise', z3.And(rise(x), x == up(a)))
        c.prove('it ends with a fall', z3.And(fall(y), y == down(b)))
        c.prove('the rise comes before the fall', z3.And(a <= b, x < y, 0 <= a, b < runs()))
        # every off-gap inside is short: gap g lies between run g and run g + 1
        g = c.fresh('gap', I)
        c.assume(z3.And(a <= g, g < b))
        if c.feasible():
            dn, nx = down(g), up(g + 1)
            if G is not None:
                G.inst(g)
            c.prove('a run is joined only across an off-gap shorter than the minimum',
                    z3.Implies(z3.And(a <= g, g < b), T.u(nx) - T.u(dn) < moff.e))
        # ... and the gaps around it are not
        c.prove('off-gaps of the minimum or more are not joined', z3.Implies(
            kk > 0, z3.And(a > 0, T.u(up(a)) - T.u(down(a - 1)) >= moff.e)))
        dur = T.u(y) - T.u(x)
        lo = z3.If(x - 1 - bz < 0, 0, x - 1 - bz)
        hi = z3.If(y + bz > n, n, y + bz)
        if not new:
            k = c.fresh('mis', I)
            c.prove('only short runs and runs with missing values are dropped', z3.Or(
                dur < mon.e, z3.Exists([k], z3.And(lo <= k, k < hi, P.na(k)))))
            return
        c.prove('a run is reported once', len(new) == 1)
        r = new[0]
        if not isinstance(r, F.Series):
            raise Unsupported('activation is not a series')
        c.prove('it lasts at least the minimum on duration', dur >= mon.e)
        i = c.fresh('i', I)
        c.prove('it has the rows of the run and its borders', lift(r.vlen()) == hi - lo)
        c.assume(z3.And(0 <= i, i < hi - lo))
        if not c.feasible():
            c.prove('it has rows', False)
        v, tm = r._v.ev(i), r._index.ev(i)
        e, m = core.na_parts(v)
        c.prove('no value is missing', z3.Not(P.na(lo + i)))
        c.prove('the values are those of the series', z3.And(z3.Not(m), e == P.v(lo + i)))
        c.prove('the times are those of the series', tm.e == T.f(lo + i))

    def complete(loop):
        """every rise that is followed by a fall belongs to one of the joined runs"""
        R, Fl, G = parts()
        N = loop.n
        i0 = c.fresh('any', I)
        j0 = c.fresh('later', I)
        c.assume(z3.And(rise(i0), fall(j0), i0 < j0))
        for q in (i0, j0, z3.simplify(i0 - 1), z3.simplify(i0 + 1)):
            tele[0].fire(z3.simplify(q))
        k = R.rank(i0)
        c.prove('every rise that is followed by a fall is the start of a run', z3.And(
            0 <= k, k < runs(), up(k) == i0))
        if G is None:
            c.prove('every run is listed', N == runs())
            return
        G.inst(k)
        G.inst(z3.simplify(k - 1))
        q = G.rank(k)           # joined run that holds run k
        a, b, _ = ends(q, N)
        c.prove('every run belongs to a joined run', z3.And(0 <= q, q < N, a <= k, k <= b))
    seen = []

    def match(lp):
        return str(getattr(lp.it, 'tag', '')).startswith('zip(')

    spec = FoldSpec('runs', match, step=step, done=complete)
    E.loop_specs.append(spec)
    r = M.get_activations(s, moff, mon, border, thr)
    if not isinstance(r, VList):
        raise Unsupported('result %s' % type(r).__name__)
    if r.base is None:
        try:
            R, Fl, G = parts()
            up(z3.IntVal(0)), down(z3.IntVal(0))
            if c.branch(runs() == 1):
                class One(object):
                    k, n = z3.IntVal(0), z3.IntVal(1)
                return step(One, (mknum(up(z3.IntVal(0))), mknum(down(z3.IntVal(0)))), list(r))
        except Unsupported:
            pass
        i0, j0 = c.fresh('any', I), c.fresh('later', I)
        c.assume(z3.And(rise(i0), fall(j0), i0 < j0))
        for f in A.Facts.memo(c).get('filters', []):
            for q in (i0, j0):
                f.inst(q)
        for t in tele:
            for q in (i0, j0, z3.simplify(i0 + 1), z3.simplify(j0 + 1)):
                t.fire(z3.simplify(q))
        c.prove('nothing is reported only if there is no run', not c.feasible() or False)
        c.prove('nothing is reported', len(r) == 0)
        return
    c.prove('the result lists exactly the runs in order', r.token == spec.end_token() and not r.tail)


def concrete(c, M, P, s, thr, moff, mon, border, on):
    n, T = P.size, P.T
    Z = z3.IntVal
    r = list(M.get_activations(s, moff, mon, border, thr))
    st = [c.branch(on(Z(i))) for i in range(n)]
    runs, i = [], 0
    while i < n:
        if not st[i]:
            i += 1
            continue
        j = i
        while j < n and st[j]:
            j += 1
        if i > 0 and j < n:
            runs.append([i, j])
        i = j
    joined = []
    for a, b in runs:
        if joined and c.branch(z3.And(moff.e > 0, T.f(Z(a)) - T.f(Z(joined[-1][1])) < moff.e)):
            joined[-1][1] = b
        else:
            joined.append([a, b])
    exp = []
    for a, b in joined:
        if c.branch(T.f(Z(b)) - T.f(Z(a)) < mon.e):
            continue
        lo, hi = max(0, a - 1 - border), min(n, b + border)
        if any(c.branch(P.na(Z(k))) for k in range(lo, hi)):
            continue
        exp.append((lo, hi))
    c.prove('exactly the activations are reported', len(r) == len(exp))
    for x, (lo, hi) in zip(r, exp):
        c.prove('the rows of the activation', lift(x.vlen()) == hi - lo)
        for k in range(hi - lo):
            e, m = core.na_parts(x._v.ev(Z(k)))
            c.prove('the values of the activation', z3.And(z3.Not(m), e == P.v(Z(lo + k))))
            c.prove('the times of the activation', x._index.ev(Z(k)).e == T.f(Z(lo + k)))
