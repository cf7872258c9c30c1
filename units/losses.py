"""Contracts of the disaggregation error metrics (C22)."""
import z3
from vc import core
from vc import arrays as A
from vc import frames as F
from vc.core import Unsupported, VNum, zb, mknum, mkbool, lift, to_real
from vc.models import note, used, ShimModule
from vc.unit import unit

LS = 'nilmtk/losses.py:'
note('sklearn.metrics', 'mean_absolute_error / mean_squared_error / r2_score / f1_score of two equally long vectors '
                        'are the textbook definitions (r2 and f1 with the truth first; f1 = 2TP/(2TP+FP+FN), 0 when '
                        'nothing is on)')


def vec(x):
    return x._v if isinstance(x, F.Series) else A.asarr(x)


def only(k):
    if k:
        raise Unsupported('options of a metric: %s' % sorted(k))


def skl():
    def mse(a, b, **k):
        used('sklearn.metrics')
        only(k)
        d = vec(a) - vec(b)
        return (d * d).mean()

    def root(a, b, **k):
        return A.sqrt(mse(a, b, **k))

    def mae(a, b, **k):
        used('sklearn.metrics')
        only(k)
        return abs(vec(a) - vec(b)).mean()

    def r2(a, b, **k):
        used('sklearn.metrics')
        only(k)
        c = core.ctx()
        a, b = vec(a), vec(b)
        d, e = a - b, a - a.mean()
        res, tot = to_real(lift((d * d).sum())), to_real(lift((e * e).sum()))
        if not c.branch(tot > 0):
            raise Unsupported('r2 of a constant')
        return mknum(1 - res / tot)

    def f1(a, b, **k):
        used('sklearn.metrics')
        only(k)
        c = core.ctx()
        a, b = vec(a), vec(b)
        one = lambda v: zb(v == 1)
        cnt = lambda f: to_real(lift(a.zip(b, lambda x, y: A.ite(f(one(x), one(y)), 1, 0)).sum()))
        tp = cnt(lambda x, y: z3.And(x, y))
        fp = cnt(lambda x, y: z3.And(z3.Not(x), y))
        fn = cnt(lambda x, y: z3.And(x, z3.Not(y)))
        den = 2 * tp + fp + fn
        return mknum(z3.If(den == 0, 0, 2 * tp / z3.If(den == 0, 1, den)))
    return dict(mean_squared_error=mse, mean_absolute_error=mae, r2_score=r2, f1_score=f1,
                root_mean_squared_error=root)


class Pair(object):
    """truth and prediction: equally long vectors of numbers, as arrays or as series with one index"""

    def __init__(self, c, E):
        m = E.models.get('sklearn')
        mm = ShimModule('sklearn.metrics', **skl())
        E.models['sklearn'] = ShimModule('sklearn', metrics=mm)
        self.M = E.load('nilmtk.losses')
        for k, v in skl().items():
            if k in self.M.__dict__:
                setattr(self.M, k, v)
        self.n = c.fresh('n', z3.IntSort()) if E.size is None else z3.IntVal(E.size)
        c.assume(self.n >= 1)
        I, R = z3.IntSort(), z3.RealSort()
        if E.size is None:
            self.g, self.p = c.fresh_fun('gt', I, R), c.fresh_fun('pred', I, R)
        else:
            gs = [c.fresh('gt%d' % i, R) for i in range(E.size)]
            ps = [c.fresh('pr%d' % i, R) for i in range(E.size)]
            self.g = lambda i: gs[i.as_long()]
            self.p = lambda i: ps[i.as_long()]
        self.G = A.Arr(self.n, lambda i: VNum(self.g(i)), 'gt')
        self.P = A.Arr(self.n, lambda i: VNum(self.p(i)), 'pred')
        c.inp('case', dict(gt=self.G, pred=self.P))
        if c.choose(2):
            ix = F.Index.of(A.Arr(self.n, lambda i: mknum(i)))
            self.G, self.P = F.Series(self.G, index=ix), F.Series(self.P, index=ix)

    def sum(self, c, label, f, **k):
        return A.spec_sum(c, label, self.n, lambda i: VNum(f(self.g(i), self.p(i))), **k)

    def nz(self):
        return z3.ToReal(self.n)


def ab(x):
    return z3.If(x >= 0, x, -x)


def num(r):
    return to_real(lift(r))


@unit('ls.mae', [LS + 'mae'], sizes=[1, 2, 3], weak=True)
def ls_mae(c, E):
    """MAE is the mean absolute error"""
    q = Pair(c, E)
    r = num(q.M.mae(q.G, q.P))
    c.prove('mean absolute error', r * q.nz() == q.sum(c, 's', lambda g, p: ab(g - p)))


@unit('ls.rmse', [LS + 'rmse'], sizes=[1, 2, 3], weak=True)
def ls_rmse(c, E):
    """RMSE is the root of the mean squared error"""
    q = Pair(c, E)
    r = num(q.M.rmse(q.G, q.P))
    s = q.sum(c, 's', lambda g, p: (g - p) * (g - p))
    c.prove('not negative', r >= 0)
    c.prove('root of the mean squared error', r * r * q.nz() == s)


@unit('ls.rel', [LS + 'relative_error'], sizes=[1, 2, 3], weak=True)
def ls_rel(c, E):
    """the relative error is the mean of |error| / (1 + prediction)"""
    q = Pair(c, E)
    if E.size is None:
        i = z3.Int('ii')
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q.n), q.p(i) != -1)))
    else:
        for i in range(E.size):
            c.assume(q.p(z3.IntVal(i)) != -1)
    r = num(q.M.relative_error(q.G, q.P))
    c.prove('mean relative error', r * q.nz() == q.sum(c, 's', lambda g, p: ab(g - p) / (1 + p)))


@unit('ls.nde', [LS + 'nde'], sizes=[1, 2, 3], weak=True)
def ls_nde(c, E):
    """NDE is the root of summed squared error over summed squared truth"""
    q = Pair(c, E)
    if E.size is None:
        den = A.Arr(q.n, lambda i: VNum(q.g(i) * q.g(i))).sum()
        c.assume(num(den) > 0)
    else:
        c.assume(z3.Or(*[q.g(z3.IntVal(i)) != 0 for i in range(E.size)]))
    r = num(q.M.nde(q.G, q.P))
    e = q.sum(c, 'e', lambda g, p: (g - p) * (g - p))
    t = q.sum(c, 't', lambda g, p: g * g)
    c.prove('not negative', r >= 0)
    c.prove('normalised disaggregation error', r * r * t == e)


@unit('ls.nep', [LS + 'nep'], sizes=[1, 2, 3], weak=True)
def ls_nep(c, E):
    """NEP is summed absolute error over summed truth"""
    q = Pair(c, E)
    if E.size is None:
        tot = A.Arr(q.n, lambda i: VNum(q.g(i))).sum()
        c.assume(num(tot) > 0)
    else:
        c.assume(z3.Sum([q.g(z3.IntVal(i)) for i in range(E.size)]) > 0)
    r = num(q.M.nep(q.G, q.P))
    c.prove('normalised error in assigned power',
            r * q.sum(c, 't', lambda g, p: g) == q.sum(c, 'e', lambda g, p: ab(g - p)))


@unit('ls.r2', [LS + 'r2score'], sizes=[2, 3], weak=True)
def ls_r2(c, E):
    """R2 is the coefficient of determination, of the truth by the prediction"""
    q = Pair(c, E)
    if E.size is None:
        mean = A.Arr(q.n, lambda i: VNum(q.g(i))).mean()
        m = num(mean)
        tot = A.Arr(q.n, lambda i: VNum((q.g(i) - m) * (q.g(i) - m))).sum()
        c.assume(num(tot) > 0)
    else:
        m = z3.Sum([q.g(z3.IntVal(i)) for i in range(E.size)]) / E.size
        c.assume(z3.Or(*[q.g(z3.IntVal(i)) != q.g(z3.IntVal(0)) for i in range(E.size)]))
    r = num(q.M.r2score(q.G, q.P))
    res = q.sum(c, 'res', lambda g, p: (g - p) * (g - p))
    tot = q.sum(c, 'tot', lambda g, p: (g - m) * (g - m))
    c.prove('coefficient of determination', (1 - r) * tot == res)


@unit('ls.f1', [LS + 'f1score'], sizes=[1, 2, 3], weak=True)
def ls_f1(c, E):
    """F1 of the on/off states at 10 W (on: at or above)"""
    q = Pair(c, E)
    r = num(q.M.f1score(q.G, q.P))
    b = lambda f: lambda g, p: z3.If(f(g >= 10, p >= 10), z3.RealVal(1), z3.RealVal(0))
    tp = q.sum(c, 'tp', b(lambda x, y: z3.And(x, y)))
    fp = q.sum(c, 'fp', b(lambda x, y: z3.And(z3.Not(x), y)))
    fn = q.sum(c, 'fn', b(lambda x, y: z3.And(x, z3.Not(y))))
    den = 2 * tp + fp + fn
    c.prove('F1 score of the on states', z3.If(den == 0, r == 0, r * den == 2 * tp))


@unit('ls.perfect', [LS + 'mae', LS + 'rmse', LS + 'relative_error', LS + 'nde', LS + 'nep'])
def ls_perfect(c, E):
    """lemma over the definitions: error sums vanish when the prediction is the truth"""
    s = c.fresh_fun('S', z3.IntSort(), z3.RealSort())
    n = c.fresh('n', z3.IntSort())
    x, y = c.fresh('x', z3.RealSort()), c.fresh('y', z3.RealSort())
    c.assume(x == y)
    term = c.choose(3)
    t = [ab(x - y), (x - y) * (x - y), ab(x - y) / (1 + y)][term]
    if term == 2:
        c.assume(1 + y != 0)
    # S(k): the sum of the first k terms
    c.assume(z3.And(n >= 0, s(0) == 0))
    c.prove('base', s(0) == 0)
    c.assume(s(n) == 0)
    c.assume(s(n + 1) == s(n) + t)
    c.prove('step: a perfect prediction adds no error', s(n + 1) == 0)
