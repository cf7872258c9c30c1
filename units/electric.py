"""Contracts of electric.py: correlation (C30)."""
import z3
from vc import core, arrays as A
from vc.core import VNum, VTimestamp, Unsupported, PathEnd, zb, lift, to_real, mknum, mkbool
from vc.fold import Accumulate
from vc.loops import LoopSpec
from vc.models import ShimModule, note, used
from vc.seqs import SymIter, VList
from vc.unit import unit

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
EL = 'nilmtk/electric.py:Electric.'
note('finite sums', 'Series.sum() of a series without missing values is the sum of its values: linear in them, and the '
                    'sum without the first row is the whole less that row')
note('squares', 'a sum of squares is not negative')


class Recording(object):
    """the chunks of aligned power series: chunk k has len(k) rows (perhaps none) from time a(k) to time b(k), in order;
    its first row may be the last row before it.  Monomials m = (i, j) stand for x**i * y**j; S(m)(k) is their sum over
    chunk k, F(m)(k) their value in its first row; T(m)(k) the sum over the first k chunks, shared rows once."""

    def __init__(self, c, nonneg=()):
        self.c = c
        self.n = c.fresh('chunks', I)
        c.assume(self.n >= 0)
        self.len, self.a, self.b, self.a2 = c.fresh_fun('len', I, I), c.fresh_fun('a', I, R), c.fresh_fun('b', I, R), c.fresh_fun('a2', I, R)
        self.any, self.end = c.fresh_fun('any', I, B), c.fresh_fun('end', I, R)
        self.N = c.fresh_fun('N', I, I)
        self.s, self.f, self.t = {}, {}, {}
        self.means, self.named = [], {}
        c.assume(z3.And(z3.Not(self.any(0)), self.N(0) == 0))
        for m in [(1, 0), (0, 1), (2, 0), (0, 2), (1, 1)]:
            self.mono(m)

    def mono(self, m):
        if m not in self.s:
            nm = 'x%dy%d' % m
            self.s[m], self.f[m], self.t[m] = (self.c.fresh_fun(p + nm, I, R) for p in 'SFT')
            self.c.assume(self.t[m](0) == 0)
        return m

    def shared(self, k):
        return z3.And(self.len(k) > 0, self.any(k), self.a(k) == self.end(k))

    def rows(self, k):
        return self.len(k) - z3.If(self.shared(k), 1, 0)

    def change(self, m, k):
        return self.s[m](k) - z3.If(self.shared(k), self.f[m](k), 0)

    def unfold(self, k):
        c, l = self.c, self.len(k)
        c.assume(z3.And(l >= 0, z3.Implies(l == 1, self.a(k) == self.b(k)), z3.Implies(l > 1, self.a(k) < self.b(k)),
                        z3.Implies(l > 1, z3.And(self.a(k) < self.a2(k), self.a2(k) <= self.b(k))),
                        z3.Implies(z3.And(l > 0, self.any(k)), self.a(k) >= self.end(k)),
                        self.any(k + 1) == z3.Or(self.any(k), l > 0),
                        self.end(k + 1) == z3.If(l > 0, self.b(k), self.end(k)), self.N(k) >= 0,
                        self.N(k + 1) == self.N(k) + self.rows(k)))
        for m in self.s:
            c.assume(self.t[m](k + 1) == self.t[m](k) + self.change(m, k))
            c.assume(z3.Implies(l == 0, self.s[m](k) == 0))
            c.assume(z3.Implies(l == 1, self.s[m](k) == self.f[m](k)))
        for p, S, F in self.named.values():
            c.assume(z3.And(z3.Implies(l == 0, S(k) == 0), z3.Implies(l == 1, S(k) == F(k))))
        used('finite sums')

    # -- numbers and polynomials with a name of their own: no products of unknowns where they are not needed
    def mean(self, nm, term):
        v = self.c.fresh('mean ' + nm, R)       # by definition term
        self.means.append((v, term))
        return v

    def scalar(self, e):
        for v, term in self.means:
            if z3.eq(z3.simplify(e), z3.simplify(term)):
                return v
        if self.means and not z3.is_rational_value(z3.simplify(e)):
            for v, term in self.means:
                if self.c._check(e != term) == z3.unsat:
                    return v
        return e

    def name(self, nm, poly):
        self.named[nm] = (poly, self.c.fresh_fun('S ' + nm, I, R), self.c.fresh_fun('F ' + nm, I, R))

    def sum_of(self, poly, k, cut):
        for nm, (p, S, F) in self.named.items():
            if same_poly(p, poly):
                return S(k) - F(k) if cut else S(k)
        if any(m[0] + m[1] > 1 for m in poly):
            for nm, (p, S, F) in self.named.items():
                self.c.assume(z3.And(S(k) == self.expand(p, k, False), F(k) == S(k) - self.expand(p, k, True)))
        return self.expand(poly, k, cut)

    def expand(self, poly, k, cut):
        out = z3.RealVal(0)
        for m, q in sorted(poly.items()):
            if m == (0, 0):
                v = to_real(self.len(k) - (1 if cut else 0))
            else:
                v = self.s[self.mono(m)](k) - (self.f[m](k) if cut else 0)
            out = out + q * v
        return out

    def named_change(self, nm, k):
        p, S, F = self.named[nm]
        return S(k) - z3.If(self.shared(k), F(k), 0)


def same_poly(p, q):
    for m in set(p) | set(q):
        d = z3.simplify(p.get(m, z3.RealVal(0)) - q.get(m, z3.RealVal(0)), som=True)
        if not (z3.is_rational_value(d) and d.numerator_as_long() == 0):
            return False
    return True


class Chunk(object):
    """a polynomial in x and y over the rows of chunk k (all of them, or all but the first)"""
    _vc_track = False

    def __init__(self, W, k, poly, cut=False):
        self.__dict__.update(W=W, k=k, poly=poly, cut=cut)

    # -- shape
    def count_(self):
        return self.W.len(self.k) - (1 if self.cut else 0)

    def vlen(self):
        return mknum(z3.simplify(self.count_()))

    size = property(vlen)

    def count(self):
        return self.vlen()

    @property
    def shape(self):
        return (self.vlen(),)

    @property
    def empty(self):
        return mkbool(self.count_() == 0)

    @property
    def index(self):
        return Index(self)

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def values(self):
        return self

    # -- sums
    def sum(self, **kw):
        if kw:
            raise Unsupported('sum(%s)' % sorted(kw))
        return VNum(self.W.sum_of(self.poly, self.k, self.cut))

    def mean(self):
        return VNum(A.ediv(self.sum(), self.vlen()).e)

    # -- arithmetic
    def _lift(self, o):
        if isinstance(o, Chunk):
            if o.W is not self.W or o.cut != self.cut or not z3.eq(z3.simplify(o.k), z3.simplify(self.k)):
                if not (o.W is self.W and o.cut == self.cut and self.W.c._check(o.k != self.k) == z3.unsat):
                    raise Unsupported('series of different chunks together')
            return o.poly
        if isinstance(o, (int, float, VNum)) and not isinstance(o, bool):
            return {(0, 0): self.W.scalar(to_real(lift(o)))}
        raise Unsupported('series with %r' % type(o))

    def _new(self, poly):
        return Chunk(self.W, self.k, poly, self.cut)

    def _add(self, o, a, b):
        out = {m: a * q for m, q in self.poly.items()}
        for m, q in self._lift(o).items():
            out[m] = out[m] + b * q if m in out else b * q
        return self._new(out)

    def __add__(self, o): return self._add(o, 1, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._add(o, 1, -1)
    def __rsub__(self, o): return self._add(o, -1, 1)
    def __neg__(self): return self._add(0, -1, 1)

    def __mul__(self, o):
        out = {}
        for (i, j), q in self.poly.items():
            for (k, l), r in self._lift(o).items():
                m = (i + k, j + l)
                out[m] = out[m] + q * r if m in out else q * r
        return self._new(out)
    __rmul__ = __mul__

    def __pow__(self, n):
        if n != 2:
            raise Unsupported('power %r' % (n,))
        return self * self

    def dot(self, o):
        return (self * o).sum()

    def __truediv__(self, o):
        if isinstance(o, (int, float, VNum)):
            return self._new({m: A.ediv(VNum(q), o).e for m, q in self.poly.items()})
        raise Unsupported('series / %r' % type(o))


class Index(object):
    _vc_track = False

    def __init__(self, ch):
        self.ch = ch

    def vlen(self):
        return self.ch.vlen()

    size = property(vlen)

    def __getitem__(self, i):
        ch = self.ch
        if type(i) is not int or i not in (0, -1):
            raise Unsupported('index[%r]' % (i,))
        if ch.W.c.branch(ch.count_() <= 0):
            raise IndexError(i)
        if i == -1:
            return VTimestamp(ch.W.b(ch.k))
        return VTimestamp((ch.W.a2 if ch.cut else ch.W.a)(ch.k))


class ILoc(object):
    _vc_track = False

    def __init__(self, ch):
        self.ch = ch

    def __getitem__(self, s):
        ch = self.ch
        if s == slice(None):
            return ch
        if s != slice(1, None) or ch.cut:
            raise Unsupported('iloc[%r]' % (s,))
        if ch.W.c.branch(ch.W.len(ch.k) == 0):
            return ch
        return Chunk(ch.W, ch.k, ch.poly, True)


class PrevEnd(LoopSpec):
    """a loop over chunks that remembers where the rows so far end"""
    name = 'chunks'

    def __init__(self, W, tags):
        self.W, self.tags = W, tags

    def match(self, loop):
        return getattr(loop.it, 'tag', None) in self.tags

    def vars(self, loop, env):
        return [n for n in sorted(loop.names) if n in env and (env[n] is None or isinstance(env[n], VTimestamp))]

    def havoc(self, loop, env, names):
        self.none = self.W.c.choose(2) == 0
        return {n: None if self.none else VTimestamp(self.W.end(loop.k)) for n in self.vars(loop, env)}

    def inv(self, loop):
        out = []
        for n in self.vars(loop, loop.entry):
            v = loop.env.get(n)
            if v is None:
                out.append((n + ' is unset until there is a row', z3.Not(self.W.any(loop.k))))
            elif isinstance(v, VTimestamp):
                out.append((n + ' is the last time so far', z3.And(self.W.any(loop.k), v.e == self.W.end(loop.k))))
            else:
                raise Unsupported('%s: %r' % (n, type(v)))
        return out

    def on_item(self, loop, item):
        self.W.unfold(loop.k)


@unit('el.correlation', [EL + 'correlation'], weak=True, budget=120)
def el_correlation(c, E):
    """the Pearson coefficient of all samples of two aligned meters that vary, whatever the chunks; NaN for fewer than two"""
    used('squares')
    M = E.load('nilmtk.electric')
    W = Recording(c)
    NAN = object()
    M.np = ShimModule('numpy', sqrt=A.sqrt, nan=NAN)
    spx, spy = c.real('spx'), c.real('spy')
    c.assume(z3.And(spx.e > 0, spy.e > 0))
    given = c.choose(2) == 0
    kw = {'x': 'y'}
    if given:
        kw['sample_period'] = given_sp = c.real('sp')

    def meter(tag, m, sp):
        o = M.Electric()
        o.sample_period = lambda: sp

        def power_series(**k):
            want = given_sp.e if given else z3.If(spx.e >= spy.e, spx.e, spy.e)
            v = k.get('sample_period')
            c.prove('the common sample period is the larger one, unless given',
                    z3.BoolVal(False) if v is None else to_real(lift(v)) == want)
            c.prove('the other arguments are passed on', {a: b for a, b in k.items() if a != 'sample_period'} == {'x': 'y'})
            return SymIter(W.n, lambda i: Chunk(W, i, {m: z3.RealVal(1)}), tag)
        o.power_series = power_series
        return o
    x = meter('px', (1, 0), spx)
    y = meter('py', (0, 1), spy)
    N = W.N(W.n)
    c.assume(N >= 0)
    mx, my = (W.mean('%s%s' % m, W.t[m](W.n) / to_real(N)) for m in [(1, 0), (0, 1)])
    polys = {'x': {(1, 0): z3.RealVal(1)}, 'y': {(0, 1): z3.RealVal(1)},
             'squares of x': {(2, 0): z3.RealVal(1), (1, 0): -2 * mx, (0, 0): mx * mx},
             'squares of y': {(0, 2): z3.RealVal(1), (0, 1): -2 * my, (0, 0): my * my},
             'products': {(1, 1): z3.RealVal(1), (1, 0): -my, (0, 1): -mx, (0, 0): mx * my}}

    totals = [('the number of rows', lambda k: W.N(k), lambda k: W.rows(k))]
    D = {}
    for nm, p in polys.items():
        if len(p) == 1:
            m = list(p)[0]
            totals.append(('the sum of the ' + nm, (lambda m: lambda k: W.t[m](k))(m), (lambda m: lambda k: W.change(m, k))(m)))
        else:
            W.name(nm, p)
            D[nm] = c.fresh_fun('D ' + nm, I, R)
            c.assume(D[nm](0) == 0)
            totals.append(('the sum of the ' + nm, D[nm], (lambda nm: lambda k: W.named_change(nm, k))(nm)))

    def late(k, ts):
        for _, t, d in ts:
            if any(t is x for x in D.values()):
                c.assume(t(k + 1) == t(k) + d(k))

    class Sums(Accumulate):
        generators = True

    def match(loop):
        import types
        from vc.loops import GenZip
        return isinstance(loop.it, (types.GeneratorType, GenZip)) or str(getattr(loop.it, 'tag', '')).startswith('zip(')

    E.loop_specs.append(Sums('sums', match, totals, W.unfold, late=late))
    E.loop_specs.append(PrevEnd(W, ('px', 'py')))
    n1 = to_real(N) - 1
    SX, SY, XY = (D[p](W.n) for p in ('squares of x', 'squares of y', 'products'))
    c.assume(z3.Implies(N >= 2, z3.And(SX > 0, SY > 0)))
    r = x.correlation(y, **kw)
    if r is NAN:
        c.prove('NaN only for fewer than two rows', N <= 1)
        return
    c.prove('NaN for fewer than two rows', N >= 2)
    v = c.sqrt(VNum(SX / n1)).e * c.sqrt(VNum(SY / n1)).e
    c.assume(v > 0)
    c.prove("Pearson's coefficient", to_real(lift(r)) * (n1 * v) == XY)
