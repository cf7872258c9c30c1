"""Models of numpy vectors (assumed contracts, see NOTES).

Arr is a 1-D vector: a concrete list of (symbolic) elements, or a pair (n, at)
of a symbolic length and a function from a z3 index to the element.  With a
concrete length every operation is exact; with a symbolic length the facts of
filter / sort / sum are instantiated at the indices that occur."""
import builtins
import z3
from . import core
from .core import (VNum, VNa, VBool, VTimestamp, VTimedelta, VSeq, Sym, Unsupported, PathEnd,
                   lift, to_real, mknum, mkbool, zb, ctx, both)
from .seqs import VList, SymIter, concrete_items, znum
from .models import note, used

NOTES = {
    'np.vector': 'numpy element-wise arithmetic, comparison and boolean operators act element by element; '
                 'floats are mathematical reals',
    'np.diff': 'np.diff(a)[i] = a[i+1] - a[i]',
    'np.filter': 'a[mask] and np.where(mask) keep exactly the positions where mask holds, in order',
    'np.sum': 'sum/mean are exact sums (order and rounding ignored)',
    'np.sort': 'argsort is a permutation that orders; searchsorted(side=left) is the number of smaller elements',
    'np.minmax': 'min/max/argmin/argmax return an extreme element / the first index of it',
}
for _k, _v in NOTES.items():
    note(_k, _v)

NAN = float('nan')


def isnan(x):
    """z3 Bool / bool: is the element missing"""
    from .models import NaT
    if isinstance(x, VNa):
        return x.na
    if isinstance(x, float) and x != x or x is None or x is NaT:
        return z3.BoolVal(True)
    return z3.BoolVal(False)


def ite(cond, a, b):
    """element-wise If without splitting the path when the kinds allow it"""
    cond = zb(cond)
    s = z3.simplify(cond)
    if z3.is_true(s):
        return a
    if z3.is_false(s):
        return b
    if a is b:
        return a
    if isinstance(a, (VBool, bool)) and isinstance(b, (VBool, bool)):
        return mkbool(z3.If(cond, zb(a), zb(b)))
    if isinstance(a, VTimestamp) and isinstance(b, VTimestamp):
        return VTimestamp(z3.If(cond, a.e, b.e), a.tz)
    if isinstance(a, VTimedelta) and isinstance(b, VTimedelta):
        return VTimedelta(z3.If(cond, a.e, b.e))
    try:
        (x, m), (y, k) = core.na_parts(a), core.na_parts(b)
    except Unsupported:
        x = None
    if x is not None and y is not None:
        x, y = both(x, y)
        return core.mkna(z3.If(cond, x, y), z3.If(cond, m, k))
    return a if ctx().branch(cond) else b


def conc(n):
    """python int of a length when it is concrete, else None"""
    if isinstance(n, int):
        return n
    if isinstance(n, VNum):
        n = n.e
    s = z3.simplify(n)
    return s.as_long() if z3.is_int_value(s) else None


_CAN = z3.Int('can!i')


class Facts(object):
    """per-path memo of filters, sorts, sums"""
    @staticmethod
    def memo(c):
        if not hasattr(c, 'arr_memo'):
            c.arr_memo = {}
        return c.arr_memo


class NotExpressible(Unsupported):
    pass


def expr_at(c, at, i):
    """at(i) without splitting or assuming (raises NotExpressible)"""
    c.nobranch += 1
    try:
        return at(i)
    except core.NoBranch:
        raise NotExpressible()
    finally:
        c.nobranch -= 1


def enc(v):
    if isinstance(v, VNa):
        return ('na', v.e.sexpr(), v.na.sexpr())
    if isinstance(v, (VNum, VBool, VTimestamp, VTimedelta)):
        return (type(v).__name__, z3.simplify(v.e).sexpr())
    return ('c', repr(v))


def key_of(c, n, at):
    try:
        return (z3.simplify(n).sexpr(),) + enc(expr_at(c, at, _CAN))
    except NotExpressible:
        return ('id', id(at), at)


class Filter(object):
    """positions of [0, n) where mask holds"""

    def __init__(self, c, n, mask):
        self.n, self.mask = n, mask
        k = c.names.get('filter', 0)
        c.names['filter'] = k + 1
        I = z3.IntSort()
        self.pos = z3.Function('pos!%d' % k, I, I)
        self.rank = z3.Function('rank!%d' % k, I, I)
        self.m = self.rank(n)
        self.js, self.is_, self.lemmas = [], [], []
        c.assume(z3.And(self.rank(z3.IntVal(0)) == 0, self.m >= 0, self.m <= n))

    def _seen(self, l, e):
        k = e.get_id()
        if any(k == x.get_id() for x in l):
            return True
        l.append(e)
        return False

    def at(self, j):
        """the position of the j-th hit, 0 <= j < m"""
        c = ctx()
        j = z3.simplify(j)
        if not c.nobranch and not self._seen(self.js, j):
            p = self.pos(j)
            c.assume(z3.Implies(z3.And(0 <= j, j < self.m),
                                z3.And(0 <= p, p < self.n, zb(self.mask(p)), self.rank(p) == j,
                                       self.rank(p + 1) == j + 1)))
            for k in self.js:
                if k is not j:
                    g = z3.And(0 <= j, j < self.m, 0 <= k, k < self.m)
                    c.assume(z3.Implies(g, (j < k) == (p < self.pos(k))))
            for i in self.is_:
                self._rel(c, i, j)
            self.inst(p)
        return self.pos(j)

    def _rel(self, c, i, j):
        c.assume(z3.Implies(z3.And(0 <= i, i <= self.n, 0 <= j, j < self.m),
                            (self.pos(j) < i) == (j < self.rank(i))))

    def inst(self, i):
        """facts about position i (0 <= i < n): rank step, and hit"""
        c = ctx()
        i = z3.simplify(i)
        if self._seen(self.is_, i):
            return
        r = self.rank(i)
        c.assume(z3.Implies(z3.And(0 <= i, i < self.n),
                            z3.And(0 <= r, r <= i, r <= self.m,
                                   self.rank(i + 1) == r + z3.If(zb(self.mask(i)), 1, 0),
                                   z3.Implies(zb(self.mask(i)), z3.And(self.pos(r) == i, r < self.m)))))
        for k in self.is_:
            if k is not i:
                g = z3.And(0 <= i, i <= self.n, 0 <= k, k <= self.n)
                c.assume(z3.Implies(z3.And(g, i <= k), self.rank(i) <= self.rank(k)))
                c.assume(z3.Implies(z3.And(g, k <= i), self.rank(k) <= self.rank(i)))
        for j in self.js:
            self._rel(c, i, j)
        for l in self.lemmas:
            l(i)


class Telescope(object):
    """Lemma (by induction on i): if for all i < n
    [mask1(i)] - [mask2(i)] = B(i+1) - B(i)  with B in {0, 1}, then
    rank1(i) - rank2(i) = B(i) - B(0) for all i <= n.  The step is checked by
    the solver for an arbitrary i; the conclusion is instantiated on demand."""

    def __init__(self, f1, f2, B):
        self.f1, self.f2, self.B = f1, f2, B
        f1.lemmas.append(self.fire)
        f2.lemmas.append(self.fire)
        self.done = []

    @staticmethod
    def attempt(c, f1, f2, B):
        i = c.fresh('tel', z3.IntSort())
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*c.pc)
        b = lambda x: z3.If(zb(x), 1, 0)
        try:
            step = b(expr_at(c, f1.mask, i)) - b(expr_at(c, f2.mask, i)) == b(B(i + 1)) - b(B(i))
        except NotExpressible:
            return None
        s.add(0 <= i, i < f1.n, z3.Or(f1.n != f2.n, z3.Not(step)))
        if s.check() != z3.unsat:
            return None
        return Telescope(f1, f2, B)

    def fire(self, i):
        c = ctx()
        i = z3.simplify(i)
        if any(i.get_id() == x.get_id() for x in self.done):
            return
        self.done.append(i)
        b = lambda x: z3.If(zb(x), 1, 0)
        c.assume(z3.Implies(z3.And(0 <= i, i <= self.f1.n),
                            self.f1.rank(i) - self.f2.rank(i) == b(self.B(i)) - b(self.B(z3.IntVal(0)))))
        self.f1.inst(i)
        self.f2.inst(i)


def filter_of(c, n, mask):
    memo = Facts.memo(c)
    k = ('filter',) + key_of(c, n, mask)
    if k not in memo:
        used('np.filter')
        memo[k] = Filter(c, n, mask)
        for h in getattr(c, 'filter_hooks', []):
            h(memo[k])
        memo.setdefault('filters', []).append(memo[k])
    return memo[k]


class SumTerm(object):
    def __init__(self, n, at, s):
        self.n, self.at, self.s = n, at, s


def seq_sum(a):
    n, at = a.seq() if isinstance(a, VSeq) else a
    c = ctx()
    used('np.sum')
    memo = Facts.memo(c)
    kind = None
    try:
        kind = expr_at(c, at, _CAN)
    except NotExpressible:
        pass
    k = ('sum',) + key_of(c, n, at)
    if k not in memo:
        sort = z3.IntSort() if isinstance(kind, (VBool, bool)) or isinstance(kind, VNum) and kind.is_int \
            else z3.RealSort()
        s = c.fresh('sum', sort)
        c.assume(z3.Implies(n <= 0, s == 0))
        if kind is not None and nonneg(c, n, at):
            c.assume(s >= 0)
        memo[k] = SumTerm(n, at, s)
        memo.setdefault('sums', []).append(memo[k])
    t = memo[k]
    if isinstance(kind, VTimedelta):
        return VTimedelta(t.s)
    return VNum(t.s)


def nonneg(c, n, at):
    """every element is >= 0 (checked for an arbitrary index): so is the sum"""
    i = z3.Int('nn!i')
    try:
        v = expr_at(c, at, i)
        if isinstance(v, (VBool, bool)):
            return True
        e = num_of(v)
    except (NotExpressible, Unsupported):
        return False
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*c.pc)
    s.add(0 <= i, i < n, e < 0)
    return s.check() == z3.unsat


def num_of(v):
    """element -> z3 term; a missing one counts 0 (the pandas sum)"""
    if isinstance(v, VNa):
        return z3.If(v.na, z3.RealVal(0), v.e)
    if isinstance(v, float) and v != v:
        return z3.RealVal(0)
    if isinstance(v, (VTimedelta, VTimestamp)):
        return v.e
    return to_real(lift(v))


def spec_sum(c, label, n, at, ratios=(1,), sym=()):
    """The specification sum of at(0..n-1); every sum the code formed over the
    same range whose elements are proportional to it is related to it (the
    congruence rule of finite sums).  Returns the z3 term."""
    nn = conc(n)
    if nn is not None:
        s = z3.RealVal(0)
        for i in range(nn):
            s = s + num_of(at(z3.IntVal(i)))
        return s
    S = c.fresh('specsum', z3.RealSort())
    c.assume(z3.Implies(n <= 0, S == 0))
    if nonneg(c, n, at):
        c.assume(S >= 0)
    i = c.fresh('si', z3.IntSort())
    for t in list(Facts.memo(c).get('sums', [])):
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*c.pc)
        s.add(0 <= i, i < n)
        if s.check(t.n != n) != z3.unsat:
            continue
        npc = len(c.pc)
        try:
            code = num_of(t.at(i))
            spec = num_of(at(i))
        except NotExpressible:
            continue
        s.add(*c.pc[npc:])
        for r in [core.rv(x) for x in ratios] + list(sym):
            if s.check(code * r != spec) == z3.unsat:
                c.assume(to_real(t.s) * r == S)
                Facts.memo(c).setdefault('sumok', []).append(label)
                break
    for f in list(Facts.memo(c).get('filters', [])):
        # the number of positions a filter keeps is the sum of its indicator
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*c.pc)
        s.add(0 <= i, i < n)
        if s.check(f.n != n) != z3.unsat:
            continue
        try:
            ind = z3.If(zb(expr_at(c, f.mask, i)), z3.RealVal(1), z3.RealVal(0))
            spec = num_of(expr_at(c, at, i))
        except NotExpressible:
            continue
        if s.check(ind != spec) == z3.unsat:
            c.assume(z3.ToReal(f.m) == S)
    return S


# --------------------------------------------------------------------------

def _num(x):
    return lift(x) is not None if not isinstance(x, VNa) else True


def is_scalar(x):
    from .models import NaT
    return isinstance(x, (Sym, int, float, bool, str, core.Fraction)) or x is None or x is NaT or \
        type(x).__module__ == 'numpy'


class _DType(object):
    def __init__(self, name):
        self.name = name
        self.type = name
        self.kind = {'int64': 'i', 'bool': 'b', 'float64': 'f'}.get(name, 'M')

    def __eq__(self, o):
        return getattr(o, 'name', o) == self.name

    def __hash__(self):
        return hash(self.name)


class Arr(VSeq):
    _vc_track = True

    def __init__(self, n, at=None, tag='', items=None):
        k = conc(n) if items is None else len(items)
        self.version = 0
        self.tag = tag
        if items is None and k is not None:
            items = [at(z3.IntVal(i)) for i in range(k)]
        self.items = items
        self._n = n if items is None else None
        self._at = at if items is None else None

    # -- views
    @property
    def zn(self):
        return z3.IntVal(len(self.items)) if self.items is not None else self._n

    def seq(self):
        if self.items is not None:
            its = list(self.items)

            def at(i):
                i = z3.simplify(i)
                if z3.is_int_value(i):
                    k = i.as_long()
                    # outside the vector only in the dead arm of an If
                    return its[k] if 0 <= k < len(its) else its[-1]
                r = its[-1] if its else None
                for j in range(len(its) - 2, -1, -1):
                    r = ite(i == j, its[j], r)
                return r
            return z3.IntVal(len(its)), at
        return self._n, self._at

    def ev(self, i):
        """element at z3 index i"""
        return self.seq()[1](i if isinstance(i, z3.ExprRef) else z3.IntVal(i))

    def vlen(self):
        return len(self.items) if self.items is not None else mknum(self._n)

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        raise Unsupported('len() of a symbolic vector in C code')

    def __iter__(self):
        if self.items is None:
            raise Unsupported('iteration over a symbolic vector without a loop contract')
        return iter(list(self.items))

    def __bool__(self):
        if self.items is not None and len(self.items) == 1:
            return bool(self.items[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    size = property(vlen)
    shape = property(lambda s: (s.vlen(),))
    ndim = 1
    values = property(lambda s: s)
    T = property(lambda s: s)

    @property
    def empty(self):
        v = self.vlen()
        return v == 0

    def like(self, n=None, at=None, items=None):
        r = type(self).__new__(type(self)) if type(self) is Arr else Arr.__new__(Arr)
        Arr.__init__(r, n, at, self.tag, items)
        return r

    def copy(self, *a, **k):
        return self.like(self._n, self._at, None if self.items is None else list(self.items))

    def tolist(self):
        return VList(self.items) if self.items is not None else \
            VList.symbolic(self._n, self._at, self.tag)
    to_numpy = lambda self, *a, **k: self
    to_list = tolist

    @property
    def dtype(self):
        if self.items is not None:
            v = self.items[0] if self.items else 0.0
        else:
            v = expr_at(ctx(), self._at, _CAN)
        if isinstance(v, (bool, VBool)):
            return _DType('bool')
        if isinstance(v, int) or type(v) is VNum and v.is_int:
            return _DType('int64')
        return _DType('float64')

    # -- element-wise
    def map(self, f):
        if self.items is not None:
            return self.like(items=[f(x) for x in self.items])
        at = self._at
        return self.like(self._n, lambda i: f(at(i)))

    def zip(self, o, f):
        used('np.vector')
        if isinstance(o, (list, tuple, VList)):
            o = array(o)
        if isinstance(o, VSeq) and not isinstance(o, Arr):
            o = Arr(*o.seq())
        if not isinstance(o, Arr):
            if not is_scalar(o):
                return NotImplemented
            return self.map(lambda x: f(x, o))
        a, b = self.vlen(), o.vlen()
        if not (a == b):
            if o.items is not None and len(o.items) == 1:
                return self.map(lambda x: f(x, o.items[0]))
            if self.items is not None and len(self.items) == 1:
                return o.map(lambda x: f(self.items[0], x))
            raise ValueError('operands could not be broadcast together')
        if self.items is not None and o.items is not None:
            return self.like(items=[f(x, y) for x, y in builtins.zip(self.items, o.items)])
        n1, at1 = self.seq()
        n2, at2 = o.seq()
        return self.like(n1 if self.items is None else n2, lambda i: f(at1(i), at2(i)))

    def __add__(self, o): return self.zip(o, lambda a, b: a + b)
    def __radd__(self, o): return self.zip(o, lambda a, b: b + a)
    def __sub__(self, o): return self.zip(o, lambda a, b: a - b)
    def __rsub__(self, o): return self.zip(o, lambda a, b: b - a)
    def __mul__(self, o): return self.zip(o, lambda a, b: a * b)
    def __rmul__(self, o): return self.zip(o, lambda a, b: b * a)
    def __truediv__(self, o): return self.zip(o, ediv)
    def __rtruediv__(self, o): return self.zip(o, lambda a, b: ediv(b, a))
    def __pow__(self, o): return self.zip(o, lambda a, b: a ** b)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(abs)
    abs = __abs__
    def __lt__(self, o): return self.zip(o, lambda a, b: a < b)
    def __le__(self, o): return self.zip(o, lambda a, b: a <= b)
    def __gt__(self, o): return self.zip(o, lambda a, b: a > b)
    def __ge__(self, o): return self.zip(o, lambda a, b: a >= b)
    def __eq__(self, o): return self.zip(o, lambda a, b: a == b)
    def __ne__(self, o): return self.zip(o, lambda a, b: a != b)
    def __and__(self, o): return self.zip(o, lambda a, b: mkbool(z3.And(zb(a), zb(b))))
    def __or__(self, o): return self.zip(o, lambda a, b: mkbool(z3.Or(zb(a), zb(b))))
    def __xor__(self, o): return self.zip(o, lambda a, b: mkbool(z3.Xor(zb(a), zb(b))))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return self.map(lambda a: mkbool(z3.Not(zb(a))))
    __hash__ = None

    def astype(self, t, **k):
        t = getattr(t, 'name', t)
        if t in ('bool', bool) or getattr(t, '_real', None) is bool:
            return self.map(lambda a: a if isinstance(a, (VBool, bool)) else mkbool(znum(a) != 0))
        num = ('int', 'int64', 'int32', 'i8', 'int8')
        if t in num or t is int or getattr(t, '_real', None) is int:
            def f(a):
                if isinstance(a, (VBool, bool)):
                    return mknum(lift(a))
                if isinstance(a, VNum):
                    return a.__trunc__()
                return int(a)
            return self.map(f)

        def g(a):
            if isinstance(a, (VBool, bool)):
                return mknum(to_real(lift(a)))
            return a
        return self.map(g)

    def item(self):
        if self.items is not None and len(self.items) == 1:
            return self.items[0]
        raise Unsupported('item() of a vector')

    # -- indexing
    def __getitem__(self, i):
        if isinstance(i, tuple):
            if len(i) == 1:
                return self[i[0]]
            raise Unsupported('2-d index')
        if isinstance(i, slice):
            return self._slice(i)
        if isinstance(i, (list, VList)):
            i = array(i)
        if isinstance(i, Arr):
            probe = i.items[0] if i.items else (False if i.items is not None else
                                                expr_at(ctx(), i._at, _CAN))
            if isinstance(probe, (VBool, bool)):
                if i.items is not None and not i.items:
                    return self.like(items=[])
                return self._mask(i)
            return self._take(i)
        if hasattr(i, 'values') and not isinstance(i, Sym) and isinstance(i.values, Arr):
            return self[i.values]
        n = self.zn
        e = znum(i)
        c = ctx()
        k = conc(n)
        if k is not None and not isinstance(i, VNum):
            return self.items[i]
        neg = (not isinstance(i, VNum) and i < 0) or (isinstance(i, VNum) and c.branch(e < 0))
        if neg:
            e = n + e
        if c.branch(z3.Or(e < 0, e >= n)):
            raise IndexError('index is out of bounds')
        return self.ev(z3.simplify(e))

    def _slice(self, s):
        simple = not any(isinstance(x, VNum) for x in (s.start, s.stop, s.step))
        if self.items is not None and simple:
            return self.like(items=self.items[s])
        if s.step == -1 and s.start is None and s.stop is None:
            n, at = self.seq()
            return self.like(n, lambda i: at(n - 1 - i))
        if s.step not in (None, 1):
            raise Unsupported('stepped slice of a symbolic vector')
        n, at = self.seq()
        c = ctx()

        def norm(x, default):
            if x is None:
                return default
            e = znum(x)
            if c.branch(e < 0):
                e = z3.simplify(e + n)
                if c.branch(e < 0):
                    e = z3.IntVal(0)
            if c.branch(e > n):
                e = n
            return e
        a, b = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
        if c.branch(b <= a):
            return self.like(items=[])
        return self.like(z3.simplify(b - a), lambda i: at(z3.simplify(a + i)))

    def _mask(self, m):
        if not (self.vlen() == m.vlen()):
            raise IndexError('boolean index did not match')
        if self.items is not None and m.items is not None:
            return self.like(items=[x for x, b in builtins.zip(self.items, m.items) if bool(b)])
        c = ctx()
        n, at = self.seq()
        mn, mat = m.seq()
        f = filter_of(c, mn, mat)
        r = self.like(f.m, lambda j: at(f.at(j)))
        r.filter = f
        return r

    def _take(self, ix):
        n, at = self.seq()
        c = ctx()

        def g(x):
            e = znum(x)
            if conc(e) is not None:
                k = conc(e)
                return self.items[k] if self.items is not None else at(e if k >= 0 else n + e)
            # numpy raises IndexError outside [-n, n): an obligation of the caller
            return at(z3.If(e < 0, e + n, e))
        if ix.items is not None and self.items is not None:
            for x in ix.items:
                e = znum(x)
                if c.branch(z3.Or(e < -len(self.items), e >= len(self.items))):
                    raise IndexError('index out of bounds')
        elif self.items is None or ix.items is None:
            i = c.fresh('take', z3.IntSort())
            s = z3.Solver()
            s.set('timeout', 4000)
            xn, xat = ix.seq()
            e = znum(xat(i))
            s.add(*c.pc)
            s.add(0 <= i, i < xn, z3.Or(e < -n, e >= n))
            if s.check() != z3.unsat:
                raise Unsupported('fancy index not shown to be in bounds')
        return ix.map(g)

    def take(self, ix, *a, **k):
        return self[ix]

    def __setitem__(self, i, v):
        self.version += 1
        if isinstance(i, (list, VList)):
            i = array(i)
        if isinstance(i, Arr) and i.items is not None and all(isinstance(b, (bool, VBool)) for b in i.items) \
                and self.items is not None:
            k = 0
            for j, b in enumerate(i.items):
                if isinstance(v, Arr):
                    if bool(b):
                        self.items[j] = v.items[k]
                        k += 1
                else:
                    self.items[j] = ite(zb(b), v, self.items[j])
            return
        if isinstance(i, Arr) and not isinstance(v, Arr):
            n, at = self.seq()
            mn, mat = i.seq()
            p = expr_at(ctx(), mat, _CAN) if i.items is None else i.items[0]
            if isinstance(p, (VBool, bool)):
                self.items, self._n = None, n
                self._at = lambda j: ite(zb(mat(j)), v, at(j))
                return
            raise Unsupported('assignment through an index vector')
        if isinstance(i, slice):
            if self.items is None or any(isinstance(x, VNum) for x in (i.start, i.stop, i.step)):
                n, at = self.seq()
                c = ctx()
                a = znum(i.start) if i.start is not None else z3.IntVal(0)
                b = znum(i.stop) if i.stop is not None else n
                a = z3.If(a < 0, a + n, a)
                b = z3.If(b < 0, b + n, b)
                if isinstance(v, Arr):
                    vn, vat = v.seq()
                else:
                    vat = lambda j: v
                self.items, self._n = None, n
                self._at = lambda j: ite(z3.And(a <= j, j < b), vat(j - a), at(j))
                return
            r = range(len(self.items))[i]
            for q, j in enumerate(r):
                self.items[j] = v.items[q] if isinstance(v, Arr) else (
                    v[q] if isinstance(v, (list, tuple, VList)) else v)
            return
        if self.items is not None and not isinstance(i, VNum):
            self.items[i] = v
            return
        n, at = self.seq()
        e = znum(i)
        c = ctx()
        if c.branch(e < 0):
            e = e + n
        if c.branch(z3.Or(e < 0, e >= n)):
            raise IndexError('index out of bounds')
        if self.items is not None:
            self.items = [ite(e == j, v, x) for j, x in enumerate(self.items)]
            return
        self._at = lambda j: ite(j == e, v, at(j))

    # -- reductions
    def sum(self, *a, **k):
        used('np.sum')
        if self.items is not None:
            if not self.items:
                return 0.0
            s = self._nz(self.items[0])
            for x in self.items[1:]:
                s = s + self._nz(x)
            return s
        return seq_sum(self.map(self._nz))

    @staticmethod
    def _nz(x):
        """numpy: a missing element makes the sum missing"""
        if isinstance(x, VNa):
            raise Unsupported('numpy sum over possibly missing elements')
        if isinstance(x, (VBool, bool)):
            return mknum(lift(x))
        return x

    def mean(self, *a, **k):
        n = self.vlen()
        if n == 0:
            return NAN
        s = self.sum()
        if isinstance(s, VTimedelta):
            return s / n
        return ediv(s, n)

    def any(self, *a, **k):
        from .seqs import v_any
        return v_any(self)

    def all(self, *a, **k):
        from .seqs import v_all
        return v_all(self)

    def min(self, *a, **k):
        return seq_minmax(self, 'min')

    def max(self, *a, **k):
        return seq_minmax(self, 'max')

    def argmin(self, *a, **k):
        return seq_arg(self, 'min')

    def argmax(self, *a, **k):
        return seq_arg(self, 'max')

    def clip(self, min=None, max=None, out=None, **k):
        return self.map(lambda x: clip1(x, min, max))

    def nonzero(self):
        return where(self)

    def flatten(self, *a, **k):
        return self
    ravel = squeeze = flatten

    def reshape(self, *a, **k):
        s = a[0] if len(a) == 1 else a
        if s == -1 or isinstance(s, tuple) and len(s) == 1:
            return self
        raise Unsupported('reshape')

    def argsort(self, *a, **k):
        return argsort(self)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def cumsum(self, *a, **k):
        if self.items is None:
            raise Unsupported('cumsum of a symbolic vector')
        out, s = [], 0
        for x in self.items:
            s = s + self._nz(x)
            out.append(s)
        return self.like(items=out)

    def __deepcopy__(self, memo):
        return self.copy()

    def model_value(self, f):
        if self.items is None:
            return '<vector>'
        return [f(x) for x in self.items]

    def __repr__(self):
        return '<Arr %s>' % (self.items if self.items is not None else 'n=%s' % self._n)


def ediv(a, b):
    """numpy division: no exception at zero (the quotient is then unspecified)"""
    if isinstance(a, VTimedelta) and isinstance(b, VTimedelta):
        return mknum(a.e / b.e)
    if isinstance(a, VTimedelta):
        return VTimedelta(a.e / to_real(lift(b)))
    return core.na_bin(a, b, lambda x, y: to_real(x) / to_real(y))


def clip1(x, lo, hi):
    if lo is not None:
        x = ite(zb(x < lo), lo, x)
    if hi is not None:
        x = ite(zb(x > hi), hi, x)
    return x


def seq_minmax(a, op):
    n, at = a.seq()
    k = conc(n)
    if k is not None:
        from .seqs import _fold_minmax
        its = [at(z3.IntVal(i)) for i in range(k)]
        if its and any(isinstance(x, (VNa,)) or isinstance(x, float) and x != x for x in its):
            raise Unsupported('min/max over missing elements')
        return _fold_minmax(its, op, None)
    c = ctx()
    used('np.minmax')
    if c.branch(n <= 0):
        raise ValueError('zero-size array to reduction operation')
    if getattr(a, 'filter', None) is not None:
        # positions of a mask are increasing
        return at(z3.IntVal(0) if op == 'min' else z3.simplify(n - 1))
    i = seq_arg(a, op)
    return at(i.e if isinstance(i, VNum) else z3.IntVal(i))


def seq_arg(a, op):
    n, at = a.seq()
    c = ctx()
    used('np.minmax')
    k = conc(n)
    lt = (lambda x, y: x < y) if op == 'min' else (lambda x, y: x > y)
    if k is not None:
        if k == 0:
            raise ValueError('attempt to get arg of an empty sequence')
        best, bi = at(z3.IntVal(0)), z3.IntVal(0)
        for j in range(1, k):
            x = at(z3.IntVal(j))
            w = zb(lt(x, best))
            best, bi = ite(w, x, best), z3.If(w, z3.IntVal(j), bi)
        return mknum(bi)
    memo = Facts.memo(c)
    key = ('arg', op) + key_of(c, n, at)
    if key not in memo:
        i = c.fresh('arg', z3.IntSort())
        c.assume(z3.And(0 <= i, i < n))
        q = z3.Int('am!%d' % c.names.setdefault('am', 0))
        c.names['am'] += 1
        try:
            c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(
                z3.Not(zb(lt(expr_at(c, at, q), expr_at(c, at, i)))),
                z3.Implies(q < i, zb(lt(expr_at(c, at, i), expr_at(c, at, q))))))))
        except NotExpressible:
            raise Unsupported('arg%s of a vector' % op)
        memo[key] = i
    return VNum(memo[key])


# --------------------------------------------------------------------------
# functions of the numpy name space
# --------------------------------------------------------------------------

def array(x, *a, **k):
    if isinstance(x, Arr):
        return x.copy()
    if hasattr(x, 'values') and isinstance(getattr(x, 'values'), Arr):
        return x.values.copy()
    if isinstance(x, VSeq):
        it = concrete_items(x)
        if it is None:
            n, at = x.seq()
            return Arr(n, at, getattr(x, 'tag', ''))
        x = it
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if x and isinstance(x[0], (list, VList, Arr, tuple)):
            raise Unsupported('2-d array')
        return Arr(None, items=x)
    if is_scalar(x):
        return Arr(None, items=[x])
    raise Unsupported('np.array(%r)' % type(x))


def asarr(x):
    return x if isinstance(x, Arr) else array(x)


def diff(a, n=1, **k):
    used('np.diff')
    if n != 1:
        raise Unsupported('higher differences')
    a = asarr(a)

    def d(y, x):
        if isinstance(y, (VBool, bool)):
            return mkbool(z3.Xor(zb(y), zb(x)))
        return y - x
    if a.items is not None:
        return Arr(None, items=[d(a.items[i + 1], a.items[i]) for i in range(len(a.items) - 1)])
    c = ctx()
    nn = a._n
    if c.branch(nn <= 1):
        return Arr(None, items=[])
    at = a._at
    return Arr(z3.simplify(nn - 1), lambda i: d(at(z3.simplify(i + 1)), at(i)))


def concatenate(l, axis=0):
    parts = [asarr(p) for p in (concrete_items(l) if isinstance(l, VSeq) else l)]
    if any(isinstance(p, Arr) and (p.items is None or p.items) and _kind(p) == 'num' for p in parts):
        parts = [p.astype('float') if _kind(p) == 'bool' else p for p in parts]
    if all(p.items is not None for p in parts):
        return Arr(None, items=[x for p in parts for x in p.items])
    r = parts[0]
    for p in parts[1:]:
        if p.items is not None and not p.items:
            continue
        if r.items is not None and not r.items:
            r = p
            continue
        n1, a1 = r.seq()
        n2, a2 = p.seq()
        r = Arr(z3.simplify(n1 + n2), (lambda n1, a1, a2: lambda i: ite(i < n1, a1(_cl(i, n1)), a2(z3.simplify(i - n1))))(n1, a1, a2))
    return r


def _cl(i, n):
    return i


def _kind(p):
    if p.items is not None and not p.items:
        return '?'
    try:
        v = p.items[0] if p.items is not None else expr_at(ctx(), p._at, _CAN)
    except NotExpressible:
        return '?'
    if isinstance(v, (VBool, bool)):
        return 'bool'
    if _num(v):
        return 'num'
    return '?'


def where(cond, *xy):
    cond = asarr(cond)
    if xy:
        a, b = xy
        if not is_scalar(a):
            a = asarr(a)
        if not is_scalar(b):
            b = asarr(b)
        if is_scalar(a) and is_scalar(b):
            return cond.map(lambda m: ite(zb(m), a, b))
        if is_scalar(a):
            return cond.zip(b, lambda m, y: ite(zb(m), a, y))
        if is_scalar(b):
            return cond.zip(a, lambda m, x: ite(zb(m), x, b))
        t = cond.zip(a, lambda m, x: (m, x))
        return t.zip(b, lambda mx, y: ite(zb(mx[0]), mx[1], y))
    b = cond.map(lambda x: x if isinstance(x, (VBool, bool)) else mkbool(znum(x) != 0))
    if b.items is not None:
        return (Arr(None, items=[i for i, x in enumerate(b.items) if bool(x)]),)
    f = filter_of(ctx(), b._n, b._at)
    r = Arr(f.m, lambda j: mknum(f.at(j)))
    r.filter = f
    return (r,)


class Perm(object):
    """argsort of a symbolic vector"""


def argsort(a, *args, **k):
    a = asarr(a)
    used('np.sort')
    c = ctx()
    if a.items is not None:
        # exact: insertion with path splitting
        order = []
        for i, x in enumerate(a.items):
            j = len(order)
            while j > 0 and bool(x < a.items[order[j - 1]]):
                j -= 1
            order.insert(j, i)
        return Arr(None, items=order)
    memo = Facts.memo(c)
    n, at = a.seq()
    key = ('argsort',) + key_of(c, n, at)
    if key not in memo:
        kk = c.names.get('perm', 0)
        c.names['perm'] = kk + 1
        I = z3.IntSort()
        P = Perm()
        P.p = z3.Function('perm!%d' % kk, I, I)
        P.q = z3.Function('iperm!%d' % kk, I, I)
        P.n = n
        i, j = z3.Ints('pi pj')
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                           z3.And(0 <= P.p(i), P.p(i) < n, P.q(P.p(i)) == i))))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                           z3.And(0 <= P.q(i), P.q(i) < n, P.p(P.q(i)) == i))))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n),
                                              zb(expr_at(c, at, P.p(i)) <= expr_at(c, at, P.p(j))))))
        memo[key] = P
    P = memo[key]
    r = Arr(n, lambda i: mknum(P.p(i)))
    r.perm = P
    return r


def sort(a, *args, **k):
    a = asarr(a)
    return a[argsort(a)]


def searchsorted(a, v, side='left', sorter=None):
    """number of elements of the sorted vector a that are < v (left) / <= v"""
    used('np.sort')
    a = asarr(a)
    c = ctx()
    n, at = a.seq()
    k = conc(n)
    before = (lambda x, y: x < y) if side == 'left' else (lambda x, y: x <= y)

    def one(x):
        if k is not None:
            e = z3.IntVal(0)
            for i in range(k):
                e = e + z3.If(zb(before(at(z3.IntVal(i)), x)), 1, 0)
            return mknum(e)
        xe = x.e if isinstance(x, (VTimestamp, VTimedelta)) else to_real(lift(x))
        memo = Facts.memo(c)
        key = ('ss', side, type(x).__name__) + key_of(c, n, at)
        if key not in memo:
            kk = c.names.get('ss', 0)
            c.names['ss'] = kk + 1
            memo[key] = (z3.Function('ss!%d' % kk, z3.RealSort(), z3.IntSort()), [])
        f, seen = memo[key]
        if c.nobranch or any(xe.eq(y) for y in seen):
            return VNum(f(xe))
        seen.append(xe)
        i = z3.Int('ssi')
        r = f(xe)
        c.assume(z3.And(0 <= r, r <= n))
        try:
            bf = zb(before(expr_at(c, at, i), x))
            c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), bf == (i < r))))
        except NotExpressible:
            raise Unsupported('searchsorted')
        c.assume(z3.Implies(r > 0, zb(before(at(r - 1), x))))
        c.assume(z3.Implies(r < n, z3.Not(zb(before(at(r), x)))))
        return VNum(r)
    if is_scalar(v):
        return one(v)
    return asarr(v).map(one)


def clip(a, lo=None, hi=None, **k):
    lo = k.get('a_min', k.get('min', lo))
    hi = k.get('a_max', k.get('max', hi))
    return asarr(a).clip(lo, hi) if not is_scalar(a) else clip1(a, lo, hi)


def full(n, v, *a, **k):
    if isinstance(n, tuple):
        if len(n) != 1:
            raise Unsupported('2-d array')
        n = n[0]
    if isinstance(n, VNum):
        return Arr(z3.If(n.e > 0, n.e, 0), lambda i: v)
    return Arr(None, items=[v] * n)


def sqrt(x):
    if is_scalar(x):
        if isinstance(x, (int, float)):
            import math
            return math.sqrt(x)
        return ctx().sqrt(x)
    return asarr(x).map(lambda v: ctx().sqrt(v))


def elem(f):
    def g(x, *a, **k):
        if is_scalar(x):
            return f(x)
        return asarr(x).map(f) if not hasattr(x, 'map_values') else x.map_values(f)
    return g


def binary(f):
    def g(a, b, *r, **k):
        if is_scalar(a) and is_scalar(b):
            return f(a, b)
        if is_scalar(a):
            return asarr(b).zip(a, lambda y, x: f(x, y))
        return asarr(a).zip(b, f)
    return g


def arange(*a, **k):
    from .seqs import v_range
    r = v_range(*a)
    if isinstance(r, range):
        return Arr(None, items=list(r))
    return Arr(*r.seq())


def red(name):
    def g(a, *r, **k):
        if isinstance(a, tuple) and len(a) == 1 and isinstance(a[0], Arr):
            a = a[0]
        if isinstance(a, VSeq) and not isinstance(a, Arr) or isinstance(a, (list, tuple)):
            a = asarr(a)
        if not isinstance(a, VSeq):
            return getattr(a, name)(*r, **k)
        return getattr(a, name)()
    g.__name__ = name
    return g


def np_isnan(x):
    return mkbool(isnan(x))


def insert(a, pos, v):
    a = asarr(a)
    if pos == 0:
        return concatenate([array([v]) if is_scalar(v) else asarr(v), a])
    raise Unsupported('np.insert')


def np_append(a, v):
    return concatenate([asarr(a), array([v]) if is_scalar(v) else asarr(v)])


def td64(x=None, unit=None):
    scale = {'s': 1, 'ms': core.Fraction(1, 1000), 'us': core.Fraction(1, 10**6),
             'ns': core.Fraction(1, 10**9), 'm': 60, 'h': 3600, 'D': 86400}
    if isinstance(x, (int,)) and unit in scale:
        return VTimedelta(core.rv(scale[unit]) * x)
    raise Unsupported('np.timedelta64(%r, %r)' % (x, unit))


class _DT(object):
    def __init__(self, n):
        self.name = n
        self.__name__ = n

    def __call__(self, x=0, *a):
        from .seqs import v_int, v_float
        return (v_int if 'int' in self.name else v_float)(x)

    def __instancecheck__(self, o):
        return False


def ceil_scalar(x, floor=False):
    """ceil / floor as an integer m with m-1 < x <= m; for a quotient a/b with
    b > 0 also in product form (a consequence, spared the solver)"""
    if not isinstance(x, VNum):
        import math
        return float((math.floor if floor else math.ceil)(x))
    if x.is_int:
        return VNum(to_real(x.e))
    c = ctx()
    m = c.fresh('ceil', z3.IntSort())
    r = z3.ToReal(m)
    lo, hi = (r, r + 1) if floor else (r - 1, r)
    c.assume(z3.And(lo <= x.e, x.e < hi) if floor else z3.And(lo < x.e, x.e <= hi))
    e = x.e
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        a, b = e.arg(0), e.arg(1)
        c.assume(z3.Implies(b > 0, z3.And(lo * b <= a, a < hi * b) if floor else z3.And(lo * b < a, a <= hi * b)))
        ia, ib = (t.arg(0) if z3.is_app_of(t, z3.Z3_OP_TO_REAL) else None for t in (a, b))
        if ia is not None and ib is not None:
            c.assume(z3.Implies(ib > 0, z3.And(m * ib <= ia, ia < (m + 1) * ib) if floor else
                                z3.And((m - 1) * ib < ia, ia <= m * ib)))
    v = VNum(r)
    return v


def install(pd, np, engine):
    np.__dict__.update(dict(
        ndarray=Arr, array=array, asarray=asarr, diff=diff, concatenate=concatenate, where=where,
        nonzero=lambda a: where(a), flatnonzero=lambda a: where(a)[0], argwhere=None,
        argsort=argsort, sort=sort, searchsorted=searchsorted, clip=clip, sqrt=sqrt,
        zeros=lambda n, *a, **k: full(n, 0.0), ones=lambda n, *a, **k: full(n, 1.0), full=full,
        empty=lambda n, *a, **k: full(n, 0.0),
        zeros_like=lambda a, *r, **k: full(asarr(a).vlen(), 0.0),
        ones_like=lambda a, *r, **k: full(asarr(a).vlen(), 1.0),
        arange=arange, abs=elem(abs), absolute=elem(abs), fabs=elem(abs), isnan=elem(np_isnan), square=elem(lambda x: x * x),
        logical_not=elem(lambda a: mkbool(z3.Not(zb(a)))),
        logical_and=binary(lambda a, b: mkbool(z3.And(zb(a), zb(b)))),
        logical_or=binary(lambda a, b: mkbool(z3.Or(zb(a), zb(b)))),
        subtract=binary(lambda a, b: a - b), add=binary(lambda a, b: a + b),
        multiply=binary(lambda a, b: a * b), divide=binary(ediv), true_divide=binary(ediv),
        minimum=binary(lambda a, b: ite(zb(b < a), b, a)), maximum=binary(lambda a, b: ite(zb(b > a), b, a)),
        less_equal=binary(lambda a, b: a <= b), less=binary(lambda a, b: a < b),
        greater=binary(lambda a, b: a > b), greater_equal=binary(lambda a, b: a >= b),
        equal=binary(lambda a, b: a == b),
        sum=red('sum'), mean=red('mean'), any=red('any'), all=red('all'), min=red('min'),
        max=red('max'), amin=red('min'), amax=red('max'), argmin=red('argmin'), argmax=red('argmax'),
        cumsum=red('cumsum'), average=red('mean'),
        dot=lambda a, b: (asarr(a) * asarr(b)).sum(),
        insert=insert, append=np_append, hstack=concatenate, timedelta64=td64,
        nan=NAN, NaN=None, inf=float('inf'), pi=3.141592653589793,
        int64=_DT('int64'), int32=_DT('int32'), float64=_DT('float64'), float32=_DT('float32'),
        bool_=_DT('bool'), ceil=elem(ceil_scalar), floor=elem(lambda x: ceil_scalar(x, True))))
    del np.__dict__['NaN'], np.__dict__['argwhere']
    from . import frames
    frames.install(pd, np, engine)
