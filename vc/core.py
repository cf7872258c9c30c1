"""Deductive core: symbolic values, path enumeration, obligations.

The engine runs the *real* functions of /repo (source re-read and compiled on
every run, see loader.py) in CPython on symbolic values.  Every branch whose
condition is symbolic is explored both ways (the path condition goes to z3);
every loop over an input of unknown length is cut by an invariant (loops.py).
A postcondition therefore becomes one obligation  pc => post  per path, and
the union of the paths covers all inputs and all iterations.
"""
import time
from fractions import Fraction
import z3

z3.z3.Z3_DEBUG = False      # argument checks of the Python API only
z3.set_param('smt.random_seed', 7)
z3.set_param('sat.random_seed', 7)


class PathEnd(BaseException):
    """This path needs no further exploration (infeasible, or loop cut)."""


class Unsupported(BaseException):
    """The source left the subset the engine models: tool limit, not a verdict."""


class Budget(BaseException):
    """Path / time budget of a unit exhausted: tool limit."""


class Restart(BaseException):
    """A loop frame had to be widened: start the unit again."""


class NoBranch(BaseException):
    """A term had to be built without splitting paths, and could not."""


class _Unbound(object):
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()

CUR = None           # the running Ctx


def ctx():
    return CUR


# --------------------------------------------------------------------------
# z3 helpers
# --------------------------------------------------------------------------

def rv(x):
    """Exact rational z3 constant of a Python number."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    fr = Fraction(x)
    return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) \
        if fr.denominator != 1 else z3.RealVal(fr.numerator)


def to_real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def lift(x):
    """Python number or VNum -> z3 arithmetic term (None if not a number)."""
    if isinstance(x, VNa):
        raise Unsupported('a possibly missing number where a number is needed')
    if isinstance(x, VNum):
        return x.e
    if isinstance(x, VBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return rv(x)
    if isinstance(x, Fraction):
        return rv(x)
    try:
        import numpy as _np
        if isinstance(x, _np.integer):
            return z3.IntVal(int(x))
        if isinstance(x, _np.floating):
            return rv(float(x))
    except ImportError:
        pass
    return None


def both(a, b):
    if a.sort() == b.sort():
        return a, b
    return to_real(a), to_real(b)


def zb(x):
    """Python bool / VBool / z3 Bool -> z3 Bool."""
    if isinstance(x, VBool):
        return x.e
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('not a boolean: %r' % (x,))


def mkbool(e):
    """z3 Bool -> Python bool when it is a literal, else VBool."""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return VBool(e)


def mknum(e):
    """z3 arithmetic -> Python int when it is an integer literal, else VNum."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return VNum(e)


# --------------------------------------------------------------------------
# symbolic values
# --------------------------------------------------------------------------

class Sym(object):
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class VBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zb(o)))

    def __invert__(self):
        # the value stands for a numpy bool (a Python bool would give -1/-2)
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (VBool, bool)):
            return mkbool(self.e == zb(o))
        l = lift(o)
        if l is None:
            return False
        a, b = both(lift(self), l)
        return mkbool(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = None

    def _num(self):
        return VNum(lift(self))

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return self._num() + o

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return -(self._num() - o)

    def __mul__(self, o):
        return self._num() * o

    def __rmul__(self, o):
        return self._num() * o

    def astype(self, t):
        return self._num()

    def any(self):
        return self

    def all(self):
        return self

    def __repr__(self):
        return 'VBool(%s)' % self.e

    def __format__(self, spec):
        return '<bool>'


def token(v):
    """The decimal text of a symbolic integer: an opaque piece of text."""
    t = ctx().tokens
    for k, x in enumerate(t):
        if z3.eq(x.e, v.e):
            break
    else:
        k = len(t)
        t.append(v)
    return '\ue000' + chr(0xe100 + k) + '\ue001'


def untoken(s):
    """int(text) for text that holds decimal texts of symbolic integers"""
    if len(s) == 3 and s[0] == '\ue000' and s[2] == '\ue001':
        return ctx().tokens[ord(s[1]) - 0xe100]
    if any('\ue000' <= ch <= '\uf000' for ch in s):
        # digits with anything but white space or a sign around them
        t = s.strip().lstrip('+')
        if t != s:
            raise Unsupported('int(%r)' % s)
        if any(not ('\ue000' <= ch <= '\uf000' or ch.isdigit() or ch in '-_') for ch in s):
            raise ValueError('invalid literal for int() with base 10')
        raise Unsupported('int() of a composed text')
    return int(s)


class VNum(Sym):
    """Mathematical integer or real (floats are treated as reals)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    # comparisons
    na = None

    def _cmp(self, o, f):
        if isinstance(o, VNa) or isinstance(self, VNa):
            return na_cmp(self, o, f)
        l = lift(o)
        if l is None:
            if isinstance(o, float):
                if o != o:
                    return False
                # infinities
                big = 1 if o > 0 else -1
                return bool(f(0, big))
            return NotImplemented
        a, b = both(self.e, l)
        return mkbool(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.e != 0)

    # arithmetic
    def _bin(self, o, f):
        if isinstance(o, VNa) or isinstance(self, VNa):
            return na_bin(self, o, f)
        l = lift(o)
        if l is None:
            if isinstance(o, (VTimedelta, VSeq)):
                return NotImplemented
            if isinstance(o, float):
                if o != o:
                    return o
                raise Unsupported('arithmetic with inf')
            return NotImplemented
        a, b = both(self.e, l)
        return mknum(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return mknum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mknum(z3.If(self.e >= 0, self.e, -self.e))

    @staticmethod
    def _div(a, b):
        a, b = to_real(a), to_real(b)
        if ctx().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        return mknum(a / b)

    def __truediv__(self, o):
        if isinstance(o, VNa) or isinstance(self, VNa):
            return na_bin(self, o, lambda a, b: to_real(a) / to_real(b))
        l = lift(o)
        if l is None:
            return NotImplemented
        return VNum._div(self.e, l)

    def __rtruediv__(self, o):
        if isinstance(self, VNa):
            return na_bin(self, o, lambda a, b: to_real(b) / to_real(a))
        l = lift(o)
        if l is None:
            return NotImplemented
        return VNum._div(l, self.e)

    @staticmethod
    def _floordiv(a, b):
        if ctx().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
            if ctx().branch(b > 0):
                return mknum(a / b)
            return mknum((-a) / (-b))
        return mknum(z3.ToReal(z3.ToInt(to_real(a) / to_real(b))))

    def __floordiv__(self, o):
        l = lift(o)
        return NotImplemented if l is None else VNum._floordiv(self.e, l)

    def __rfloordiv__(self, o):
        l = lift(o)
        return NotImplemented if l is None else VNum._floordiv(l, self.e)

    @staticmethod
    def _mod(a, b):
        q = VNum._floordiv(a, b)
        q = lift(q)
        a2, b2 = both(a, b)
        q2, b2 = both(q, b2)
        a2, r = both(a2, q2 * b2)
        return mknum(a2 - r)

    def __mod__(self, o):
        l = lift(o)
        return NotImplemented if l is None else VNum._mod(self.e, l)

    def __rmod__(self, o):
        l = lift(o)
        return NotImplemented if l is None else VNum._mod(l, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4:
            r = z3.IntVal(1) if self.is_int else z3.RealVal(1)
            for _ in range(o):
                r = r * self.e
            return mknum(r)
        if isinstance(o, (float, Fraction)) and o == 0.5:
            return ctx().sqrt(self)
        raise Unsupported('power %r' % (o,))

    def __round__(self, nd=None):
        if nd not in (None, 0):
            raise Unsupported('round to digits')
        if self.is_int:
            return self
        # Python 3 rounds half to even: constrain a fresh integer exactly
        c = ctx()
        r = c.fresh('round', z3.IntSort())
        rr = z3.ToReal(r)
        d = self.e - rr
        half = z3.RealVal('1/2')
        c.assume(z3.And(d <= half, d >= -half,
                        z3.Implies(z3.Or(d == half, d == -half), r % 2 == 0)))
        return VNum(r)

    def __trunc__(self):
        if self.is_int:
            return self
        return mknum(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return self if self.is_int else mknum(z3.ToInt(self.e))

    def __ceil__(self):
        return self if self.is_int else mknum(-z3.ToInt(-self.e))

    def __index__(self):
        raise Unsupported('symbolic integer used where CPython needs a concrete one')

    def __int__(self):
        raise Unsupported('symbolic integer forced to a concrete one')

    def __float__(self):
        raise Unsupported('symbolic number forced to a concrete float')

    def item(self):
        return self

    def astype(self, t):
        return self

    def __repr__(self):
        return 'VNum(%s)' % self.e

    def __format__(self, spec):
        t = getattr(ctx(), 'tokens', None)
        if t is not None and self.is_int and spec in ('', 'd'):
            return token(self)
        return '<num>'

    def __str__(self):
        t = getattr(ctx(), 'tokens', None)
        if t is not None and self.is_int:
            return token(self)
        return repr(self)


class VNa(VNum):
    """A float that may be missing: value e, missing iff na."""
    __slots__ = ('na',)

    def __init__(self, e, na):
        self.e = e
        self.na = na

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))
    __eq__ = VNum.__eq__
    __hash__ = None

    def __bool__(self):
        return ctx().branch(z3.Or(self.na, self.e != 0))

    def __neg__(self):
        return VNa(-self.e, self.na)

    def __abs__(self):
        return VNa(z3.If(self.e >= 0, self.e, -self.e), self.na)

    def __pow__(self, o):
        r = VNum(self.e) ** o
        return VNa(to_real(lift(r)), self.na)

    def __trunc__(self):
        raise Unsupported('integer part of a possibly missing number')
    __round__ = __floor__ = __ceil__ = __floordiv__ = __mod__ = __trunc__

    def resolve(self):
        """nan or a number (splits the path)"""
        if ctx().branch(self.na):
            return float('nan')
        return VNum(self.e)

    def __repr__(self):
        return 'VNa(%s, %s)' % (self.e, self.na)


def na_parts(x):
    if isinstance(x, VNa):
        return x.e, x.na
    if isinstance(x, float) and x != x:
        return z3.RealVal(0), z3.BoolVal(True)
    l = lift(x)
    return (None, None) if l is None else (l, z3.BoolVal(False))


def mkna(e, na):
    na = z3.simplify(na)
    if z3.is_false(na):
        return mknum(e)
    if z3.is_true(na):
        return float('nan')
    return VNa(e, na)


def na_bin(a, b, f):
    (x, m), (y, k) = na_parts(a), na_parts(b)
    if x is None or y is None:
        return NotImplemented
    x, y = both(x, y)
    return mkna(f(x, y), z3.Or(m, k))


def na_cmp(a, b, f):
    (x, m), (y, k) = na_parts(a), na_parts(b)
    if x is None or y is None:
        return NotImplemented
    x, y = both(x, y)
    return mkbool(z3.And(z3.Not(m), z3.Not(k), f(x, y)))


class VTimestamp(Sym):
    """An instant: seconds since the epoch as a mathematical real.

    All instants of one run share one time zone (assumption T-TZ)."""
    __slots__ = ('e', 'tz')

    def __init__(self, e, tz=None):
        self.e = e
        self.tz = tz

    def _cmp(self, o, f):
        if isinstance(o, VTimestamp):
            return mkbool(f(self.e, o.e))
        if o is None:
            return NotImplemented
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, VTimestamp):
            return mkbool(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = None

    def __bool__(self):
        return True

    def __sub__(self, o):
        if isinstance(o, VTimestamp):
            return VTimedelta(self.e - o.e)
        if isinstance(o, VTimedelta):
            return VTimestamp(self.e - o.e, self.tz)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, VTimedelta):
            return VTimestamp(self.e + o.e, self.tz)
        return NotImplemented
    __radd__ = __add__

    def isoformat(self):
        return VIso(self)

    def tz_localize(self, tz, *a, **k):
        return VTimestamp(ctx().monotone('tz_localize')(self.e), tz)

    def tz_convert(self, tz):
        return VTimestamp(self.e, tz)

    def to_pydatetime(self):
        return self

    @property
    def tzinfo(self):
        return self.tz

    def __repr__(self):
        return 'VTimestamp(%s)' % self.e

    def __format__(self, spec):
        return '<ts>'


class VIso(Sym):
    """The ISO text of an instant; pd.Timestamp(text) gives the instant back
    (assumed contract of pandas, cross-checked at run time)."""
    __slots__ = ('ts',)

    def __init__(self, ts):
        self.ts = ts

    def __repr__(self):
        return 'VIso(%r)' % self.ts


class VTimedelta(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def total_seconds(self):
        return mknum(self.e)

    def _cmp(self, o, f):
        if isinstance(o, VTimedelta):
            return mkbool(f(self.e, o.e))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return mkbool(self.e == o.e) if isinstance(o, VTimedelta) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __add__(self, o):
        if isinstance(o, VTimedelta):
            return VTimedelta(self.e + o.e)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, VTimedelta):
            return VTimedelta(self.e - o.e)
        return NotImplemented

    def __neg__(self):
        return VTimedelta(-self.e)

    def __abs__(self):
        return VTimedelta(z3.If(self.e >= 0, self.e, -self.e))

    def __mul__(self, o):
        l = lift(o)
        return NotImplemented if l is None else VTimedelta(self.e * to_real(l))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, VTimedelta):
            return VNum._div(self.e, o.e)
        l = lift(o)
        if l is None:
            return NotImplemented
        return VTimedelta(lift(VNum._div(self.e, l)))

    def __repr__(self):
        return 'VTimedelta(%s)' % self.e

    def __format__(self, spec):
        return '<td>'


class VSeq(object):
    """Marker base of symbolic sequences (see seqs.py)."""


# --------------------------------------------------------------------------
# one path
# --------------------------------------------------------------------------

class Ctx(object):
    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', run.branch_timeout_ms)
        self.pc = []
        self.names = {}
        self.inputs = {}       # name -> value, for counter-model extraction
        self.n_prove = 0
        self.notes = []
        self.mono = {}
        self.covered = set()
        self.raised = None
        self.nobranch = 0

    # ---- names
    def fresh(self, name, sort):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return z3.Const('%s!%d' % (name, k), sort)

    def fresh_fun(self, name, *sorts):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return z3.Function('%s!%d' % (name, k), *sorts)

    def real(self, name):
        return VNum(self.fresh(name, z3.RealSort()))

    def int(self, name):
        return VNum(self.fresh(name, z3.IntSort()))

    def bool(self, name):
        return VBool(self.fresh(name, z3.BoolSort()))

    def ts(self, name):
        return VTimestamp(self.fresh(name, z3.RealSort()))

    def td(self, name):
        return VTimedelta(self.fresh(name, z3.RealSort()))

    def inp(self, name, value):
        self.inputs[name] = value
        return value

    # ---- path condition
    def assume(self, f):
        f = zb(f)
        if self.nobranch:
            raise NoBranch()
        self.pc.append(f)
        self.solver.add(f)

    def _check(self, *extra):
        self.run.n_checks += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.run.solver_s += time.time() - t
        return r

    def feasible(self):
        return self._check() != z3.unsat

    def branch(self, f):
        f = z3.simplify(zb(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.nobranch:
            raise NoBranch()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.assume(f if d else z3.Not(f))
            return d
        self.run.tick()
        can_t = self._check(f) != z3.unsat
        can_f = self._check(z3.Not(f)) != z3.unsat
        if can_t and can_f:
            self.run.push(self.decisions + [False])
            d = True
        elif can_t:
            d = True
        elif can_f:
            d = False
        else:
            raise PathEnd('infeasible')
        self.decisions.append(d)
        self.assume(f if d else z3.Not(f))
        return d

    def choose(self, n, what=''):
        """Non-deterministic choice among n alternatives (all explored)."""
        if self.nobranch:
            raise NoBranch()
        if n == 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.run.tick()
            for k in range(n - 1, 0, -1):
                self.run.push(self.decisions + [k])
            d = 0
        self.decisions.append(d)
        return d

    # ---- uninterpreted helpers
    def monotone(self, name):
        """A strictly increasing uninterpreted function (tz_localize)."""
        if name not in self.mono:
            self.mono[name] = (z3.Function(name, z3.RealSort(), z3.RealSort()), [])
        f, pts = self.mono[name]

        def call(e):
            for p in pts:
                self.assume(z3.And((p < e) == (f(p) < f(e)),
                                   (p == e) == (f(p) == f(e))))
            pts.append(e)
            return f(e)
        return call

    def sqrt(self, x):
        e = to_real(lift(x))
        if 'sqrt' not in self.mono:
            self.mono['sqrt'] = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
        f = self.mono['sqrt']
        if self.branch(e < 0):
            raise Unsupported('sqrt of a negative number')
        self.assume(z3.And(f(e) >= 0, f(e) * f(e) == e))
        return VNum(f(e))

    # ---- obligations
    def prove(self, label, f, **info):
        """Obligation. kind='weak' marks one whose refutation may come from an
        over-approximation (then it is never reported without a witness)."""
        f = zb(f)
        self.n_prove += 1
        key = (tuple(self.decisions), self.n_prove, label)
        self.run.obligation(self, key, label, f, info)
        # keep the proved fact available to later obligations
        self.assume(f)

    def cover(self, label):
        """Vacuity guard: this point must be reachable on some path."""
        if label not in self.run.covered:
            if self._check() != z3.unsat:
                self.run.covered.add(label)


class Failure(object):
    def __init__(self, label, verdict, path, model, formula, inputs, info, pc):
        self.label = label
        self.verdict = verdict        # 'sat' or 'unknown'
        self.path = path
        self.model = model
        self.formula = formula
        self.inputs = inputs
        self.info = info
        self.pc = pc


class Run(object):
    """All paths of one proof unit."""

    def __init__(self, name, body, mode='inductive', budget_s=120, max_paths=20000,
                 branch_timeout_ms=3000, prove_timeout_ms=20000, stop_on_fail=False,
                 cross=None):
        self.name = name
        self.body = body
        self.mode = mode
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.branch_timeout_ms = branch_timeout_ms
        self.prove_timeout_ms = prove_timeout_ms
        self.stop_on_fail = stop_on_fail
        self.work = []
        self.n_checks = 0
        self.solver_s = 0.0
        self.done = {}
        self.failures = []
        self.covered = set()
        self.expected_cover = set()
        self.n_paths = 0
        self.n_complete = 0
        self.limit = None            # reason of a tool limit
        self.backends = {}
        self.trusted = set()
        self.t0 = time.time()
        self.cross = cross
        self.persist = {}            # facts kept across paths (frame sets...)

    def push(self, prefix):
        self.work.append(prefix)

    def tick(self):
        if time.time() - self.t0 > self.budget_s:
            raise Budget('time budget %ss' % self.budget_s)

    def obligation(self, c, key, label, f, info):
        if key in self.done:
            return
        self.tick()
        t = time.time()
        backend = 'z3'
        if not self.cross:
            # incremental first: the path condition is already in the solver
            c.solver.push()
            c.solver.add(z3.Not(f))
            r = c.solver.check()
            c.solver.pop()
            if r == z3.unsat:
                self.solver_s += time.time() - t
                self.backends[backend] = self.backends.get(backend, 0) + 1
                self.done[key] = (label, True)
                return
        s = z3.Solver()
        s.set('timeout', self.prove_timeout_ms)
        s.add(*c.pc)
        s.add(z3.Not(f))
        r = s.check()
        if r == z3.unknown:
            r2 = cvc5_check(s, self.prove_timeout_ms)
            if r2 is not None:
                r = r2
                backend = 'cvc5'
        elif r == z3.unsat and self.cross:
            r2 = cvc5_check(s, self.prove_timeout_ms)
            if r2 == z3.unsat:
                self.cross['agree'] = self.cross.get('agree', 0) + 1
            elif r2 == z3.sat:
                self.cross['disagree'] = self.cross.get('disagree', 0) + 1
                r = z3.unknown
            else:
                self.cross['unknown'] = self.cross.get('unknown', 0) + 1
        self.solver_s += time.time() - t
        self.backends[backend] = self.backends.get(backend, 0) + 1
        if r == z3.unsat:
            self.done[key] = (label, True)
            return
        self.done[key] = (label, False)
        model = None
        if r == z3.sat and backend == 'z3':
            model = s.model()
        verdict = 'sat' if r == z3.sat else 'unknown'
        if info.get("kind") == "weak" or getattr(self, "weak", False) and info.get("kind") != "hard":
            verdict = 'unknown'
        self.failures.append(Failure(label, verdict,
                                     list(c.decisions), model, f,
                                     dict(c.inputs), info, list(c.pc)))
        if self.stop_on_fail:
            raise Budget('stop on first failure')

    def exception(self, c, e):
        """The code under proof raised where its contract allows no exception.

        A model of a dependency that is too small looks the same, so this
        only counts against the code when it is replayed on the real code."""
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = next(('%s:%s' % (f.filename, f.lineno) for f in reversed(tb)
                      if '/nilmtk/' in f.filename), '%s:%s' % (tb[-1].filename, tb[-1].lineno))
        label = 'no unexpected exception (%s: %s at %s)' % (type(e).__name__, str(e)[:120], where)
        key = (tuple(c.decisions), 'exc')
        if key in self.done:
            return
        self.done[key] = (label, False)
        model = None
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*c.pc)
        r = s.check()
        if r == z3.unsat:
            self.done[key] = (label, True)
            return
        if r == z3.sat:
            model = s.model()
        self.failures.append(Failure(label, 'exception', list(c.decisions), model,
                                     z3.BoolVal(False), dict(c.inputs),
                                     {'traceback': traceback.format_exc()[-3000:]}, list(c.pc)))
        if self.stop_on_fail:
            raise Budget('stop on first failure')

    def execute(self):
        global CUR
        self._restarts = 0
        self.work = [[]]
        try:
            while self.work:
                prefix = self.work.pop()
                self.n_paths += 1
                if self.n_paths > self.max_paths:
                    raise Budget('path budget %d' % self.max_paths)
                self.tick()
                c = Ctx(self, prefix)
                CUR = c
                try:
                    self.body(c)
                    self.n_complete += 1
                except PathEnd:
                    pass
                except Restart as e:
                    self._restarts += 1
                    if self._restarts > 12:
                        raise Unsupported('loop frame does not stabilise: %s' % e)
                    self.work, self.done, self.failures = [[]], {}, []
                    self.n_complete = 0
                except z3.Z3Exception:
                    raise
                except Exception as e:      # from the code under proof
                    self.exception(c, e)
                finally:
                    CUR = None
        except Budget as e:
            self.limit = self.limit or ('budget: %s' % e)
        except (Unsupported, NoBranch) as e:
            self.limit = 'unsupported: %s' % e
        except z3.Z3Exception as e:
            self.limit = 'solver error: %s' % e
        self.wall_s = time.time() - self.t0
        return self

    @property
    def n_obligations(self):
        return len(self.done)

    @property
    def n_discharged(self):
        return sum(1 for _, ok in self.done.values() if ok)


def cvc5_check(solver, timeout_ms):
    """Second back end: the same query as SMT-LIB text through cvc5."""
    import subprocess
    import tempfile
    import os
    txt = solver.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(
        l for l in txt.splitlines() if not l.startswith('(set-info'))
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            out = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, p],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 timeout=timeout_ms / 1000.0 + 5).stdout.decode()
        except (subprocess.TimeoutExpired, OSError):
            return None
    finally:
        os.unlink(p)
    w = out.strip().splitlines()
    if w and w[0] == 'unsat':
        return z3.unsat
    if w and w[0] == 'sat':
        return z3.sat
    return None


def model_value(model, v):
    """Concretise a registered input under a counter-model (JSON-able)."""
    def num(e):
        x = model.eval(e, model_completion=True)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            fr = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return fr.numerator if fr.denominator == 1 else float(fr)
        if z3.is_algebraic_value(x):
            a = x.approx(15)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return None
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, VBool):
        return z3.is_true(model.eval(v.e, model_completion=True))
    if isinstance(v, VNa):
        return None if z3.is_true(model.eval(v.na, model_completion=True)) else num(v.e)
    if isinstance(v, VNum):
        return num(v.e)
    if isinstance(v, VTimestamp):
        return {'t': num(v.e)}
    if isinstance(v, VTimedelta):
        return {'td': num(v.e)}
    if isinstance(v, z3.ExprRef):
        if v.sort() == z3.BoolSort():
            return z3.is_true(model.eval(v, model_completion=True))
        return num(v)
    if isinstance(v, dict):
        return {str(k): model_value(model, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [model_value(model, x) for x in v]
    if hasattr(v, 'model_value'):
        return v.model_value(lambda x: model_value(model, x))
    return repr(v)
