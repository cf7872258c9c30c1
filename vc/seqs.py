"""Symbolic sequences: lists, ranges, zips of unknown length.

A sequence is  (n, at)  with n a z3 Int and at: z3 Int -> value.  VList adds a
concrete tail so that appended elements keep their Python identity; it stands
in for the builtin `list` inside the loaded repository modules (with no
symbolic part it behaves exactly like a list)."""
import builtins
import types
import z3
from . import core
from .core import VNum, VBool, VSeq, Unsupported, lift, mknum, mkbool, zb, ctx

_len = builtins.len


def znum(x):
    e = lift(x)
    if e is None:
        raise Unsupported('not an integer: %r' % (x,))
    return e


def as_seq(x):
    """-> (n, at) view of any sequence-like value, or None."""
    if isinstance(x, VSeq):
        return x.seq()
    if isinstance(x, (list, tuple)):
        return (len(x), None)
    return None


class SymIter(VSeq):
    """An immutable symbolic sequence with a tag (used to match loop specs)."""

    def __init__(self, n, at, tag='', src=None, meta=None):
        self.n = n
        self.at = at
        self.tag = tag
        self.src = src
        self.meta = meta or {}

    def seq(self):
        return self.n, self.at

    def vlen(self):
        return mknum(self.n)

    def __iter__(self):
        raise Unsupported('iteration over %s of symbolic length without a loop contract' % self.tag)

    def __bool__(self):
        return ctx().branch(self.n > 0)


class SymRange(SymIter):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        SymIter.__init__(self, None, lambda i: mknum(start + i * step), 'range')

    def seq(self):
        c = ctx()
        if self.n is None:
            if c.branch(self.step > 0):
                n = c.fresh('nrange', z3.IntSort())
                d = self.stop - self.start
                if z3.is_int_value(z3.simplify(self.step)) and z3.simplify(self.step).as_long() == 1:
                    c.assume(n == z3.If(d > 0, d, 0))
                else:
                    c.assume(z3.If(d > 0, z3.And((n - 1) * self.step < d, d <= n * self.step, n >= 1),
                                   n == 0))
                self.n = n
            else:
                raise Unsupported('range with non-positive symbolic step')
        return self.n, self.at

    def vlen(self):
        return mknum(self.seq()[0])


def concrete_items(x):
    """The items of x when its length is concrete, else None."""
    if hasattr(x, 'items_'):
        return list(x) if x.base is None else None
    if isinstance(x, VList):
        return None if x.base is not None else x.tail
    if isinstance(x, VSeq):
        n, at = x.seq()
        n = z3.simplify(n) if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        if z3.is_int_value(n):
            return [at(z3.IntVal(i)) for i in range(n.as_long())]
        return None
    return list(x)


class MemoAt(object):
    """Elements with an identity: the same index gives the same object (index
    equality is decided by branching), so that mutation is seen."""

    def __init__(self, at):
        self.at, self.memo = at, []

    def __call__(self, i):
        i = z3.simplify(i)
        for j, o in self.memo:
            if z3.eq(i, j):
                return o
        c = ctx()
        for j, o in self.memo:
            if c.branch(i == j):
                return o
        o = self.at(i)
        self.memo.append((i, o))
        return o


class VList(VSeq):
    def __init__(self, it=()):
        self.base = None          # or (n, at)
        self.tail = []
        self.tag = ''
        self.version = 0
        self.token = ('empty',)   # provenance of the symbolic part (fold.py)
        if isinstance(it, VList):
            self.base = it.base
            self.token = it.token
            self.tail = list(it.tail)
            self.tag = it.tag
        elif isinstance(it, VSeq):
            items = concrete_items(it)
            if items is not None:
                self.tail = items
            else:
                self.base = it.seq()
                self.tag = getattr(it, 'tag', '')
        else:
            self.tail = list(it)

    @classmethod
    def symbolic(cls, n, at, tag=''):
        l = VList()
        l.base = (n, at)
        l.tag = tag
        l.token = ('sym', id(at), tag)
        return l

    # -- views
    def seq(self):
        if self.base is None:
            tail = list(self.tail)

            def at(i):
                i = z3.simplify(i)
                if z3.is_int_value(i):
                    return tail[i.as_long()]
                raise Unsupported('symbolic index into a concrete list')
            return z3.IntVal(len(tail)), at
        n, at = self.base
        if not self.tail:
            return n, at
        tail = list(self.tail)

        def at2(i):
            c = ctx()
            if c.branch(i < n):
                return at(i)
            for j in range(len(tail)):
                if c.branch(i == n + j):
                    return tail[j]
            raise core.PathEnd('index out of range')
        return n + len(tail), at2

    def vlen(self):
        if self.base is None:
            return len(self.tail)
        return mknum(self.base[0] + len(self.tail))

    def __len__(self):
        if self.base is None:
            return len(self.tail)
        raise Unsupported('len() of a symbolic list in C code')

    def __bool__(self):
        if self.tail:
            return True
        if self.base is None:
            return False
        return ctx().branch(self.base[0] > 0)

    def __iter__(self):
        if self.base is not None:
            raise Unsupported('iteration over symbolic list %r without a loop contract' % self.tag)
        i = 0
        while i < len(self.tail):
            yield self.tail[i]
            i += 1

    def __reversed__(self):
        return iter(list(self)[::-1])

    # -- access
    def _materialise_last(self):
        """Turn the last symbolic element into a concrete tail object (so that
        it has an identity and can be mutated)."""
        if self.tail or self.base is None:
            return
        n, at = self.base
        self.tail = [at(n - 1)]
        self.base = (n - 1, at)
        self.token = ('init', self.token)

    def _index(self, i):
        if isinstance(i, VBool):
            i = VNum(lift(i))
        if self.base is None and not isinstance(i, VNum):
            return ('t', range(len(self.tail))[i])
        c = ctx()
        n = self.base[0] if self.base is not None else z3.IntVal(0)
        total = n + len(self.tail)
        if not isinstance(i, VNum) and i < 0:
            if -i <= len(self.tail):
                return ('t', len(self.tail) + i)
            if i == -1:
                if c.branch(n > 0):
                    self._materialise_last()
                    return ('t', 0)
                raise IndexError('list index out of range')
            e = total + i
        else:
            e = znum(i)
            if isinstance(i, VNum) and c.branch(e < 0):
                e = total + e
        if c.branch(z3.Or(e < 0, e >= total)):
            raise IndexError('list index out of range')
        if c.branch(e < n):
            return ('b', e)
        for j in range(len(self.tail)):
            if c.branch(e == n + j):
                return ('t', j)
        raise core.PathEnd()

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        w, k = self._index(i)
        return self.tail[k] if w == 't' else self.base[1](k)

    def _slice(self, s):
        if self.base is None and not any(isinstance(x, VNum) for x in (s.start, s.stop, s.step)):
            return VList(self.tail[s])
        if s.step not in (None, 1):
            raise Unsupported('stepped slice of a symbolic list')
        n, at = self.seq()
        c = ctx()

        def norm(x, default):
            if x is None:
                return default
            e = znum(x)
            if c.branch(e < 0):
                e = e + n
                if c.branch(e < 0):
                    e = z3.IntVal(0)
            if c.branch(e > n):
                e = n
            return e
        a = norm(s.start, z3.IntVal(0))
        b = norm(s.stop, n)
        if c.branch(b <= a):
            return VList()
        r = VList.symbolic(z3.simplify(b - a), lambda i: at(a + i), self.tag + '[slice]')
        items = concrete_items(SymIter(z3.simplify(b - a), lambda i: at(a + i)))
        if items is not None:
            return VList(items)
        return r

    def __setitem__(self, i, v):
        self.version += 1
        if isinstance(i, slice):
            if self.base is None:
                self.tail[i] = list(v)
                return
            raise Unsupported('slice assignment on a symbolic list')
        w, k = self._index(i)
        if w == 't':
            self.tail[k] = v
        else:
            n, old = self.base

            def at(j):
                return v if ctx().branch(j == k) else old(j)
            self.base = (n, at)
            self.token = ('set', self.token)

    def __delitem__(self, i):
        self.version += 1
        if self.base is None:
            del self.tail[i]
            return
        raise Unsupported('del on a symbolic list')

    def append(self, x):
        self.version += 1
        self.tail.append(x)

    def extend(self, other):
        self.version += 1
        if isinstance(other, VList) and other.base is not None or \
                isinstance(other, VSeq) and concrete_items(other) is None:
            self._concat(other)
            return
        self.tail.extend(concrete_items(other) if isinstance(other, VSeq) else list(other))

    def _concat(self, other):
        n1, at1 = self.seq()
        n2, at2 = other.seq()
        pre = list(self.tail) if self.base is None else None
        otok = (getattr(other, 'token', ('sym', id(other))),
                tuple(id(x) for x in getattr(other, 'tail', ())))
        tok = ('concat', self.token, tuple(id(x) for x in self.tail), otok)

        def at(i):
            c = ctx()
            if pre is not None:
                for j, x in enumerate(pre):
                    if c.branch(i == j):
                        return x
                return at2(z3.simplify(i - len(pre)))
            if c.branch(i < n1):
                return at1(i)
            return at2(z3.simplify(i - n1))
        self.base = (z3.simplify(n1 + n2), at)
        self.tail = []
        self.token = tok
        self._keep = (other, pre)
        if not self.tag:
            self.tag = getattr(other, 'tag', '')

    def insert(self, i, x):
        self.version += 1
        if self.base is not None and not isinstance(i, VNum) and i == 0:
            r = VList([x])
            r._concat(VList(self))
            self.base, self.tail, self.token = r.base, [], r.token
            self._keep = r._keep
            return
        if self.base is None:
            self.tail.insert(i, x)
            return
        raise Unsupported('insert on a symbolic list')

    def pop(self, i=-1):
        self.version += 1
        w, k = self._index(i)
        if w == 't':
            return self.tail.pop(k)
        n, at = self.base
        if ctx().branch(k == 0):
            r = at(k)
            self.base = (n - 1, lambda i: at(i + 1))
            self.token = ('rest', self.token)
            return r
        raise Unsupported('pop at a symbolic position')

    def remove(self, x):
        self.version += 1
        if self.base is not None:
            raise Unsupported('remove on a symbolic list')
        self.tail.remove(x)

    def sort(self, key=None, reverse=False):
        self.version += 1
        if self.base is not None:
            raise Unsupported('sort of a symbolic list')
        self.tail.sort(key=key, reverse=reverse)

    def reverse(self):
        self.version += 1
        if self.base is not None:
            raise Unsupported('reverse of a symbolic list')
        self.tail.reverse()

    def clear(self):
        self.version += 1
        self.base, self.tail = None, []
        self.token = ('empty',)

    def copy(self):
        return VList(self)

    def index(self, x, *a):
        return self._conc().index(x, *a)

    def count(self, x):
        return self._conc().count(x)

    def _conc(self):
        if self.base is not None:
            raise Unsupported('operation on a symbolic list')
        return self.tail

    def __contains__(self, x):
        if self.base is None:
            return x in self._conc()
        m = getattr(self, 'member', None)
        if m is not None:
            return any(x is y or bool(x == y) for y in self.tail) or ctx().branch(m(x))
        # some element equals x (witness), or none does
        c = ctx()
        n, at = self.seq()
        w = c.fresh('in', z3.IntSort())
        b = c.fresh('isin', z3.BoolSort())
        from .arrays import expr_at, NotExpressible
        try:
            eq = zb(expr_at(c, at, w) == x)
            i = z3.Int('in!i')
            ne = z3.Not(zb(expr_at(c, at, i) == x))
        except (NotExpressible, z3.Z3Exception):
            raise Unsupported('membership in a symbolic list')
        c.assume(z3.Implies(b, z3.And(0 <= w, w < n, eq)))
        c.assume(z3.Implies(z3.Not(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ne))))
        return c.branch(b)

    def __add__(self, o):
        if not isinstance(o, (VList, builtins.list)):
            return NotImplemented
        r = VList(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        if not isinstance(o, builtins.list):
            return NotImplemented
        if self.base is None:
            return VList(list(o) + self.tail)
        raise Unsupported('prepend to a symbolic list')

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        if isinstance(k, VNum) or self.base is not None:
            if self.base is None and len(self.tail) == 1:
                x = self.tail[0]
                n = z3.If(k.e > 0, k.e, 0)
                return VList.symbolic(n, lambda i: x, 'repeat')
            raise Unsupported('symbolic repeat')
        return VList(self.tail * k)
    __rmul__ = __mul__

    def __eq__(self, o):
        if o is None or isinstance(o, (str, int, float, tuple, dict)):
            return False
        if isinstance(o, VList):
            o = o._conc() if o.base is None else None
        if self.base is None and isinstance(o, builtins.list):
            return self.tail == o
        if isinstance(o, builtins.list) and not o:
            return mkbool(self.base[0] + len(self.tail) == 0)
        raise Unsupported('comparison of symbolic lists')

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy
        r = VList()
        r.__class__ = type(self)
        memo[id(self)] = r
        if self.base is not None:
            n, at = self.base
            r.base = (n, MemoAt(lambda i: copy.deepcopy(at(i))))
            r.token = ('deepcopy', self.token)
            r.tag = self.tag
        r.tail = [copy.deepcopy(x, memo) for x in self.tail]
        return r

    def __repr__(self):
        if self.base is None:
            return repr(self.tail)
        return '<symbolic list %s + %r>' % (self.tag, self.tail)


class ListMeta(type):
    def __instancecheck__(cls, obj):
        if cls is ListShim:
            return issubclass(type(obj), (VList, builtins.list))
        return type.__instancecheck__(cls, obj)

    def __call__(cls, *a, **k):
        if a and hasattr(a[0], 'items_'):
            from .guarded import to_list
            return to_list(a[0])
        return type.__call__(cls, *a, **k)

    def __eq__(cls, o):
        return cls is o or cls is ListShim and o is builtins.list

    def __hash__(cls):
        return type.__hash__(cls)


class ListShim(VList, metaclass=ListMeta):
    """The name `list` inside loaded modules."""


# --------------------------------------------------------------------------
# replacements for builtins inside loaded modules
# --------------------------------------------------------------------------

def v_len(x):
    if hasattr(x, 'vlen'):
        return x.vlen()
    return _len(x)


def v_range(*a):
    if not any(isinstance(x, VNum) for x in a):
        return range(*[int(x) if not isinstance(x, int) else x for x in a])
    if len(a) == 1:
        a = (0, a[0], 1)
    elif len(a) == 2:
        a = (a[0], a[1], 1)
    return SymRange(*[znum(x) for x in a])


def v_enumerate(it, start=0):
    if isinstance(it, VSeq):
        items = concrete_items(it)
        if items is None:
            n, at = it.seq()
            return SymIter(n, lambda i: (mknum(i + znum(start)), at(i)),
                           'enumerate(%s)' % it.tag, src=it)
        if not isinstance(it, VList):
            it = items
    return builtins.enumerate(it, start)


def _few(items):
    def at(i):
        for j, x in list(builtins.enumerate(items))[:-1]:
            if ctx().branch(i == j):
                return x
        return items[-1]
    return at


def v_zip(*its):
    if any(isinstance(i, VSeq) and concrete_items(i) is None for i in its):
        seqs = []
        for i in its:
            s = i.seq() if isinstance(i, VSeq) else None
            if s is None:
                raise Unsupported('zip of symbolic and concrete')
            its_ = concrete_items(i)
            if its_ is not None and 0 < len(its_) <= 4:
                s = (s[0], _few(its_))
            seqs.append(s)
        c = ctx()
        n = seqs[0][0]
        for m, _ in seqs[1:]:
            if not c.branch(n == m):
                n = m if c.branch(m < n) else n
        return SymIter(n, lambda i: tuple(at(i) for _, at in seqs),
                       'zip(%s)' % ','.join(i.tag for i in its), src=its)
    if any(isinstance(i, types.GeneratorType) for i in its):
        from .loops import GenZip
        return GenZip(its)
    return builtins.zip(*[concrete_items(i) if isinstance(i, VSeq) else i for i in its])


def v_reversed(x):
    if isinstance(x, VSeq):
        items = concrete_items(x)
        if items is None:
            n, at = x.seq()
            return SymIter(n, lambda i: at(n - 1 - i), 'reversed(%s)' % x.tag, src=x)
        return builtins.reversed(items)
    return builtins.reversed(x)


def v_int(x=0, *a):
    if isinstance(x, VNum):
        return x.__trunc__()
    if isinstance(x, VBool):
        return VNum(lift(x))
    if isinstance(x, str) and not a:
        return core.untoken(x)
    return builtins.int(x, *a)


def v_float(x=0.0):
    if isinstance(x, VNum):
        return VNum(core.to_real(x.e))
    return builtins.float(x)


def v_bool(x=False):
    if isinstance(x, VBool):
        return x
    if isinstance(x, VNum):
        return mkbool(x.e != 0)
    return builtins.bool(x)


def v_abs(x):
    return builtins.abs(x)


def v_sum(it, start=0):
    if isinstance(it, VSeq) and concrete_items(it) is None:
        from . import arrays
        return arrays.seq_sum(it) + start
    r = start
    for x in (concrete_items(it) if isinstance(it, VSeq) else it):
        r = r + x
    return r


def _fold_minmax(items, op, key):
    best = None
    first = True
    for x in items:
        if first:
            best, first = x, False
            continue
        a = key(x) if key else x
        b = key(best) if key else best
        if isinstance(a, VNum) and isinstance(b, (VNum, int, float)) and not key or \
                isinstance(b, VNum) and isinstance(a, (int, float)) and not key:
            ea, eb = core.both(lift(a), lift(b))
            c = ea < eb if op == 'min' else ea > eb
            best = mknum(z3.If(c, ea, eb))
        else:
            if (a < b) if op == 'min' else (a > b):
                best = x
    if first:
        raise ValueError('%s() arg is an empty sequence' % op)
    return best


def _minmax(op):
    def f(*a, **k):
        key = k.pop('key', None)
        default = k.pop('default', core.UNBOUND)
        if len(a) == 1:
            it = a[0]
            if isinstance(it, VSeq):
                items = concrete_items(it)
                if items is None:
                    from . import arrays
                    return arrays.seq_minmax(it, op)
            else:
                items = list(it)
        else:
            items = list(a)
        if not items and default is not core.UNBOUND:
            return default
        return _fold_minmax(items, op, key)
    return f


v_min = _minmax('min')
v_max = _minmax('max')


def v_all(it):
    return _allany(it, True)


def v_any(it):
    return _allany(it, False)


def _allany(it, want):
    """all()/any(); over a sequence of unknown length: either some element
    decides (its index is a fresh symbol), or none does."""
    if hasattr(it, 'items_'):
        hit = [z3.And(g, zb(bool(v) if not isinstance(v, VBool) else v) if not want
                      else z3.Not(zb(bool(v) if not isinstance(v, VBool) else v))) for g, v in it.items_]
        r = z3.Or(*hit) if hit else z3.BoolVal(False)
        return mkbool(z3.Not(r) if want else r)
    if isinstance(it, VSeq):
        items = concrete_items(it)
        if items is None:
            c = ctx()
            n, at = it.seq()
            if c.choose(2) == 0:
                i = c.fresh('q', z3.IntSort())
                c.assume(z3.And(0 <= i, i < n))
                if not c.feasible():
                    raise core.PathEnd()
                if bool(at(i)) == want:
                    raise core.PathEnd('not the deciding element')
                return not want
            _quant_fact(c, n, at, want)
            return want
        it = items
    for x in it:
        if bool(x) != want:
            return not want
    return want


def _quant_fact(c, n, at, want):
    """assume that every element is `want` when that is expressible"""
    i = z3.Int('qf!%d' % c.names.setdefault('qf', 0))
    c.names['qf'] += 1
    c.nobranch += 1
    try:
        v = at(i)
        f = zb(v)
    except (core.NoBranch, Unsupported):
        return
    except Exception:
        return
    finally:
        c.nobranch -= 1
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f if want else z3.Not(f))))


def v_sorted(it, key=None, reverse=False):
    if hasattr(it, 'items_'):
        from .guarded import to_list
        return to_list(it)
    if isinstance(it, VSeq):
        items = concrete_items(it)
        if items is None:
            raise Unsupported('sorted() of a symbolic sequence')
        it = items
    return VList(builtins.sorted(it, key=key, reverse=reverse))


def v_round(x, nd=None):
    if isinstance(x, VNum):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


HASH = {}


def v_hash(x):
    """hash() as an uninterpreted function of the value (equal values give
    equal hashes; nothing else is assumed)."""
    def enc(v):
        if isinstance(v, tuple):
            return ('t',) + tuple(enc(y) for y in v)
        if isinstance(v, (core.VNum, core.VTimestamp, core.VTimedelta)):
            return (type(v).__name__, core.to_real(v.e))
        if isinstance(v, VBool):
            return ('b', z3.If(v.e, z3.RealVal(1), z3.RealVal(0)))
        if v is None or isinstance(v, (bool, int, float, str)):
            return ('c', v)
        h = type(v).__hash__
        if h is not None and h is not object.__hash__ and not isinstance(v, type):
            return ('h', lift(v.__hash__()))
        return ('o', id(v))

    def flat(t, key, args):
        for y in t:
            if isinstance(y, tuple):
                flat(y, key, args)
            elif isinstance(y, z3.ExprRef):
                key.append('$')
                args.append(core.to_real(y))
            else:
                key.append(y)
    t = enc(x)
    if t[0] == 'h':
        return mknum(t[1])
    key, args = [], []
    flat(t, key, args)
    key = tuple(map(repr, key))
    if key not in HASH:
        HASH[key] = len(HASH)
    name = 'hash_%d' % HASH[key]
    if not args:
        return VNum(z3.Int(name))
    f = z3.Function(name, *([z3.RealSort()] * len(args) + [z3.IntSort()]))
    return VNum(f(*args))


class MDict(dict):
    """A dict made in the code; a loop contract may put a model in its place (same object, so every alias sees it)."""
    _vc_track = True
    version = 0
    model = None

    def become(self, model):
        if dict.__len__(self):
            raise Unsupported('a filled dict in a loop')
        self.model = model
        self.version += 1

    def __setitem__(self, k, v):
        self.version += 1
        if self.model is not None:
            self.model.set(k, v)
        else:
            dict.__setitem__(self, k, v)

    def __repr__(self):
        return 'MDict'

    for _m in ('__getitem__ __contains__ __iter__ __len__ __delitem__ __eq__ __ne__ __or__ __ior__ get items keys values pop '
               'popitem setdefault update copy clear').split():
        exec("""def %s(self, *a, **k):
        if self.model is not None:
            return self.model.call(%r, *a, **k)
        if %r in ('__delitem__', 'pop', 'popitem', 'setdefault', 'update', 'clear', '__ior__'):
            self.version += 1
        return dict.%s(self, *a, **k)""" % (_m, _m, _m, _m))
    __hash__ = None
