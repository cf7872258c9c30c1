"""Lists and sets over a finite universe with symbolic membership.

A GList / GSet is a collection of concrete values, each with a z3 condition
under which it is present.  Order and multiplicity are not represented, so an
operation that would need them is a tool limit."""
import z3
from . import core
from .core import Unsupported, VBool, zb, ctx, mkbool
from .seqs import VList


def _or(gs):
    gs = list(gs)
    return z3.simplify(z3.Or(*gs)) if gs else z3.BoolVal(False)


def entries(x):
    """-> [(guard, value)] of a guarded or concrete collection"""
    if isinstance(x, (GList, GSet)):
        return list(x.items_)
    if isinstance(x, VList):
        if x.base is not None:
            raise Unsupported('symbolic list in a guarded collection')
        return [(z3.BoolVal(True), v) for v in x.tail]
    if isinstance(x, dict):
        x = list(x)
    return [(z3.BoolVal(True), v) for v in x]


class GList(VList):
    """a list whose elements are present under conditions (order unspecified)"""

    def __init__(self, items=(), tag='guarded'):
        VList.__init__(self)
        self.items_ = [(z3.simplify(g), v) for g, v in items if not z3.is_false(z3.simplify(g))]
        self.tag = tag
        self._n = None
        if any(not z3.is_true(g) for g, _ in self.items_):
            self.base = (None, None)

    def concrete(self):
        return all(z3.is_true(g) for g, _ in self.items_)

    def seq(self):
        c = ctx()
        if self.concrete():
            vals = [v for _, v in self.items_]
            return z3.IntVal(len(vals)), lambda i: vals[z3.simplify(i).as_long()]
        if self._n is None:
            self._n = c.fresh('nglist', z3.IntSort())
            c.assume(self._n >= 0)
        return self._n, self.pick

    def pick(self, i):
        """an arbitrary element"""
        c = ctx()
        k = c.choose(len(self.items_))
        g, v = self.items_[k]
        c.assume(g)
        if not c.feasible():
            raise core.PathEnd()
        self.picked = v
        return v

    def __bool__(self):
        return ctx().branch(_or(g for g, _ in self.items_))

    def __contains__(self, x):
        return ctx().branch(self.has(x))

    def has(self, x):
        return _or(g for g, v in self.items_ if type(v) is type(x) and v == x)

    def __iter__(self):
        if self.concrete():
            return iter([v for _, v in self.items_])
        raise Unsupported('iteration over a guarded list without a loop contract')

    def vlen(self):
        if self.concrete():
            return len(self.items_)
        raise Unsupported('length of a guarded list')

    def __len__(self):
        return self.vlen()

    def comp(self, f):
        """[... for v in self ...] with f the comprehension on a one-element list"""
        out = []
        c = ctx()
        for g, v in self.items_:
            try:
                r = list(f([v]))
            except Exception:
                if c.branch(g):
                    raise
                continue
            out.extend((g, x) for x in r)
        return GList(out, 'map(%s)' % self.tag)

    def _no(self, *a, **k):
        raise Unsupported('list operation on a guarded list')
    __getitem__ = __setitem__ = __delitem__ = insert = pop = sort = reverse = index = remove = __reversed__ = _no

    def append(self, x):
        self.version += 1
        self.items_.append((z3.BoolVal(True), x))

    def extend(self, o):
        self.version += 1
        self.items_.extend(entries(o))
        if not self.concrete():
            self.base = (None, None)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return GList(entries(self) + entries(o))

    def __radd__(self, o):
        return GList(entries(o) + entries(self))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        raise Unsupported('comparison of a guarded list')

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __deepcopy__(self, memo):
        return GList(self.items_, self.tag)

    def __repr__(self):
        return '<guarded list>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<guarded list>'


class _GSetMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or isinstance(o, set)


class GSet(object, metaclass=_GSetMeta):
    _vc_track = True
    base = None

    def __init__(self, it=()):
        self.version = 0
        self.g = {}
        self.add_all(entries(it))

    def add_all(self, es):
        for g, v in es:
            self.g[v] = z3.simplify(z3.Or(self.g[v], g)) if v in self.g else z3.simplify(g)

    @property
    def items_(self):
        return [(g, v) for v, g in self.g.items()]

    def add(self, x):
        self.version += 1
        self.add_all([(z3.BoolVal(True), x)])

    def update(self, *os):
        self.version += 1
        for o in os:
            self.add_all(entries(o))

    def has(self, x):
        return self.g.get(x, z3.BoolVal(False))

    def __contains__(self, x):
        return ctx().branch(self.has(x))

    def __bool__(self):
        return ctx().branch(_or(self.g.values()))

    def _bin(self, o, f):
        r = GSet()
        o = o if isinstance(o, GSet) and hasattr(o, 'g') else GSet(o)
        for v in list(self.g) + [x for x in o.g if x not in self.g]:
            e = z3.simplify(f(self.has(v), o.has(v)))
            if not z3.is_false(e):
                r.g[v] = e
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            r = r._bin(o, lambda a, b: z3.And(a, b))
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = r._bin(o, lambda a, b: z3.Or(a, b))
        return r

    def difference(self, *os):
        r = self
        for o in os:
            r = r._bin(o, lambda a, b: z3.And(a, z3.Not(b)))
        return r

    __and__ = __rand__ = intersection
    __or__ = __ror__ = union
    __sub__ = difference

    def __rsub__(self, o):
        return GSet(o).difference(self)

    def issubset(self, o):
        d = self.difference(o)
        return mkbool(z3.Not(_or(d.g.values())))
    __le__ = issubset

    def issuperset(self, o):
        return GSet(o).issubset(self)
    __ge__ = issuperset

    def isdisjoint(self, o):
        return mkbool(z3.Not(_or(self.intersection(o).g.values())))

    def copy(self):
        r = GSet()
        r.g = dict(self.g)
        return r

    def __iter__(self):
        if all(z3.is_true(g) for g in self.g.values()):
            return iter(list(self.g))
        raise Unsupported('iteration over a guarded set without a loop contract')

    def vlen(self):
        if all(z3.is_true(g) for g in self.g.values()):
            return len(self.g)
        raise Unsupported('size of a guarded set')

    def __repr__(self):
        return '<guarded set>'

    def __format__(self, spec):
        return '<guarded set>'

    __hash__ = None


def to_list(x):
    return GList(x.items_)
