"""Loop contracts.

Every `for` / `while` of a loaded module goes through a Loop object (the
transformation is in loader.py).  A loop whose iterable has a concrete length
(or a `while` that no contract covers) runs as CPython runs it.  Otherwise the
loop is cut:  check the invariant on entry, havoc everything the loop may
change, assume the invariant, then explore (a) one arbitrary iteration, at the
end of which the invariant is an obligation, and (b) the exit."""
import types
import z3
from . import core
from .core import (VNum, VBool, VTimestamp, VTimedelta, VSeq, Unsupported, PathEnd,
                   UNBOUND, ctx)
from .seqs import VList, MDict, SymIter, concrete_items


class LoopSpec(object):
    """Override `match`, `inv` and, when needed, `havoc`/`assume_extra`."""
    name = 'loop'
    #: at most this many locals may be bound by the spec
    def match(self, loop):
        return False

    def havoc(self, loop, env, names):
        """-> {name: value} for locals the default havoc cannot guess."""
        return {}

    def inv(self, loop):
        """-> [(label, z3 formula)], evaluated on loop.env / loop.k."""
        return []

    def allow_mutation(self, loop):
        """Objects the body may mutate (they are havocked by `havoc`)."""
        return []

    def variant(self, loop):
        """z3 integer/real that must decrease and stay >= 0 (optional)."""
        return None

    def on_item(self, loop, item):
        pass

    def on_exit(self, loop):
        pass

    def at_end(self, loop):
        """Extra obligations at the end of the arbitrary iteration."""


def default_havoc(c, name, v):
    if isinstance(v, VNum):
        return VNum(c.fresh('h_' + name, v.e.sort()))
    if isinstance(v, (bool, VBool)):
        return VBool(c.fresh('h_' + name, z3.BoolSort()))
    if isinstance(v, int):
        return VNum(c.fresh('h_' + name, z3.IntSort()))
    if isinstance(v, float):
        return VNum(c.fresh('h_' + name, z3.RealSort()))
    if isinstance(v, VTimestamp):
        return VTimestamp(c.fresh('h_' + name, z3.RealSort()), v.tz)
    if isinstance(v, VTimedelta):
        return VTimedelta(c.fresh('h_' + name, z3.RealSort()))
    return UNBOUND


def reach(roots, skip):
    """Shallow snapshots of every object reachable from roots."""
    snap = {}
    todo = list(roots)
    while todo:
        o = todo.pop()
        if id(o) in snap or id(o) in skip or getattr(type(o), '_vc_track', None) is False:
            continue
        if isinstance(o, VList):
            snap[id(o)] = (o, ('L', o.version))
            todo.extend(o.tail)
        elif isinstance(o, MDict):
            snap[id(o)] = (o, ('M', o.version))
            todo.extend(dict.values(o))
        elif isinstance(o, (list, tuple, set)):
            snap[id(o)] = (o, ('l', tuple(id(x) for x in o)))
            todo.extend(o)
        elif isinstance(o, dict):
            snap[id(o)] = (o, ('d', tuple((id(k), id(x)) for k, x in o.items())))
            todo.extend(o.values())
        elif hasattr(o, '__dict__') and not isinstance(o, (type, core.Sym)) and \
                getattr(type(o), '_vc_track', None) is not False and \
                type(o).__module__.startswith('nilmtk'):
            d = o.__dict__
            snap[id(o)] = (o, ('o', tuple((k, id(x)) for k, x in d.items())))
            todo.extend(d.values())
        elif getattr(type(o), '_vc_track', None):
            snap[id(o)] = (o, ('v', o.version))
    return snap


def snap_of(o):
    if isinstance(o, VList):
        return ('L', o.version)
    if isinstance(o, MDict):
        return ('M', o.version)
    if isinstance(o, (list, tuple, set)):
        return ('l', tuple(id(x) for x in o))
    if isinstance(o, dict):
        return ('d', tuple((id(k), id(x)) for k, x in o.items()))
    if getattr(type(o), '_vc_track', None):
        return ('v', o.version)
    return ('o', tuple((k, id(x)) for k, x in o.__dict__.items()))


class GenZip(object):
    """zip of generators"""
    _vc_track = False

    def __init__(self, gens):
        self.gens = list(gens)

    def __iter__(self):
        return zip(*self.gens)


def _gen(g):
    if not isinstance(g, types.GeneratorType):
        raise Unsupported('zip of a generator and %r' % type(g))
    return g


class Loop(object):
    def __init__(self, engine, loop_id, kind, iterable, names, qual):
        self.engine = engine
        self.id = loop_id
        self.kind = kind
        self.names = names
        self.qual = qual
        self.it = iterable
        self.env = {}
        self.spec = None
        self.k = None
        self.n = None
        self.at = None
        self._iter = None
        self._item = None
        self.state = 'start'
        self.gens = None
        self.iters = 0
        self.cut = False
        c = ctx()
        if c is None:
            self._iter = iter(iterable) if kind == 'for' else None
            return
        symbolic = False
        if kind == 'for' and isinstance(iterable, VSeq):
            items = concrete_items(iterable)
            symbolic = items is None
            if not symbolic and not isinstance(iterable, VList):
                self.it = iterable = items
        if kind == 'for' and isinstance(iterable, (types.GeneratorType, GenZip)):
            for s in engine.loop_specs:
                if getattr(s, 'generators', False) and s.match(self):
                    self.spec, self.cut = s, True
                    self.gens = [_gen(g) for g in (iterable.gens if isinstance(iterable, GenZip) else [iterable])]
                    return
        if kind == 'for' and not symbolic:
            self._iter = iter(iterable)
            return
        specs = engine.loop_specs
        for s in specs:
            if s.match(self):
                self.spec = s
                self.cut = True
                break
        if symbolic:
            if self.spec is None:
                raise Unsupported('no loop contract matches loop %s over %s'
                                  % (self.id, getattr(iterable, 'tag', '?')))
            self.n, self.at = iterable.seq()

    # ---- protocol used by the transformed code
    def next(self, env):
        env.pop('__class__', None)
        c = ctx()
        if not self.cut:
            self.env = env
            self.iters += 1
            if c is not None and self.kind == 'while' and self.iters > self.engine.max_unroll:
                raise PathEnd('unroll bound')
            if self.kind == 'while':
                return True
            before = self.engine.n_cut
            try:
                self._item = next(self._iter)
            except StopIteration:
                return False
            if self.engine.n_cut != before and isinstance(self.it, (types.GeneratorType, GenZip)):
                # the items come from a loop that was cut, so this one stands for one arbitrary iteration too
                if not self.engine.stateless(self):
                    raise Unsupported('loop %s over a generator that no contract covers' % self.id)
            return True
        if self.state == 'start':
            self.env = env
            self.entry = dict(env)
            self.k = z3.IntVal(0)
            for label, f in self.spec.inv(self):
                c.prove('loop %s: invariant holds on entry: %s' % (self.spec.name, label), f)
            self._havoc(c)
            for label, f in self.spec.inv(self):
                c.assume(f)
            if not c.feasible():
                raise PathEnd('infeasible')
            self.state = 'body'
            self.engine.n_cut += 1
            self.engine.last_cut = self
            if self.gens is not None and not self._pull(c):
                self.state = 'exit'
                self.spec.on_exit(self)
                return False
            self._v0 = self.spec.variant(self)
            self._snap = reach(list(self.env.values()) + self.engine.roots,
                               set(id(o) for o in self.allowed))
            if self.kind == 'while':
                return True
            if self.gens is not None:
                self._item_snap = reach([self._item], set(id(o) for o in self.allowed))
                self.spec.on_item(self, self._item)
                return True
            if c.branch(self.k < self.n):
                self._item = self.at(self.k)
                self._item_snap = reach([self._item], set(id(o) for o in self.allowed))
                self.spec.on_item(self, self._item)
                return True
            self.state = 'exit'
            self.spec.on_exit(self)
            return False
        # second arrival: one arbitrary iteration was executed
        assert self.state == 'body'
        self.env = env
        self._check_frame()
        v1 = None
        self.spec.at_end(self)
        self.k = z3.simplify(self.k + 1)
        for label, f in self.spec.inv(self):
            c.prove('loop %s: invariant preserved: %s' % (self.spec.name, label), f)
        if self._v0 is not None:
            v1 = self.spec.variant(self)
            c.prove('loop %s: variant decreases and is bounded' % self.spec.name,
                    z3.And(self._v0 >= 0, v1 <= self._v0 - self.spec.variant_step(self)))
        for g in self.gens or []:
            # the loops inside the generators must preserve their own invariants
            try:
                next(g)
            except PathEnd:
                continue
            except StopIteration:
                raise Unsupported('loop %s: a generator stops after an arbitrary item' % self.id)
            raise Unsupported('loop %s: a generator gives more than one item per iteration' % self.id)
        raise PathEnd('loop cut')

    def _pull(self, c):
        """one arbitrary item (True), or the end (False), of the generators, whose own loops are cut"""
        items, ends, n = [], 0, None
        for g in self.gens:
            before = self.engine.n_cut
            self.engine.last_cut = None
            try:
                items.append(next(g))
                end = False
            except StopIteration:
                end = True
            inner = self.engine.last_cut
            if self.engine.n_cut != before + 1 or inner is None or inner is self or inner.kind != 'for':
                raise Unsupported('loop %s: a generator with no single loop of its own' % self.id)
            if end != (inner.state == 'exit'):
                raise Unsupported('loop %s: a generator gives items outside its loop' % self.id)
            c.assume(self.k == inner.k)
            if not c.feasible():
                raise PathEnd('infeasible')
            n = inner.n if n is None else n
            ends += end
            if end:
                break
        self.n = n
        self.engine.last_cut = self
        self._item = tuple(items) if isinstance(self.it, GenZip) else (items[0] if items else None)
        return not ends

    def mutated(self):
        """Names of the locals whose (list) value the body mutates in place."""
        return ctx().run.persist.setdefault(('mut', self.id), set())

    def _check_frame(self):
        allowed = set(id(o) for o in self.allowed)
        for nme, o in self.entry.items():
            if isinstance(o, VList) and id(o) in self._snap and id(o) not in allowed and \
                    snap_of(o) != self._snap[id(o)][1]:
                m = self.mutated()
                if nme in m:
                    raise Unsupported('loop %s mutates %s, which its contract does not cover'
                                      % (self.id, nme))
                m.add(nme)
                raise core.Restart('%s mutates %s' % (self.id, nme))
        for tag, snap in (('object', self._snap), ('item', getattr(self, '_item_snap', {}))):
            for o, s in snap.values():
                if snap_of(o) != s:
                    raise Unsupported('loop %s (%s) mutates an %s outside its frame: %r'
                                      % (self.spec.name, self.id, tag, type(o).__name__))

    def _havoc(self, c):
        if self.kind == 'for' and self.gens is None:
            self.k = c.fresh('k_' + self.spec.name, z3.IntSort())
            c.assume(z3.And(self.k >= 0, self.k <= self.n))
        else:
            self.k = c.fresh('k_' + self.spec.name, z3.IntSort())
            c.assume(self.k >= 0)
        env = dict(self.env)
        self.allowed = []
        over = self.spec.havoc(self, env, self.names)
        self.allowed.extend(self.spec.allow_mutation(self))
        for nme in self.names:
            if nme in over:
                env[nme] = over[nme]
            elif nme in env:
                env[nme] = default_havoc(c, nme, env[nme])
                if env[nme] is UNBOUND:
                    # type unknown: reading it before assignment in the body
                    # is then an UnboundLocalError -> caught as Unsupported
                    env[nme] = Poison(nme)
            else:
                env[nme] = Poison(nme)
        self.env = env

    def has(self, name):
        if name not in self.env:
            return False
        return self.env[name] is not UNBOUND

    def get(self, name):
        return self.env[name]

    def item(self):
        return self._item


class Poison(object):
    """Value of a local the loop contract says nothing about."""
    _vc_track = False

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _die(self, *a, **k):
        raise Unsupported('loop-carried local %r is not covered by the loop contract'
                          % object.__getattribute__(self, '_n'))

    def __getattribute__(self, a):
        if a in ('__class__', '__dict__'):
            return object.__getattribute__(self, a)
        object.__getattribute__(self, '_die')()

    def __bool__(self):
        Poison._die(self)

    for _m in ('lt le gt ge eq ne add radd sub rsub mul rmul truediv rtruediv iadd isub '
               'getitem setitem iter len call contains and or neg abs next').split():
        exec('def __%s__(self, *a): Poison._die(self)' % _m)
    __hash__ = None
