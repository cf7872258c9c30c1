"""Contracts of meter groups as collections of meters (C21)."""
import z3
from vc import core
from vc.core import VNum, VBool, Unsupported, PathEnd, lift, mknum, mkbool, zb
from vc.fold import FoldSpec, Picked
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, VSeq, SymIter, concrete_items
from vc.unit import unit
from units.tfcommon import expect

MG = 'nilmtk/metergroup.py:MeterGroup.'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

note('distinct meters', 'a group lists each meter once, and two meters of a group have different identifiers')
note('meter predicates', 'is_site_meter(), matches() and identifiers of a meter do not change during a call')


class Mem(object):
    """the meter at position i of its world"""
    _vc_track = False

    def __init__(self, W, i):
        self.W, self.i = W, i

    def is_site_meter(self):
        return mkbool(self.W.site(self.i))

    def matches(self, key):
        return self.W.match('matches', self, key)

    def matches_appliances(self, key):
        return self.W.match('matches_appliances', self, key)

    @property
    def identifier(self):
        return Ident(self.W, self.i)

    def instance(self):
        return VNum(self.W.inst(self.i))

    def __eq__(self, o):
        if isinstance(o, Mem) and o.W is self.W:
            return mkbool(self.i == o.i)
        if isinstance(o, Mem) and o.W is self.W.apart:
            return False
        if o is None or isinstance(o, (str, int, tuple)):
            return False
        raise Unsupported('meter == %r' % type(o))

    def __ne__(self, o):
        r = self == o
        return mkbool(z3.Not(zb(r)))

    def __hash__(self):
        raise Unsupported('hash of a meter')


class Ident(object):
    """the identifier of a meter; the key asked for is `W.key`"""
    _vc_track = False

    def __init__(self, W, i):
        self.W, self.i = W, i

    def __eq__(self, o):
        if o is self.W.key:
            return mkbool(self.W.iskey(self.i))
        raise Unsupported('identifier == %r' % (o,))

    def __hash__(self):
        raise Unsupported('hash of an identifier')


class World(object):
    def __init__(self, c, E, name='meters', size=None):
        self.c, self.E = c, E
        size = E.size if size is None else size
        self.n = c.fresh(name, I) if size is None else z3.IntVal(size)
        self.size = size
        c.assume(self.n >= 0)
        self.site, self.iskey, self.isgroup = (c.fresh_fun(x, I, B) for x in ('site', 'iskey', 'isgroup'))
        self.inst = c.fresh_fun('instance', I, I)
        self.key, self.apart = None, None       # apart: a world with no meter in common
        self.items = {}
        self.i0 = c.fresh('i0', I)
        self.name = name

    def item(self, i):
        return Mem(self, i)

    def list(self):
        if self.size is None:
            return VList.symbolic(self.n, self.item, self.name)
        return VList([self.item(z3.IntVal(i)) for i in range(self.size)])

    def match(self, *a):
        raise Unsupported('match')

    def any0(self):
        """is there a meter i0 at all"""
        return z3.And(0 <= self.i0, self.i0 < self.n)


def over(name):
    return lambda lp: lp.kind == 'for' and getattr(lp.it, 'tag', '') == name


def group(M, meters, disabled=None):
    g = M.MeterGroup.__new__(M.MeterGroup)
    g.meters, g.disabled_meters, g.name = meters, VList() if disabled is None else disabled, ''
    return g


def untouched(l, before):
    return (l.version, l.base, list(l.tail)) == before


def state(l):
    return l.version, l.base, list(l.tail)


def holds(l, picked, i0):
    """meter i0 is in the list"""
    if not isinstance(l, VSeq):
        raise Unsupported('not a list')
    its = concrete_items(l)
    if its is not None:
        return z3.Or([z3.BoolVal(False)] + [x.i == i0 for x in its])
    if isinstance(l, VList) and picked is not None and not l.tail and l.token == picked.end_token():
        picked.fact(i0)
        return z3.And(0 <= i0, i0 < picked.n, picked.keep(i0))
    raise Unsupported('a list built in an unexpected way')


def once(c, l, what):
    its = concrete_items(l)
    if its is None:
        return          # a filtered list of distinct meters
    for a in range(len(its)):
        for b in range(a):
            c.prove(what, its[a].i != its[b].i)


@unit('mb.submeters', [MG + 'submeters', MG + '__init__'], sizes=[0, 1, 2, 3], weak=True)
def mb_submeters(c, E):
    """the submeters are exactly the meters that are not site meters"""
    M = E.load('nilmtk.metergroup')
    W = World(c, E)
    g = group(M, W.list())
    b = state(g.meters)
    p = None
    if E.size is None:
        p = Picked('meters', over('meters'), W.n, W.item, lambda i: z3.Not(W.site(i)), lambda x, y: x is y)
        E.loop_specs.append(p)
    r = g.submeters()
    c.prove('a new group', isinstance(r, M.MeterGroup) and r is not g)
    c.prove('a meter is a submeter exactly when it is not a site meter',
            z3.Implies(W.any0(), holds(r.meters, p, W.i0) == z3.Not(W.site(W.i0))))
    once(c, r.meters, 'each submeter is listed once')
    c.prove('the group is not changed', untouched(g.meters, b))


@unit('mb.mains', [MG + 'mains'], sizes=[0, 1, 2, 3], weak=True)
def mb_mains(c, E):
    """mains() is None, the only site meter, or the group of exactly the site meters"""
    M = E.load('nilmtk.metergroup')
    W = World(c, E)
    g = group(M, W.list())
    b = state(g.meters)
    multi = c.fresh('several_buildings', B)
    g.contains_meters_from_multiple_buildings = lambda: mkbool(multi)
    g.building = lambda: 'b'
    p = None
    if E.size is None:
        p = Picked('meters', over('meters'), W.n, W.item, W.site, lambda x, y: x is y)
        E.loop_specs.append(p)
        p.fact(W.i0)
    r, err = expect(c, g.mains, RuntimeError)
    if err is not None:
        c.prove('refused only for meters of several buildings', multi)
        return
    c.prove('meters of several buildings are refused', z3.Not(multi))
    s0 = z3.And(W.any0(), W.site(W.i0))
    if r is None:
        c.prove('None only without site meters', z3.Not(s0))
    elif isinstance(r, Mem):
        c.prove('the meter returned is a site meter', W.site(r.i))
        c.prove('and the only one', z3.Implies(s0, r.i == W.i0))
    elif isinstance(r, M.MeterGroup):
        c.prove('the group holds exactly the site meters', z3.Implies(W.any0(), holds(r.meters, p, W.i0) == W.site(W.i0)))
        once(c, r.meters, 'each site meter is listed once')
        c.prove('a group only of several', z3.BoolVal(len(concrete_items(r.meters)) > 1) if E.size is not None
                else p.cnt(W.n) > 1)
    else:
        raise Unsupported('mains() is %r' % type(r))
    c.prove('the group is not changed', untouched(g.meters, b))


@unit('mb.site', [MG + 'is_site_meter'], sizes=[0, 1, 2, 3], weak=True)
def mb_site(c, E):
    """a group is a site meter exactly when one of its meters is"""
    M = E.load('nilmtk.metergroup')
    W = World(c, E)
    r = group(M, W.list()).is_site_meter()
    if c.branch(zb(r)):
        # the witness is the element that decided
        s = z3.Solver()
        i = z3.Int('w')
        c.prove('some meter is a site meter', z3.Exists([i], z3.And(0 <= i, i < W.n, W.site(i))))
    else:
        c.prove('no meter is a site meter', z3.Implies(W.any0(), z3.Not(W.site(W.i0))))


class SetOf(object):
    """set(list): what lists it holds the elements of"""
    _vc_track = False

    def __init__(self, c, srcs):
        self.c, self.srcs = c, srcs

    def union(self, *others):
        used('set')
        return SetOf(self.c, self.srcs + [o.srcs[0] if isinstance(o, SetOf) and len(o.srcs) == 1 else o for o in others])

    def __or__(self, o):
        return self.union(o)

    @property
    def key(self):
        return tuple(sorted(set(id(s) for s in self.srcs)))


note('set', 'set(a).union(b) holds exactly the elements of a and b, once each')


@unit('mb.union', [MG + 'union', MG + '__init__'], sizes=[0, 1], weak=True)
def mb_union(c, E):
    """the union holds exactly the meters of both groups"""
    M = E.load('nilmtk.metergroup')
    W, V = World(c, E, 'a', size=E.size), World(c, E, 'b', size=None if E.size is None else 2)
    g, h = group(M, W.list()), group(M, V.list())
    b = state(g.meters), state(h.meters)
    src = {}

    def mkset(l=()):
        if isinstance(l, SetOf):
            return l
        if not isinstance(l, VList):
            raise Unsupported('set(%r)' % type(l))
        return SetOf(c, [l])

    def mklist(l):
        if isinstance(l, SetOf):
            r = VList()
            r.token = ('set', l.key)
            src['r'] = l
            r.base = (c.fresh('k', I), None)
            return r
        return VList(l)
    M.set = M.frozenset = mkset
    M.convert_to_list = lambda l: VList() if l is None else mklist(l)
    _, err = expect(c, lambda: g.union(VList()), TypeError)
    c.prove('only groups can be united', err is not None)
    r = g.union(h)
    c.prove('a new group', isinstance(r, M.MeterGroup) and r is not g and r is not h)
    t = r.meters.token
    if t[0] != 'set':
        raise Unsupported('union built in an unexpected way')
    c.prove('it holds exactly the meters of both', t == ('set', SetOf(c, [g.meters, h.meters]).key))
    c.prove('the groups are not changed', untouched(g.meters, b[0]) and untouched(h.meters, b[1]))


class Bag(VList):
    """a list of distinct meters that the code removes from and appends to: `has(x)` tells what it holds"""
    _vc_track = True

    @classmethod
    def make(cls, c, W, V, tag):
        l = cls()
        l.c, l.has, l.tag = c, None, tag
        l.base = W.n, W.item
        l.token = ('sym', id(l), tag)
        return l

    def changed(self):
        def at(i):
            raise Unsupported('element of a list that changed')
        self.version += 1
        self.base, self.token = (self.c.fresh('n', I), at), ('changed', self.version)

    def remove(self, x):
        c, old = self.c, self.has
        c.prove('a meter removed is in the list', old(x.W, x.i))
        self.changed()
        self.has = lambda W, i: z3.And(old(W, i), z3.Not(i == x.i) if W is x.W else z3.BoolVal(True))

    def append(self, x):
        c, old = self.c, self.has
        c.prove('a meter appended is not yet in the list', z3.Not(old(x.W, x.i)))
        self.changed()
        self.has = lambda W, i: z3.Or(old(W, i), i == x.i if W is x.W else z3.BoolVal(False))

    def __contains__(self, x):
        return self.c.branch(self.has(x.W, x.i))


@unit('mb.swap', [MG + 'use_alternative_mains'], sizes=[(0, 1), (1, 0), (1, 1), (2, 1), (1, 2)], weak=True)
def mb_swap(c, E):
    """exactly the site meters are exchanged between the meters and the disabled meters"""
    M = E.load('nilmtk.metergroup')
    sz = E.size or (None, None)
    W, V = World(c, E, 'meters', size=sz[0]), World(c, E, 'disabled', size=sz[1])
    W.apart, V.apart = V, W
    if E.size is not None:
        g = group(M, W.list(), V.list())
        m0, d0 = list(g.meters.tail), list(g.disabled_meters.tail)
        _, err = expect(c, g.use_alternative_mains, RuntimeError)
        alt = [x for x in d0 if c.branch(V.site(x.i))]
        cur = [x for x in m0 if c.branch(W.site(x.i))]
        if not alt:
            c.prove('refused without alternative mains', err is not None)
            c.prove('nothing is changed when refused', list(g.meters.tail) == m0 and list(g.disabled_meters.tail) == d0)
            return
        ok = lambda l, e: len(l) == len(e) and set(map(id, l)) == set(map(id, e))
        c.prove('swapped', err is None and ok(g.meters.tail, [x for x in m0 if x not in cur] + alt) and
                ok(g.disabled_meters.tail, [x for x in d0 if x not in alt] + cur))
        return
    inr = lambda U, i: z3.And(0 <= i, i < U.n)
    A, D = Bag.make(c, W, V, 'meters'), Bag.make(c, V, W, 'disabled')
    A.has = lambda U, i: inr(U, i) if U is W else z3.BoolVal(False)
    D.has = lambda U, i: inr(U, i) if U is V else z3.BoolVal(False)
    g = group(M, A, D)
    same = lambda x, y: x is y
    pw = Picked('meters', over('meters'), W.n, W.item, W.site, same)
    pv = Picked('disabled', over('disabled'), V.n, V.item, V.site, same)
    done = {'w': z3.IntVal(0), 'v': z3.IntVal(0)}       # how many site meters were moved

    def facts():
        for p, U in ((pw, W), (pv, V)):
            p.fact(U.i0)

    def moved(p, U, i, k):
        return z3.And(inr(U, i), U.site(i), p.cnt(i) < k)

    def want(which, U, i, kw, kv):
        p, k = (pw, kw) if U is W else (pv, kv)
        p.fact(i)
        if (which is A) == (U is W):
            return z3.And(inr(U, i), z3.Not(moved(p, U, i, k)))
        return moved(p, U, i, k)

    class Move(LoopSpec):
        def __init__(self, name, p, key):
            self.name, self.p, self.key = 'move ' + name, p, key

        def match(self, loop):
            return loop.kind == 'for' and isinstance(loop.it, VList) and loop.it.token == self.p.end_token()

        def ks(self, k):
            d = dict(done)
            d[self.key] = k
            return d['w'], d['v']

        def allow_mutation(self, loop):
            return [A, D]

        def havoc(self, loop, env, names):
            kw, kv = self.ks(loop.k)
            for l in (A, D):
                l.changed()
                l.has = (lambda l: lambda U, i: want(l, U, i, kw, kv))(l)
            return {}

        def inv(self, loop):
            kw, kv = self.ks(loop.k)
            out = []
            for l in (A, D):
                for U in (W, V):
                    out.append(('what the %s hold' % ('meters' if l is A else 'disabled meters'),
                                l.has(U, U.i0) == want(l, U, U.i0, kw, kv)))
            return out

        def on_exit(self, loop):
            done[self.key] = loop.n
    E.loop_specs += [pw, pv, Move('meters', pw, 'w'), Move('alternatives', pv, 'v')]
    c.assume(z3.And(W.n >= 0, V.n >= 0))
    _, err = expect(c, g.use_alternative_mains, RuntimeError)
    facts()
    if err is not None:
        c.prove('refused only without alternative mains', z3.Not(z3.And(V.any0(), V.site(V.i0))))
        c.prove('nothing is changed when refused', z3.And(
            A.has(W, W.i0) == W.any0(), z3.Not(A.has(V, V.i0)), D.has(V, V.i0) == V.any0(), z3.Not(D.has(W, W.i0))))
        return
    c.prove('there are alternative mains', pv.cnt(V.n) > 0)
    if g.meters is not A or g.disabled_meters is not D:
        raise Unsupported('new lists')
    c.prove('the meters keep exactly those that are no site meters', z3.Implies(W.any0(), A.has(W, W.i0) == z3.Not(W.site(W.i0))))
    c.prove('and get exactly the alternative site meters', z3.Implies(V.any0(), A.has(V, V.i0) == V.site(V.i0)))
    c.prove('the disabled meters keep those that are no site meters', z3.Implies(V.any0(), D.has(V, V.i0) == z3.Not(V.site(V.i0))))
    c.prove('and get exactly the former site meters', z3.Implies(W.any0(), D.has(W, W.i0) == W.site(W.i0)))


class Crit(object):
    """value v of a list of values to select by"""
    _vc_track = False

    def __init__(self, v):
        self.v = v


@unit('mb.select', [MG + 'select', MG + 'select_using_appliances', MG + '__init__'],
      sizes=[(1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)], budget=60, weak=True)
def mb_select(c, E):
    """exactly the meters that match, once each; KeyError when a value matches none"""
    M = E.load('nilmtk.metergroup')
    sz = E.size or (None, None)
    W = World(c, E, size=sz[0])
    nv = c.fresh('values', I) if E.size is None else z3.IntVal(sz[1])
    c.assume(nv >= 0)
    mt, rs = c.fresh_fun('match', I, I, B), c.fresh_fun('raises', I, I, B)        # value, meter
    Any = c.fresh_fun('any', I, I, B)                   # value, meters seen
    Hit = c.fresh_fun('hit', I, B)                      # i0 is matched by one of the first v values
    hit = lambda v, i: z3.And(mt(v, i), z3.Not(rs(v, i)))
    c.assume(z3.Not(Hit(0)))
    mode = c.choose(3)                                  # list of values / one criterion / several criteria
    if mode:
        nv = z3.IntVal(1)
    v0 = c.fresh('v0', I)
    app = c.choose(2) == 1
    crit = {'a': 'x'} if mode == 1 else {'a': 'x', 'b': ['y']}
    before = dict(crit)

    def match(fn, m, key):
        c.prove('the meters are matched with the function asked for', fn == ('matches_appliances' if app else 'matches'))
        if mode:
            if key != before:
                c.prove('the meters are matched with all the criteria', False)
            v = z3.IntVal(0)
        else:
            ok = isinstance(key, dict) and list(key) == ['a'] and isinstance(key['a'], Crit)
            c.prove('the meters are matched with one of the values', ok)
            if not ok:
                raise PathEnd()
            v = key['a'].v
        if c.branch(rs(v, m.i)):
            raise KeyError('not a valid key')
        return mkbool(mt(v, m.i))
    W.match = match
    g = group(M, W.list())
    b = state(g.meters)
    ghost = {}          # id of a list base -> occurrences of i0 in it

    def occ(l):
        if not isinstance(l, VList):
            raise Unsupported('selected meters')
        e = z3.IntVal(0)
        if l.base is not None:
            if id(l.base) not in ghost:
                raise Unsupported('a list built in an unexpected way')
            e = ghost[id(l.base)][1]
        for x in l.tail:
            if not isinstance(x, Mem):
                raise Unsupported('a list of something else')
            e = e + z3.If(x.i == W.i0, 1, 0)
        return e

    def value(v, k):
        """i0 was selected by the values before v, or by v among the first k meters"""
        return z3.Or(Hit(v), z3.And(W.i0 < k, hit(v, W.i0)))

    cur = {'v': z3.IntVal(0)}

    class Lists(LoopSpec):
        lists = None

        def outs(self, loop):
            if self.lists is not None:
                return self.lists
            return [n for n in sorted(set(loop.names) | set(loop.mutated())) if isinstance(loop.env.get(n), VList)
                    and not getattr(loop.env[n], 'tag', '') in ('meters', 'values')]

        def havoc(self, loop, env, names):
            self.lists = self.outs(loop)
            over = {}
            for n in self.lists:
                l = env[n]
                l.version += 1
                e = c.fresh('occ', I)
                def at(i):
                    raise Unsupported('element of a list under construction')
                l.base, l.tail, l.token = (c.fresh('len', I), at), [], ('selected', n)
                ghost[id(l.base)] = (l.base, e)
                l.member = (lambda e: lambda x: z3.If(x.i == W.i0, e > 0, c.fresh('in', B)))(e)
                over[n] = l
            for n in names:
                if n in over or n not in env:
                    continue
                if env[n] is None or isinstance(env[n], KeyError):
                    over[n] = None if c.choose(2) == 0 else KeyError('earlier')
            return over

        def allow_mutation(self, loop):
            return [loop.env[n] for n in self.lists]

        def inv(self, loop):
            out = []
            for n in self.outs(loop):
                out.append(('i0 is in %s once when it was selected' % n, occ(loop.env[n]) == z3.If(self.sel(loop), 1, 0)))
            return out + self.more(loop)

        def more(self, loop):
            return []

    class Meters(Lists):
        name = 'meters'

        def match(self, loop):
            return over('meters')(loop)

        def sel(self, loop):
            return value(cur['v'], loop.k)

        def more(self, loop):
            out = []
            if 'no_match' in loop.env:
                out.append(('no_match', z3.Not(Any(cur['v'], loop.k)) == zb(loop.env['no_match'])))
            if 'exception_raised_every_time' in loop.env:
                out.append(('no match while every meter raised', z3.Implies(
                    zb(loop.env['exception_raised_every_time']), z3.Not(Any(cur['v'], loop.k)))))
            return out

        def on_item(self, loop, item):
            k, v = loop.k, cur['v']
            c.assume(Any(v, k + 1) == z3.Or(Any(v, k), hit(v, k)))

        def on_exit(self, loop):
            v = cur['v']
            c.assume(Hit(v + 1) == z3.Or(Hit(v), z3.And(W.any0(), hit(v, W.i0))))

    class Values(Lists):
        name = 'values'

        def match(self, loop):
            return over('values')(loop)

        def sel(self, loop):
            return Hit(loop.k)

        def more(self, loop):
            return [('every value before has a match', z3.Implies(z3.And(0 <= v0, v0 < loop.k), Any(v0, W.n)))]

        def on_item(self, loop, item):
            cur['v'] = loop.k
            c.assume(z3.Not(Any(loop.k, 0)))
    if mode == 0:
        crit = {'a': VList.symbolic(nv, Crit, 'values') if E.size is None else VList([Crit(z3.IntVal(i)) for i in range(sz[1])])}
    else:
        c.assume(z3.Not(Any(0, 0)))
    if E.size is None:
        E.loop_specs += [Meters(), Values()]
        c.assume(W.i0 >= 0)
    call = (lambda: g.select_using_appliances(**crit)) if app else (lambda: g.select(**crit))
    r, err = expect(c, call, KeyError)
    if E.size is not None:
        NV = 1 if mode else sz[1]
        h = [[c.branch(hit(z3.IntVal(v), z3.IntVal(i))) for i in range(sz[0])] for v in range(NV)]
        bad = any(not any(x) for x in h)
        if err is not None:
            c.prove('KeyError only when a value matches no meter', bad)
            return
        c.prove('KeyError when a value matches no meter', not bad)
        got = sorted(z3.simplify(x.i).as_long() for x in r.meters)
        c.prove('exactly the meters that match, once each', got == [i for i in range(sz[0]) if any(h[v][i] for v in range(NV))])
    elif err is not None:
        c.prove('KeyError only when the value matches no meter', z3.Not(Any(cur['v'], W.n)))
        return
    else:
        c.prove('each value matches a meter', z3.Implies(z3.And(0 <= v0, v0 < nv), Any(v0, W.n)))
        c.prove('exactly the meters that match, once each', z3.Implies(
            W.any0(), occ(r.meters) == z3.If(Hit(nv), 1, 0)))
    c.prove('a new group', isinstance(r, M.MeterGroup) and r is not g)
    c.prove('the group is not changed', untouched(g.meters, b))


class Tok(object):
    """something compared only with the key asked for"""
    _vc_track = False

    def __init__(self, c, f=None):
        self.c, self.f = c, f         # f: formula "equals the key"; None: the key itself

    def __eq__(self, o):
        if isinstance(o, Tok):
            if self.f is None and o.f is None:
                return self is o
            if (self.f is None) == (o.f is None):
                raise Unsupported('two identifiers compared')
            return self.c.branch(o.f if self.f is None else self.f)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class TTok(tuple):
    """the same, for identifiers that must be tuples"""
    _vc_track = False

    def __new__(cls, tok):
        t = tuple.__new__(cls, ('id',))
        t.tok = tok
        return t

    def __eq__(self, o):
        return isinstance(o, TTok) and self.tok == o.tok

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class Insts(tuple):
    """instance numbers of a group: whether the key is among them is symbolic"""
    _vc_track = False

    def __new__(cls, c, f):
        t = tuple.__new__(cls, ())
        t.c, t.f = c, f
        return t

    def __contains__(self, k):
        return self.c.branch(self.f)


class First(LoopSpec):
    """a search loop: none of the earlier items is the one searched for"""

    def __init__(self, name, match, W, is_it):
        self.name, self._m, self.W, self.is_it = name, match, W, is_it

    def match(self, loop):
        return self._m(loop)

    def inv(self, loop):
        return [('not found so far', z3.Implies(z3.And(0 <= self.W.i0, self.W.i0 < loop.k), z3.Not(self.is_it(self.W.i0))))]


def look(c, E):
    M = E.load('nilmtk.metergroup')
    W = World(c, E)

    class Grp(M.MeterGroup):
        """a nested group: the meter at position i"""
        _vc_track = False

        def __init__(self, i):
            self.W, self.i = W, i

        identifier = property(lambda self: W.gid(self.i))

        def instance(self):
            return W.ginst(self.i)

        def building(self):
            return W.gb(self.i)

        def dataset(self):
            return W.gd(self.i)

        def matches_appliances(self, key):
            return W.match('matches_appliances', self, key)

        def __getitem__(self, k):
            c.prove('the instance asked for is looked up in the nested group', k is W.key)
            return Inner(self.i)

        def __hash__(self):
            raise Unsupported('hash')

        def __eq__(self, o):
            raise Unsupported('==')

    class Inner(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

    def item(i):
        return Grp(i) if c.branch(W.isgroup(i)) else Mem(W, i)
    W.item = item
    W.Grp, W.Inner = Grp, Inner
    g = group(M, W.list() if E.size is None else VList([item(z3.IntVal(i)) for i in range(E.size)]))
    return M, W, g


def verdict(c, W, f, is_it, what):
    """f() returns the item searched for, or raises KeyError when there is none"""
    r, err = expect(c, f, KeyError)
    found = z3.And(W.any0(), is_it(W.i0))
    if err is not None:
        c.prove('KeyError only when there is no %s' % what, z3.Not(found))
    elif isinstance(r, (Mem, W.Grp)):
        c.prove('the result is the %s' % what, z3.And(0 <= r.i, r.i < W.n, is_it(r.i)))
    else:
        raise Unsupported('result %r' % type(r))
    return r


@unit('mb.get_id', [MG + '__getitem__', MG + 'nested_metergroups'], sizes=[0, 1, 2], budget=60, weak=True)
def mb_get_id(c, E):
    """looking up a meter ID, a group ID or a list of IDs gives the meter or nested group that carries it"""
    M, W, g = look(c, E)
    key_tok = Tok(c)
    W.gid = lambda i: ShimModule('gid', meters=(Tok(c, W.iskey(i)),))
    kind = c.choose(6)
    b = state(g.meters)
    grp = lambda i: z3.And(W.isgroup(i), W.iskey(i))
    if kind == 0 or kind == 1:          # a meter, by ElecMeterID or as a tuple of three
        n = c.fresh('inst', I)
        c.assume(n != 0)
        W.key = key = M.ElecMeterID(VNum(n), VNum(c.fresh('bldg', I)), 'd')
        W.gid = lambda i: Ident(W, i)
        if kind == 1:
            key = (key.instance, key.building, key.dataset)
        spec = First('meters', over('meters'), W, W.iskey)
        if E.size is None:
            E.loop_specs.append(spec)
        if kind == 1:
            class Id(Ident):
                def __eq__(self, o):
                    if isinstance(o, M.ElecMeterID) and len(o) == 3 and all(x is y for x, y in zip(o, key)):
                        return mkbool(W.iskey(self.i))
                    raise Unsupported('identifier == %r' % (o,))
                __hash__ = None
            W.gid = lambda i: Id(W, i)

            class Mem3(Mem):
                _vc_track = False
                identifier = property(lambda self: Id(W, self.i))
            W.item = lambda i: W.Grp(i) if c.branch(W.isgroup(i)) else Mem3(W, i)
            g.meters = W.list() if E.size is None else VList([W.item(z3.IntVal(i)) for i in range(E.size)])
            b = state(g.meters)
        verdict(c, W, lambda: g[key], W.iskey, 'meter with this identifier')
    elif kind == 2:                     # mains of a building
        key = M.ElecMeterID(0, VNum(c.fresh('bldg', I)), 'd')
        seen = []

        def select(**kw):
            seen.append(kw)
            return ShimModule('selected', mains=lambda: 'the mains')
        g.select = select
        r = g[key]
        c.prove('instance 0 gives the mains of the meters of the building and dataset', r == 'the mains' and
                len(seen) == 1 and set(seen[0]) == {'building', 'dataset'} and seen[0]['building'] is key.building and
                seen[0]['dataset'] == 'd')
    elif kind == 3:                     # MeterGroupID
        key = M.MeterGroupID(meters=(key_tok,))
        if E.size is None:
            p = Picked('meters', over('meters'), W.n, W.item, W.isgroup, lambda x, y: x is y)
            E.loop_specs += [p, Sub('groups', p, W)]
        verdict(c, W, lambda: g[key], grp, 'nested group of these meters')
    elif kind == 4:                     # list of meter IDs
        key = [TTok(key_tok)]
        W.gid = lambda i: ShimModule('gid', meters=(TTok(Tok(c, W.iskey(i))),))
        if E.size is None:
            E.loop_specs.append(First('meters', over('meters'), W, grp))
        verdict(c, W, lambda: g[VList(key)], grp, 'nested group of these meters')
        _, err = expect(c, lambda: g[VList([1])], TypeError)
        c.prove('a list of something else is refused', err is not None)
    else:                               # ElecMeterID with a tuple of instances
        key = M.ElecMeterID((key_tok,), Tok(c), Tok(c))
        W.key = key
        kb, kd = c.fresh_fun('building', I, B), c.fresh_fun('dataset', I, B)
        W.ginst, W.gb, W.gd = (lambda i: (Tok(c, W.iskey(i)),)), (lambda i: Tok(c, kb(i))), \
            (lambda i: Tok(c, kd(i)))
        one = c.fresh_fun('idkey', I, B)        # a meter (not a group) whose ID has these instances
        W2 = W.iskey

        class IdT(object):
            _vc_track = False

            def __init__(self, i):
                self.i = i

            def __eq__(self, o):
                if o is key:
                    return mkbool(one(self.i))
                raise Unsupported('==')
            __hash__ = None

        class MemT(Mem):
            _vc_track = False
            identifier = property(lambda self: IdT(self.i))
        W.gid = IdT
        W.item = lambda i: W.Grp(i) if c.branch(W.isgroup(i)) else MemT(W, i)
        g.meters = W.list() if E.size is None else VList([W.item(z3.IntVal(i)) for i in range(E.size)])
        b = state(g.meters)
        ing = lambda i: z3.And(W.isgroup(i), W.iskey(i), kb(i), kd(i))
        if E.size is None:
            p = Picked('meters', lambda lp: over('meters')(lp) and lp.id == 'comp', W.n, W.item, W.isgroup, lambda x, y: x is y)
            E.loop_specs += [p, Sub('groups', p, W, ing), First('meters', over('meters'), W, one)]
        r, err = expect(c, lambda: g[key], KeyError)
        if err is not None:
            c.prove('KeyError only when nothing carries this identifier',
                    z3.Not(z3.And(W.any0(), z3.Or(ing(W.i0), one(W.i0)))))
        else:
            c.prove('the result is the nested group of these meters, else the meter with this identifier',
                    z3.If(z3.And(W.any0(), ing(W.i0)), ing(r.i), z3.Or(ing(r.i), one(r.i))))
    c.prove('the group is not changed', untouched(g.meters, b))


class Sub(LoopSpec):
    """a search loop over the nested groups"""

    def __init__(self, name, p, W, is_it=None):
        self.name, self.p, self.W = name, p, W
        self.is_it = is_it or (lambda i: z3.And(W.isgroup(i), W.iskey(i)))

    def match(self, loop):
        return loop.kind == 'for' and isinstance(loop.it, VList) and loop.it.token == self.p.end_token()

    def inv(self, loop):
        i0 = self.W.i0
        self.p.fact(i0)
        return [('not found so far', z3.Implies(z3.And(0 <= i0, i0 < self.W.n, self.W.isgroup(i0), self.p.cnt(i0) < loop.k),
                                                z3.Not(self.is_it(i0))))]


@unit('mb.get_app', [MG + '__getitem__'], sizes=[0, 1, 2], budget=60, weak=True)
def mb_get_app(c, E):
    """looking up an appliance or an instance number gives the only meter that has it"""
    M, W, g = look(c, E)
    kind = c.choose(5)
    b = state(g.meters)
    if kind < 3:                        # an appliance: dict, (type, instance), type
        rs = c.fresh_fun('raises', I, B)
        inst = VNum(c.fresh('inst', I))
        key = {'type': 'toaster', 'instance': inst}

        def match(fn, m, k):
            c.prove('the appliance asked for is looked up', fn == 'matches_appliances' and isinstance(k, dict) and
                    set(k) == {'type', 'instance'} and k['type'] == 'toaster' and
                    (k['instance'] is inst if kind != 2 else k['instance'] == 1))
            if c.branch(rs(m.i)):
                raise KeyError('not a valid key')
            return mkbool(W.iskey(m.i))
        W.match = match
        is_it = lambda i: z3.And(W.iskey(i), z3.Not(rs(i)))
        f = [lambda: g[key], lambda: g[('toaster', inst)], lambda: g['toaster']][kind]
        same = lambda x, y: x is y
        item = W.item
    else:                               # an instance number
        n = c.fresh('inst', I)
        W.key = VNum(n)
        has = c.fresh_fun('has', I, B)
        W.ginst = lambda i: Insts(c, has(i))
        is_it = lambda i: z3.If(W.isgroup(i), has(i), W.inst(i) == n)
        f = lambda: g[W.key]
        same = lambda x, y: isinstance(y, W.Inner) and isinstance(x, W.Grp) and y.i.eq(x.i) or \
            x is y and not isinstance(x, W.Grp)
        item = lambda i: W.Inner(i) if c.branch(W.isgroup(i)) else Mem(W, i)
        if kind == 4:
            for k in (1.5, None, True, (1, 2, 3, 4), b'x'):
                _, err = expect(c, lambda: g[k], TypeError)
                c.prove('other keys are refused', err is not None)
            return
    if E.size is None:
        p = Picked('meters', over('meters'), W.n, item, is_it, same)
        E.loop_specs.append(p)
        p.fact(W.i0)
        i1 = c.fresh('i1', I)
        p.fact(i1)
        m = p.cnt(W.n)
        none, several = m == 0, m > 1
    else:
        t = sum([z3.If(is_it(z3.IntVal(i)), 1, 0) for i in range(E.size)], z3.IntVal(0))
        none, several = t == 0, t > 1
    try:
        r, err = f(), None
    except Exception as e:
        r, err = None, e
        if isinstance(e, (PathEnd, Unsupported)):
            raise
    if isinstance(err, KeyError):
        c.prove('KeyError only when no meter matches', none)
    elif err is not None:
        c.prove('refused only when several meters match', several)
    else:
        c.prove('the only meter that matches', z3.And(z3.Not(none), z3.Not(several), is_it(r.i)))
        c.prove('there is no other', z3.Implies(z3.And(W.any0(), is_it(W.i0)), r.i == W.i0))
        if kind == 3:
            c.prove('for a meter of a nested group, the meter itself', isinstance(r, (Mem, W.Inner)))
    c.prove('the group is not changed', untouched(g.meters, b))


class Tried(LoopSpec):
    """every item is tried until one matches; Nr counts the items the key does not apply to"""
    name = 'items'

    def __init__(self, c, W, rs):
        self.c, self.W, self.rs = c, W, rs
        self.Nr = c.fresh_fun('raised', I, I)
        c.assume(self.Nr(0) == 0)

    def match(self, loop):
        return over('meters')(loop)

    def havoc(self, loop, env, names):
        out = {}
        for n in names:
            if n in env and (env[n] is None or isinstance(env[n], KeyError)):
                out[n] = None if self.c.choose(2) == 0 else KeyError('earlier')
        return out

    def inv(self, loop):
        k, Nr, W = loop.k, self.Nr, self.W
        out = [('no match so far', z3.Implies(z3.And(0 <= W.i0, W.i0 < k, z3.Not(self.rs(W.i0))),
                                              z3.Not(W.iskey(W.i0)))),
               ('count', z3.And(0 <= Nr(k), Nr(k) <= k)),
               ('all raised', z3.Implies(z3.And(Nr(k) == k, 0 <= W.i0, W.i0 < k), self.rs(W.i0)))]
        for n in loop.names:
            v, v0 = loop.env.get(n), loop.entry.get(n)
            if isinstance(v0, (bool, VBool)):
                first = v0 if isinstance(v0, bool) else bool(v0)
                out.append((n, zb(v) == ((Nr(k) == k) if first else (Nr(k) < k))))
            elif isinstance(v0, (int, VNum)):
                out.append((n, lift(v) == lift(v0) + Nr(k)))
                out.append(('raised as soon as the key applies to no item', z3.Or(W.n == 0, Nr(k) < W.n)))
        return out

    def on_item(self, loop, item):
        k, Nr = loop.k, self.Nr
        self.c.assume(Nr(k + 1) == Nr(k) + z3.If(self.rs(k), 1, 0))


@unit('mb.matches', [MG + 'matches', 'nilmtk/electric.py:Electric.matches_appliances'], sizes=[0, 1, 2, 3], weak=True)
def mb_matches(c, E):
    """a group (appliances) matches iff one of its meters (appliances) does; KeyError iff the key applies to none"""
    M = E.load('nilmtk.metergroup')
    W = World(c, E)
    rs = c.fresh_fun('raises', I, B)
    key = {'type': 'toaster'}
    app = c.choose(2) == 1

    def match(fn, m, k):
        c.prove('the items are matched with the key', fn == 'matches' and k is key)
        if c.branch(rs(m.i)):
            raise KeyError('not a valid key')
        return mkbool(W.iskey(m.i))
    W.match = match
    items = W.list()
    b = state(items)
    if app:
        M2 = E.load('nilmtk.electric')
        g = M2.Electric()
        g.appliances = items
        f = lambda: g.matches_appliances(key)
    else:
        g = group(M, items)
        f = lambda: g.matches(key)
    spec = Tried(c, W, rs)
    if E.size is None:
        E.loop_specs.append(spec)
        allr = z3.And(W.n > 0, spec.Nr(W.n) == W.n)
    else:
        allr = z3.And([z3.BoolVal(W.size > 0)] + [rs(z3.IntVal(i)) for i in range(W.size)])
    r, err = expect(c, f, KeyError)
    one = z3.And(W.any0(), z3.Not(rs(W.i0)), W.iskey(W.i0))
    if err is not None:
        c.prove('KeyError only when the key applies to no item', allr)
        c.prove('KeyError only when the key does not apply to this item', z3.Implies(W.any0(), rs(W.i0)))
        return
    c.prove('KeyError when the key applies to no item', z3.Not(allr) if E.size is not None else
            z3.Or(zb(r), z3.Not(allr)))
    c.prove('it matches when one item does', z3.Implies(one, zb(r)))
    if E.size is None:
        x = z3.Int('x')
        c.prove('it matches only when one item does', z3.Implies(zb(r), z3.Exists([x], z3.And(
            0 <= x, x < W.n, W.iskey(x), z3.Not(rs(x))))))
    else:
        c.prove('it matches only when one item does', z3.Implies(zb(r), z3.Or([z3.BoolVal(False)] + [
            z3.And(W.iskey(z3.IntVal(i)), z3.Not(rs(z3.IntVal(i)))) for i in range(W.size)])))
    c.prove('the items are not changed', untouched(items, b))


class Key(str):
    """the name of criterion i"""
    _vc_track = False

    def __new__(cls, D, i):
        s = str.__new__(cls, 'criterion')
        s.D, s.i = D, i
        return s

    def __eq__(self, o):
        if isinstance(o, Key):
            return self is o or self.D.c.branch(self.i == o.i)
        if o == 'type':
            return self.D.app and self.D.c.branch(self.D.is_type(self.i))
        if o == 'category':
            return self.D.app and self.D.c.branch(self.D.is_cat(self.i))
        raise Unsupported('name of a criterion == %r' % (o,))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of a name')


class Crits(dict):
    """the criteria asked for: any number of them"""
    _vc_track = False

    def __init__(self, D, size):
        dict.__init__(self, criterion='value')
        self.D, self.size = D, size

    def items(self):
        D = self.D
        at = lambda i: (Key(D, i), Want(D, i) if not D.c.branch(D.wl(i)) else WantList(D, i))
        if self.size is None:
            return SymIter(D.n, at, 'meters')
        return [at(z3.IntVal(i)) for i in range(self.size)]

    def _no(self, *a):
        raise Unsupported('use of the criteria')
    __iter__ = __len__ = __getitem__ = keys = values = _no

    def __bool__(self):
        return True


class Want(object):
    _vc_track = False

    def __init__(self, D, i):
        self.D, self.i = D, i

    def _cmp(self, o):
        if o is len:
            return False
        if isinstance(o, (Has, HasList)) and z3.eq(z3.simplify(o.i), z3.simplify(self.i)):
            return self.D.c.branch(self.D.eq(self.i))
        raise Unsupported('a value == %r' % type(o))

    def __eq__(self, o):
        return self._cmp(o)

    def __ne__(self, o):
        return not self._cmp(o)

    __hash__ = None


class WantList(list):
    _vc_track = False

    def __init__(self, D, i):
        list.__init__(self)
        self.D, self.i = D, i
    _cmp, __eq__, __ne__ = Want._cmp, Want.__eq__, Want.__ne__
    __hash__ = None


class Has(object):
    """the value found for criterion i"""
    _vc_track = False

    def __init__(self, D, i):
        self.D, self.i = D, i

    def __eq__(self, o):
        return o == self if isinstance(o, (Want, WantList)) else NotImplemented

    def __ne__(self, o):
        return o != self if isinstance(o, (Want, WantList)) else NotImplemented
    __hash__ = None


class HasList(list):
    _vc_track = False

    def __init__(self, D, i):
        list.__init__(self)
        self.D, self.i = D, i
    __eq__, __ne__ = Has.__eq__, Has.__ne__
    __hash__ = None

    def __contains__(self, v):
        if isinstance(v, (Want, WantList)):
            return self.D.c.branch(self.D.among(self.i))
        raise Unsupported('in')

    def __iter__(self):
        raise Unsupported('items of a list value')
    __len__ = __getitem__ = None


class Names(object):
    """a dict of metadata: which criteria it has is symbolic"""
    _vc_track = False

    def __init__(self, D, has, get, what):
        self.D, self.has, self.val, self.what = D, has, get, what

    def __contains__(self, k):
        if not isinstance(k, Key):
            raise Unsupported('%r in %s' % (k, self.what))
        return self.D.c.branch(self.has(k.i))

    def __getitem__(self, k):
        if not isinstance(k, Key):
            raise Unsupported('%s[%r]' % (self.what, k))
        if not self.D.c.branch(self.has(k.i)):
            raise KeyError(k)
        return self.val(k.i)

    def get(self, k, d=None):
        if isinstance(k, Key):
            return self[k] if k in self else d
        return self.other(k, d)

    def other(self, k, d):
        raise Unsupported('%s.get(%r)' % (self.what, k))


class Iden(object):
    """the identifier tuple: `is_id`: the criterion is one of its fields; `meth`: a method of tuples"""
    _vc_track = False

    def __init__(self, D):
        self.__dict__['D'] = D

    @property
    def _fields(self):
        return Names(self.D, self.D.is_id, None, 'fields')

    def __getattr__(self, k):
        return self.attr(k)

    def attr(self, k):
        D = self.D
        if isinstance(k, Key):
            if D.c.branch(D.is_id(k.i)):
                return Has(D, k.i)
            if D.c.branch(D.meth(k.i)):
                return len
            raise AttributeError(k)
        if k == 'type' and D.app:
            return D.own
        raise Unsupported('identifier.%s' % k)

    def _asdict(self):
        return Names(self.D, self.D.is_id, lambda i: Has(self.D, i), 'identifier')


def attributes(M):
    """getattr/hasattr with the name of a criterion"""
    def get(o, k, *d):
        if not isinstance(k, Key):
            return getattr(o, k, *d)
        if not isinstance(o, Iden):
            raise Unsupported('getattr(%r, criterion)' % type(o))
        try:
            return o.attr(k)
        except AttributeError:
            if d:
                return d[0]
            raise

    def has(o, k):
        try:
            get(o, k)
        except AttributeError:
            return False
        return True
    M.getattr, M.hasattr = get, has


class Tried2(LoopSpec):
    name = 'criteria'

    def __init__(self, D):
        self.D = D

    def match(self, loop):
        return over('meters')(loop)

    def inv(self, loop):
        D, k = self.D, loop.k
        out = [('every criterion so far is known', z3.Implies(z3.And(0 <= D.i0, D.i0 < k), D.known(D.i0))),
               ('count', z3.And(0 <= D.Bad(k), D.Bad(k) <= k)),
               ('none missed', z3.Implies(z3.And(D.Bad(k) == 0, 0 <= D.i0, D.i0 < k), D.ok(D.i0)))]
        for n in loop.names:
            v0 = loop.entry.get(n)
            if isinstance(v0, (bool, VBool)):
                if not isinstance(v0, bool):
                    v0 = bool(v0)
                out.append(('all match', zb(loop.env[n]) == ((D.Bad(k) == 0) if v0 else (D.Bad(k) != 0))))
        return out

    def on_item(self, loop, item):
        D, k = self.D, loop.k
        D.c.assume(D.Bad(k + 1) == D.Bad(k) + z3.If(D.ok(k), 0, 1))


class Data(object):
    def __init__(self, c, E, app):
        self.c, self.app = c, app
        self.n = c.fresh('criteria', I) if E.size is None else z3.IntVal(E.size)
        c.assume(self.n >= 1)
        for x in 'is_id meth is_md is_dev is_cat is_type wl dl eq among syn own_eq cat'.split():
            setattr(self, x, c.fresh_fun(x, I, B))
        self.Bad = c.fresh_fun('bad', I, I)
        c.assume(self.Bad(0) == 0)
        self.i0 = c.fresh('i0', I)
        i = self.i0
        self.own = Own(self)
        self.syn_on, self.has_syn = True, c.fresh('has synonyms', B)

    def at(self, i):
        """facts about criterion i: a name is one thing"""
        self.c.assume(z3.Not(z3.And(self.is_id(i), self.meth(i))))
        if self.app:
            self.c.assume(z3.Implies(self.is_type(i), z3.And(self.is_id(i), z3.Not(self.is_cat(i)))))
            self.c.assume(z3.Implies(self.is_type(i), self.own_eq(i) == self.eq(i)))
            self.c.assume(z3.Implies(z3.Not(self.has_syn), z3.Not(self.syn(i))))
            self.c.assume(z3.Implies(self.is_cat(i), z3.And(z3.Not(self.is_id(i)), z3.Not(self.is_dev(i)))))

    def known(self, i):
        x = [self.is_id(i), self.is_md(i), self.is_dev(i)] + ([self.is_cat(i)] if self.app else [])
        return z3.Or(x)

    def ok(self, i):
        lst = z3.If(z3.And(self.dl(i), z3.Not(self.wl(i))), self.among(i), self.eq(i))
        if not self.app:
            return z3.If(z3.Or(self.is_id(i), self.is_md(i)), self.eq(i), lst)
        idm = z3.If(self.is_type(i), z3.Or(self.own_eq(i), self.syn(i)), self.eq(i)) if self.syn_on else \
            z3.If(self.is_type(i), self.own_eq(i), self.eq(i))
        return z3.If(self.is_id(i), idm, z3.If(self.is_md(i), self.eq(i), z3.If(self.is_cat(i), self.cat(i), lst)))


class Own(Has):
    """the type of the appliance"""
    def __init__(self, D):
        self.D, self.i = D, None


class Syns(list):
    """synonyms of the type of the appliance (a copy of its own) and, once appended, the type itself"""
    _vc_track = False

    def __init__(self, D):
        list.__init__(self)
        self.D, self.own = D, False

    def append(self, x):
        if x is not self.D.own:
            raise Unsupported('append')
        self.own = True

    def __add__(self, o):
        if len(o) == 1 and o[0] is self.D.own:
            r = Syns(self.D)
            r.own = True
            return r
        raise Unsupported('synonyms +')

    def __contains__(self, v):
        D, i = self.D, v.i
        return D.c.branch(z3.Or(D.syn(i), D.own_eq(i)) if self.own else D.syn(i))

    def __iter__(self):
        raise Unsupported('the synonyms')
    __len__ = None


class TypeMd(Names):
    def other(self, k, d):
        D = self.D
        if k == 'synonyms':
            s = D.c.branch(D.has_syn)
            return d if not s and d is None else Syns(D)
        if k == 'categories':
            return ShimModule('categories', values=lambda: 'the categories')
        raise Unsupported('type.get(%r)' % k)


def criteria(c, E, cls, D, extra):
    key = Crits(D, E.size)
    if E.size is None:
        spec = Tried2(D)
        E.loop_specs.append(spec)
        D.at(D.i0)
        old = spec.on_item
        spec.on_item = lambda loop, item: (old(loop, item), D.at(loop.k))
    else:
        for i in range(E.size):
            D.at(z3.IntVal(i))
    class X(cls):
        _vc_track = False
        identifier = property(lambda self: Iden(D))
        for k_ in extra:
            locals()[k_] = extra[k_]
    m = X.__new__(X)
    m.metadata = Names(D, D.is_md, lambda i: Has(D, i), 'metadata')
    r, err = expect(c, lambda: m.matches(key), KeyError)
    in0 = z3.And(0 <= D.i0, D.i0 < D.n)
    if E.size is None:
        x = z3.Int('x')
        bad = z3.Exists([x], z3.And(0 <= x, x < D.n, z3.Not(D.known(x))))
        allok = D.Bad(D.n) == 0
    else:
        bad = z3.Or([z3.Not(D.known(z3.IntVal(i))) for i in range(E.size)])
        allok = z3.And([D.ok(z3.IntVal(i)) for i in range(E.size)])
    if err is not None:
        c.prove('KeyError only for an unknown criterion', bad)
    else:
        c.prove('KeyError for an unknown criterion', z3.Implies(in0, D.known(D.i0)))
        c.prove('it matches iff all criteria do', zb(r) == allok)
        c.prove('it matches only when this criterion does', z3.Implies(z3.And(zb(r), in0), D.ok(D.i0)))
    r, _ = expect(c, lambda: m.matches({}), KeyError)
    c.prove('everything matches no criteria', r is True)
    _, err = expect(c, lambda: m.matches('fridge'), TypeError)
    c.prove('something else than a dict is refused', err is not None)


def found(D):
    return lambda i: HasList(D, i) if D.c.branch(D.dl(i)) else Has(D, i)


@unit('mb.meter', ['nilmtk/elecmeter.py:ElecMeter.matches'], sizes=[1, 2], weak=True)
def mb_meter(c, E):
    """a meter matches iff its identifier, metadata or device has the value of every criterion"""
    M = E.load('nilmtk.elecmeter')
    attributes(M)
    D = Data(c, E, False)
    criteria(c, E, M.ElecMeter, D, dict(device=property(lambda self: Names(D, D.is_dev, found(D), 'device'))))


@unit('mb.appliance', ['nilmtk/appliance.py:Appliance.matches', 'nilmtk/appliance.py:Appliance.categories'],
      sizes=[1], weak=True, budget=60)
def mb_appliance(c, E):
    """an appliance matches iff its identifier (or a synonym of its type), metadata, a category or its type has
    the value of every criterion"""
    M = E.load('nilmtk.appliance')
    attributes(M)
    D = Data(c, E, True)
    D.syn_on = c.choose(2) == 0
    M.Appliance.allow_synonyms = D.syn_on

    class Cats(object):
        _vc_track = False

        def __contains__(self, v):
            return D.c.branch(D.cat(v.i))

    def flat(x):
        c.prove('the categories of the type are flattened', x == 'the categories')
        return Cats()
    M.flatten_2d_list = flat
    criteria(c, E, M.Appliance, D, dict(type=property(lambda self: TypeMd(D, D.is_dev, found(D), 'type'))))
