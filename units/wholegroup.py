"""Contracts of the tables over all meters of a group and of the selections of its meters (C39)."""
import z3
from vc import core
from vc.core import VNum, VBool, Unsupported, PathEnd, lift, mkbool, zb
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, VSeq, SymIter, concrete_items
from vc.unit import unit

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
MG = 'nilmtk/metergroup.py:MeterGroup.'
note('concat', 'pd.concat(list, axis=1) puts series side by side in the order of the list; pd.concat(list) puts tables below each other')


class Ident(object):
    _vc_track = False

    def __init__(self, i):
        self.i = i


class Chunk(object):
    """what meter i gives in round r"""
    _vc_track = False

    def __init__(self, w, i, r):
        self.w, self.i, self.r = w, i, r

    @property
    def empty(self):
        return mkbool(self.w.EMPTY(self.i, self.r))

    def sum(self, axis=None, **kw):
        if kw:
            raise Unsupported('sum')
        self.w.c.prove('the columns of the chunk are added', axis in (1, 'columns'))
        return Power(self.i, self.r)

    def vlen(self):
        n = self.w.c.fresh('rows', I)
        self.w.c.assume(z3.And(n >= 0, (n == 0) == self.w.EMPTY(self.i, self.r)))
        return VNum(n)


class Power(object):
    _vc_track = False

    def __init__(self, i, r):
        self.i, self.r = i, r


class Generator(object):
    """of meter i; each round asks it once, so that before round r it has given the lesser of r and its number of chunks"""
    _vc_track = False

    def __init__(self, w, i):
        self.w, self.i = w, i

    def __iter__(self):
        return self

    def __next__(self):
        w, c = self.w, self.w.c
        c.prove('each meter is asked once in a round', not w.asked)
        w.asked = True
        if c.branch(w.r < w.N(self.i)):
            w.got = True
            return Chunk(w, self.i, w.r)
        raise StopIteration


class Side(object):
    """the series of one round side by side"""
    _vc_track = True

    def __init__(self, w, ok):
        self.w, self.ok, self.version, self.names = w, ok, 0, None

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if k == 'columns':
            self.names = v
            self.version += 1


class Meters(LoopSpec):
    """over identifiers and generators: the lists hold one entry per meter with data in this round, and no other"""
    name = 'meters'

    def __init__(self, w):
        self.w, self.lists, self.flags, self.counts = w, None, [], []

    def match(self, loop):
        return isinstance(loop.it, VSeq) and concrete_items(loop.it) is None and 'generators' in getattr(loop.it, 'tag', '')

    def havoc(self, loop, env, names):
        w, c = self.w, self.w.c
        self.lists = [v for v in env.values() if isinstance(v, VList) and v.base is None and not v.tail and v is not w.segments]
        if len(self.lists) != 2:
            raise Unsupported('the lists of the round are not found')
        self.first = lambda k: z3.And(w.i0 < k, w.r < w.N(w.i0), z3.Not(w.EMPTY(w.i0, w.r)))
        n = self.count = c.fresh('with data', I)
        c.assume(n >= 0)
        for l in self.lists:
            l.base, l.tail = (n, lambda i: None), []
            l.version += 1
        self.flags = [nme for nme in names if isinstance(loop.entry.get(nme), (bool, VBool))]
        self.counts = [nme for nme in names if type(loop.entry.get(nme)) is int]    # of the meters that gave nothing
        self.before = {nme: c.fresh('count ' + nme, I) for nme in self.counts}
        r = {nme: VBool(c.fresh('flag ' + nme, B)) for nme in self.flags}
        r.update((nme, VNum(e)) for nme, e in self.before.items())
        return r

    def allow_mutation(self, loop):
        return self.lists

    def inv(self, loop):
        w = self.w
        if self.lists is None:
            return []
        out = []
        if not self.lists[0].tail and not self.lists[1].tail:
            out.append(('a meter with data is in the lists', z3.Implies(self.first(loop.k), self.count >= 1)))
        for nme in self.flags:
            v = loop.env.get(nme)
            out.append(('nothing more just if no meter gave anything', z3.Implies(
                z3.And(zb(v) if isinstance(v, VBool) else z3.BoolVal(v), w.i0 < loop.k), w.r >= w.N(w.i0))))
        for nme in self.counts:
            e = lift(loop.env.get(nme))
            out.append(('as many as have nothing more', z3.And(0 <= e, e <= loop.k, z3.Implies(
                z3.And(e == loop.k, w.i0 < loop.k), w.r >= w.N(w.i0)))))
        return out

    def on_item(self, loop, item):
        self.w.asked = self.w.got = False
        if self.w.c.branch(loop.k == self.w.i0):
            pass

    def at_end(self, loop):
        w, c = self.w, self.w.c
        for nme in self.counts:
            e = lift(loop.env.get(nme))
            if w.got and not z3.is_true(z3.simplify(e == self.before[nme])):
                raise Unsupported('a count of something else than the meters that have nothing more')
        c.prove('every meter is asked in every round', w.asked)
        a = [l.tail for l in self.lists]
        has = w.got and not z3.is_true(w.EMPTY(loop.k, w.r))
        c.prove('an entry just for a meter with data in this round',
                z3.And(w.r < w.N(loop.k), z3.Not(w.EMPTY(loop.k, w.r))) == z3.BoolVal(len(a[0]) == 1))
        ok = len(a[0]) == len(a[1]) <= 1
        if ok and a[0]:
            x, y = sorted((a[0][0], a[1][0]), key=lambda v: not isinstance(v, Ident))
            w.role('by entry', int(y is a[1][0]))
            ok = isinstance(x, Ident) and isinstance(y, Power) and x.i.eq(loop.k) and y.i.eq(loop.k) and y.r.eq(w.r)
        c.prove('its identifier goes with its power of this round', ok)


class Rounds(LoopSpec):
    name = 'rounds'

    def __init__(self, w):
        self.w = w

    def match(self, loop):
        return loop.kind == 'while'

    def havoc(self, loop, env, names):
        w = self.w
        l = [v for v in env.values() if isinstance(v, VList) and v.base is None and not v.tail]
        if len(l) != 1:
            raise Unsupported('the list of the rounds is not found')
        w.segments = l[0]
        w.n = w.c.fresh('segments', I)
        w.c.assume(z3.And(w.n >= 0, w.n <= loop.k))
        w.c.assume(z3.Implies(z3.And(w.i0 >= 0, w.r0 < loop.k, w.r0 < w.N(w.i0), z3.Not(w.EMPTY(w.i0, w.r0))), w.n >= 1))
        w.segments.base, w.segments.tail = (w.n, lambda i: None), []
        w.segments.version += 1
        w.r = loop.k
        return {}

    def allow_mutation(self, loop):
        return [self.w.segments]

    def at_end(self, loop):
        w = self.w
        w.check_segment(w.segments.tail)


@unit('gr.dataframe', [MG + 'dataframe_of_meters'], budget=60)
def gr_dataframe(c, E):
    """every chunk of every meter is in the table: round by round, the chunks of the meters with data side by side under their identifiers,
    until no meter has any more"""
    M = E.load('nilmtk.metergroup')
    w = type('W', (), {})()
    w.c, w.n_meters, w.i0, w.r0, w.segments = c, c.fresh('meters', I), c.fresh('i0', I), c.fresh('r0', I), None
    w.N, w.EMPTY = c.fresh_fun('chunks', I, I), c.fresh_fun('empty', I, I, B)
    w.r = z3.IntVal(0)
    c.assume(z3.And(0 <= w.i0, w.i0 < w.n_meters, w.N(w.i0) >= 0, w.r0 >= 0))
    spec = Meters(w)
    given = dict([('sample_period', 60), ('ac_type', 'active'), ('physical_quantity', 'energy'), ('sections', 'S')][:c.choose(5)])
    want = dict(dict(sample_period='its own', ac_type='best', physical_quantity='power'), **given)
    RESULT, NOTHING = object(), object()
    w.result = None

    def role(how, k):
        """which of the two lists holds the power: as filled, and as used"""
        p = core.ctx().run.persist
        p[how] = k
        c.prove('the power is what is put side by side', len(set(p[h] for h in ('by entry', 'by use') if h in p)) == 1)
    w.role = role

    def check_segment(t):
        some = z3.And(w.r < w.N(w.i0), z3.Not(w.EMPTY(w.i0, w.r)))
        ok = len(t) <= 1 and all(isinstance(s, Side) and s.ok for s in t)
        c.prove('the chunks of the round side by side', ok)
        c.prove('under their identifiers', all(any(s.names is x for x in spec.lists) and s.names is not s.of for s in t))
        for s in t:
            w.role('by use', [s.of is x for x in spec.lists].index(True))
        c.prove('the round is there if a meter has data in it', z3.Implies(some, z3.BoolVal(len(t) == 1)))
    w.check_segment = check_segment

    def concat(l, axis=0, **kw):
        used('concat')
        if kw or not isinstance(l, VList):
            raise Unsupported('concat')
        if axis in (1, 'columns'):
            s = Side(w, spec.lists is not None and any(l is x for x in spec.lists) and not l.tail)
            s.of = l
            return s
        c.prove('all rounds below each other', l is w.segments and not l.tail)
        return RESULT

    def frame(*a, **kw):
        return NOTHING
    M.pd = ShimModule('pd', concat=concat, DataFrame=frame)

    class Group(M.MeterGroup):
        def sample_period(self):
            return 'its own'

        def _meter_generators(self, **kw):
            c.prove('the arguments given, and power of the best AC type on a common grid else', kw == want)
            return (VList.symbolic(w.n_meters, Ident, 'identifiers'), VList.symbolic(w.n_meters, lambda i: Generator(w, i), 'generators'))

        @property
        def identifier(self):
            return type('Id', (), dict(meters=()))()
    g = Group.__new__(Group)
    g.meters, g.disabled_meters = [], []
    E.loop_specs += [spec, Rounds(w)]
    r = g.dataframe_of_meters(**given)
    c.prove('it ends when no meter has any more', w.r >= w.N(w.i0))
    if w.segments is not None:
        c.prove('the last round adds nothing', not w.segments.tail)
    c.prove('the table of all rounds', r is RESULT or r is NOTHING)
    if r is NOTHING:
        c.prove('no table only if no meter has data', z3.Implies(z3.And(w.r0 < w.N(w.i0)), w.EMPTY(w.i0, w.r0)))


class Pairs2(LoopSpec):
    """two lists, one entry per meter in each"""
    name = 'meters'

    def __init__(self, w):
        self.w, self.lists = w, None

    def match(self, loop):
        return isinstance(loop.it, VSeq) and concrete_items(loop.it) is None

    def havoc(self, loop, env, names):
        self.lists = [v for v in env.values() if isinstance(v, VList) and v.base is None and not v.tail]
        if len(self.lists) != 2:
            raise Unsupported('the two lists are not found')
        for l in self.lists:
            l.base, l.tail = (loop.k, lambda i: None), []
            l.version += 1
        self.n = loop.n
        return {}

    def allow_mutation(self, loop):
        return self.lists

    def inv(self, loop):
        return [('an entry per meter', l.base[0] + len(l.tail) == loop.k) for l in self.lists or []]

    def at_end(self, loop):
        a = [l.tail for l in self.lists]
        ok = all(len(x) == 1 for x in a)
        if ok:
            x, y = sorted((a[0][0], a[1][0]), key=lambda v: not isinstance(v, Ident))
            ok = isinstance(x, Ident) and isinstance(y, Loaded) and x.i.eq(loop.k) and y.i.eq(loop.k)
            p = core.ctx().run.persist
            p['generators'] = int(y is a[1][0])
        self.w.c.prove('the identifier and the chunks of the meter', ok)


class Loaded(object):
    _vc_track = False

    def __init__(self, i):
        self.i = i


@unit('gr.generators', [MG + '_meter_generators'])
def gr_generators(c, E):
    """the identifiers and the chunks of all meters, in the same order, each loaded with the arguments given, whatever another does with its own"""
    M = E.load('nilmtk.metergroup')
    w = type('W', (), {})()
    w.c = c
    n = c.fresh('meters', I)
    c.assume(n >= 0)

    class Meter(object):
        _vc_track = False

        def __init__(self, i):
            self.i, self.identifier = i, Ident(i)

        def load(self, **kw):
            c.prove('the arguments given', kw == {'ac_type': 'best', 'sections': ['S']})
            kw['sections'].append('changed')
            return Loaded(self.i)
    g = M.MeterGroup.__new__(M.MeterGroup)
    g.meters, g.disabled_meters = VList.symbolic(n, Meter, 'meters'), []
    spec = Pairs2(w)
    E.loop_specs.append(spec)
    r = g._meter_generators(ac_type='best', sections=['S'])
    ok = isinstance(r, tuple) and len(r) == 2 and spec.lists and all(any(x is l for l in spec.lists) for x in r) and r[0] is not r[1]
    c.prove('identifiers and chunks of all meters', ok)
    p = core.ctx().run.persist
    c.prove('identifiers first', r[1] is spec.lists[p.get('generators', [x is r[1] for x in spec.lists].index(True))])


class Square(object):
    """cell(column, row) -> (value, set?)"""
    _vc_track = True

    def __init__(self, c):
        self.c, self.version = c, 0
        self.cell = lambda a, b: (z3.RealVal(0), z3.BoolVal(False))

    def __getitem__(self, x):
        if not isinstance(x, Ident):
            raise Unsupported('table[%r]' % (x,))
        return Column(self, x.i)

    @property
    def loc(self):
        return Loc(self)


class Loc(object):
    _vc_track = False

    def __init__(self, t):
        self.t = t

    def __getitem__(self, ix):
        return self.t[ix[1]][ix[0]]

    def __setitem__(self, ix, v):
        self.t[ix[1]][ix[0]] = v
    at = property(lambda self: self)


class Column(object):
    _vc_track = False

    def __init__(self, t, a):
        self.t, self.a = t, a

    def __getitem__(self, x):
        v, there = self.t.cell(self.a, x.i)
        self.t.c.prove('only what is in the table is read from it', there)
        return VNum(v)

    def __setitem__(self, x, v):
        e, old, a, b = lift(v), self.t.cell, self.a, x.i
        if e is None:
            raise Unsupported('table[..] = %r' % type(v))

        def cell(p, q):
            v0, t0 = old(p, q)
            here = z3.And(p == a, q == b)
            return z3.If(here, core.to_real(e), v0), z3.Or(here, t0)
        self.t.cell = cell
        self.t.version += 1


class Over(LoopSpec):
    """a loop over the meters; done(k): which cells are filled after k of its meters"""

    def __init__(self, w, level):
        self.w, self.level, self.name = w, level, ['rows', 'columns'][level]

    def match(self, loop):
        return isinstance(loop.it, VSeq) and concrete_items(loop.it) is None and len(self.w.open) == self.level

    def holds(self, k, a, b):
        w = self.w
        done = a < k if self.level == 0 else z3.Or(a < w.open[0], z3.And(a == w.open[0], b < k))
        v, there = w.t.cell(a, b)
        return z3.And(there == done, z3.Implies(done, v == w.F(z3.If(a <= b, a, b), z3.If(a <= b, b, a))))

    def havoc(self, loop, env, names):
        w = self.w
        f, s = w.c.fresh_fun('cell', I, I, R), w.c.fresh_fun('set', I, I, B)
        w.t.cell = lambda a, b: (f(a, b), s(a, b))
        w.t.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.w.t]

    def inv(self, loop):
        w = self.w
        return [('cells of the pairs so far', z3.Implies(z3.And(0 <= w.a0, w.a0 < w.n, 0 <= w.b0, w.b0 < w.n),
                                                          self.holds(loop.k, w.a0, w.b0)))]

    def on_item(self, loop, item):
        w = self.w
        if self.level == 1:     # the same invariant, of the mirrored cell
            i, j = w.open[0], loop.k
            w.c.assume(self.holds(j, j, i))
            w.c.assume(self.holds(j, i, j))
        w.open.append(loop.k)

    def at_end(self, loop):
        self.w.open.pop()


@unit('gr.pairwise', [MG + 'pairwise'], budget=60)
def gr_pairwise(c, E):
    """cell (a, b) holds the number of the pair (a symmetrical method)"""
    M = E.load('nilmtk.metergroup')
    w = type('W', (), {})()
    w.c, w.n, w.a0, w.b0, w.open = c, c.fresh('meters', I), c.fresh('a0', I), c.fresh('b0', I), []
    w.F, w.t = c.fresh_fun('number', I, I, R), None
    c.assume(z3.And(w.n >= 1, 0 <= w.a0, w.a0 < w.n, 0 <= w.b0, w.b0 < w.n))

    class Meter(object):
        _vc_track = False

        def __init__(self, i):
            self.i, self.identifier = i, Ident(i)

        def the_method(self, o):
            return VNum(w.F(z3.If(self.i <= o.i, self.i, o.i), z3.If(self.i <= o.i, o.i, self.i)))     # symmetrical

    def frame(index=None, columns=None, **kw):
        if kw:
            raise Unsupported('DataFrame')
        c.prove('a row and a column per meter', index == 'identifiers' and columns == 'identifiers')
        w.t = Square(c)
        return w.t
    M.pd = ShimModule('pd', DataFrame=frame)
    M.list = lambda l=(): l

    class Group(M.MeterGroup):
        @property
        def identifier(self):
            return type('Id', (), dict(meters='identifiers'))()
    g = Group.__new__(Group)
    g.meters, g.disabled_meters = VList.symbolic(w.n, Meter, 'meters'), []
    E.loop_specs += [Over(w, 0), Over(w, 1)]
    r = g.pairwise('the_method')
    c.prove('the table', r is w.t)
    v, there = w.t.cell(w.a0, w.b0)
    c.prove('every pair has its number', z3.And(there, v == w.F(z3.If(w.a0 <= w.b0, w.a0, w.b0), z3.If(w.a0 <= w.b0, w.b0, w.a0))))


class Wanted(LoopSpec):
    name = 'identifiers'

    def __init__(self, w):
        self.w, self.l = w, None

    def match(self, loop):
        return isinstance(loop.it, VSeq) and concrete_items(loop.it) is None

    def havoc(self, loop, env, names):
        w = self.w
        l = [v for v in w.lists() if v.base is None and not v.tail]
        l += [v for v in env.values() if isinstance(v, VList) and v.base is None and not v.tail and not any(v is x for x in l)]
        if len(l) != 1:
            raise Unsupported('the list of meters is not found')
        self.l = l[0]
        self.l.base, self.l.tail = (w.c.fresh('so far', I), lambda i: None), []
        self.l.version += 1
        w.k = loop.k
        return {}

    def allow_mutation(self, loop):
        return [self.l] + ([self.w.seen] if self.w.seen else [])

    def on_item(self, loop, item):
        self.w.added, self.w.k, self.w.looked = [], loop.k, False

    def at_end(self, loop):
        w, c, t = self.w, self.w.c, self.l.tail
        c.prove('a meter for the first time its identifier comes', w.FIRST(loop.k) == z3.BoolVal(len(t) == 1))
        c.prove('the one of this identifier', len(t) == 0 or len(t) == 1 and isinstance(t[0], tuple) and t[0][0] in ('own', 'assembled') and
                t[0][1].eq(loop.k))
        if w.looked:
            return
        c.prove('which is then known', w.FIRST(loop.k) == z3.BoolVal(len(w.added) == 1) if len(w.added) <= 1 else False)


@unit('gr.from_list', [MG + 'from_list'], budget=60)
def gr_from_list(c, E):
    """the meters (or nested groups, assembled if they do not exist) of the identifiers, each once, in the order given"""
    M = E.load('nilmtk.metergroup')
    w = type('W', (), {})()
    w.c, w.seen, w.added, w.k = c, None, [], None
    n = c.fresh('identifiers', I)
    c.assume(n >= 0)
    w.FIRST = c.fresh_fun('first of its kind', I, B)
    M.original = EL, GR, Base = getattr(M, 'original', None) or (M.ElecMeterID, M.MeterGroupID, M.MeterGroup)
    made = {}

    class EId(EL):
        _vc_track = False

    class GId(GR):
        _vc_track = False

    class TId(tuple):
        _vc_track = False

    def ident(i):
        kind = c.choose(4)
        x = EId(1, 1, 'd') if kind == 0 else GId(('some', 'meters')) if kind == 1 else TId((EL(1, 1, 'd'), EL(2, 1, 'd'))) if kind == 2 else Ident(i)
        x.i = i
        w.kind = kind
        return x

    class Seen(object):
        _vc_track = True
        version = 0

        def __contains__(self, x):
            return c.branch(z3.Not(w.FIRST(x.i)))

        def vcontains(self, x):
            return mkbool(z3.Not(w.FIRST(x.i)))

        def add(self, x):
            c.prove('the identifier of this round', x.i.eq(w.k))
            w.added.append(x.i)
            self.version += 1

    def seen(l=()):
        w.seen = Seen()
        return w.seen
    M.set = seen
    M.list = lambda l=(): l

    def gid(meters=None):
        if not isinstance(meters, TId):
            raise Unsupported('MeterGroupID')
        x = GId(tuple(meters))
        x.i = meters.i
        return x

    class GIdShim(type):
        def __call__(cls, *a, **kw):
            return gid(*a, **kw)

        def __instancecheck__(cls, x):
            return isinstance(x, GR)
    M.MeterGroupID = GIdShim('MeterGroupID', (), {})

    class Group(Base):
        inner = False

        def __getitem__(self, x):
            if c.choose(2) == 0:
                c.prove('there is a meter for every meter identifier', True)
                return ('own', x.i)
            if isinstance(x, EId):
                raise KeyError(x)
            w.missing = x
            raise KeyError(x)

        def from_list(self, ids):
            if not w.outer:
                ok = getattr(w, 'missing', None) is not None and tuple(ids) == tuple(w.missing.meters)
                c.prove('assembled of just its meters, if there is no such group', ok)
                return ('assembled', w.missing.i)
            w.outer = False
            return Base.from_list(self, ids)
    w.outer = True
    w.lists = lambda: []
    w.looked = False
    result = []

    class Before(object):
        """the identifiers before this one"""
        _vc_track = False

        def vcontains(self, x):
            c.prove('this identifier is looked for', x.i.eq(w.k))
            w.looked = True
            return mkbool(z3.Not(w.FIRST(x.i)))

        def __contains__(self, x):
            return bool(self.vcontains(x))

    class Given(VList):
        def __getitem__(self, s):
            if isinstance(s, slice) and s.start in (None, 0) and s.step is None and w.k is not None and lift(s.stop) is not None and \
                    z3.is_true(z3.simplify(lift(s.stop) == w.k)):
                return Before()
            raise Unsupported('identifiers[%r]' % (s,))

    def group(meters=None):
        result.append(meters)
        return 'the group'
    M.MeterGroup = group
    spec = Wanted(w)
    E.loop_specs.append(spec)
    g = Group.__new__(Group)
    try:
        given = Given()
        given.base, given.tag, given.token = (n, ident), 'identifiers', ('sym', 'identifiers')
        r = g.from_list(given)
    except TypeError as e:
        if str(e):      # not the refusal of an identifier, which says nothing
            raise Unsupported('TypeError: %s' % e)
        c.prove('refused only what is no identifier', w.kind == 3)
        return
    except KeyError:
        c.prove('no such meter', w.kind == 0)
        return
    c.prove('a group of these meters', r == 'the group' and len(result) == 1 and result[0] is spec.l)


@unit('gr.top_k', [MG + 'select_top_k'], budget=60)
def gr_top_k(c, E):
    """the k meters with the largest (smallest) share of energy or entropy, in this order; the others as a nested group if asked for"""
    M = E.load('nilmtk.metergroup')
    by = ['energy', 'entropy'][c.choose(2)]
    asc, rest = c.choose(2) == 0, c.choose(2) == 0
    k = VNum(c.fresh('k', I))
    c.assume(k.e >= 0)
    plain = c.choose(2) == 0
    kw = {'sections': 'S'} if by == 'energy' else {}

    class Ranked(object):
        order, part = None, None

        def sort_values(self, inplace=False, ascending=True, **kw):
            if kw:
                raise Unsupported('sort_values')
            r = self if inplace else Ranked()
            r.order = 'smallest' if ascending else 'largest'
            return None if inplace else r

        def __getitem__(self, s):
            if not isinstance(s, slice) or s.step is not None:
                raise Unsupported('ranked[%r]' % (s,))
            r = Ranked()
            r.order = self.order
            if s.start is None and s.stop is k:
                r.part = 'first k'
            elif s.start is k and s.stop is None:
                r.part = 'others'
            else:
                raise Unsupported('ranked[%r]' % (s,))
            return r
        iloc = property(lambda self: self)

        @property
        def index(self):
            return Ids(self.order, self.part, not plain)

    class Ids(object):
        def __init__(self, order, part, named):
            self.order, self.part, self.named = order, part, named
            self.some = c.fresh('some', B)

        def __bool__(self):
            return c.branch(self.some)

        def __getitem__(self, i):
            if isinstance(i, slice):
                part = 'first k' if i.start is None and i.stop is k else 'others' if i.start is k and i.stop is None else None
                if part is None or self.part is not None or i.step is not None:
                    raise Unsupported('identifiers[%r]' % (i,))
                return Ids(self.order, part, self.named)
            t = (1, 2, 'd')
            return M.ElecMeterID(*t) if self.named else t

        def abstract_comp(self, f):
            r = list(f([self[0]]))
            c.prove('the same identifiers', len(r) == 1 and isinstance(r[0], M.ElecMeterID) and tuple(r[0]) == (1, 2, 'd'))
            x = Ids(self.order, self.part, True)
            x.some = self.some
            return x
    M.list = lambda l=(): l

    class Group(M.MeterGroup):
        def ranked(self, what, k):
            c.prove('by what is asked for, with the arguments given', what == by and k == kw)
            return Ranked()

        def fraction_per_meter(self, **k):
            return self.ranked('energy', k)

        def entropy_per_meter(self, **k):
            return self.ranked('entropy', k)

        def from_list(self, ids):
            c.prove('selected by identifiers', z3.Or(z3.BoolVal(ids.named), z3.Not(ids.some)) if isinstance(ids, Ids) else False)
            return type('Selected', (), dict(ids=ids, meters=['the meters of ' + str(ids.part)], name=None))()
    g = Group.__new__(Group)
    g.meters, g.disabled_meters = [], []
    r = g.select_top_k(k, by=by, asc=asc, group_remainder=rest, **kw)
    c.prove('the first k in order', r.ids.part == 'first k' and r.ids.order == ('smallest' if asc else 'largest'))
    l = r.meters
    c.prove('its meters first', l[0] == 'the meters of first k' and len(l) == 1 + rest)
    if rest:
        o = l[1]
        c.prove('the others as one group', getattr(o, 'ids', None) is not None and o.ids.part == 'others' and o.ids.order == r.ids.order and
                o.name == 'others')
