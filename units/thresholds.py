"""Contracts of the on state of a meter and of what its appliances state about it (C40)."""
import z3
from vc import core
from vc.core import VNum, Unsupported, lift, mkbool, to_real
from vc.loops import LoopSpec
from vc.models import note
from vc.seqs import VList, VSeq, SymIter, concrete_items
from vc.unit import unit

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
EL, EM, MG = 'nilmtk/electric.py:', 'nilmtk/elecmeter.py:ElecMeter.', 'nilmtk/metergroup.py:MeterGroup.'
note('extremes', 'min(l) and np.max(l) are the least and the largest of the numbers of a list')
note('set', 'set(l) holds every distinct element of l once')


@unit('th.appliance', ['nilmtk/appliance.py:Appliance.on_power_threshold'])
def th_appliance(c, E):
    """its own threshold, else its nominal on power, else that of its type, else 10 W"""
    M = E.load('nilmtk.appliance')
    own, nominal, of_type = c.choose(2) == 0, c.choose(3), c.choose(2) == 0
    v = [VNum(c.fresh(n, R)) for n in ('own', 'nominal', 'of the type')]
    md, ty = {'type': 'fridge', 'instance': 1}, {'n_ancestors': 3}
    if own:
        md['on_power_threshold'] = v[0]
    if nominal:
        md['nominal_consumption'] = {'on_power': v[1]} if nominal == 1 else {'off_power': v[1]}
    if of_type:
        ty['on_power_threshold'] = v[2]

    class App(M.Appliance):
        @property
        def type(self):
            return dict(ty)
    a = App.__new__(App)
    a.metadata = md
    r = a.on_power_threshold()
    want = v[0] if own else v[1] if nominal == 1 else v[2] if of_type else 10
    c.prove('the first that is stated', to_real(lift(r)) == to_real(lift(want)) if lift(r) is not None else False)


class App(object):
    _vc_track = False

    def __init__(self, w, i):
        self.w, self.i = w, i

    def on_power_threshold(self):
        return VNum(self.w.T(self.i))

    @property
    def type(self):
        return Stated(self.w, self.i)

    @property
    def metadata(self):
        return Marked(self.w, self.i)


class Stated(object):
    _vc_track = False

    def __init__(self, w, i):
        self.w, self.i = w, i

    def get(self, attr, default=None):
        w = self.w
        w.c.prove('the attribute asked for', attr == w.attr)
        return VNum(w.V(self.i)) if w.c.branch(w.STATES(self.i)) else default


class Marked(object):
    _vc_track = False

    def __init__(self, w, i):
        self.w, self.i = w, i

    def get(self, attr, default=None):
        self.w.c.prove('whether it is marked as dominant', attr == 'dominant_appliance')
        return True if self.w.c.branch(self.w.MARK(self.i)) else [None, False, default][self.w.c.choose(3)]


def world(c):
    w = type('W', (), {})()
    w.c, w.n, w.i0 = c, c.fresh('appliances', I), c.fresh('i0', I)
    c.assume(z3.And(w.n >= 0, 0 <= w.i0, w.i0 < w.n + 1))
    w.T, w.V, w.STATES, w.MARK = c.fresh_fun('threshold', I, R), c.fresh_fun('value', I, R), c.fresh_fun('stated', I, B), c.fresh_fun('marked', I, B)
    w.apps = VList.symbolic(w.n, lambda i: App(w, i), 'appliances')
    return w


@unit('th.of_meter', [EL + 'Electric.on_power_threshold'])
def th_of_meter(c, E):
    """the smallest threshold of its appliances, 10 W without any"""
    M = E.load('nilmtk.electric')
    w = world(c)
    least = VNum(c.fresh('least', R))

    def smallest(l, *a, **k):
        if a or k or not isinstance(l, VSeq):
            raise Unsupported('min')
        m, at = l.seq()
        c.prove('of all appliances', m == w.n)
        if c.branch(z3.And(0 <= w.i0, w.i0 < w.n)):
            c.prove('of their thresholds', to_real(lift(at(w.i0))) == w.T(w.i0))
        return least
    M.min = smallest
    e = M.Electric.__new__(M.Electric)
    e.appliances = w.apps
    r = e.on_power_threshold()
    c.prove('the smallest, or 10 W', z3.If(w.n > 0, to_real(lift(r)) == least.e, to_real(lift(r)) == 10) if lift(r) is not None else False)


class Values(LoopSpec):
    name = 'appliances'

    def __init__(self, w):
        self.w, self.l = w, None

    def match(self, loop):
        return isinstance(loop.it, VSeq) and getattr(loop.it, 'tag', '') == 'appliances'

    def havoc(self, loop, env, names):
        w = self.w
        l = [v for v in env.values() if isinstance(v, VList) and v.base is None and not v.tail]
        if len(l) != 1:
            raise Unsupported('the list of the values is not found')
        self.l, self.count = l[0], w.c.fresh('values', I)
        w.c.assume(z3.And(self.count >= 0, z3.Implies(self.count > 0, w.some),
                          z3.Implies(z3.And(w.i0 < loop.k, w.STATES(w.i0)), self.count >= 1)))
        self.l.base, self.l.tail = (self.count, lambda i: None), []
        self.l.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.l]

    def at_end(self, loop):
        w, t = self.w, self.l.tail
        w.c.prove('a value just of an appliance that states one', w.STATES(loop.k) == z3.BoolVal(len(t) == 1))
        w.c.prove('its value', len(t) == 0 or len(t) == 1 and lift(t[0]) is not None and z3.is_true(z3.simplify(to_real(lift(t[0])) == w.V(loop.k))))


@unit('th.durations', [EL + 'Electric._aggregate_metadata_attribute', EL + 'Electric.min_on_duration', EL + 'Electric.min_off_duration'])
def th_durations(c, E):
    """the largest duration the types of its appliances state, 0 if none does"""
    M = E.load('nilmtk.electric')
    w = world(c)
    w.attr = ['min_on_duration', 'min_off_duration'][c.choose(2)]
    w.some = c.fresh('some state one', B)
    largest = VNum(c.fresh('largest', R))
    spec = Values(w)
    E.loop_specs.append(spec)
    f = M.Electric._aggregate_metadata_attribute
    func = f.__defaults__[0] if f.__defaults__ else None
    real = getattr(f, 'vc_agg', None) or func
    if getattr(real, '__name__', '') not in ('max', 'amax', 'v_max'):
        raise Unsupported('agg_func %r' % (real,))

    def agg(l):
        c.prove('of all values', l is spec.l and not l.tail)
        return largest
    f.vc_agg = real
    f.__defaults__ = (agg,) + tuple(f.__defaults__[1:])
    e = M.Electric.__new__(M.Electric)
    e.appliances = w.apps
    r = getattr(e, w.attr)()
    if r is largest:
        c.prove('some appliance states one', w.some)
        return
    c.prove('0', to_real(lift(r)) == 0 if lift(r) is not None else False)
    c.prove('no appliance states one', z3.Not(z3.And(w.i0 < w.n, w.STATES(w.i0))))


class Chunks(LoopSpec):
    name = 'chunks'

    def __init__(self, w):
        self.w, self.l, self.left = w, None, False

    def match(self, loop):
        return isinstance(loop.it, VSeq) and getattr(loop.it, 'tag', '') == 'chunks'

    def havoc(self, loop, env, names):
        w = self.w
        if w.collects:
            l = [v for v in env.values() if isinstance(v, VList) and v.base is None and not v.tail]
            if len(l) != 1:
                raise Unsupported('the list of the activations is not found')
            self.l = l[0]
            self.l.base, self.l.tail = (w.c.fresh('so far', I), lambda i: None), []
            self.l.version += 1
            return {n: self.l for n in names if env.get(n) is self.l}
        return {}

    def allow_mutation(self, loop):
        return [self.l] if self.l is not None else []

    def on_item(self, loop, item):
        self.w.k, self.w.out = loop.k, 0

    def at_end(self, loop):
        w = self.w
        if w.collects:
            t = self.l.tail
            w.c.prove('the activations of the chunk in order', len(t) == 2 and all(isinstance(x, tuple) and x[1].eq(loop.k) for x in t) and
                      [x[0] for x in t] == ['first', 'second'])
        else:
            w.c.prove('every chunk gives one', w.out == 1)

    def on_exit(self, loop):
        self.left = True


class Chunk(object):
    _vc_track = False

    def __init__(self, k):
        self.k = k

    def __ge__(self, x):
        return ('on', self.k, x)
    ge = __ge__


def chunks_of(c, E, w, M, kw):
    n = c.fresh('chunks', I)
    c.assume(n >= 0)
    own = {k: VNum(c.fresh('own ' + k, R)) for k in ('on_power_threshold', 'min_on_duration', 'min_off_duration')}

    class Meter(M.Electric):
        def power_series(self, **k):
            c.prove('the arguments given', k == kw)
            return SymIter(n, Chunk, 'chunks')

        def on_power_threshold(self):
            return own['on_power_threshold']

        def min_on_duration(self):
            return own['min_on_duration']

        def min_off_duration(self):
            return own['min_off_duration']
    w.c, w.k, w.out = c, None, 0
    w.spec = Chunks(w)
    E.loop_specs.append(w.spec)
    return Meter.__new__(Meter), own


@unit('th.when_on', [EL + 'Electric.when_on'])
def th_when_on(c, E):
    """chunk by chunk: at least the threshold given, or else the meter's own"""
    M = E.load('nilmtk.electric')
    w = type('W', (), {})()
    w.collects = False
    m, own = chunks_of(c, E, w, M, {'sections': 'S'})
    given = [None, 0, VNum(c.fresh('given', R))][c.choose(3)]
    want = own['on_power_threshold'] if given is None else given
    for x in m.when_on(given, sections='S') if c.choose(2) == 0 else m.when_on(on_power_threshold=given, sections='S'):
        w.out += 1
        c.prove('power of the chunk at least the threshold', isinstance(x, tuple) and x[0] == 'on' and x[1].eq(w.k) and x[2] is want)
        c.prove('once', w.out == 1)
    c.prove('all chunks', w.spec.left)


@unit('th.activations', [EL + 'Electric.get_activations'])
def th_activations(c, E):
    """the activations of every chunk in order, by the numbers given or else the meter's own"""
    M = E.load('nilmtk.electric')
    w = type('W', (), {})()
    w.collects = True
    kw = {'sections': 'S'}
    if c.choose(2) == 0:
        kw['resample'] = False
    m, own = chunks_of(c, E, w, M, dict({'resample': True}, **kw))
    want, args = dict(own), {}
    for name in own:
        v = [None, 0, VNum(c.fresh('given ' + name, R)), 'left'][c.choose(4)]
        if v == 'left' and not isinstance(v, VNum):
            continue
        args[name] = v
        if v is not None:
            want[name] = v
    border = [None, 0, 3][c.choose(3)]
    if border is not None:
        args['border'] = border

    def acts(chunk, min_off_duration=0, min_on_duration=0, border=1, on_power_threshold=5):
        got = dict(on_power_threshold=on_power_threshold, min_on_duration=min_on_duration, min_off_duration=min_off_duration)
        c.prove('of this chunk', chunk.k.eq(w.k))
        c.prove('by the numbers given, or else its own', all(got[k] is want[k] for k in got) and border == args.get('border', 1))
        return [('first', chunk.k), ('second', chunk.k)]
    M.get_activations = acts
    r = m.get_activations(**dict(args, **kw))
    c.prove('all of them', r is w.spec.l and w.spec.left)


class Search(LoopSpec):
    name = 'appliances'

    def __init__(self, w):
        self.w = w

    def match(self, loop):
        return isinstance(loop.it, VSeq) and getattr(loop.it, 'tag', '') == 'appliances'

    def inv(self, loop):
        w = self.w
        return [('none so far is marked', z3.Implies(w.i0 < loop.k, z3.Not(w.MARK(w.i0))))]

    def on_item(self, loop, item):
        if self.w.c.branch(loop.k == self.w.i0):
            pass


@unit('th.dominant', [EM + 'dominant_appliance'])
def th_dominant(c, E):
    """its only appliance, else the first one marked, else the first; none without appliances"""
    M = E.load('nilmtk.elecmeter')
    w = world(c)
    M.warn = lambda *a, **k: None
    E.loop_specs.append(Search(w))
    m = M.ElecMeter.__new__(M.ElecMeter)
    m.appliances = w.apps
    r = m.dominant_appliance()
    if r is None:
        c.prove('none only without appliances', w.n == 0)
        return
    c.prove('one of its appliances', isinstance(r, App) and z3.And(0 <= r.i, r.i < w.n))
    before = z3.And(w.i0 < w.n, w.n > 1, w.MARK(w.i0))
    c.prove('the first marked, if any, else the first', z3.Or(
        w.n == 1, z3.And(w.MARK(r.i), z3.Implies(w.i0 < r.i, z3.Not(before))), z3.And(r.i == 0, z3.Not(before))))


@unit('th.group_dominant', [MG + 'dominant_appliance'])
def th_group_dominant(c, E):
    """the one all its meters share; none without meters, an error if they differ"""
    M = E.load('nilmtk.metergroup')
    n, i0, d = c.fresh('meters', I), c.fresh('i0', I), c.fresh('distinct', I)
    c.assume(z3.And(n >= 0, 0 <= i0, d >= 0, (d == 0) == (n == 0), d <= n))
    THE = object()

    class Meter(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

        def dominant_appliance(self):
            return ('dominant', self.i)

    def distinct(l=()):
        if not isinstance(l, VSeq):
            raise Unsupported('set')
        m, at = l.seq()
        c.prove('of all meters', m == n)
        if c.branch(i0 < n):
            x = at(i0)
            c.prove('their dominant appliances', isinstance(x, tuple) and x[0] == 'dominant' and x[1].eq(i0))
        return SymIter(d, lambda i: THE, 'distinct')
    M.set = distinct
    g = M.MeterGroup.__new__(M.MeterGroup)
    g.meters, g.disabled_meters = VList.symbolic(n, Meter, 'meters'), []
    try:
        r = g.dominant_appliance()
    except RuntimeError:
        c.prove('an error only if they differ', d > 1)
        return
    c.prove('the one they share, or none', z3.If(d == 0, z3.BoolVal(r is None), z3.And(d == 1, z3.BoolVal(r is THE))))
