"""Contracts of opening a data set (C35): which meters, groups and appliances come out of the metadata.

One arbitrary meter m0 and one arbitrary appliance a0 are followed; the group's list of meters is known by how often
it holds m0 itself, and how many groups were added for a0; a meter's appliances by how often a0 is on m0."""
import z3
from vc import core
from vc.core import VNum, VBool, Unsupported, PathEnd, lift, mkbool, mknum, zb
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, VSeq, SymIter
from vc.unit import unit

I, B = z3.IntSort(), z3.BoolSort()
MG = 'nilmtk/metergroup.py:MeterGroup.'
EM = 'nilmtk/elecmeter.py:ElecMeter.'
note('described building', 'meter instances of a building are positive and distinct; an appliance lists each of its meters once, '
     'and only meters that are described (or just 0, the site, of a building with a site meter); a meter of an appliance with '
     'several meters has no other appliance, itself or as the site')
note('meter lookup', 'group[ElecMeterID] is the meter of the group with that identifier, or for instance 0 its site meter or a '
     'group of its site meters (C21, C14)')


def one(f):
    return z3.If(f, z3.IntVal(1), z3.IntVal(0))


class World(object):
    def __init__(self, c):
        self.c = c
        self.N, self.A = c.fresh('meters', I), c.fresh('appliances', I)
        self.inst = c.fresh_fun('instance', I, I)           # of meter i
        self.site, self.dis = c.fresh_fun('site', I, B), c.fresh_fun('disabled', I, B)
        self.NM = c.fresh_fun('n_meters', I, I)             # of appliance k
        self.lists = c.fresh_fun('lists', I, I, I)          # instance at place j of appliance k
        self.P = c.fresh_fun('place of m0', I, I)           # -1: not listed
        self.m0, self.a0, self.u0 = (c.fresh(x, I) for x in ('m0', 'a0', 'u0'))
        self.pos = c.fresh_fun('meter with instance', I, I)
        self.S, self.q0 = c.fresh('site_meters', I), c.fresh('q0', I)
        self.sat = c.fresh_fun('site meter', I, I)
        self.n_off, self.j0 = c.fresh('disabled_meters', I), c.fresh('j0', I)
        self.off = c.fresh_fun('off', I, I)
        self.cur = None
        c.assume(z3.And(self.N >= 0, self.A >= 0, 0 <= self.m0, self.m0 < self.N, 0 <= self.a0, self.a0 < self.A,
                        -1 <= self.u0, self.u0 < self.A, self.inst(self.m0) >= 1, self.S >= 1,
                        z3.Implies(self.site(self.m0), z3.And(0 <= self.q0, self.q0 < self.S, self.sat(self.q0) == self.m0))))
        if self.u0 is not None:
            c.assume(z3.Implies(self.u0 >= 0, z3.And(self.NM(self.u0) > 1, self.P(self.u0) >= 0)))
        self.app(self.a0)

    def attaches(self, k):
        """is m0 a meter of appliance k"""
        return z3.If(z3.And(self.NM(k) == 1, self.lists(k, 0) == 0), self.site(self.m0), self.P(k) >= 0)

    def app(self, k):
        """what the description says of appliance k"""
        many, P = self.NM(k) > 1, self.P(k)
        self.c.assume(z3.Implies(z3.And(0 <= k, k < self.A), z3.And(
            self.NM(k) >= 1, -1 <= P, P < self.NM(k), z3.Implies(P >= 0, self.lists(k, P) == self.inst(self.m0)),
            z3.And(many, P >= 0) == (k == self.u0), z3.Implies(z3.And(z3.Not(many), self.attaches(k)), self.u0 < 0))))

    def listed(self, k, j):
        self.c.assume(z3.Implies(z3.And(0 <= j, j < self.NM(k)), z3.And(
            (self.lists(k, j) == self.inst(self.m0)) == (j == self.P(k)),
            z3.Implies(self.NM(k) > 1, self.lists(k, j) != 0), self.lists(k, j) >= 0)))
        return VNum(self.lists(k, j))

    def find(self, x):
        """the meter with instance x"""
        i = self.pos(x)
        self.c.assume(z3.And(0 <= i, i < self.N, self.inst(i) == x, (i == self.m0) == (x == self.inst(self.m0))))
        return i


class State(object):
    """how often m0 is in the group itself and disabled; groups for a0; how often a0 is on m0"""
    _vc_track = True
    FIELDS = ('cnt', 'off', 'grp', 'att')

    def __init__(self, W):
        self.W, self.version = W, 0
        self.cnt = self.off = self.grp = self.att = z3.IntVal(0)

    def add(self, field, e):
        setattr(self, field, z3.simplify(getattr(self, field) + e))
        self.version += 1

    def havoc(self):
        for f in self.FIELDS:
            setattr(self, f, self.W.c.fresh('h_' + f, I))
        self.version += 1

    def copy(self):
        return dict((f, getattr(self, f)) for f in self.FIELDS)


class Md(object):
    _vc_track = False

    def __init__(self, W, i):
        self.W, self.i = W, i

    def get(self, k, default=None):
        if k != 'disabled':
            raise Unsupported('metadata %r' % (k,))
        return mkbool(self.W.dis(self.i))

    def __getitem__(self, k):
        raise Unsupported('metadata[%r]' % (k,))


class AMd(object):
    """metadata of an appliance"""
    _vc_track = False

    def __init__(self, W, k):
        self.W, self.k, self.given = W, k, {}

    def __setitem__(self, k, v):
        self.given[k] = v

    def get(self, k, default=None):
        return self.given[k] if k in self.given else self[k]

    def __getitem__(self, k):
        if k == 'meters':
            return VList.symbolic(self.W.NM(self.k), lambda j: self.W.listed(self.k, j), 'listed')
        raise Unsupported('metadata[%r]' % (k,))


class Bag(object):
    """the meters of the group, or its disabled meters"""
    _vc_track = False

    def __init__(self, st, field, M, disabled=None):
        self.st, self.field, self.M = st, field, M

    def append(self, x):
        W = self.st.W
        if isinstance(x, self.M.ElecMeter):
            self.st.add(self.field, one(x.i == W.m0))
        elif isinstance(x, self.M.MeterGroup) and self.field == 'cnt':
            k, j, l = W.cur, W.c.fresh('j', I), x.meters
            if k is None or not isinstance(l, VSeq):
                raise Unsupported('a group out of nowhere')
            n, at = l.seq()
            W.c.prove('a group is made for an appliance with several meters', W.NM(k) > 1)
            W.c.prove('the group has as many meters as the appliance lists', n == W.NM(k))
            W.c.assume(z3.And(0 <= j, j < W.NM(k)))
            W.done = True               # looked up before they were taken out
            m = at(j)
            W.done = False
            W.c.prove('the meters of the group are those the appliance lists',
                      W.inst(m.i) == W.lists(k, j) if isinstance(m, self.M.ElecMeter) else False)
            self.st.add('grp', one(k == W.a0))
        else:
            raise Unsupported('append of %r' % type(x))

    def remove(self, x):
        if not isinstance(x, self.M.ElecMeter):
            raise Unsupported('remove of %r' % type(x))
        W = self.st.W
        W.c.prove('a meter that is taken out of the group is in it', z3.Implies(x.i == W.m0, getattr(self.st, self.field) >= 1))
        self.st.add(self.field, -one(x.i == W.m0))

    def abstract_comp(self, f):
        W, c = self.st.W, self.st.W.c
        if self.field != 'cnt':
            raise Unsupported('comprehension over the disabled meters')
        g = self.M.MeterGroup.__new__(self.M.MeterGroup)
        c.prove('a group is not disabled', list(f([g])) == [])
        kept = False
        if c.branch(self.st.cnt >= 1):
            x = W.meter(W.m0)
            r = list(f([x]))
            kept = bool(r)
            if kept and (len(r) != 1 or r[0] is not x):
                raise Unsupported('a list made from meters')
        W.kept = kept
        c.assume(W.n_off >= 0)
        if kept:
            c.assume(z3.And(0 <= W.j0, W.j0 < W.n_off))

        def at(j):
            i = W.off(j)
            c.assume(z3.And(0 <= i, i < W.N, (i == W.m0) == (z3.And(z3.BoolVal(kept), j == W.j0))))
            return W.meter(i)
        return VList.symbolic(W.n_off, at, 'off')

    def __iter__(self):
        raise Unsupported('iteration over the meters')


class Apps(object):
    _vc_track = False

    def __init__(self, st, i):
        self.st, self.i = st, i

    def append(self, a):
        W = self.st.W
        self.st.add('att', one(z3.And(self.i == W.m0, a.k == W.a0)))


class Described(dict):
    """the described meters"""
    _vc_track = False

    def __init__(self, W):
        dict.__init__(self)
        self.W = W

    def __bool__(self):
        return core.ctx().branch(self.W.N > 0)

    def __len__(self):
        raise Unsupported('len')

    def items(self):
        W = self.W

        def at(k):
            W.c.assume(z3.Implies(z3.And(0 <= k, k < W.N), z3.And(W.inst(k) >= 1, (W.inst(k) == W.inst(W.m0)) == (k == W.m0))))
            return (VNum(W.inst(k)), Md(W, k))
        return SymIter(W.N, at, 'described')

    def __iter__(self):
        raise Unsupported('keys')


class Steps(LoopSpec):
    def __init__(self, st, name, match):
        self.st, self.name, self._match = st, name, match

    def match(self, loop):
        return isinstance(loop.it, VSeq) and self._match(getattr(loop.it, 'tag', ''))

    def havoc(self, loop, env, names):
        self.st.havoc()
        return {}

    def allow_mutation(self, loop):
        return [self.st]

    def inv(self, loop):
        st, W, k = self.st, self.st.W, loop.k
        if not hasattr(loop, 'before'):
            loop.before = st.copy()
        exp = dict(loop.before)
        exp.update((f, loop.before[f] + e) for f, e in self.change(W, k).items())
        what = dict(cnt='the meter is in the group itself the right number of times', off='the meter is disabled just if it says so',
                    grp='one group for each appliance with several meters', att='the appliance is on its meters, once each')
        return [(what[f], getattr(st, f) == exp[f]) for f in State.FIELDS]

    def on_item(self, loop, item):
        pass


class Made(Steps):
    def change(self, W, k):
        return {'cnt': one(W.m0 < k)}


class Installed(Steps):
    def change(self, W, k):
        return {'cnt': -one(z3.And(0 <= W.u0, W.u0 < k)), 'grp': one(z3.And(W.a0 < k, W.NM(W.a0) > 1)),
                'att': one(z3.And(W.a0 < k, W.attaches(W.a0)))}

    def on_item(self, loop, item):
        self.st.W.cur = loop.k
        self.st.W.app(loop.k)


class Site(Steps):
    def change(self, W, k):
        return {'att': one(z3.And(W.cur == W.a0, W.site(W.m0), W.q0 < k))}


class Grouped(Steps):
    def change(self, W, k):
        there = z3.And(W.P(W.cur) >= 0, W.P(W.cur) < k)
        return {'cnt': -one(there), 'att': one(z3.And(W.cur == W.a0, there))}


class Disabled(Steps):
    def change(self, W, k):
        there = z3.And(z3.BoolVal(W.kept), W.j0 < k)
        return {'cnt': -one(there), 'off': one(there)}


@unit('mg.import', [MG + 'import_metadata', 'nilmtk/appliance.py:Appliance.n_meters'], budget=90)
def mg_import(c, E):
    """every described meter is made once, with its metadata; every appliance is on exactly the meters it lists; the meters of an
    appliance with several meters are in one group; disabled meters are set apart: for any number of meters and appliances"""
    M = E.load('nilmtk.metergroup')
    W = World(c)
    W.done, W.kept = False, False
    st = State(W)
    store = object()
    RealApp = M.Appliance

    class ElecMeter(object):
        _vc_track = False

        def __init__(self, s, md, mid):
            c.prove('a meter gets the store', s is store)
            c.prove('a meter gets its metadata', isinstance(md, Md))
            self.i = md.i
            c.prove('a meter gets its identifier', z3.And(core.zb(mkbool(lift(mid.instance) == W.inst(md.i))),
                                                         z3.BoolVal(mid.building == 'b' and mid.dataset == 'ds')))

        @classmethod
        def load_meter_devices(cls, s):
            c.prove('the meter devices of this store are loaded', s is store)

        @property
        def appliances(self):
            return Apps(st, self.i)

        @property
        def metadata(self):
            return Md(W, self.i)

        def __eq__(self, o):
            return mkbool(self.i == o.i) if isinstance(o, ElecMeter) else False

        __hash__ = None

    def meter(i):
        m = ElecMeter.__new__(ElecMeter)
        m.i = i
        return m
    W.meter = meter

    class Appliance(RealApp):
        _vc_track = False

        def __init__(self, md):
            c.prove('the appliance knows its data set and building', md.given == {'dataset': 'ds', 'building': 'b'})
            self.metadata, self.k = md, md.k

        __hash__ = None

    class Group(M.MeterGroup):
        _vc_track = False

        def __getitem__(self, key):
            used('meter lookup')
            if not isinstance(key, M.ElecMeterID) or key.building != 'b' or key.dataset != 'ds':
                raise Unsupported('lookup of %r' % (key,))
            x = lift(key.instance)
            if not c.branch(x == 0):
                i = W.find(x)
                if not W.done:
                    c.prove('a meter that is looked up is still in the group', z3.Implies(i == W.m0, st.cnt >= 1))
                return meter(i)
            c.prove('the site meters that are looked up are still in the group', z3.Implies(W.site(W.m0), st.cnt >= 1))
            if c.branch(W.S == 1):
                return site(z3.IntVal(0))
            g = M.MeterGroup.__new__(M.MeterGroup)
            g.meters, g.disabled_meters, g.name = VList.symbolic(W.S, site, 'site'), [], ''
            return g

    def site(q):
        i = W.sat(q)
        c.assume(z3.And(0 <= i, i < W.N, W.site(i), (i == W.m0) == z3.And(W.site(W.m0), q == W.q0)))
        return meter(i)
    used('described building')
    M.ElecMeter, M.Appliance = ElecMeter, Appliance
    M.warnings = ShimModule('warnings', warn=lambda *a, **k: None)
    g = Group.__new__(Group)
    g.name = ''
    g.meters, g.disabled_meters = Bag(st, 'cnt', M), Bag(st, 'off', M)
    meters = Described(W)
    E.loop_specs += [Made(st, 'described meters', lambda t: t == 'described'),
                     Installed(st, 'appliances', lambda t: t == 'appliances'),
                     Site(st, 'site meters', lambda t: t == 'site'),
                     Disabled(st, 'disabled meters', lambda t: t == 'off'),
                     Grouped(st, 'meters of an appliance', lambda t: t.startswith('map(') or t == 'listed')]
    b = M.__dict__.get('BuildingID') or __import__('collections').namedtuple('BuildingID', ['instance', 'dataset'])
    g.import_metadata(store, meters, VList.symbolic(W.A, lambda k: AMd(W, k), 'appliances'), b('b', 'ds'))
    c.prove('the group keeps its lists', isinstance(g.meters, Bag) and isinstance(g.disabled_meters, Bag) and
            g.meters.field == 'cnt' and g.disabled_meters.field == 'off')
    grouped, off = W.u0 >= 0, W.dis(W.m0)
    c.prove('a described meter is in the group once, unless it is disabled or in a group of its appliance',
            st.cnt == one(z3.And(z3.Not(grouped), z3.Not(off))))
    c.prove('a disabled meter is among the disabled meters, once', st.off == one(z3.And(z3.Not(grouped), off)))
    c.prove('an appliance is on each of its meters, once, and on no other', st.att == one(W.attaches(W.a0)))
    c.prove('one group for an appliance with several meters', st.grp == one(W.NM(W.a0) > 1))


note('store metadata', 'load_metadata and elements_below_key of a store give what is described, a fresh copy each time')


class Given(object):
    """an identifier (or a store) of an arbitrary meter: equal (identical) to ours or not"""
    _vc_track = False

    def __init__(self, f):
        self.f = f


class Others(object):
    """all meters ever made: meter i has our identifier (same) and our store (own)"""

    def __init__(self, c, M, store, mid, tag='all meters'):
        self.c, self.M, self.store, self.mid, self.tag = c, M, store, mid, tag
        self.n = c.fresh('all', I)
        self.same, self.own = c.fresh_fun('same identifier', I, B), c.fresh_fun('same store', I, B)
        c.assume(self.n >= 0)

    def item(self, i):
        W = self

        class Other(object):
            _vc_track = False

            @property
            def store(self):
                return W.store if W.c.branch(W.own(i)) else Given(i)

            @property
            def identifier(self):
                return W.mid if W.c.branch(W.same(i)) else Given(i)

            def __eq__(self, o):
                if o is W.me:
                    return mkbool(W.same(i))
                raise Unsupported('meter == %r' % type(o))

            def __ne__(self, o):
                return mkbool(z3.Not(zb(self == o)))

            __hash__ = None
        x = Other()
        x.i = i
        return x

    def list(self):
        return VList.symbolic(self.n, self.item, self.tag)


@unit('em.init', [EM + '__init__', EM + 'load_meter_devices'], weak=True)
def em_init(c, E):
    """making a meter registers it among all meters unless a meter with this identifier and this store is there; what it was made
    with is kept"""
    M = E.load('nilmtk.elecmeter')
    store, md = object(), {'x': 1}
    mid = M.ElecMeterID(1, 2, 'ds') if c.choose(2) else None
    W = Others(c, M, store, mid)
    W.me = None
    l = W.list()
    g = type('G', (), {'_vc_track': False})()
    g.meters = l
    M.nilmtk = ShimModule('nilmtk', STATS_CACHE='CACHE', global_meter_group=g)

    class Meter(M.ElecMeter):
        def __eq__(self, o):
            return o == self

    i0 = c.fresh('i0', I)

    def any_(it):
        if not isinstance(it, VSeq):
            return any(it)
        n, at = it.seq()
        if c.choose(2):
            i = c.fresh('w', I)
            c.assume(z3.And(0 <= i, i < n))
            if not (c.feasible() and bool(at(i))):
                raise PathEnd('does not decide')
            return True
        if c.branch(z3.And(0 <= i0, i0 < n)) and bool(at(i0)):
            raise PathEnd('decides')
        return False
    M.any = any_
    m = Meter.__new__(Meter)
    W.me = m
    M.ElecMeter.__init__(m, store, md, mid)
    c.prove('the meter keeps its store, metadata and identifier', m.store is store and m.metadata is md and m.identifier is mid)
    c.prove('a new meter has no appliances yet', isinstance(m.appliances, (list, VList)) and list(m.appliances) == [])
    c.prove('other meters stay registered', g.meters is l and l.base[0].eq(W.n))
    there = z3.And(0 <= i0, i0 < W.n, W.same(i0), W.own(i0))
    if l.tail:
        c.prove('only the new meter is registered, when it has an identifier', len(l.tail) == 1 and l.tail[0] is m and mid is not None)
        c.prove('no meter of this store has its identifier yet', z3.Not(there))
    elif mid is not None:
        i = z3.Int('w')
        c.prove('a meter with this identifier and store is there already',
                z3.Exists([i], z3.And(0 <= i, i < W.n, W.same(i), W.own(i))))


@unit('em.devices', [EM + 'load_meter_devices'])
def em_devices(c, E):
    """the devices that the store describes are known afterwards, those known before that it does not describe stay"""
    M = E.load('nilmtk.elecmeter')
    new = {'a': {'sample_period': 1}, 'b': {'sample_period': 2}}
    md = {'meter_devices': dict(new)} if c.choose(2) else {}

    class Store(object):
        def load_metadata(self, key='/'):
            c.prove('the metadata of the data set', key == '/')
            return md
    M.ElecMeter.meter_devices = {'b': 0, 'c': 3}
    M.ElecMeter.load_meter_devices(Store())
    exp = {'b': 0, 'c': 3}
    exp.update(new if md else {})
    c.prove('the devices of the data set are known', M.ElecMeter.meter_devices == exp)


@unit('em.upstream', [EM + 'upstream_meter', EM + 'is_site_meter'], weak=True)
def em_upstream(c, E):
    """the upstream meter is looked up among exactly the meters of the same store, by the instance the metadata names; a site meter
    has none"""
    M = E.load('nilmtk.elecmeter')
    mid = M.ElecMeterID(3, 'b', 'ds')
    store = object()
    W = Others(c, M, store, None)
    W.me = None
    l = W.list()
    g = type('G', (), {'_vc_track': False})()
    g.meters = l
    before = l.version
    from vc.fold import Picked
    picked = Picked('of the store', lambda lp: getattr(lp.it, 'tag', '') == 'all meters', W.n, W.item,
                    lambda i: W.own(i), lambda a, b: a.i == b.i)
    E.loop_specs.append(picked)
    found = object() if c.choose(2) else None
    sub = c.fresh('submeter_of', I)
    i0 = c.fresh('i0', I)
    asked = []

    class Group(object):
        _vc_track = False

        def __init__(self, meters=None, disabled=None):
            self.l = meters

        def __getitem__(self, key):
            used('meter lookup')
            if not isinstance(self.l, VList) or self.l.tail or self.l.token != picked.end_token():
                raise Unsupported('looked up among other meters')
            ok = isinstance(key, M.ElecMeterID) and key.building == 'b' and key.dataset == 'ds'
            c.prove('the meter with the instance that the metadata names', lift(key.instance) == sub if ok else False)
            asked.append(1)
            return found
    M.nilmtk = ShimModule('nilmtk', MeterGroup=Group, global_meter_group=g)
    M.warn = lambda *a, **k: None
    md, other = {}, c.choose(3)
    site = c.choose(2) == 0
    if site:
        md['site_meter'] = True
    named = c.choose(2) == 0
    if named:
        md['submeter_of'] = VNum(sub)
    if other:
        md['upstream_meter_in_building'] = 'b' if other == 1 else 'other'
    m = M.ElecMeter.__new__(M.ElecMeter)
    m.metadata, m.store, m.identifier = md, store, mid
    try:
        r = m.upstream_meter(**({} if c.choose(2) else {'raise_warning': False}))
    except ValueError:
        c.prove('refused only if no meter is named', z3.And(z3.BoolVal(not site), z3.Or(z3.BoolVal(not named), sub < 0)))
        return
    except NotImplementedError:
        c.prove('refused only for another building', not site and other == 2)
        return
    if site:
        c.prove('a site meter has no upstream meter', r is None and not asked)
        return
    c.prove('the meter that was found', r is found and len(asked) == 1)
    c.prove('a meter is named, in this building', z3.And(z3.BoolVal(named and other != 2), sub >= 0))
    c.prove('the meters stay registered', l.version == before)


@unit('bd.import', ['nilmtk/building.py:Building.import_metadata', 'nilmtk/building.py:Building.identifier'])
def bd_import(c, E):
    """a building hands on its described meters and appliances and keeps the rest of its metadata; its data set is the one it names,
    or the given one"""
    M = E.load('nilmtk.building')
    full, own = c.choose(4), c.choose(2)
    meters, apps = {1: {}}, [{}]
    md = {'instance': 'i', 'note': 'n'}
    if full & 1:
        md['elec_meters'] = meters
    if full & 2:
        md['appliances'] = apps
    if own:
        md['dataset'] = 'own'
    store, got = None, []

    class Store(object):
        def load_metadata(self, key='/'):
            c.prove('the metadata at the key of the building', key == '/building3')
            return dict(md)

    class Elec(object):
        def import_metadata(self, *a):
            got.append(a)
    store = Store()
    b = M.Building.__new__(M.Building)
    b.metadata, b.elec = {}, Elec()
    b.import_metadata(store, '/building3', 'ds')
    ds = 'own' if own else 'ds'
    c.prove('the metadata of the building', b.metadata == {'instance': 'i', 'note': 'n', 'dataset': ds})
    c.prove('the building is known by its instance and data set', tuple(b.identifier) == ('i', ds))
    ok = len(got) == 1 and len(got[0]) == 4
    c.prove('the described meters and appliances are made', ok and got[0][0] is store and
            got[0][1] == (meters if full & 1 else {}) and got[0][2] == (apps if full & 2 else []) and
            tuple(got[0][3]) == ('i', ds))


class Buildings(object):
    """the buildings of the data set by instance; tracked: how often the one at place k0 was set"""
    _vc_track = True

    def __init__(self, c, k0):
        self.c, self.k0, self.version, self.cnt, self.own = c, k0, 0, z3.IntVal(0), None

    def __setitem__(self, key, b):
        self.c.prove('a building is filed under its instance', isinstance(key, Of) and key.b is b and b.k is not None)
        self.cnt = z3.simplify(self.cnt + one(b.k == self.k0))
        self.version += 1


class Of(object):
    _vc_track = False

    def __init__(self, b):
        self.b, self.instance = b, self


class Keyed(object):
    _vc_track = False

    def __init__(self, k):
        self.k = k

    def __radd__(self, s):
        if s != '/':
            raise Unsupported('key %r' % s)
        return Path(self.k)


class Path(Keyed):
    pass


class Filed(LoopSpec):
    name = 'buildings'

    def __init__(self, c, bs):
        self.c, self.bs = c, bs

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'buildings'

    def havoc(self, loop, env, names):
        self.bs.cnt = self.c.fresh('h_cnt', I)
        self.bs.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.bs]

    def inv(self, loop):
        return [('each building so far is filed once', self.bs.cnt == one(self.bs.k0 < loop.k))]


@unit('ds.import', ['nilmtk/dataset.py:DataSet.import_metadata', 'nilmtk/dataset.py:DataSet._init_buildings'])
def ds_import(c, E):
    """a data set has each described building once, filed under its instance, for any number of buildings"""
    M = E.load('nilmtk.dataset')
    n, k0 = c.fresh('buildings', I), c.fresh('k0', I)
    c.assume(z3.And(n >= 0, 0 <= k0, k0 < n))
    md = {'name': 'ds'}
    bs = Buildings(c, k0)

    class Keys(VList):
        def sort(self, *a, **k):        # some permutation: positions are those of the sorted list
            pass
    keys = Keys()
    keys.base, keys.tag, keys.token = (n, Keyed), 'buildings', ('sym', 'buildings')

    class Store(object):
        _vc_track = False

        def load_metadata(self, key='/'):
            c.prove('the metadata of the data set', key == '/')
            return md

        def elements_below_key(self, key='/'):
            c.prove('the buildings are at the top', key == '/')
            return keys
    store = Store()

    class Building(object):
        _vc_track = False

        def __init__(self):
            self.k = None

        def import_metadata(self, s, key, name):
            c.prove('a building is made from its key, store and data set', s is store and isinstance(key, Path) and
                    name == 'ds' and self.k is None)
            self.k = key.k

        @property
        def identifier(self):
            return Of(self)
    M.Building = Building
    E.loop_specs.append(Filed(c, bs))
    used('store metadata')
    d = M.DataSet.__new__(M.DataSet)
    d.store, d.buildings, d.metadata = None, bs, {}
    r = d.import_metadata(store)
    c.prove('the data set is returned, with its store and metadata', r is d and d.store is store and d.metadata is md and
            d.buildings is bs)
    c.prove('each described building is there once', bs.cnt == 1)
