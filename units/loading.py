"""Contracts of loading a meter: ElecMeter.load, Electric.load_series, power_series_all_data (C31, C32)."""
import math
import z3
from vc import core
from vc.core import VNum, Unsupported, PathEnd, lift, to_real, mkbool, zb
from vc.loops import LoopSpec
from vc.models import ShimModule, note, used
from vc.seqs import VList
from vc.unit import unit

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
EM, EL, UT = 'nilmtk/elecmeter.py:ElecMeter.', 'nilmtk/electric.py:Electric.', 'nilmtk/utils.py:'
note('DataFrame.resample', 'df.resample(rule).how() has one row per period of the grid, from how() of its rows; '
                           'on local days without one midnight it raises an InvalidTimeError instead')
note('Node.process', 'process() of a node draws its data from the node it is connected to (ap.process, cl.process: C16)')


class InvalidTimeError(Exception):
    pass


class AmbiguousTimeError(InvalidTimeError):
    pass


class NonExistentTimeError(InvalidTimeError):
    pass


PYTZ = ShimModule('pytz', InvalidTimeError=InvalidTimeError, AmbiguousTimeError=AmbiguousTimeError,
                  NonExistentTimeError=NonExistentTimeError)


class Data(object):
    """a table known by how it came about"""
    _vc_track = False

    def __init__(self, W, *term):
        self.W, self.term = W, term

    @property
    def empty(self):
        return mkbool(self.W['empty'])

    @property
    def index(self):
        return Ix(self)

    def __getitem__(self, k):
        if isinstance(k, tuple) and k[:1] == ('not',) and k[1] is self:
            return Data(self.W, 'first', self)
        raise Unsupported('table[%r]' % (k,))

    @property
    def loc(self):
        return self

    def tz_convert(self, tz):
        if tz == 'UTC':
            return Data(self.W, 'utc', self)
        if tz == self.W['tz'] or tz is self.W['tzinfo']:
            return Data(self.W, 'local', self)
        raise Unsupported('tz_convert(%r)' % (tz,))

    def resample(self, rule, **kw):
        used('DataFrame.resample')
        if kw:
            raise Unsupported('resample(%s)' % sorted(kw))
        if self.W['awkward'] and not self.is_utc():
            raise (AmbiguousTimeError if self.W['awkward'] == 1 else NonExistentTimeError)()
        return Bins(self.W, rule, self)

    def is_utc(self):
        d = self
        while d.term:
            if d.term[0] == 'utc':
                return True
            d = d.term[-1]
        return False

    def ffill(self, limit=None):
        return Data(self.W, 'ffill', limit, self)

    def bfill(self, limit=None):
        return Data(self.W, 'bfill', limit, self)


class Ix(object):
    _vc_track = False

    def __init__(self, d):
        self.d = d

    def duplicated(self, keep='first'):
        if keep != 'first':
            raise Unsupported('duplicated(keep=%r)' % (keep,))
        return Dup(self.d)

    @property
    def has_duplicates(self):
        return mkbool(self.d.W['dups'])

    @property
    def is_unique(self):
        return mkbool(z3.Not(self.d.W['dups']))

    @property
    def tz(self):
        return self.d.W['tzinfo']


class Dup(object):
    _vc_track = False

    def __init__(self, d):
        self.d = d

    def any(self):
        return mkbool(self.d.W['dups'])

    def __invert__(self):
        return ('not', self.d)


class Bins(object):
    _vc_track = False

    def __init__(self, W, rule, d):
        self.W, self.rule, self.d = W, rule, d

    def mean(self):
        return Data(self.W, 'mean', self.rule, self.d)

    def max(self):
        return Data(self.W, 'max', self.rule, self.d)


def data(c, awkward=None):
    tz = ShimModule('tz', zone='<tz>')
    W = dict(empty=c.fresh('no rows', B), dups=c.fresh('duplicate times', B), awkward=c.choose(3) if awkward is None else awkward, tz='<tz>', tzinfo=tz)
    return Data(W)


def check_resampled(c, src, out, how, fill, limit, period):
    """out is src on the grid of the period"""
    W = src.W
    if out is src:
        c.prove('only a table without rows is left as it is', W['empty'])
        return
    ok, d = [], out

    def take(kind):
        nonlocal d
        ok.append(isinstance(d, Data) and d.term[:1] == (kind,))
        if not ok[-1]:
            c.prove('resampled: %s comes next' % kind, z3.BoolVal(False))
            raise PathEnd()
        t, d = d.term, d.term[-1]
        return t
    if W['awkward'] and d.term[:1] == ('local',):
        take('local')
        back = True
    else:
        back = False
    if fill is not None:
        t = take(fill)
        if limit is None:
            c.prove('no limit', t[1] is None)
        else:
            c.prove('gaps are filled up to the limit', z3.BoolVal(False) if t[1] is None else lift(t[1]) == limit)
    t = take(how)
    rule = t[1]
    if not isinstance(rule, str) or rule[-1:] not in 'sS':
        raise Unsupported('rule %r' % (rule,))
    p = core.untoken(rule[:-1])
    e = to_real(lift(p))
    c.prove('the grid has the sample period, to the nearest second', z3.And(e - period <= 0.5, period - e <= 0.5))
    conv = first = False
    while d is not src:
        if d.term[0] == 'utc' and not conv:
            conv, d = True, d.term[-1]
        elif d.term[0] == 'first' and not first:
            first, d = True, d.term[-1]
        else:
            c.prove('nothing else is done to the table', z3.BoolVal(False))
            raise PathEnd()
    c.prove('back in the time zone of the data', conv == back)
    if not first:
        c.prove('the first of rows with equal times counts', z3.Not(W['dups']))


@unit('ut.resample', [UT + 'safe_resample'], budget=60)
def ut_resample(c, E):
    """each table is aggregated on the grid and gaps filled; awkward midnights and duplicate times are handled"""
    M = E.load('nilmtk.utils')
    M.pytz = PYTZ
    c.tokens = []
    p = c.fresh('period', I)
    c.assume(p >= 1)
    how, fill = ['mean', 'max'][c.choose(2)], [None, 'ffill'][c.choose(2)]
    lim = c.fresh('limit', I)
    kw = dict(rule='{:d}S'.format(VNum(p)), how=how)
    if fill:
        kw['fill_method'] = fill
    lim_given = c.choose(2) == 0
    if lim_given:
        kw['limit'] = VNum(lim)
    d = data(c)
    out = M.safe_resample(d, **kw)
    check_resampled(c, d, out, how, fill, lim if lim_given else None, to_real(p))


# -- the pipeline ----------------------------------------------------------------------------------------------
class PNode(object):
    """node k of the pipeline"""
    _vc_track = False
    func = None

    def __init__(self, k):
        self.k = k
        self.upstream = None

    def process(self):
        used('Node.process')
        return Gen(self)


class Gen(object):
    """what process() of a node returns"""
    _vc_track = False

    def __init__(self, of):
        self.of = of


class Chain(LoopSpec):
    """a loop over the nodes that connects each to the one before"""
    name = 'nodes'

    def __init__(self, c, is_src, src):
        self.c, self.is_src, self.src = c, is_src, src

    def match(self, loop):
        it = loop.it
        return isinstance(it, VList) and getattr(it, 'tag', None) != 'x' and self.has_nodes(it)

    def has_nodes(self, it):
        try:
            return isinstance(it.seq()[1](z3.IntVal(0)), PNode)
        except Exception:
            return False

    def node_of(self, v):
        return v.of if isinstance(v, Gen) else v

    def carried(self, loop, env):
        return [n for n in sorted(loop.names) if n in env and
                (isinstance(env[n], (PNode, Gen)) or self.is_src(env[n]) or env[n] is self.src[1])]

    def havoc(self, loop, env, names):
        c, out = self.c, {}
        first = c.choose(2) == 0
        c.assume(loop.k == 0 if first else loop.k > 0)
        p = PNode(loop.k - 1)
        for n in self.carried(loop, env):
            v = env[n]
            if first:
                continue
            out[n] = Gen(p) if isinstance(v, Gen) or v is self.src[1] else p
        if first:
            for n in self.carried(loop, env):
                out[n] = env[n]
        return out

    def at(self, v, k):
        """v belongs to the node before node k"""
        if v is self.src[1] or self.is_src(v):
            return k == 0
        v = self.node_of(v)
        return z3.And(k > 0, v.k == k - 1) if isinstance(v, PNode) else z3.BoolVal(False)

    def inv(self, loop):
        return [('%s is that of the last node' % n, self.at(loop.env.get(n), loop.k)) for n in self.carried(loop, loop.entry)]

    def on_item(self, loop, item):
        self.item = item

    def at_end(self, loop):
        self.c.prove('each node is connected to the one before', z3.And(self.item.k == loop.k, self.at(self.item.upstream, loop.k)))


@unit('em.load', [EM + 'load', EM + 'get_source_node', EL + '_prep_kwargs_for_sample_period_and_resample'], weak=True, budget=120)
def em_load(c, E):
    """the stored chunks pass through the caller's nodes in order, then resampling if asked for; arguments are not changed"""
    M = E.load('nilmtk.elecmeter')
    L = E.load('nilmtk.electric')
    U = E.load('nilmtk.utils')
    NODE = E.load('nilmtk.node').Node
    U.pytz = PYTZ
    c.tokens = []
    P, MX, S = c.fresh('sample_period', R), c.fresh('max_sample_period', R), c.fresh('asked', R)
    c.assume(z3.And(P >= 1, MX >= P, S >= 1))
    n = c.fresh('nodes', I)
    c.assume(n >= 0)
    args = {'physical_quantity': 'power', 'ac_type': 'best', 'sections': 'SECTIONS', 'chunksize': 7}
    total, made = n, []

    class App(PNode):
        def __init__(self, upstream=None, generator=None, func=None):
            PNode.__init__(self, z3.IntVal(0))
            self.func = func
            made.append(self)
    L.Apply = App
    pre = None

    def node(i):
        p = PNode(i)
        p.upstream = PNode(z3.IntVal(-7)) if c.branch(connected(i)) else None     # it may have served before
        return p
    connected = c.fresh_fun('connected', I, B)
    if c.choose(2) == 0:
        pre = args['preprocessing'] = VList.symbolic(n, node, 'nodes')
    else:
        c.assume(n == 0)
    asked = None
    k = c.choose(3)
    if k == 1:
        args['sample_period'] = None
    elif k == 2:
        asked = args['sample_period'] = VNum(S)
    k = c.choose(3)
    resample = asked is not None
    if k:
        resample = args['resample'] = k == 1
    rk = [None, {}, {'limit': VNum(c.fresh('limit', I))}, {'how': 'max'}, {'fill_method': 'bfill'}][c.choose(5)]
    if rk is not None:
        args['resample_kwargs'] = rk
    rk0 = dict(rk or {})
    m = M.ElecMeter.__new__(M.ElecMeter)
    m.metadata = {}
    cols, gen = [('power', 'active')], object()

    class Store(object):
        def load(self, **kw):
            c.prove('the store is asked for the columns of this meter with the other arguments',
                    set(kw) <= {'key', 'columns', 'sections', 'chunksize'} and kw.get('key') == 'KEY'
                    and kw.get('columns') is cols and kw.get('sections') == 'SECTIONS' and kw.get('chunksize') == 7)
            return gen

    class Meter(M.ElecMeter):
        key = 'KEY'
        device = {'sample_period': VNum(P), 'max_sample_period': VNum(MX)}

        def sample_period(self):
            return VNum(P)

        def _convert_physical_quantity_and_ac_type_to_cols(self, physical_quantity=None, ac_type=None, columns=None, **kw):
            c.prove('the columns are those of the arguments',
                    physical_quantity == 'power' and ac_type == 'best' and columns is None)
            kw['columns'] = cols
            return kw
    m.__class__ = Meter
    m.store = Store()
    is_src = lambda v: isinstance(v, NODE) and v.generator is gen and v.upstream is m
    E.loop_specs.append(Chain(c, is_src, (None, gen)))

    def app_init(self, upstream=None, generator=None, func=None):
        PNode.__init__(self, n)
        self.func = func
        made.append(self)
    App.__init__ = app_init
    r = m.load(**args)
    c.prove("the caller's arguments are not changed",
            (rk is None or rk == rk0) and args['sections'] == 'SECTIONS')
    if pre is not None:
        c.prove("the caller's list of nodes is not changed", lift(pre.vlen()) == n)
    c.prove('resampled exactly when asked for', z3.BoolVal(len(made) == (1 if resample else 0)))
    last = n + (1 if resample else 0)
    if r is gen:
        c.prove('data bypasses the nodes only if there are none', last == 0)
        return
    if not isinstance(r, Gen):
        raise Unsupported('load returned %r' % type(r))
    c.prove('the data is that of the last node', z3.And(last > 0, r.of.k == last - 1) if isinstance(r.of, PNode) else z3.BoolVal(False))
    if not resample:
        return
    period = S if asked is not None else P
    fill = rk0.get('fill_method', 'ffill')
    limit = lift(rk0['limit']) if 'limit' in rk0 else lift(math.ceil(VNum(MX) / VNum(period)))
    d = data(c, 0)
    check_resampled(c, d, made[0].func(d), rk0.get('how', 'mean'), fill, limit, period)
    # a second table
    d2 = data(c, 0)
    check_resampled(c, d2, made[0].func(d2), rk0.get('how', 'mean'), fill, limit, period)


# -- series --------------------------------------------------------------------------------------------------
@unit('el.load_series', [EL + 'load_series', EL + 'power_series'], budget=60)
def el_load_series(c, E):
    """each chunk gives the sum of its columns of the quantity, NaN where one of them is, with the chunk's frame and look-ahead"""
    M = E.load('nilmtk.electric')
    ac = [['active'], ['apparent', 'active'], ['active', 'reactive', 'apparent']][c.choose(3)]
    power = c.choose(2) == 0
    q = 'power' if power else 'energy'

    class Ser(object):
        _vc_track = False

    class Cols(object):
        _vc_track = False

        def __init__(self):
            self.columns = VList(ac)

        def sum(self, axis=0, skipna=True, **kw):
            used('DataFrame.sum')
            if kw or axis not in (1, 'columns') or skipna is not False:
                c.prove('summed per row, missing where a column is', axis in (1, 'columns') and skipna is False)
                raise Unsupported('sum')
            s = Ser()
            s.of = self
            return s

    class Chunk(object):
        _vc_track = False

        def __init__(self, i):
            self.i, self.empty = i, mkbool(empty(i))
            if has[0]:
                self.timeframe = self.tf = object()
            if has[1]:
                self.look_ahead = self.la = object()
            self.cols = Cols()

        def __getitem__(self, k):
            if k != q:
                c.prove('the quantity asked for', k == q)
                raise Unsupported('chunk[%r]' % (k,))
            return self.cols
    has = [c.choose(2) == 0, c.choose(2) == 0]
    empty = c.fresh_fun('empty', I, B)
    n = c.fresh('chunks', I)
    c.assume(n >= 0)
    asked = []

    def load(**kw):
        asked.append(kw)
        return VList.symbolic(n, lambda i: Chunk(i), 'chunks')
    o = M.Electric()
    o.load = load
    kw = {'x': 1}
    ac_given = c.choose(2) == 0
    if ac_given:
        kw['ac_type'] = 'reactive'
    if not power:
        kw['physical_quantity'] = 'energy'

    class Spec(LoopSpec):
        name = 'chunks'
        yields = 0

        def match(self, loop):
            return getattr(loop.it, 'tag', '') == 'chunks'

        def on_item(self, loop, item):
            self.item = item

        def at_end(self, loop):
            c.prove('every chunk gives one series', self.yields == 1)
    sp = Spec()
    E.loop_specs.append(sp)
    for r in (o.power_series(**kw) if power else o.load_series(**kw)):
        sp.yields += 1
        ch = sp.item
        if r is ch:
            c.prove('only an empty chunk is passed on as it is', zb(ch.empty))
            continue
        c.prove('the sum of the columns of the quantity', isinstance(r, Ser) and r.of is ch.cols)
        c.prove('named after the quantity and the AC types', r.name == (q, '+'.join(ac)))
        c.prove('with the frame of the chunk', r.timeframe is getattr(ch, 'tf', None) and r.look_ahead is getattr(ch, 'la', None))
    want = {'x': 1, 'physical_quantity': q}
    if power or ac_given:
        want['ac_type'] = 'reactive' if ac_given else 'best'
    c.prove('loaded once with the quantity, the best AC type unless given, and the other arguments', asked == [want])


note('DataFrame.sum', 'df.sum(axis=1, skipna=False) is, per row, the sum of the columns, NaN where one is')
note('pd.concat', 'concat of a list of series has all their rows in order')


class Part(object):
    """the rows of chunk i, without the first when cut"""
    _vc_track = False

    def __init__(self, W, i, cut=None):
        self.W, self.i, self.cut = W, i, z3.BoolVal(False) if cut is None else cut

    def plain(self):
        if not z3.is_false(z3.simplify(self.cut)):
            raise Unsupported('a series that was cut is read')

    def vlen(self):
        return VNum(self.W['len'](self.i) - z3.If(self.cut, 1, 0))

    @property
    def empty(self):
        return mkbool(self.W['len'](self.i) - z3.If(self.cut, 1, 0) == 0)

    @property
    def index(self):
        return Times(self)

    @property
    def iloc(self):
        return From(self)


class Times(object):
    _vc_track = False

    def __init__(self, p):
        self.p = p

    def vlen(self):
        return self.p.vlen()

    def __getitem__(self, i):
        p, W = self.p, self.p.W
        if type(i) is not int or i not in (0, -1):
            raise Unsupported('index[%r]' % (i,))
        p.plain()
        if W['c'].branch(W['len'](p.i) == 0):
            raise IndexError(i)
        return core.VTimestamp((W['a'] if i == 0 else W['b'])(p.i))


class From(object):
    _vc_track = False

    def __init__(self, p):
        self.p = p

    def __getitem__(self, s):
        if s != slice(1, None):
            raise Unsupported('iloc[%r]' % (s,))
        self.p.plain()
        return Part(self.p.W, self.p.i, z3.BoolVal(True))


class DropShared(LoopSpec):
    """replaces the elements of the list it runs over"""
    name = 'shared rows'

    def __init__(self, W, P):
        self.W, self.P = W, P

    def match(self, loop):
        return getattr(loop.it, 'tag', '').startswith('enumerate') and isinstance(getattr(loop.it, 'src', None), VList)

    def done(self, j, k):
        """element j once k elements were looked at"""
        W, p = self.W, self.P.at(j)
        return Part(W, p.i, z3.And(j < k, W['shared'](j)))

    def prev(self, loop, env):
        return [n for n in sorted(loop.names) if n in env and (env[n] is None or isinstance(env[n], core.VTimestamp))]

    def havoc(self, loop, env, names):
        c, L = self.W['c'], loop.it.src
        self.L = L
        k = loop.k
        L.version += 1
        L.base, L.tail = (self.P.cnt(self.P.n), lambda j: self.done(j, k)), []
        first = c.choose(2) == 0
        c.assume(k == 0 if first else k > 0)
        if first:
            return {n: env[n] for n in self.prev(loop, env)}
        last = self.P.at(k - 1)
        return {n: core.VTimestamp(self.W['b'](last.i)) for n in self.prev(loop, env)}

    def allow_mutation(self, loop):
        return [loop.it.src]

    def inv(self, loop):
        c, W, out = self.W['c'], self.W, []
        for n in self.prev(loop, loop.entry):
            v = loop.env.get(n)
            if isinstance(v, core.VTimestamp):
                out.append((n + ' is the end of the last element', z3.And(loop.k > 0, v.e == W['b'](self.P.at(loop.k - 1).i))))
            else:
                out.append((n + ' is set', z3.And(loop.k == 0, z3.BoolVal(v is None))))
        return out

    def at_end(self, loop):
        c, W, L, k = self.W['c'], self.W, self.L, loop.k
        n, at = L.seq()
        c.prove('the list keeps its length', n == self.P.cnt(self.P.n))
        j = c.fresh('j', I)
        c.assume(z3.And(0 <= j, j < n))
        x, y = at(j), self.done(j, k + 1)
        if not isinstance(x, Part):
            raise Unsupported('element %r' % type(x))
        c.prove('an element loses its first row exactly when it is shared with the one before',
                z3.And(x.i == y.i, x.cut == y.cut))


@unit('el.all_data', [EL + 'power_series_all_data'], weak=True, budget=60)
def el_all_data(c, E):
    """the rows of all chunks in order, each once although consecutive chunks share rows; None without rows"""
    from vc.fold import Picked
    M = E.load('nilmtk.electric')
    n = c.fresh('chunks', I)
    c.assume(n >= 0)
    W = dict(c=c, len=c.fresh_fun('len', I, I), a=c.fresh_fun('a', I, R), b=c.fresh_fun('b', I, R))
    mk = lambda i: Part(W, i)

    def item(i):
        l = W['len'](i)
        c.assume(z3.And(l >= 0, z3.Implies(l > 0, W['a'](i) <= W['b'](i))))
        return mk(i)
    keep = lambda i: W['len'](i) > 0
    P = Picked('chunks', lambda lp: getattr(lp.it, 'tag', '') == 'series', n, item, keep,
               lambda x, y: z3.And(x.i == y.i, x.cut == y.cut) if isinstance(y, Part) else z3.BoolVal(False))

    def shared(j):
        """the first row of element j is the last of element j - 1"""
        return z3.And(j > 0, W['a'](P.at(j).i) <= W['b'](P.at(j - 1).i))
    W['shared'] = shared
    o = M.Electric()
    asked = []

    def power_series(**kw):
        asked.append(kw)
        return VList.symbolic(n, item, 'series')
    o.power_series = power_series
    got = []

    def concat(l, **kw):
        used('pd.concat')
        if kw or not isinstance(l, VList):
            raise Unsupported('concat')
        got.append(l)
        return l
    M.pd = ShimModule('pandas', concat=concat)
    E.loop_specs.append(P)
    E.loop_specs.append(DropShared(W, P))
    r = o.power_series_all_data(x=1)
    c.prove('the arguments are passed on', asked == [{'x': 1}])
    m = P.cnt(n)
    i0 = c.fresh('i0', I)
    c.assume(z3.And(0 <= i0, i0 < n))
    P.fact(i0)
    if r is None:
        c.prove('None only without rows', z3.Not(keep(i0)))
        return
    if not got or r is not got[0]:
        raise Unsupported('result')
    k, at = r.seq()
    c.prove('None without rows', z3.And(k == m, k > 0))
    j = c.fresh('j0', I)
    c.assume(z3.And(0 <= j, j < k))
    x = at(j)
    c.prove('the rows of the chunks in order, without those shared with the chunk before',
            z3.And(x.i == P.at(j).i, x.cut == shared(j)))
