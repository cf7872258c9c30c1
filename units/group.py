"""Contracts of meter groups: combining their meters (C23)."""
import z3
from vc import core, arrays as A
from vc.core import VNum, VNa, VBool, Unsupported, PathEnd, lift, mknum, mkbool, zb, to_real
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, VSeq, SymIter, concrete_items
from vc.unit import unit

MG = 'nilmtk/metergroup.py:'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AVERAGED = ['voltage', 'pf', 'frequency', 'power factor', 'phase angle', 'phase_angle']

note('frame.values', 'DataFrame.values of a frame made from one scalar is a view: writing to it changes the frame')
note('reindex', 'Series.reindex(index) holds, at each time of index, the value of the series there, else NaN')
note('nansum', 'np.nansum([a, b], axis=0) adds element-wise, counting NaN as 0')
note('float32', 'single precision sums are taken as exact')
note('meter.load', 'meter.load(...) is an iterator over chunks; only its first one is combined')


class Mat(object):
    """a matrix (rows x columns) that the code changes in place"""
    _vc_track = True

    def __init__(self, n, m, f, role):
        self.n, self.m, self.f, self.role = n, m, f, role       # f(row, col) -> (value, missing)
        self.version = 0

    @property
    def shape(self):
        return Shape(self.n, self.m)

    @property
    def values(self):
        return self

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2:
            r, i = key
            e = lift(i)
            if e is not None and isinstance(r, slice) and r == slice(None):
                return Col(self, e)
            if e is not None and isinstance(r, A.Arr):
                return Part(self, r, e)
        raise Unsupported('matrix[%r]' % (key,))

    def __setitem__(self, key, v):
        if isinstance(key, tuple) and len(key) == 2:
            r, i = key
            e = lift(i)
            if e is not None and isinstance(r, slice) and r == slice(None):
                if isinstance(v, Col) and v.mat is self and z3.simplify(v.i).eq(z3.simplify(e)):
                    return
                return Col(self, e).put(v)
            if e is not None and isinstance(r, A.Arr):
                if isinstance(v, Part) and v.mat is self and v.mask is r and z3.simplify(v.i).eq(z3.simplify(e)):
                    return
                return Col(self, e).put(v.vals() if isinstance(v, Part) else v, r)
        raise Unsupported('matrix[%r] =' % (key,))

    def at(self, r, i):
        e, na = self.f(r, i)
        return core.mkna(e, na)


class Shape(object):
    _vc_track = False

    def __init__(self, n, m):
        self.n, self.m = n, m

    def __getitem__(self, k):
        return mknum((self.n, self.m)[k])


class Col(VSeq):
    """a column, as a view"""
    _vc_track = False
    tag = 'column'

    def __init__(self, mat, i):
        self.mat, self.i = mat, i

    def seq(self):
        f, i = self.mat.f, self.i
        return self.mat.n, (lambda r: core.mkna(*f(r, i)))

    def arr(self):
        return A.Arr(*self.seq())

    def put(self, v, mask=None):
        """column[mask] = v"""
        mat, old = self.mat, self.mat.f
        i = self.i
        if isinstance(v, (Col, Part)):
            v = v.arr() if isinstance(v, Col) else v.vals()
        if isinstance(v, VSeq):
            _, at = v.seq()
        elif A.is_scalar(v):
            at = lambda r: v
        else:
            raise Unsupported('column = %r' % type(v))
        mk = None if mask is None else mask.seq()[1]
        def f(r, q):
            x, na = core.na_parts(num(at(r)))
            y, nb = old(r, q)
            hit = q == i if mk is None else z3.And(q == i, zb(mk(r)))
            return z3.If(hit, to_real(x), y), z3.If(hit, na, nb)
        mat.version += 1
        mat.f = f

    def __setitem__(self, key, v):
        if isinstance(key, slice) and key == slice(None):
            return self.put(v)
        if isinstance(key, A.Arr):
            return self.put(v, key)
        raise Unsupported('column[%r] =' % (key,))

    def __getitem__(self, key):
        return self.arr()[key]

    def _op(self, o, f):
        o = o.arr() if isinstance(o, Col) else o
        return self.arr().zip(o, f)

    def __add__(self, o): return self._op(o, lambda a, b: num(a) + num(b))
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: num(a) - num(b))
    def __truediv__(self, o): return self._op(o, lambda a, b: A.ediv(num(a), num(b)))
    def __mul__(self, o): return self._op(o, lambda a, b: num(a) * num(b))
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __eq__(self, o): return self._op(o, lambda a, b: a == b)
    def __ne__(self, o): return self._op(o, lambda a, b: a != b)
    __hash__ = None

    def __iadd__(self, o):
        self.put(self + o)
        return self

    def __itruediv__(self, o):
        self.put(self / o)
        return self


class Part(object):
    """column[mask]"""
    _vc_track = False

    def __init__(self, mat, mask, i):
        self.mat, self.mask, self.i = mat, mask, i

    def vals(self):
        return Col(self.mat, self.i).arr()

    def _with(self, o):
        if isinstance(o, Part):
            if o.mask is not self.mask:
                raise Unsupported('two masks')
            return o.vals()
        if A.is_scalar(o):
            return o
        raise Unsupported('masked column with %r' % type(o))

    def __itruediv__(self, o):
        Col(self.mat, self.i).put(self.vals().zip(self._with(o), lambda a, b: A.ediv(num(a), num(b))), self.mask)
        return self

    def __iadd__(self, o):
        Col(self.mat, self.i).put(self.vals().zip(self._with(o), lambda a, b: num(a) + num(b)), self.mask)
        return self


def num(x):
    if isinstance(x, (bool, VBool)):
        return VNum(z3.If(zb(x), z3.RealVal(1), z3.RealVal(0)))
    return x


class ColName(object):
    """(physical quantity, type) of column i"""
    _vc_track = False

    def __init__(self, W, i):
        self.W, self.i = W, i

    def __getitem__(self, k):
        if k in (0, -2):
            return Quantity(self.W, self.i)
        raise Unsupported('type of a column')


class Quantity(object):
    _vc_track = False

    def __init__(self, W, i):
        self.W, self.i = W, i

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(self.W.isq(self.i, o))
        raise Unsupported('compare quantity')

    def __hash__(self):
        raise Unsupported('hash of a quantity')


class TFr(object):
    """a time frame, possibly empty"""
    _vc_track = False

    def __init__(self, c, a, b, empty):
        self.c, self.a, self.b, self.empty = c, a, b, empty

    def __bool__(self):
        return self.c.branch(z3.Not(self.empty))

    def union(self, o):
        # contract of TimeFrame.union (C03)
        self.c.prove('union is of two time frames that are not empty', z3.And(z3.Not(self.empty), z3.Not(o.empty)))
        return TFr(self.c, z3.If(self.a <= o.a, self.a, o.a), z3.If(self.b >= o.b, self.b, o.b), z3.BoolVal(False))


class World(object):
    def __init__(self, c, E):
        self.c = c
        big = E.size is None
        self.rows, self.cols = c.fresh('rows', I), c.fresh('cols', I) if big else z3.IntVal(2)
        self.nm = c.fresh('meters', I) if big else z3.IntVal(E.size)
        c.assume(z3.And(self.rows >= 1, self.cols >= 1, self.nm >= 0))
        self.v, self.na = c.fresh_fun('v', I, I, I, R), c.fresh_fun('na', I, I, I, B)       # meter, column, row
        self.has = c.fresh_fun('has', I, I, B)                                              # meter, column
        self.nochunk, self.empty, self.tfe = (c.fresh_fun(x, I, B) for x in ('nochunk', 'empty', 'tfe'))
        self.ta, self.tb = c.fresh_fun('start', I, R), c.fresh_fun('end', I, R)
        self.q = c.fresh_fun('quantity', I, I)
        self.codes = {}
        # the fixed, arbitrary cell
        self.r0, self.i0 = c.fresh('r0', I), c.fresh('i0', I)
        c.assume(z3.And(0 <= self.r0, self.r0 < self.rows, 0 <= self.i0, self.i0 < self.cols))
        # its sum and count over the first m meters; first start and last end of those that contribute
        self.Sum, self.Cnt = c.fresh_fun('sum', I, R), c.fresh_fun('count', I, I)
        self.Lo, self.Hi, self.Any = c.fresh_fun('lo', I, R), c.fresh_fun('hi', I, R), c.fresh_fun('any', I, B)
        c.assume(z3.And(self.Sum(0) == 0, self.Cnt(0) == 0, z3.Not(self.Any(0))))
        self.loads, self.mats = [], []

    def used_(self, m):
        return z3.And(z3.Not(self.nochunk(m)), z3.Not(self.empty(m)), z3.Not(self.tfe(m)))

    def val(self, m):
        """meter m contributes to the cell"""
        return z3.And(self.used_(m), self.has(m, self.i0), z3.Not(self.na(m, self.i0, self.r0)))

    def unfold(self, m):
        c, x, u, a = self.c, self.val(m), self.used_(m), self.Any(m)
        c.assume(z3.And(
            self.Sum(m + 1) == self.Sum(m) + z3.If(x, self.v(m, self.i0, self.r0), 0),
            self.Cnt(m + 1) == self.Cnt(m) + z3.If(x, 1, 0), self.Any(m + 1) == z3.Or(a, u),
            self.Lo(m + 1) == z3.If(u, z3.If(z3.And(a, self.Lo(m) <= self.ta(m)), self.Lo(m), self.ta(m)), self.Lo(m)),
            self.Hi(m + 1) == z3.If(u, z3.If(z3.And(a, self.Hi(m) >= self.tb(m)), self.Hi(m), self.tb(m)), self.Hi(m))))
        c.assume(z3.Implies(z3.Not(self.tfe(m)), self.ta(m) <= self.tb(m)))

    def isq(self, i, name):
        if name not in self.codes:
            self.codes[name] = len(self.codes)
        return self.q(i) == self.codes[name]

    def averaged(self, i):
        return z3.Or([self.isq(i, x) for x in AVERAGED])

    def cell(self, m):
        """the cell after m meters"""
        return self.Sum(m), self.Cnt(m) == 0


class Meter(object):
    _vc_track = False

    def __init__(self, W, m):
        self.W, self.m, self.identifier = W, m, 'meter'

    def load(self, **kw):
        W = self.W
        W.loads.append((self.m, kw))
        kw['sections'].append('used')
        return Gen(W, self.m)


class Gen(object):
    _vc_track = False

    def __init__(self, W, m):
        self.W, self.m, self.k = W, m, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        if self.k > 1:
            raise Unsupported('a second chunk of a meter')
        if self.W.c.branch(self.W.nochunk(self.m)):
            raise StopIteration
        return Chunk(self.W, self.m)


class Chunk(object):
    _vc_track = False

    def __init__(self, W, m):
        self.W, self.m = W, m
        self.timeframe = TFr(W.c, W.ta(m), W.tb(m), W.tfe(m))

    @property
    def empty(self):
        return mkbool(self.W.empty(self.m))

    def __getitem__(self, key):
        if not isinstance(key, ColName):
            raise Unsupported('chunk[%r]' % (key,))
        if not self.W.c.branch(self.W.has(self.m, key.i)):
            raise KeyError(key)
        return ChunkCol(self.W, self.m, key.i)


class ChunkCol(object):
    _vc_track = False

    def __init__(self, W, m, i):
        self.W, self.m, self.i = W, m, i

    def reindex(self, index, copy=True):
        used('reindex')
        if index != 'the index':
            raise Unsupported('reindex')
        W, m, i = self.W, self.m, self.i
        a = A.Arr(W.rows, lambda r: core.mkna(W.v(m, i, r), W.na(m, i, r)), 'aligned')
        return ShimModule('series', values=a)


class Grow(LoopSpec):
    """a loop over the meters or over the columns: the cell holds what was combined so far"""

    def __init__(self, W, name, match, cell, extra=None, unfold=None):
        self.W, self.name, self._m, self.cell, self.extra, self.unfold = W, name, match, cell, extra, unfold

    def match(self, loop):
        return self._m(loop)

    def havoc(self, loop, env, names):
        W, c = self.W, self.W.c
        for m in W.mats:
            e, na = c.fresh_fun('cell', I, I, R), c.fresh_fun('cellna', I, I, B)
            m.version += 1
            m.f = (lambda e, na: lambda r, i: (e(r, i), na(r, i)))(e, na) if m.role == 'sum' else \
                (lambda e: lambda r, i: (e(r, i), z3.BoolVal(False)))(e)
        over = {}
        if self.extra:
            for nme in names:
                if nme in env and (env[nme] is None or isinstance(env[nme], TFr)):
                    some = c.choose(2)
                    over[nme] = None if not some else TFr(c, c.fresh('a', R), c.fresh('b', R), z3.BoolVal(False))
            self.frames = list(over)
        return over

    def allow_mutation(self, loop):
        return list(self.W.mats)

    def inv(self, loop):
        W, out = self.W, []
        if self.extra:
            out.append(('no negative count, and no sum of nothing', z3.And(
                W.Cnt(loop.k) >= 0, z3.Implies(W.Cnt(loop.k) == 0, W.Sum(loop.k) == 0))))
        for m in W.mats:
            e, na = m.f(W.r0, W.i0)
            x, none = self.cell(loop, m.role)
            out.append(('%s of the cell so far' % m.role, z3.And(na == none, z3.Implies(z3.Not(none), x(to_real(e)) if callable(x) else to_real(e) == x))))
        if self.extra:
            for nme in (getattr(self, 'frames', None) or [n for n in loop.names if n in loop.entry and
                                                           loop.entry[n] is None]):
                out += self.extra(loop, loop.env[nme])
        return out

    def on_item(self, loop, item):
        if self.unfold:
            self.unfold(loop, item)


@unit('gp.combine', [MG + 'combine_chunks_from_generators'], sizes=[0, 1], weak=True, budget=120)
def gp_combine(c, E):
    """every cell is the sum (the mean, for quantities to average) of the meters that have a value, NaN if none has"""
    M = E.load('nilmtk.metergroup')
    W = World(c, E)
    meters = SymIter(W.nm, lambda m: Meter(W, m), 'meters')
    columns = SymIter(W.cols, lambda i: ColName(W, i), 'columns')
    if E.size is not None:
        meters = VList([Meter(W, z3.IntVal(m)) for m in range(E.size)])
        columns = VList([ColName(W, z3.IntVal(0)), ColName(W, z3.IntVal(1))])

    def frame(data=None, index=None, columns=None, dtype=None, **k):
        if not (isinstance(data, float) and data != data) or index != 'the index' or columns is not cols:
            raise Unsupported('DataFrame')
        m = Mat(W.rows, W.cols, lambda r, i: (z3.RealVal(0), z3.BoolVal(True)), 'sum')
        W.mats.append(m)
        used('frame.values')
        return m
    cols = columns
    zeros0 = M.np.zeros

    def zeros(shape, *a, **k):
        if not isinstance(shape, Shape):
            return zeros0(shape, *a, **k)
        m = Mat(W.rows, W.cols, lambda r, i: (z3.RealVal(0), z3.BoolVal(False)), 'count')
        W.mats.append(m)
        return m

    def nansum(l, axis=None, out=None, dtype=None):
        used('nansum')
        l = concrete_items(l) if isinstance(l, VSeq) else list(l)
        if axis != 0 or not l:
            raise Unsupported('nansum')
        z = lambda v: (lambda e, na: VNum(z3.If(na, z3.RealVal(0), to_real(e))))(*core.na_parts(v))
        r = (l[0].arr() if isinstance(l[0], Col) else A.asarr(l[0])).map(z)
        for x in l[1:]:
            r = r.zip(x.arr() if isinstance(x, Col) else A.asarr(x), lambda a, b: a + z(b))
        if out is not None:
            out.put(r)
            return out
        return r
    M.pd = ShimModule('pandas', DataFrame=frame)
    np = M.np
    M.np = ShimModule('numpy', **dict(np.__dict__, zeros=zeros, nansum=nansum))
    kw = {'sections': ['s'], 'x': 1}
    real = []

    def is_meters(loop):
        return loop.kind == 'for' and getattr(loop.it, 'tag', '') == 'meters'

    def is_cols(loop):
        return loop.kind == 'for' and 'columns' in str(getattr(loop.it, 'tag', '')) or \
            loop.kind == 'for' and isinstance(loop.it, VSeq) and not is_meters(loop)
    state = {}

    def cell_m(loop, role):
        return (W.Sum(loop.k), W.Cnt(loop.k) == 0) if role == 'sum' else (z3.ToReal(W.Cnt(loop.k)), z3.BoolVal(False))

    def tf(loop, t):
        k = loop.k
        if t is None:
            return [('no time frame before the first contribution', z3.Not(W.Any(k)))]
        return [('the time frame spans the contributing meters', z3.And(
            W.Any(k), z3.Not(t.empty), t.a == W.Lo(k), t.b == W.Hi(k)))]

    def start(loop, item):
        state['m'] = loop.k
        W.unfold(loop.k)
        del W.loads[:]

    def cell_c(loop, role):
        if 'm' in state and not state.get('done'):
            m = state['m']
            k = z3.If(W.i0 < loop.k, m + 1, m)
            return (W.Sum(k), W.Cnt(k) == 0) if role == 'sum' else (z3.ToReal(W.Cnt(k)), z3.BoolVal(False))
        # after the meters: averages
        n = W.nm
        if role != 'sum':
            return z3.ToReal(W.Cnt(n)), z3.BoolVal(False)
        return (lambda e: z3.If(z3.And(W.i0 < loop.k, W.averaged(W.i0)), e * z3.ToReal(W.Cnt(n)) == W.Sum(n),
                                e == W.Sum(n))), W.Cnt(n) == 0
    sm = Grow(W, 'meters', is_meters, cell_m, tf, start)
    sm.on_exit = lambda loop: state.update(done=True)
    end0 = sm.at_end

    def at_end(loop):
        ok = len(W.loads) == 1 and lift(mknum(W.loads[0][0])).eq(lift(mknum(state['m']))) and \
            W.loads[0][1] == {'sections': ['s', 'used'], 'x': 1} and kw == {'sections': ['s'], 'x': 1}
        c.prove('each meter is loaded once, with a copy of the arguments', ok)
    sm.at_end = at_end
    if E.size is None:
        E.loop_specs += [sm, Grow(W, 'columns', is_cols, cell_c)]
    else:
        for m in range(E.size):
            W.unfold(z3.IntVal(m))
    out = M.combine_chunks_from_generators('the index', columns, meters, kw)
    if not isinstance(out, Mat) or out.role != 'sum':
        raise Unsupported('result')
    e, na = out.f(W.r0, W.i0)
    n = W.nm
    c.prove('NaN exactly where no meter has a value', na == (W.Cnt(n) == 0))
    c.prove('a column to add holds the sum', z3.Implies(
        z3.And(W.Cnt(n) > 0, z3.Not(W.averaged(W.i0))), to_real(e) == W.Sum(n)))
    c.prove('a column to average holds the mean', z3.Implies(
        z3.And(W.Cnt(n) > 0, W.averaged(W.i0)), to_real(e) * z3.ToReal(W.Cnt(n)) == W.Sum(n)))
    t = out.timeframe
    if t is None:
        c.prove('no time frame only without contributions', z3.Not(W.Any(n)))
    elif isinstance(t, TFr):
        c.prove('the time frame spans the meters that contributed', z3.And(W.Any(n), t.a == W.Lo(n), t.b == W.Hi(n)))
    else:
        raise Unsupported('time frame')
    c.prove('the arguments are unchanged', kw == {'sections': ['s'], 'x': 1})


note('date_range', 'pd.date_range(start, end, inclusive="left", freq=p) is start, start + p, ... before end')
note('normalise_timestamp', 'normalise_timestamp(t, freq) is the time of the resampling grid at or before t')


class Meters(object):
    """the frames of the meters of a group, and the union of the first m of them"""

    def __init__(self, c, E):
        self.c = c
        self.nm = c.fresh('meters', I) if E.size is None else z3.IntVal(E.size)
        c.assume(self.nm >= 0)
        self.e = c.fresh_fun('empty', I, B)
        self.a, self.b = c.fresh_fun('start', I, R), c.fresh_fun('end', I, R)
        self.Lo, self.Hi, self.Any = c.fresh_fun('lo', I, R), c.fresh_fun('hi', I, R), c.fresh_fun('any', I, B)
        c.assume(z3.Not(self.Any(0)))

    def unfold(self, m):
        c, u, a = self.c, z3.Not(self.e(m)), self.Any(m)
        c.assume(z3.And(
            self.Any(m + 1) == z3.Or(a, u), z3.Implies(u, self.a(m) < self.b(m)),
            self.Lo(m + 1) == z3.If(u, z3.If(z3.And(a, self.Lo(m) <= self.a(m)), self.Lo(m), self.a(m)), self.Lo(m)),
            self.Hi(m + 1) == z3.If(u, z3.If(z3.And(a, self.Hi(m) >= self.b(m)), self.Hi(m), self.b(m)), self.Hi(m))))

    def spans(self, k, t):
        """t is the union of the frames of the first k meters"""
        if t is None:
            return k == 0
        if not isinstance(t, GFrame):
            return z3.BoolVal(False)
        return z3.And(k > 0, z3.If(self.Any(k), z3.And(z3.Not(t.flag), t.a == self.Lo(k), t.b == self.Hi(k)), t.flag))


class GFrame(TFr):
    """with the attributes of a TimeFrame"""
    _vc_track = False

    def __init__(self, c, a, b, flag):
        TFr.__init__(self, c, a, b, flag)
        self.flag = flag

    @property
    def empty(self):
        return mkbool(self.flag)

    @empty.setter
    def empty(self, v):
        pass

    def __bool__(self):
        return self.c.branch(z3.Not(self.flag))

    def union(self, o):
        c = self.c
        c.prove('union is of two time frames that are not empty', z3.And(z3.Not(self.flag), z3.Not(o.flag)))
        return GFrame(c, z3.If(self.a <= o.a, self.a, o.a), z3.If(self.b >= o.b, self.b, o.b), z3.BoolVal(False))

    @property
    def start(self):
        return core.VTimestamp(self.a)

    @property
    def end(self):
        return core.VTimestamp(self.b)


@unit('gp.timeframe', [MG + 'MeterGroup.get_timeframe'], sizes=[0, 1, 2, 3])
def gp_timeframe(c, E):
    """the time frame of a group is the union of those of its meters"""
    M = E.load('nilmtk.metergroup')
    W = Meters(c, E)
    one = lambda m: ShimModule('meter', get_timeframe=lambda: GFrame(c, W.a(m), W.b(m), W.e(m)))
    meters = SymIter(W.nm, one, 'meters') if E.size is None else VList([one(z3.IntVal(i)) for i in range(E.size)])
    if E.size is not None:
        for m in range(E.size):
            W.unfold(z3.IntVal(m))
    g = M.MeterGroup.__new__(M.MeterGroup)
    g.meters = meters

    class Spec(LoopSpec):
        name = 'meters'
        frames = None

        def match(self, loop):
            return loop.kind == 'for' and getattr(loop.it, 'tag', '') == 'meters'

        def havoc(self, loop, env, names):
            over = {}
            for n in names:
                if n in env and (env[n] is None or isinstance(env[n], GFrame)):
                    over[n] = None if c.choose(2) == 0 else \
                        GFrame(c, c.fresh('a', R), c.fresh('b', R), c.fresh('e', B))
            self.frames = list(over)
            return over

        def inv(self, loop):
            names = self.frames if self.frames is not None else \
                [n for n in loop.names if n in loop.entry and loop.entry[n] is None]
            return [('the union so far', W.spans(loop.k, loop.env[n])) for n in names]

        def on_item(self, loop, item):
            W.unfold(loop.k)
    if E.size is None:
        E.loop_specs.append(Spec())
    t = g.get_timeframe()
    if t is not None and not isinstance(t, GFrame):
        raise Unsupported('time frame %r' % type(t))
    c.prove('the union of the time frames of the meters', W.spans(W.nm, t))


class Given(dict):
    """the arguments of load, which the loop sets the section in"""
    _vc_track = False


@unit('gp.load', [MG + 'MeterGroup.load'], sizes=[0, 1, 2], weak=True, budget=60)
def gp_load(c, E):
    """one chunk per piece of the sections that are not empty, on the grid of the sample period"""
    M = E.load('nilmtk.metergroup')
    c.tokens = []
    n = c.fresh('sections', I) if E.size is None else z3.IntVal(E.size)
    sa, sb, se = c.fresh_fun('start', I, R), c.fresh_fun('end', I, R), c.fresh_fun('none', I, B)
    c.assume(n >= 0)
    given = c.choose(2) == 0
    sec = lambda i: GFrame(c, sa(i), sb(i), se(i))
    if given:
        sections = VList.symbolic(n, sec, 'sections') if E.size is None else VList([sec(z3.IntVal(i)) for i in range(E.size)])
    spd, spk = c.fresh('sample_period', I), c.fresh('sample_period_given', I)
    cs = c.fresh('chunksize', I)
    c.assume(z3.And(spd >= 1, spk >= 1, cs >= 1))
    kw = {'verbose': False, 'x': ['y']}
    sp = VNum(spd)
    if c.choose(2) == 0:
        sp = VNum(spk)
        kw['sample_period'] = sp
    size = VNum(z3.IntVal(M.MAX_MEM_ALLOWANCE_IN_BYTES))
    if c.choose(2) == 0:
        size = VNum(cs)
        kw['chunksize'] = size
    if given:
        kw['sections'] = sections
    g = M.MeterGroup.__new__(M.MeterGroup)
    whole = GFrame(c, c.fresh('ga', R), c.fresh('gb', R), c.fresh('ge', B))
    g.meters = VList.symbolic(c.fresh('meters', I), lambda i: None, 'meters')
    g.sample_period = lambda: VNum(spd)
    g.get_timeframe = lambda: whole
    cols = VList([('power', 'active'), ('voltage', '')])
    seen = []

    def convert(**k):
        c.prove('the columns are those of the arguments', 'sections' not in k and 'chunksize' not in k and
                k.get('x') == ['y'] and isinstance(k.get('sample_period'), VNum) and
                k['sample_period'].e.eq(sp.e))
        k['columns'] = cols
        return k
    g._convert_physical_quantity_and_ac_type_to_cols = convert
    index = object()

    def from_tuples(t, names=None):
        if t is not cols:
            raise Unsupported('columns')
        return index

    def norm(t, freq):
        used('normalise_timestamp')
        period(freq)
        return core.VTimestamp(floor(t.e))
    floor = c.fresh_fun('floor', R, R)

    def period(freq):
        if not isinstance(freq, str) or freq[-1:] not in 'Ss':
            raise Unsupported('frequency %r' % (freq,))
        p = core.untoken(freq[:-1])
        c.prove('the grid has the sample period', lift(p) == lift(sp))

    def date_range(start=None, end=None, periods=None, freq=None, tz=None, inclusive='both', **k):
        used('date_range')
        if periods is not None or tz is not None or k or inclusive != 'left':
            raise Unsupported('date_range')
        period(freq)
        return Rng(start, end)
    npc = c.fresh('pieces', I) if E.size is None else z3.IntVal(2 * E.size)
    pa, pb = c.fresh_fun('pstart', I, R), c.fresh_fun('pend', I, R)
    c.assume(npc >= 0)
    arg = {}
    piece = lambda i: GFrame(c, pa(i), pb(i), z3.BoolVal(False))

    def split(secs, threshold):
        used('split_timeframes')
        arg['sections'] = secs
        c.prove('pieces span at most the chunk size', lift(threshold) == lift(sp) * lift(size))
        # contract of split_timeframes (C04)
        return SymIter(npc, piece, 'pieces') if E.size is None else VList([piece(z3.IntVal(i)) for i in range(2 * E.size)])
    note('split_timeframes', 'split_timeframes(sections, d) yields the pieces of the sections in order (C04)')

    def combine(ix, columns, meters, kwargs):
        if not isinstance(ix, Rng) or columns is not index:
            raise Unsupported('combine')
        s = kwargs.get('sections')
        s = list(s) if s is not None else []
        c.prove('all meters are combined', meters is g.meters)
        c.prove('the meters get the arguments given and one section', len(s) == 1 and isinstance(s[0], GFrame) and
                kwargs.get('x') == ['y'] and 'chunksize' not in kwargs and
                isinstance(kwargs.get('sample_period'), VNum) and kwargs['sample_period'].e.eq(sp.e))
        return Out(ix, s[0], columns)
    M.pd = ShimModule('pandas', MultiIndex=ShimModule('MI', from_tuples=from_tuples), date_range=date_range,
                      DataFrame=lambda columns=None: Out(None, None, columns))
    M.normalise_timestamp, M.split_timeframes, M.combine_chunks_from_generators = norm, split, combine
    spec = pieces = None
    if E.size is None:
        from vc.fold import FoldSpec

        def step(loop, item, new):
            if len(new) == 0:
                c.prove('a section left out is empty', se(loop.k))
            elif len(new) == 1:
                c.prove('a section loaded is not empty', z3.Not(se(loop.k)))
                c.prove('it is the one asked for', new[0] is item)
            else:
                c.prove('each section is loaded once', False)
        spec = FoldSpec('sections', lambda lp: getattr(lp.it, 'tag', '') == 'sections', step=step)

        class Pieces(LoopSpec):
            name = 'pieces'

            def match(self, loop):
                return loop.kind == 'for' and getattr(loop.it, 'tag', '') == 'pieces'

            def allow_mutation(self, loop):
                return [v for v in loop.env.values() if isinstance(v, dict)]

            def havoc(self, loop, env, names):
                pieces.k = loop.k
                del seen[:]
                if loop.env.get('kwargs') is not None and 'sections' in loop.env['kwargs']:
                    raise Unsupported('sections still among the arguments')
                return {}

            def at_end(self, loop):
                c.prove('one chunk per piece', len(seen) == 1)
        pieces = Pieces()
        E.loop_specs += [spec, pieces]
    else:
        live = [i for i in range(E.size) if c.branch(z3.Not(se(i)))] if given else []
    outs = []
    for ch in g.load(**kw):
        if not isinstance(ch, Out):
            raise Unsupported('chunk')
        if ch.section is None:
            c.prove('an empty chunk with the columns, without sections', ch.columns is index)
            outs.append(None)
            continue
        k = pieces.k if E.size is None else z3.IntVal(len(outs))
        seen.append(ch)
        outs.append(ch)
        c.prove('the chunk is the piece next in order', z3.And(ch.section.a == pa(k), ch.section.b == pb(k)))
        c.prove('its index runs on the grid from the start of the piece to before its end', z3.And(
            ch.index.a.e == floor(pa(k)), ch.index.b.e == pb(k)))
    if E.size is None:
        s = arg.get('sections')
        if s is None:
            if not given:
                c.prove('nothing to load only when the group has no time frame', whole.flag)
            return
        if given:
            c.prove('the pieces are those of the sections that are not empty', s.token == spec.end_token() and not s.tail)
        else:
            l = concrete_items(s)
            c.prove('the pieces are those of the time frame of the group', l is not None and len(l) == 1 and l[0] is whole)
        return
    s = arg.get('sections')
    if s is None:
        c.prove('nothing to load only without sections', z3.And(len(outs) == 1 and outs[0] is None,
                                                                not live if given else whole.flag))
        return
    l = concrete_items(s)
    if given:
        c.prove('the sections that are not empty', l is not None and len(l) == len(live) and
                all(x is sections.tail[i] for x, i in zip(l, live)))
    else:
        c.prove('the time frame of the group', len(l) == 1 and l[0] is whole)
    c.prove('one chunk per piece', len(outs) == 2 * E.size)


class Out(object):
    _vc_track = False

    def __init__(self, index, section, columns):
        self.index, self.section, self.columns = index, section, columns


class Rng(object):
    _vc_track = False

    def __init__(self, a, b):
        self.a, self.b = a, b
