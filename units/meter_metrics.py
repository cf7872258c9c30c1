"""Contracts of the metrics on groups of meters (C38): pairs, alignment, and the five numbers."""
import z3
from vc import core
from vc.core import VNum, Unsupported, PathEnd, lift, mkbool, mknum, to_real, zb
from vc.fold import Accumulate
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, MDict, VSeq, SymIter, concrete_items
from vc.unit import unit
from units.experiment import Filing, Key, Listed, one

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
MT = 'nilmtk/metrics.py:'
note('two columns', 'the difference of two columns is missing where either is; dropna drops these; sum() leaves them out; '
                    'len(dropna) counts the times at which both have a value')
note('resample mean', 'resample(period).mean() gives the averages on the grid of the period; it is empty just for an empty series')


# ---------------------------------------------------------------- pairs of meters

class Paired(LoopSpec):
    name = 'meters'

    def __init__(self, c):
        self.c = c

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'meters'

    def havoc(self, loop, env, names):
        l = [v for n, v in env.items() if isinstance(v, VList) and v.base is None and not v.tail]
        if len(l) != 1:
            raise Unsupported('the list of pairs is not found')
        self.l = l[0]
        self.l.base, self.l.tail = (loop.k, lambda i: ('pair', i)), []
        self.l.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.l]

    def inv(self, loop):
        if not hasattr(self, 'l'):
            return []
        return [('one pair per meter so far', self.l.base[0] + len(self.l.tail) == loop.k)]

    def at_end(self, loop):
        t = self.l.tail
        ok = len(t) == 1 and isinstance(t[0], tuple) and len(t[0]) == 2 and all(isinstance(x, Meter) for x in t[0])
        self.c.prove('this meter and the one of the same identity in the other data set', z3.And(
            z3.BoolVal(t[0][0].kind == 'master' and t[0][1].kind == 'slave'), t[0][0].i == loop.k, t[0][1].i == loop.k) if ok else False)


class Meter(object):
    _vc_track = False

    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    @property
    def identifier(self):
        return ('identifier', self.i)

    def instance(self):
        return ('instance', self.i)


@unit('met.pairs', ['nilmtk/metergroup.py:iterate_through_submeters_of_two_metergroups'])
def met_pairs(c, E):
    """every submeter of the first group with the meter of the same identity in the data set of the second, in order"""
    M = E.load('nilmtk.metergroup')
    n = c.fresh('meters', I)
    c.assume(n >= 0)

    class Master(object):
        def submeters(self):
            return type('G', (), dict(meters=VList.symbolic(n, lambda k: Meter('master', k), 'meters')))()

    class Slave(object):
        def dataset(self):
            return 'other'

        def __getitem__(self, i):
            c.prove('looked up by the identity in the other data set', isinstance(i, tuple) and i[0] == 'replaced' and i[2] == 'other')
            return Meter('slave', i[1])

    def replace(identifier, dataset):
        if not isinstance(identifier, tuple) or identifier[0] != 'identifier':
            raise Unsupported('replace_dataset')
        return ('replaced', identifier[1], dataset)
    M.replace_dataset = replace
    E.loop_specs.append(Paired(c))
    r = M.iterate_through_submeters_of_two_metergroups(Master(), Slave())
    c.prove('one pair per submeter', r.base[0] == n if isinstance(r, VList) and r.base is not None and not r.tail else False)


# ---------------------------------------------------------------- alignment

class Stretch(object):
    """the k-th stretch of the first meter, or what the second one has in it; mean: averaged over the period"""
    _vc_track = False

    def __init__(self, w, who, k, n, mean=None):
        self.w, self.who, self.k, self.n, self.mean = w, who, k, n, mean

    def vlen(self):
        return VNum(self.n)

    @property
    def empty(self):
        return mkbool(self.n == 0)

    @property
    def index(self):
        return Times(self)

    def resample(self, alias, **kw):
        if kw or self.mean is not None:
            raise Unsupported('resample')
        used('resample mean')
        return Grid(self, alias)


class Grid(object):
    def __init__(self, s, alias):
        self.s, self.alias = s, alias

    def mean(self):
        s = self.s
        m = s.w.c.fresh('rows', I)
        s.w.c.assume(z3.And(m >= 0, (m == 0) == (s.n == 0)))
        return Stretch(s.w, s.who, s.k, m, self.alias)


class Times(object):
    _vc_track = False

    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        if i not in (0, -1):
            raise Unsupported('index[%r]' % (i,))
        if not self.s.w.c.branch(self.s.n > 0):
            raise IndexError(i)
        return ('time', self.s.who, self.s.k, i)


class Stretches(LoopSpec):
    name = 'stretches'

    def __init__(self, w):
        self.w, self.left = w, False

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'stretches'

    def on_item(self, loop, item):
        self.w.k, self.w.out = loop.k, 0

    def on_exit(self, loop):
        self.left = True

    def at_end(self, loop):
        w = self.w
        w.c.prove('a pair just if the stretch has two samples and the second meter has data in it',
                  z3.And(w.L(loop.k) >= 2, w.S(loop.k) > 0) == z3.BoolVal(w.out == 1))


@unit('met.align', ['nilmtk/electric.py:align_two_meters'], budget=60)
def met_align(c, E):
    """every stretch of the good sections of the first meter that has two samples, and in which the second has data, comes out once
    with both series averaged over the first one's sample period"""
    M = E.load('nilmtk.electric')
    c.tokens = []
    w = type('W', (), {})()
    w.c, w.n, w.out = c, c.fresh('stretches', I), 0
    period = c.fresh('period', I)
    w.L, w.S = c.fresh_fun('samples', I, I), c.fresh_fun('of the second', I, I)
    c.assume(z3.And(w.n >= 0, period >= 1))
    sections = object()
    func = ['power_series', 'when_on'][c.choose(2)]

    def master(k):
        c.assume(z3.And(w.L(k) >= 0, w.S(k) >= 0))
        return Stretch(w, 'first', k, w.L(k))

    def first_series(name):
        def f(sections=None, **kw):
            c.prove('the good sections of the first meter are read', sections is good and not kw and name == func)
            return SymIter(w.n, master, 'stretches')
        return f

    def second_series(name):
        def f(sections=None, **kw):
            ok = not kw and name == func and isinstance(sections, (list, VList)) and len(sections) == 1 and \
                isinstance(sections[0], tuple) and sections[0][0] == 'frame' and \
                sections[0][1][:2] == ('time', 'first') and sections[0][2][:2] == ('time', 'first') and \
                sections[0][1][2].eq(w.k) and sections[0][2][2].eq(w.k) and sections[0][1][3] == 0 and sections[0][2][3] == -1
            c.prove('the second meter is read from the first to the last time of the stretch', ok)
            return iter([Stretch(w, 'second', w.k, w.S(w.k))])
        return f

    class First(object):
        def sample_period(self):
            return VNum(period)

        def good_sections(self):
            return good
    good = sections
    a, b = First(), First()
    b.sample_period = lambda: VNum(c.fresh('other period', I))
    for name in ('power_series', 'when_on'):
        setattr(a, name, first_series(name))
        setattr(b, name, second_series(name))

    def frame(d=None, **kw):
        if kw or not isinstance(d, dict):
            raise Unsupported('DataFrame')
        return list(d.values())

    def tf(start=None, end=None):
        c.prove('a time frame needs two different times', w.L(w.k) >= 2)
        return ('frame', start, end)
    M.TimeFrame = tf
    M.pd = ShimModule('pd', DataFrame=frame)
    spec = Stretches(w)
    E.loop_specs.append(spec)
    alias = '{:d}S'.format(VNum(period))
    for x in M.align_two_meters(a, b, func):
        w.out += 1
        ok = len(x) == 2 and all(isinstance(s, Stretch) for s in x)
        c.prove('first and second side by side, of this stretch, averaged over the period of the first', ok and
                [s.who for s in x] == ['first', 'second'] and all(s.k.eq(w.k) and s.mean in (alias, alias.replace('S', 's')) for s in x))
        c.prove('one pair per stretch', w.out == 1)
    c.prove('all stretches are walked', spec.left)


# ---------------------------------------------------------------- the numbers

class World(object):
    """pairs of meters; pair i has m(i) aligned stretches"""

    def __init__(self, c, E):
        self.c = c
        M = self.M = E.load('nilmtk.metrics')
        self.n, self.i0, self.i = c.fresh('pairs', I), c.fresh('i0', I), None
        f = lambda name, s=R: c.fresh_fun(name, I, I, s)
        self.m = c.fresh_fun('stretches', I, I)
        self.AD, self.SQ, self.TR, self.N, self.F = f('abs differences'), f('squared'), f('truth'), f('both', I), f('score')
        self.sums = {}
        self.key_of = None
        c.assume(z3.And(0 <= self.i0, self.i0 < self.n))
        w = self

        class Pair(object):
            _vc_track = False

            def __init__(self, kind, i):
                self.kind, self.i = kind, i

            def instance(self):
                return Key(c, self.i, 'instance', w.filed)

            def good_sections(self):
                return ('sections', self.kind, self.i)

            def total_energy(self, sections=None, **kw):
                c.prove('energies in the good sections of the prediction', not kw and isinstance(sections, tuple) and
                        sections[:2] == ('sections', 'prediction') and sections[2].eq(self.i))
                return VNum(w.energy(self.kind, self.i))
        self.energies = {k: c.fresh_fun('energy of ' + k, I, R) for k in ('prediction', 'truth')}

        def pair(i):
            w.i = i
            w.entered(i)
            return (Pair('prediction', i), Pair('truth', i))
        groups = self.groups = (object(), object())

        def pairs(a, b):
            c.prove('predictions with their ground truth', a is groups[0] and b is groups[1])
            return VList.symbolic(self.n, pair, 'pairs')

        def align(a, b, func='power_series'):
            c.prove('a prediction with its own truth', a.kind == 'prediction' and b.kind == 'truth' and a.i.eq(w.i) and b.i.eq(w.i))
            c.prove('by what is compared', func == w.func)
            return SymIter(w.m(w.i), lambda j: Aligned(w, j), 'aligned')
        M.iterate_through_submeters_of_two_metergroups, M.align_two_meters = pairs, align
        M.pd = ShimModule('pd', Series=lambda d: d)
        M.sum = lambda x: x.total_builtin() if isinstance(x, Col) else core.ctx().unsupported()
        self.func = 'power_series'
        E.model_dicts = True
        self.files = Filing(c, 'numbers', 'pairs', self.i0)
        E.loop_specs.append(self.files)

    def energy(self, kind, i):
        return self.energies[kind](i)

    def entered(self, i):
        pass

    def total(self, name):
        """the running total of a quantity over the stretches of the current pair"""
        if name not in self.sums:
            self.sums[name] = self.c.fresh_fun('total of ' + name, I, I, I if name == 'N' else R)
        S, q = self.sums[name], getattr(self, name)
        return (name, lambda k: S(self.i, k), lambda k: q(self.i, k))

    def begin(self, *names):
        for n in names:
            t = self.total(n)
            self.c.assume(t[1](z3.IntVal(0)) == 0)

    def unfold(self, *names):
        def f(k):
            for n in names:
                t = self.total(n)
                self.c.assume(t[1](k + 1) == t[1](k) + t[2](k))
            self.c.assume(self.N(self.i, k) >= 0)
        return f

    def done(self, E, r):
        c = self.c
        c.prove('the numbers of all pairs', r is self.files.d)
        c.prove('every pair has its number', self.files.f.there)


class Aligned(object):
    """stretch j of the current pair"""
    _vc_track = False

    def __init__(self, w, j, full=False):
        self.w, self.j, self.full = w, j, full

    @property
    def iloc(self):
        return self

    def __getitem__(self, ix):
        if not isinstance(ix, tuple) or len(ix) != 2 or ix[0] != slice(None) or ix[1] not in (0, 1):
            raise Unsupported('iloc[%r]' % (ix,))
        return Col(self.w, self.j, ('column', ix[1]), self.full)

    def dropna(self, inplace=False, **kw):
        used('two columns')
        if kw:
            raise Unsupported('dropna')
        if not inplace:
            return Aligned(self.w, self.j, True)
        self.full = True

    def astype(self, t):
        return Aligned(self.w, self.j, self.full)

    def vlen(self):
        return VNum(self.w.N(self.w.i, self.j)) if self.full else VNum(self.w.c.fresh('rows', I))


class Col(object):
    """a column of a stretch, their difference, its absolute value or square"""
    _vc_track = False

    def __init__(self, w, j, what, full=False):
        self.w, self.j, self.what, self.full = w, j, what, full

    def like(self, what):
        return Col(self.w, self.j, what, self.full)

    def __sub__(self, o):
        if not isinstance(o, Col) or not o.j.eq(self.j) or set((self.what, o.what)) != set((('column', 0), ('column', 1))):
            raise Unsupported('difference')
        return self.like('difference')

    def __abs__(self):
        if self.what != 'difference':
            raise Unsupported('abs')
        return self.like('absolute')
    abs = __abs__

    def __pow__(self, p):
        if self.what != 'difference' or p != 2:
            raise Unsupported('power')
        return self.like('square')

    def __mul__(self, o):
        if not isinstance(o, Col) or self.what != 'difference' or o.what != 'difference':
            raise Unsupported('product')
        return self.like('square')

    def dropna(self, inplace=False, **kw):
        used('two columns')
        if kw:
            raise Unsupported('dropna')
        if not inplace:
            return Col(self.w, self.j, self.what, True)
        self.full = True

    def sum(self, **kw):
        if kw:
            raise Unsupported('sum')
        w, c = self.w, self.w.c
        if self.what == 'absolute':
            return VNum(w.AD(w.i, self.j))
        if self.what == 'square':
            return VNum(w.SQ(w.i, self.j))
        if self.what == ('column', 1) and not self.full:
            return VNum(w.TR(w.i, self.j))
        return VNum(c.fresh('another sum', R))

    def total_builtin(self):
        return self.sum() if self.full else VNum(self.w.c.fresh('a sum that may be missing', R))

    def vlen(self):
        return VNum(self.w.N(self.w.i, self.j)) if self.full else VNum(self.w.c.fresh('rows', I))


def aligned(loop):
    return getattr(loop.it, 'tag', '') == 'aligned'


def is_ratio(c, v, a, b, label):
    c.prove(label, z3.And(b != 0, to_real(lift(v)) * to_real(b) == to_real(a)) if lift(v) is not None else False)


@unit('met.mne', [MT + 'mean_normalized_error_power'], budget=60)
def met_mne(c, E):
    """each prediction's sum of absolute differences at the times where both have a value, by the sum of its truth"""
    w = World(c, E)
    AD, TR = w.total('AD'), w.total('TR')

    def entered(i):
        w.begin('AD', 'TR')
        c.assume(TR[1](w.m(i)) != 0)
        c.assume(w.m(i) >= 0)
    w.entered = entered
    w.filed = lambda key, d, v: is_ratio(c, v, AD[1](w.m(key.i)), TR[1](w.m(key.i)), 'differences by truth')
    E.loop_specs.append(Accumulate('stretches', aligned, [AD, TR], w.unfold('AD', 'TR')))
    w.done(E, w.M.mean_normalized_error_power(*w.groups))


class Root(object):
    def __init__(self, e):
        self.e = e


@unit('met.rms', [MT + 'rms_error_power'], budget=60)
def met_rms(c, E):
    """each prediction's root of the mean of the squared differences over all times at which both have a value"""
    w = World(c, E)
    SQ, N = w.total('SQ'), w.total('N')

    def entered(i):
        w.begin('SQ', 'N')
        c.assume(N[1](w.m(i)) > 0)
        c.assume(w.m(i) >= 0)
    w.entered = entered

    def filed(key, d, v):
        if not isinstance(v, Root):
            c.prove('a root', False)
        else:
            is_ratio(c, v.e, SQ[1](w.m(key.i)), N[1](w.m(key.i)), 'root of the mean squared difference')
    w.filed = filed
    w.M.math = ShimModule('math', sqrt=Root)
    w.M.np = ShimModule('np', sqrt=Root)
    E.loop_specs.append(Accumulate('stretches', aligned, [SQ, N], w.unfold('SQ', 'N')))
    w.done(E, w.M.rms_error_power(*w.groups))


@unit('met.energy', [MT + 'error_in_assigned_energy'])
def met_energy(c, E):
    """each prediction's difference in total energy from its truth, in the good sections of the prediction"""
    w = World(c, E)

    def absolute(x):
        e = to_real(lift(x))
        return VNum(z3.If(e >= 0, e, -e))

    def filed(key, d, v):
        a, b = w.energy('prediction', key.i), w.energy('truth', key.i)
        c.prove('the absolute difference', to_real(lift(v)) == z3.If(a >= b, a - b, b - a) if lift(v) is not None else False)
    w.filed = filed
    w.M.np = ShimModule('np', abs=absolute, absolute=absolute)
    w.M.abs = absolute
    w.done(E, w.M.error_in_assigned_energy(*w.groups))


class Scores(object):
    """rows (score, number of samples): sum of score * number, sum of numbers"""
    _vc_track = False

    def __init__(self, w, wsum, num, prop=None):
        self.w, self.wsum, self.num, self.prop = w, wsum, num, prop

    def __getitem__(self, k):
        if k not in ('score', 'num_samples', 'proportion'):
            raise KeyError(k)
        return SCol(self, k)

    def __setitem__(self, k, v):
        if k != 'proportion' or not isinstance(v, SCol) or v.by is None:
            raise Unsupported('scores[%r]' % (k,))
        self.prop = v.by


class SCol(object):
    _vc_track = False

    def __init__(self, s, k, by=None):
        self.s, self.k, self.by = s, k, by

    def sum(self, **kw):
        if self.k == 'num_samples' and self.by is None and not kw:
            return VNum(self.s.num)
        if self.k == 'weighted' and not kw:
            return VNum(self.s.wsum) / self.by if self.by is not None else VNum(self.s.wsum)
        raise Unsupported('sum')

    def __truediv__(self, o):
        if self.k != 'num_samples' or self.by is not None:
            raise Unsupported('/')
        return SCol(self.s, self.k, o)

    def __mul__(self, o):
        if not isinstance(o, SCol) or o.s is not self.s:
            raise Unsupported('*')
        ks = set((self.k, o.k))
        if ks == set(('score', 'num_samples')):
            return SCol(self.s, 'weighted', self.by or o.by)
        if ks == set(('score', 'proportion')) and self.s.prop is not None:
            return SCol(self.s, 'weighted', self.s.prop)
        raise Unsupported('product of columns')


class Scored(LoopSpec):
    name = 'scores'

    def __init__(self, w, W, N):
        self.w, self.W, self.N = w, W, N

    def match(self, loop):
        return aligned(loop)

    def havoc(self, loop, env, names):
        l = [n for n in names if isinstance(env.get(n), Scores)]
        if len(l) != 1:
            raise Unsupported('the scores are not found')
        self.local = l[0]
        return {l[0]: Scores(self.w, self.W[1](loop.k), self.N[1](loop.k))}

    def inv(self, loop):
        n = getattr(self, 'local', None)
        l = [n] if n else [n for n in loop.names if isinstance(loop.env.get(n), Scores)]
        s = loop.env.get(l[0]) if len(l) == 1 else None
        if not isinstance(s, Scores):
            raise Unsupported('the scores are not found')
        return [('scores of all stretches so far', z3.And(s.wsum == self.W[1](loop.k), s.num == self.N[1](loop.k)))]

    def on_item(self, loop, item):
        self.w.unfold('WF', 'N')(loop.k)


@unit('met.f1', [MT + 'f1_score'], budget=60)
def met_f1(c, E):
    """each prediction's mean of the F1 scores of its stretches' on/off states, weighted by their numbers of samples; NaN without any"""
    w = World(c, E)
    w.func = 'when_on'
    w.WF = lambda i, k: w.F(i, k) * z3.ToReal(w.N(i, k))
    W, N = w.total('WF'), w.total('N')
    NAN = object()

    def entered(i):
        w.begin('WF', 'N')
        c.assume(w.m(i) >= 0)
        c.assume(N[1](w.m(i)) >= 0)
    w.entered = entered

    def filed(key, d, v):
        n = N[1](w.m(key.i))
        if v is NAN:
            c.prove('no number only without samples', n == 0)
        else:
            is_ratio(c, v, W[1](w.m(key.i)), n, 'the weighted mean of the scores')
    w.filed = filed

    def score(a, b, **kw):
        ok = not kw and all(isinstance(x, Col) and x.full for x in (a, b)) and set((a.what, b.what)) == set((('column', 0), ('column', 1))) \
            and a.j.eq(b.j)
        c.prove('the score of prediction and truth where both have a state', ok)
        return VNum(w.F(w.i, a.j)) if ok else VNum(c.fresh('score', R))

    def frame(d=None, columns=None, **kw):
        if kw:
            raise Unsupported('DataFrame')
        if d is None:
            return Scores(w, z3.RealVal(0), z3.IntVal(0))
        d = list(d)
        if len(d) != 1 or set(d[0]) != set(('score', 'num_samples')):
            raise Unsupported('DataFrame of scores')
        s, n = lift(d[0]['score']), lift(d[0]['num_samples'])
        return Scores(w, to_real(s) * to_real(n), n)

    def concat(l, **kw):
        l = list(l)
        if not all(isinstance(x, Scores) for x in l):
            raise Unsupported('concat')
        return Scores(w, sum([x.wsum for x in l[1:]], l[0].wsum), sum([x.num for x in l[1:]], l[0].num))
    E.models['sklearn'] = ShimModule('sklearn', metrics=ShimModule('sklearn.metrics', f1_score=score))
    w.M.pd = ShimModule('pd', Series=lambda d: d, DataFrame=frame, concat=concat)
    w.M.np = ShimModule('np', nan=NAN)
    w.M.warn = lambda *a, **k: None
    E.loop_specs.append(Scored(w, W, N))
    w.done(E, w.M.f1_score(*w.groups))


@unit('met.fraction', [MT + 'fraction_energy_assigned_correctly'])
def met_fraction(c, E):
    """the sum, over the predicted meters, of the smaller of its predicted and true fractions of the energy"""
    M = E.load('nilmtk.metrics')
    n = c.fresh('meters', I)
    c.assume(n >= 0)
    FP, FT, S = c.fresh_fun('predicted fraction', I, R), c.fresh_fun('true fraction', I, R), c.fresh_fun('sum', I, R)
    c.assume(S(0) == 0)

    class Fractions(object):
        _vc_track = False

        def __init__(self, kind):
            self.kind, self.index = kind, Ids()

        def __getitem__(self, k):
            if not isinstance(k, Key):
                raise Unsupported('fraction %r' % (k,))
            c.prove('fractions are by instance', self.index == 'instances')
            return VNum((FP if self.kind == 'prediction' else FT)(k.i))

    class Ids(object):
        def map(self, f):
            o = type('Id', (), dict(instance='the instance', building=1, dataset='d'))()
            c.prove('fractions are by instance', f(o) == 'the instance')
            return 'instances'

    class Group(object):
        _vc_track = False

        def __init__(self, kind, sub=False):
            self.kind, self.sub = kind, sub

        def submeters(self):
            return Group(self.kind, True)

        @property
        def meters(self):
            return ('meters', self.kind, self.sub)

        def fraction_per_meter(self):
            c.prove('fractions of the submeters only', self.sub)
            return Fractions(self.kind)

        def instance(self):
            c.prove('the predicted submeters', self.sub)
            return SymIter(n, lambda i: Key(c, i, 'instance'), 'instances')

    def group(meters=None):
        if not isinstance(meters, tuple) or meters[0] != 'meters':
            raise Unsupported('MeterGroup')
        return Group(*meters[1:])
    M.MeterGroup = group
    lo = lambda k: z3.If(FP(k) <= FT(k), FP(k), FT(k))
    E.loop_specs.append(Accumulate('fractions', lambda loop: getattr(loop.it, 'tag', '') == 'instances', [('smaller fractions', S, lo)],
                                   lambda k: c.assume(S(k + 1) == S(k) + lo(k))))

    def total(it, start=0):
        """sum(), of a sequence as long as the meters: the sum S, if its elements are those of S"""
        if not isinstance(it, VSeq) or concrete_items(it) is not None:
            return sum(it, start)
        m, at = it.seq()
        k = c.fresh('k', I)
        if c.branch(z3.And(0 <= k, k < n)):
            c.prove('the smaller of the two fractions', m == n)
            c.prove('the smaller of the two fractions', to_real(lift(at(k))) == lo(k))
        return VNum(S(n)) + start
    M.sum = total
    r = M.fraction_energy_assigned_correctly(Group('prediction'), Group('truth'))
    c.prove('the sum of the smaller fractions', to_real(lift(r)) == S(n) if lift(r) is not None else False)
