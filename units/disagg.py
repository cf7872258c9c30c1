"""Contracts of the disaggregators (C17, C26)."""
import z3
from vc import core
from vc import arrays as A
from vc import frames as F
from vc.core import Unsupported, PathEnd, VNum, VNa, VBool, VSeq, zb, mknum, mkbool, lift, to_real
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, SymIter, concrete_items
from vc.unit import unit
from units.stores import Plain

UT = 'nilmtk/utils.py:'
CO = 'nilmtk/disaggregate/combinatorial_optimisation.py:CO.'
MN = 'nilmtk/disaggregate/mean.py:Mean.'
I, R = z3.IntSort(), z3.RealSort()


def num(x):
    return to_real(lift(x))


def ab(x):
    return z3.If(x >= 0, x, -x)


@unit('ut.nearest', [UT + 'find_nearest'], sizes=[1, 2, 3], weak=True, budget=90)
def ut_nearest(c, E):
    """each sample gets an index of a known value at minimal distance and the residual"""
    M = E.load('nilmtk.utils')
    if E.size is None:
        n, m = c.fresh('n', I), c.fresh('m', I)
        f, g = c.fresh_fun('known', I, R), c.fresh_fun('test', I, R)
    else:
        n, m = z3.IntVal(E.size), z3.IntVal(1)
        fs, gs = [c.fresh('k%d' % i, R) for i in range(E.size)], [c.fresh('x', R)]

        def f(i):
            r = fs[-1]
            for k in range(len(fs) - 1):
                r = z3.If(i == k, fs[k], r)
            return z3.simplify(r)
        g = lambda i: gs[0]
    c.assume(z3.And(n >= 1, m >= 0))
    K = A.Arr(n, lambda i: VNum(f(i)), 'known')
    T = A.Arr(m, lambda i: VNum(g(i)), 'test')
    c.inp('case', dict(known=K, test=T, two=False))
    idx, res = M.find_nearest(K, T)
    idx, res = A.asarr(idx), A.asarr(res)
    c.prove('one index per sample', idx.zn == m)
    c.prove('one residual per sample', res.zn == m)
    j, k = c.fresh('j', I), c.fresh('k', I)
    c.assume(z3.And(0 <= j, j < m, 0 <= k, k < n))
    if not c.feasible():
        return
    i = lift(idx.ev(j))
    c.prove('the index is one of the known values', z3.And(0 <= i, i < n))
    x = g(j)
    P = [p for q, p in A.Facts.memo(c).items() if isinstance(q, tuple) and q[0] == 'argsort']
    for p in P:     # where the k-th known value stands in the sorted order
        c.assume(z3.And(0 <= p.q(k), p.q(k) < n, p.p(p.q(k)) == k))
    c.prove('no known value is nearer', ab(f(i) - x) <= ab(f(k) - x))
    c.prove('the residual is sample minus value', num(res.ev(j)) == x - f(i))


# ---------------------------------------------------------------- combinatorial optimisation

note('sklearn.cartesian', 'sklearn.utils.extmath.cartesian(arrays) has one column per array and one row for each '
                          'combination of their elements (every element of a row comes from the column\'s array, and '
                          'every combination is some row)')
note('np.sum2d', 'np.sum(a, axis=1)[r] is the sum of row r')


class States(object):
    """the power states an appliance learnt"""
    _vc_track = False

    def __init__(self, c, i):
        self.i = i


class Combos(object):
    """cartesian product of the states of the models"""
    _vc_track = False

    def __init__(self, c, k, tag):
        self.c, self.k = c, k
        self.rows = c.fresh('rows' + tag, I)
        c.assume(self.rows >= 1)
        self.f = c.fresh_fun('combo' + tag, I, I, R)       # row, appliance -> power
        self.S = c.fresh_fun('total' + tag, I, R)           # row -> sum

    @property
    def shape(self):
        return (mknum(self.rows), mknum(self.k))

    def __len__(self):
        raise Unsupported('len')

    def vlen(self):
        return mknum(self.rows)

    def sum(self, axis=None, **k):
        used('np.sum2d')
        if axis not in (1, -1):
            raise Unsupported('sum of all combinations')
        return A.Arr(self.rows, lambda r: VNum(self.S(r)), 'totals')

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2:
            r, i = key
            if isinstance(r, slice) and r == slice(None):
                return A.Arr(self.rows, lambda q: VNum(self.f(q, lift(i))))
            if isinstance(r, A.Arr):
                return r.map(lambda q: VNum(self.f(lift(q), lift(i))))
        if isinstance(key, A.Arr):
            return Taken(self, key)
        raise Unsupported('state combinations[%r]' % (key,))


class Taken(object):
    _vc_track = False

    def __init__(self, cb, rows):
        self.cb, self.rows = cb, rows

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None):
            return self.rows.map(lambda q: VNum(self.cb.f(lift(q), lift(key[1]))))
        raise Unsupported('rows of the state combinations')


class Mains(object):
    """one chunk of mains: a one-column frame of numbers"""
    _vc_track = False

    def __init__(self, c, j):
        self.j = j
        self.n = c.fresh('rows', I)
        c.assume(self.n >= 1)
        self.x = c.fresh_fun('mains', I, R)
        self.values = A.Arr(self.n, lambda i: VNum(self.x(i)), 'mains')
        self.values.shape2 = True
        self.index = F.Index.of(A.Arr(self.n, lambda i: mknum(i), 'mainsindex'))

    @property
    def shape(self):
        return (mknum(self.n), 1)

    def vlen(self):
        return mknum(self.n)

    def __len__(self):
        raise Unsupported('len')


class Names(object):
    """appliance names: distinct, one per model"""
    _vc_track = False

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return hash('name')

    def __eq__(self, o):
        return isinstance(o, Names) and z3.eq(z3.simplify(self.i), z3.simplify(o.i))

    def __format__(self, s):
        return 'name'
    __str__ = __repr__ = lambda s: 'name'


def one_dict(env):
    ds = {id(v): v for v in env.values() if type(v) is dict}
    return list(ds.values())


@unit('co.combos', [CO + '_set_state_combinations_if_necessary'], weak=True)
def co_combos(c, E):
    """the state combinations are those of the present model"""
    M = E.load('nilmtk.disaggregate.combinatorial_optimisation')
    calls = []

    def cartesian(arrays, out=None):
        used('sklearn.cartesian')
        calls.append(arrays)
        return Combos(c, arrays.seq()[0] if isinstance(arrays, VList) else z3.IntVal(len(arrays)), 'new')
    E.models['sklearn'] = ShimModule('sklearn', utils=ShimModule('sklearn.utils', extmath=ShimModule(
        'sklearn.utils.extmath', cartesian=cartesian)))
    o = M.CO.__new__(M.CO)
    k = c.fresh('appliances', I)
    c.assume(k >= 1)
    st = {}

    def model(i):
        s = States(c, i)
        return {'states': s, 'appliance_name': Names(i)}
    o.model = VList.symbolic(k, model, 'model')
    old = None
    if c.choose(2):
        ok = c.fresh('oldk', I)
        # class invariant: models are only ever appended, so an old table with as many columns as there are
        # models was built from these models (units co.init, co.fit)
        c.assume(z3.And(ok >= 0, ok <= k))
        old = Combos(c, ok, 'old')
    o.state_combinations = old
    o._set_state_combinations_if_necessary()
    r = o.state_combinations
    if r is old:
        c.prove('an old table is kept only if it covers every model', old is not None and ok == k)
        return
    c.prove('the table is a fresh product', len(calls) == 1 and isinstance(r, Combos))
    a = calls[0]
    if not isinstance(a, VList):
        raise Unsupported('product over %s' % type(a).__name__)
    n, at = a.seq()
    c.prove('one factor per model', n == k)
    i = c.fresh('i', I)
    c.assume(z3.And(0 <= i, i < k))
    s = at(i)
    c.prove('factor i is the states of model i', isinstance(s, States) and z3.eq(z3.simplify(s.i), z3.simplify(i)))


@unit('co.init', [CO + '__init__'])
def co_init(c, E):
    """a new disaggregator has no models and no state combinations"""
    M = E.load('nilmtk.disaggregate.combinatorial_optimisation')
    o = M.CO({})
    c.prove('no models yet', len(o.model) == 0)
    c.prove('no combinations yet', o.state_combinations is None)


class Name(VNum):
    """an appliance name: known by equality only"""

    def __add__(self, o):
        return 'text' if isinstance(o, str) else VNum.__add__(self, o)
    __radd__ = __add__

    def __str__(self):
        return 'name'
    __repr__ = __str__

    def __format__(self, spec):
        return 'name'


class Acc(Plain):
    """a loop that appends one element per iteration to a list of its own"""

    def __init__(self, c, name, match, elem, check):
        Plain.__init__(self, name, match)
        self.c, self.elem, self.check = c, elem, check

    def havoc(self, loop, env, names):
        self.lists = []
        for nme in sorted(loop.mutated()):
            l = env.get(nme)
            if isinstance(l, VList):
                n = self.c.fresh('len', I)
                self.c.assume(n >= 0)
                l.version += 1
                l.base, l.tail, l.tag = (n, A_memo(self.elem)), [], self.name + '!' + nme
                self.lists.append((nme, l))
        return {}

    def allow_mutation(self, loop):
        return [l for _, l in self.lists]

    def inv(self, loop):
        return [('one element per iteration', loop.env[n].seq()[0] == loop.k) for n in loop.mutated()
                if isinstance(loop.env.get(n), VList)]

    def on_item(self, loop, item):
        Plain.on_item(self, loop, item)
        self.k0 = loop.k

    def at_end(self, loop):
        for n, _ in self.lists:
            l = loop.env[n]
            if len(l.tail) != 1:
                raise Unsupported('loop appends %d elements' % len(l.tail))
            self.check(self, l.tail[0])


@unit('co.fit', [CO + 'partial_fit'], weak=True)
def co_fit(c, E):
    """training appends one model per appliance that has none, learnt from its own data; the rest is unchanged"""
    M = E.load('nilmtk.disaggregate.combinatorial_optimisation')

    class Data(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

    class Parts(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

    def concat(l, axis=0, **k):
        if isinstance(l, Parts):
            c.prove('the parts of the training readings are stacked', axis in (0, 'index', 'rows') and
                    k.get('join', 'outer') == 'outer')
        if axis not in (0, 'index', 'rows') or k or not isinstance(l, Parts):
            raise Unsupported('concat')
        return Data(l.i)
    M.pd = ShimModule('pandas', concat=concat)
    o = M.CO.__new__(M.CO)
    o.save_model_path = None
    k = c.fresh('models', I)
    c.assume(k >= 0)
    mname = c.fresh_fun('mname', I, I)
    aname = c.fresh_fun('aname', I, I)

    def old(i):
        return {'states': States(c, i), 'appliance_name': Name(mname(i))}
    o.model = VList.symbolic(k, A_memo(old), 'model')
    model0 = o.model
    n = c.fresh('napp', I)
    c.assume(n >= 1)
    train = VList.symbolic(n, A_memo(lambda i: (Name(aname(i)), Parts(i))), 'train')
    learnt = {}

    def cluster(readings, max_num_clusters=3, exact_num_clusters=None):
        if not isinstance(readings, Data):
            raise Unsupported('cluster of %s' % type(readings).__name__)
        s = States(c, readings.i)
        learnt[id(s)] = (s, readings)
        return s
    M.cluster = cluster

    def same(a, b):
        return z3.eq(z3.simplify(a), z3.simplify(b))

    def tmp_check(sp, x):
        c.prove('the data of each appliance stay with its name',
                isinstance(x, tuple) and isinstance(x[0], Name) and isinstance(x[1], Data) and
                same(x[0].e, aname(sp.k0)) and same(x[1].i, sp.k0))

    class Fit(Plain):
        def havoc(self, loop, env, names):
            # earlier iterations appended any number of models
            self.m = c.fresh('added', I)
            c.assume(self.m >= 0)
            lst = VList.symbolic(k + self.m, A_memo(old), 'model')
            if o.model is not model0:
                raise Unsupported('the model list was replaced')
            o.model = self.list = lst
            return {}

        def allow_mutation(self, loop):
            return [self.list]

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k
            self.v0 = self.list.version

        def at_end(self, loop):
            c.prove('the models stay in one list', o.model is self.list)
            t = self.list.tail
            i = c.fresh('i', I)
            nm = aname(self.k0)
            had = z3.Exists([i], z3.And(0 <= i, i < k, mname(i) == nm))
            if not t:
                c.prove('earlier models are unchanged', self.list.version == self.v0)
                c.prove('only an appliance that has a model is skipped', had)
                return
            d = t[0]
            c.prove('one model is appended', len(t) == 1 and isinstance(d, dict))
            c.prove('it is named after the appliance', isinstance(d.get('appliance_name'), Name) and
                    same(d['appliance_name'].e, nm))
            s = learnt.get(id(d.get('states')))
            c.prove("its states are learnt from the appliance's own data", s is not None and same(s[1].i, self.k0))
            c.prove('an appliance that has a model is not added again', z3.Not(had))
    E.loop_specs += [Acc(c, 'tmp', lambda lp: getattr(lp.it, 'tag', '') == 'train',
                         lambda i: (Name(aname(i)), Data(i)), tmp_check),
                     Fit('fit', lambda lp: getattr(lp.it, 'tag', '').startswith('tmp!'))]
    main = Parts(None)
    o.partial_fit(main, train)


@unit('co.chunk', [CO + 'disaggregate_chunk'], weak=True, budget=90)
def co_chunk(c, E):
    """every sample gets the states of a combination whose total is nearest, per appliance, row by row"""
    M = E.load('nilmtk.disaggregate.combinatorial_optimisation')
    o = M.CO.__new__(M.CO)
    k = c.fresh('appliances', I)
    c.assume(k >= 1)
    o.model = VList.symbolic(k, lambda i: {'states': States(c, i), 'appliance_name': Names(i)}, 'model')
    cb = Combos(c, k, '')
    if c.choose(2):
        o.state_combinations = None
    else:
        o.state_combinations = Combos(c, c.fresh('oldk', I), 'old')

    def contract(self_):
        self_.state_combinations = cb       # contract of co.combos
    M.CO._set_state_combinations_if_necessary = contract
    nearest = []

    def find_nearest(known, test):
        # contract of ut.nearest
        if not isinstance(known, A.Arr) or not isinstance(test, A.Arr):
            raise Unsupported('find_nearest of %s' % type(known).__name__)
        n, at = known.seq()
        c.prove('some value is known', n >= 1)
        f = c.fresh_fun('nearest', I, I)
        j = c.fresh('row', I)
        nearest.append((f, known, test))
        idx = A.Arr(test.zn, lambda i: VNum(f(i)), 'nearest')
        return idx, test.zip(idx, lambda x, i: x - known.ev(lift(i)))
    M.find_nearest = find_nearest
    made = []

    def series(data=None, index=None, name=None, **kw):
        return F.Series(A.asarr(data), index=index, name=name)

    class Out(object):
        _vc_track = False

        def __init__(self, data):
            self.data = data

    def frame(data=None, **kw):
        if set(kw) - {'dtype', 'index', 'columns'} or kw.get('index') is not None or kw.get('columns') is not None:
            raise Unsupported('DataFrame options')
        if type(data) is not dict:
            raise Unsupported('DataFrame of %s' % type(data).__name__)
        out = Out(data)
        made.append(out)
        return out
    M.pd = ShimModule('pandas', Series=series, DataFrame=frame)
    nch = c.fresh('nchunks', I)
    c.assume(nch >= 0)
    mains = VList.symbolic(nch, A_memo(lambda i: Mains(c, i)), 'mains')
    cur = {}

    class Models(Plain):
        def havoc(self, loop, env, names):
            self.ds = [d for d in one_dict(env)]
            cur['ds'] = self.ds
            return {}

        def allow_mutation(self, loop):
            return self.ds

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.before = [(d, dict(d)) for d in self.ds]
            self.k0 = loop.k

        def at_end(self, loop):
            df = cur['chunk']
            new = []
            for d, b in self.before:
                ks = [x for x in d if x not in b or d[x] is not b[x]]
                new += [(d, x) for x in ks]
            c.prove('one column per appliance', len(new) == 1)
            d, name = new[0]
            cur['dict'] = d
            c.prove('the column carries the name of its appliance',
                    isinstance(name, Names) and z3.eq(z3.simplify(name.i), z3.simplify(self.k0)))
            col = d[name]
            if not isinstance(col, F.Series):
                raise Unsupported('column %s' % type(col).__name__)
            v = A.asarr(col._v)
            c.prove('one value per mains row', v.zn == df.n)
            c.prove('the rows are those of the mains', col.index is df.index)
            c.prove('nearest combinations are looked up', len(nearest) >= 1)
            j, q = c.fresh('j', I), c.fresh('q', I)
            # the row given to sample j ...
            f, known, test = nearest[-1]
            c.prove('all samples of the chunk are matched', z3.And(test.zn == df.n, known.zn == cb.rows))
            c.assume(z3.And(0 <= j, j < df.n, 0 <= q, q < cb.rows))
            kn, x = (lambda r: num(known.ev(r))), num(test.ev(j))
            i = f(j)
            c.assume(z3.And(0 <= i, i < cb.rows, ab(kn(i) - x) <= ab(kn(q) - x)))
            c.prove('the appliance gets its state in the chosen combination', num(v.ev(j)) == cb.f(i, self.k0))
            c.prove('no combination is nearer to the mains sample', ab(cb.S(i) - df.x(j)) <= ab(cb.S(q) - df.x(j)))

        def on_exit(self, loop):
            Plain.on_exit(self, loop)
            cur['filled'] = list(self.ds)

    class Chunks(Acc):
        def on_item(self, loop, item):
            Acc.on_item(self, loop, item)
            cur['chunk'] = item
            made[:] = []

        def on_exit(self, loop):
            cur['lists'] = [l for _, l in self.lists]

    def deliver(sp, last):
        c.prove('the prediction of the chunk is delivered', isinstance(last, Out) and len(made) == 1 and
                last is made[0])
        c.prove('it holds the columns of the appliances', any(last.data is d for d in cur.get('filled', [])))
    ch = Chunks(c, 'chunks', lambda lp: getattr(lp.it, 'tag', '') == 'mains', lambda i: Out(None), deliver)
    E.loop_specs += [ch, Models('models', lambda lp: 'model' in getattr(lp.it, 'tag', ''))]
    r = o.disaggregate_chunk(mains)
    c.prove('the predictions are returned', isinstance(r, VList) and any(r is l for l in cur.get('lists', [])))
    c.prove('one prediction per chunk', r.seq()[0] == nch)


def A_memo(f):
    m = {}

    def at(i):
        k = z3.simplify(i).sexpr()
        if k not in m:
            m[k] = f(i)
        return m[k]
    return at


# ---------------------------------------------------------------- the mean model

note('np.nansum', 'np.nansum adds the values that are present; int() truncates towards zero')
note('pd.concat', 'pd.concat(l, axis=0) stacks the rows of the parts in order')


class Batch(object):
    """the stacked training data of one appliance: one column, values may be missing"""
    _vc_track = False

    def __init__(self, c, size=None):
        self.n = c.fresh('rows', I) if size is None else z3.IntVal(size)
        c.assume(self.n >= 0)
        self.v, self.na = c.fresh_fun('power', I, R), c.fresh_fun('missing', I, z3.BoolSort())
        self.values = A.Arr(self.n, lambda i: core.mkna(self.v(i), self.na(i)), 'power')
        self.frame = c.choose(2) == 0

    def to_numpy(self, *a, **k):
        return self.values

    def vlen(self):
        return mknum(self.n)

    def __len__(self):
        raise Unsupported('len')

    def isnull(self):
        return self.values.map(lambda x: mkbool(A.isnan(x)))
    isna = isnull

    def notnull(self):
        return self.values.map(lambda x: mkbool(z3.Not(A.isnan(x))))
    notna = notnull

    def count(self):
        return self.notnull().sum()

    def map_values(self, f):
        return Mask(self, self.values.map(f))

    def __getitem__(self, m):
        if not isinstance(m, Mask):
            raise Unsupported('training data[%r]' % (m,))
        if self.frame:      # a boolean frame blanks out values, it does not drop rows
            b = Batch.__new__(Batch)
            b.n, b.frame = self.n, True
            b.values = self.values.zip(m.arr, lambda x, k: A.ite(zb(k), x, float('nan')))
            return b
        return self.values[m.arr]

    def __getattr__(self, a):
        raise Unsupported('training data .%s' % a)


class Mask(object):
    _vc_track = False

    def __init__(self, of, arr):
        self.of, self.arr = of, arr

    def __invert__(self):
        return Mask(self.of, ~self.arr)

    @property
    def values(self):
        return self.arr

    def sum(self, *a, **k):
        return self.arr.sum()


def nansum(a, *r, **k):
    used('np.nansum')
    if isinstance(a, Batch):
        a = a.values
    a = A.asarr(a)
    return a.map(lambda x: A.ite(A.isnan(x), 0.0, VNum(x.e) if isinstance(x, VNa) else x)).sum()


def count_nonzero(a, *r, **k):
    return A.asarr(a).map(lambda x: A.ite(zb(x) if isinstance(x, (bool, VBool)) else lift(x) != 0, 1, 0)).sum()


class Model(dict):
    """{appliance: {'sum', 'n_elem'}} with any number of appliances"""
    _vc_track = False

    def __init__(self, c):
        dict.__init__(self)
        self.c = c
        self.sets, self.key = [], None

    def begin(self, key):
        c = self.c
        self.key, self.sets = key, []
        self.s0, self.n0 = c.fresh('sum0', R), c.fresh('cnt0', I)
        c.assume(self.n0 >= 0)
        self.there = c.choose(2) == 1
        self.entry = {'sum': VNum(self.s0), 'n_elem': VNum(self.n0)} if self.there else None

    def _k(self, k):
        if k is not self.key:
            raise Unsupported('model of another appliance')

    def __contains__(self, k):
        self._k(k)
        return self.there or bool(self.sets)

    def now(self):
        return self.sets[-1] if self.sets else self.entry

    def get(self, k, d=None):
        self._k(k)
        e = self.now()
        return d if e is None else e

    def setdefault(self, k, d=None):
        self._k(k)
        if self.now() is None:
            self.sets.append(d)
        return self.now()

    def __getitem__(self, k):
        self._k(k)
        e = self.now()
        if e is None:
            raise KeyError(k)
        return e

    def __setitem__(self, k, v):
        self._k(k)
        self.sets.append(v)

    def _no(self, *a, **k):
        raise Unsupported('operation on the model')
    __iter__ = keys = values = items = __len__ = pop = update = copy = __delitem__ = _no


def fit_one(c, b, mod):
    """the model entry after training on batch b"""
    e = mod.now()
    if not isinstance(e, dict) or set(e) != {'sum', 'n_elem'}:
        c.prove('the model keeps the total and the count', False)
        return
    S = A.spec_sum(c, 'total power', b.n, lambda i: core.mkna(b.v(i), b.na(i)))
    C = A.spec_sum(c, 'samples present', b.n, lambda i: A.ite(b.na(i), 0, 1))
    s0, n0 = (mod.s0, mod.n0) if mod.there else (z3.RealVal(0), z3.IntVal(0))
    t = z3.ToReal(z3.If(S >= 0, z3.ToInt(S), -z3.ToInt(-S)))
    c.prove('the total grows by the total of the batch (whole watts)', num(e['sum']) == s0 + t)
    c.prove('the count grows by the number of samples present', num(e['n_elem']) == z3.ToReal(n0) + C)


class AppName(object):
    _vc_track = False

    def __init__(self, i):
        self.i = i
    __str__ = __repr__ = lambda s: 'name'

    def __format__(self, s):
        return 'name'


@unit('mn.fit', [MN + 'partial_fit'], sizes=[1, 2, 3], weak=True, budget=90)
def mn_fit(c, E):
    """each batch adds its (truncated) total and its number of samples to the appliance's own entry"""
    M = E.load('nilmtk.disaggregate.mean')
    o = M.Mean.__new__(M.Mean)
    o.MODEL_NAME, o.save_model_path = 'Mean', None
    M.np.nansum, M.np.count_nonzero = nansum, count_nonzero

    class Parts(object):
        _vc_track = False

        def __init__(self, b):
            self.b = b

    def concat(l, axis=0, **k):
        used('pd.concat')
        if axis != 0 or k or not isinstance(l, Parts):
            raise Unsupported('concat')
        return l.b
    M.pd = ShimModule('pandas', concat=concat)
    mod = Model(c)
    o.model = mod
    state = {}

    def item(i=None):
        b = Batch(c, E.size)
        nm = AppName(i)
        mod.begin(nm)
        state.update(b=b)
        return nm, Parts(b)
    if E.size is None:
        n = c.fresh('napp', I)
        c.assume(n >= 0)

        class Fit(Plain):
            def on_item(self, loop, it):
                Plain.on_item(self, loop, it)
                state['seen'] = True

            def at_end(self, loop):
                fit_one(c, state['b'], mod)
        E.loop_specs.append(Fit('appliances', lambda lp: getattr(lp.it, 'tag', '') == 'train'))
        o.partial_fit(None, VList.symbolic(n, item, 'train'))
    else:
        o.partial_fit(None, VList([item()]))
        fit_one(c, state['b'], mod)
    c.prove('the model is not replaced', o.model is mod)


class Trained(dict):
    """a model with any number of trained appliances"""
    _vc_track = False

    def __init__(self, c):
        dict.__init__(self)
        self.c = c
        self.n = c.fresh('appliances', I)
        c.assume(self.n >= 0)
        self.s, self.k = c.fresh_fun('sum', I, R), c.fresh_fun('cnt', I, I)
        self.name = A_memo(lambda i: AppName(i))

    def entry(self, i):
        self.c.assume(self.k(i) >= 1)
        return {'sum': VNum(self.s(i)), 'n_elem': VNum(self.k(i))}

    def _vc_iter(self):
        return SymIter(self.n, self.name, 'trained', src=self)
    keys = lambda self: self._vc_iter()

    def seq(self):
        return self.n, self.name

    def items(self):
        return SymIter(self.n, lambda i: (self.name(i), self.entry(i)), 'trained', src=self)

    def __getitem__(self, nm):
        if not isinstance(nm, AppName):
            raise Unsupported('model[%r]' % (nm,))
        return self.entry(nm.i)

    def _no(self, *a, **k):
        raise Unsupported('operation on the model')
    __iter__ = values = __len__ = pop = update = copy = __delitem__ = get = __setitem__ = _no


class Table(object):
    """the predictions of one chunk"""
    _vc_track = False

    def __init__(self, data=None, index=None, columns=None, **k):
        if columns is not None or k:
            raise Unsupported('DataFrame options')
        self.sets = []
        self.index = index
        self.data = data
        if data is not None and type(data) is not dict:
            raise Unsupported('DataFrame of %s' % type(data).__name__)

    def __setitem__(self, k, v):
        self.sets.append((k, v))


@unit('mn.chunk', [MN + 'disaggregate_chunk'], weak=True, budget=60)
def mn_chunk(c, E):
    """each chunk gets one column per appliance, constant at total / count, with the rows of the mains"""
    M = E.load('nilmtk.disaggregate.mean')
    o = M.Mean.__new__(M.Mean)
    mod = Trained(c)
    o.model = mod

    def enum(x, start=0):
        if x is mod:
            x = mod._vc_iter()
        return E_enum(x, start)
    E_enum = E.builtins['enumerate']
    M.enumerate = enum
    made, cur = [], {}

    class DF(Table):
        def __init__(self, *a, **k):
            Table.__init__(self, *a, **k)
            made.append(self)
    M.pd = ShimModule('pandas', Series=lambda data=None, index=None, name=None, **k:
                      F.Series(A.asarr(data) if not A.is_scalar(data) else data, index=index, name=name),
                      DataFrame=DF)
    nch = c.fresh('nchunks', I)
    c.assume(nch >= 0)
    mains = VList.symbolic(nch, A_memo(lambda i: Mains(c, i)), 'mains')

    class Apps(Plain):
        def havoc(self, loop, env, names):
            self.dicts = one_dict(env)
            return {}

        def allow_mutation(self, loop):
            return self.dicts

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k
            self.before = [(d, dict(d)) for d in self.dicts]
            self.marks = [(t, len(t.sets)) for t in made]

        def at_end(self, loop):
            df = cur['chunk']
            new = [(t, x) for t, m in self.marks for x in t.sets[m:]]
            new += [(d, (x, d[x])) for d, b in self.before for x in d if x not in b or d[x] is not b[x]]
            c.prove('one column per appliance', len(new) == 1)
            t, (name, col) = new[0]
            c.prove('the column carries the name of its appliance', isinstance(name, AppName) and
                    z3.eq(z3.simplify(name.i), z3.simplify(self.k0)))
            if isinstance(col, F.Series):
                c.prove('the rows are those of the mains', col.index is df.index)
                v = A.asarr(col._v)
                c.prove('one value per mains row', v.zn == df.n)
                j = c.fresh('j', I)
                c.assume(z3.And(0 <= j, j < df.n))
                x = num(v.ev(j))
            else:
                raise Unsupported('column %s' % type(col).__name__)
            c.prove('the prediction is the mean of the training power',
                    x * z3.ToReal(mod.k(self.k0)) == mod.s(self.k0))

        def on_exit(self, loop):
            Plain.on_exit(self, loop)
            cur['filled'] = list(made) + list(self.dicts)

    class Chunks(Acc):
        def on_item(self, loop, item):
            Acc.on_item(self, loop, item)
            cur['chunk'] = item
            made[:] = []
            cur['filled'] = []

        def on_exit(self, loop):
            cur['lists'] = [l for _, l in self.lists]

    def deliver(sp, last):
        c.prove('the prediction of the chunk is delivered', isinstance(last, Table) and
                any(last is t or last.data is t for t in cur['filled']))
    E.loop_specs += [Chunks(c, 'chunks', lambda lp: getattr(lp.it, 'tag', '') == 'mains', lambda i: None, deliver),
                     Apps('apps', lambda lp: 'trained' in getattr(lp.it, 'tag', ''))]
    r = o.disaggregate_chunk(mains)
    c.prove('the predictions are returned', isinstance(r, VList) and any(r is l for l in cur.get('lists', [])))
    c.prove('one prediction per chunk', r.seq()[0] == nch)
