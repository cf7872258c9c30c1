"""Contracts of the experiment interface (C37).

A table of power is known by where it came from and, at one arbitrary time t0, by whether it has a row there, whether that row is
complete, and its value."""
import z3
from vc import core
from vc.core import VNum, Unsupported, PathEnd, lift, mkbool, mknum, to_real, zb
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, MDict, VSeq, SymIter, concrete_items
from vc.unit import unit

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AP = 'nilmtk/api.py:API.'
note('tables by time', 'a loaded table has each time once, in order; dropna keeps the complete rows, index.intersection the common times '
                       'in order, loc[times] the rows of these times and raises for a time that is not there')
note('tables added up', 'a + b of two tables with the same times and columns adds their values; columns of only one of them become NaN')


class Tab(object):
    """table number src: row at t0?, complete?, value"""
    _vc_track = False

    def __init__(self, c, src, has, full, val=None, col=None):
        self.c, self.src, self.has, self.full, self.val, self.col = c, src, has, full, val, col

    def like(self, **k):
        d = dict(src=self.src, has=self.has, full=self.full, val=self.val, col=self.col)
        d.update(k)
        return Tab(self.c, **d)

    def dropna(self, **kw):
        if kw:
            raise Unsupported('dropna')
        used('tables by time')
        return self.like(has=z3.And(self.has, self.full), full=z3.BoolVal(True))

    @property
    def index(self):
        return Ix(self.c, self.has)

    @property
    def loc(self):
        return Loc(self)

    def copy(self, **kw):
        return self.like()

    def __bool__(self):
        raise ValueError('truth of a table')

    def __len__(self):
        raise Unsupported('len of a table')


class Ix(object):
    _vc_track = False

    def __init__(self, c, has):
        self.c, self.has = c, has

    def intersection(self, o):
        if not isinstance(o, Ix):
            raise Unsupported('intersection')
        return Ix(self.c, z3.simplify(z3.And(self.has, o.has)))


class Loc(object):
    def __init__(self, t):
        self.t = t

    def __getitem__(self, ix):
        if not isinstance(ix, Ix):
            raise Unsupported('loc[%r]' % (ix,))
        self.t.c.prove('the times looked up are in the table', z3.Implies(ix.has, self.t.has))
        return self.t.like(has=ix.has)


# ---------------------------------------------------------------- dropna

class Readings(VSeq):
    """the appliances' tables; which of them were replaced by their complete rows"""
    _vc_track = True
    tag = 'readings'

    def __init__(self, c, n, has, full):
        self.c, self.n, self.h, self.f, self.version = c, n, has, full, 0
        self.d = z3.K(I, z3.BoolVal(False))

    def at(self, i):
        done = z3.Select(self.d, i)
        return Tab(self.c, i, z3.And(self.h(i), z3.Implies(done, self.f(i))), z3.Or(done, self.f(i)))

    def seq(self):
        return self.n, self.at

    def vlen(self):
        return mknum(self.n)

    def __getitem__(self, k):
        return self.at(lift(k))

    def __setitem__(self, k, t):
        k = lift(k)
        if not isinstance(t, Tab) or not isinstance(t.src, z3.ExprRef):
            raise Unsupported('readings[...] = %r' % (t,))
        self.c.prove('a table is replaced by its own complete rows', z3.And(t.src == k, t.has == z3.And(self.h(k), self.f(k)), t.full))
        self.d = z3.Store(self.d, k, z3.BoolVal(True))
        self.version += 1


class Dropping(LoopSpec):
    name = 'rows dropped'

    def __init__(self, c, rd):
        self.c, self.rd = c, rd

    def match(self, loop):
        return isinstance(loop.it, VSeq) and loop.kind == 'for' and type(loop.it).__name__ == 'SymRange'

    def havoc(self, loop, env, names):
        self.rd.d = self.c.fresh('dropped', z3.ArraySort(I, B))
        self.rd.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.rd]

    def inv(self, loop):
        j = z3.Int('j')
        return [('the tables so far have their complete rows', z3.ForAll([j], z3.Select(self.rd.d, j) == z3.And(0 <= j, j < loop.k)))]


class Common(LoopSpec):
    """times common to the mains and the first k appliances: G(k), unfolded at each item"""
    name = 'common times'

    def __init__(self, c, rd, j0):
        self.c, self.rd, self.j0 = c, rd, j0
        self.G = c.fresh_fun('common', I, B)
        self.seen = False

    def locals(self, env):
        return [n for n, v in env.items() if isinstance(v, Ix)]

    def match(self, loop):
        return loop.it is self.rd and not self.seen

    def havoc(self, loop, env, names):
        self.c.assume(self.G(0) == self.start)
        return dict((n, Ix(self.c, self.G(loop.k))) for n in names if isinstance(env.get(n), Ix))

    def inv(self, loop):
        if not hasattr(self, 'start'):
            l = self.locals(loop.env)
            if len(l) != 1:
                raise Unsupported('the common times are not found')
            self.local, self.start = l[0], loop.env[l[0]].has
            self.c.assume(self.G(0) == self.start)
        v = loop.env.get(self.local)
        if not isinstance(v, Ix):
            raise Unsupported('the common times are not found')
        return [('the common times so far', v.has == self.G(loop.k)),
                ('they are complete in every table so far', z3.Implies(z3.And(self.j0 < loop.k, self.G(loop.k)),
                                                                     z3.And(self.rd.h(self.j0), self.rd.f(self.j0)))),
                ('they are mains times', z3.Implies(self.G(loop.k), self.start))]

    def on_item(self, loop, item):
        k = loop.k
        self.c.assume(self.G(k + 1) == z3.And(self.G(k), self.rd.h(k), self.rd.f(k)))

    def on_exit(self, loop):
        self.seen = True


class Copied(LoopSpec):
    name = 'readings at the common times'

    def __init__(self, c, rd, cm):
        self.c, self.rd, self.cm, self.list = c, rd, cm, None

    def match(self, loop):
        return loop.it is self.rd and self.cm.seen

    def havoc(self, loop, env, names):
        l = [n for n, v in env.items() if isinstance(v, VList) and v.base is None and not v.tail and v is not self.rd]
        if len(l) != 1:
            raise Unsupported('the list of results is not found')
        self.list, c, k = env[l[0]], self.c, loop.k
        self.list.base, self.list.tail = (k, lambda i: self.item(i)), []
        self.list.version += 1
        return {}

    def item(self, j):
        return Tab(self.c, j, self.cm.G(self.rd.n), z3.BoolVal(True))

    def allow_mutation(self, loop):
        return [self.list] if self.list is not None else []

    def inv(self, loop):
        return []

    def on_item(self, loop, item):
        # places are arbitrary: follow the one for which the common times are known to be complete
        if not self.c.branch(loop.k == self.cm.j0):
            raise PathEnd('another place')

    def at_end(self, loop):
        t = self.list.tail
        ok = len(t) == 1 and isinstance(t[0], Tab)
        self.c.prove('one table per appliance', ok)
        if not ok:
            return
        self.c.prove('it is that appliance\'s', t[0].src == loop.k)
        self.c.prove('with just the common times', t[0].has == self.cm.G(self.rd.n))
        self.c.prove('without missing values', t[0].full)


@unit('api.dropna', [AP + 'dropna'], budget=60, weak=True)
def api_dropna(c, E):
    """mains and all appliances are cut down to exactly the times at which all of them have a value, for any number of appliances"""
    M = E.load('nilmtk.api')
    n, j0 = c.fresh('appliances', I), c.fresh('j0', I)
    h, f = c.fresh_fun('has', I, B), c.fresh_fun('complete', I, B)
    mh, mf = c.fresh('mains has', B), c.fresh('mains complete', B)
    c.assume(z3.And(n >= 0, 0 <= j0, z3.Or(j0 < n, n == 0)))
    rd = Readings(c, n, h, f)
    cm = Common(c, rd, j0)
    E.loop_specs += [Dropping(c, rd), cm, Copied(c, rd, cm)]
    mains = Tab(c, 'mains', mh, mf)
    api = M.API.__new__(M.API)
    M.print = lambda *a, **k: None
    r = api.dropna(mains, rd)
    ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Tab) and isinstance(r[1], VList)
    c.prove('mains and tables come out', ok)
    if not ok:
        return
    G = cm.G(n)
    c.prove('the mains are the mains', r[0].src == 'mains')
    c.prove('the mains have just the common times', r[0].has == G)
    c.prove('the mains have no missing value', z3.Implies(r[0].has, mf))
    c.prove('the common times are times of the mains', z3.Implies(G, z3.And(mh, mf)))
    c.prove('and of every appliance', z3.Implies(z3.And(G, j0 < n), z3.And(h(j0), f(j0))))
    c.prove('a time of the mains is dropped only for a missing value', cm.start == z3.And(mh, mf))
    c.prove('as many tables as appliances', r[1].base[0] == n if r[1].base is not None and not r[1].tail else False)


# ---------------------------------------------------------------- the artificial aggregate

class Sum(object):
    """a one-column table: value at t0, type of its column, NaN?"""
    _vc_track = False

    def __init__(self, c, val, col, na, empty, index='times'):
        self.c, self.val, self.col, self.na, self.e, self.index = c, val, col, na, empty, index

    @property
    def empty(self):
        return mkbool(self.e)

    @property
    def shape(self):
        return Shape(self)

    @property
    def columns(self):
        return Cols(self.col)

    def set_axis(self, cols, axis=0, **kw):
        if axis not in (1, 'columns') or not isinstance(cols, Cols):
            raise Unsupported('set_axis')
        return Sum(self.c, self.val, cols.col, self.na, self.e)

    def copy(self, **kw):
        return Sum(self.c, self.val, self.col, self.na, self.e)

    def __add__(self, o):
        if not isinstance(o, Sum):
            raise Unsupported('table + %r' % type(o))
        used('tables added up')
        return Sum(self.c, self.val + o.val, self.col, z3.Or(self.na, o.na, self.col != o.col), self.e)

    __iadd__ = __add__


class Shape(tuple):
    def __new__(cls, t):
        s = tuple.__new__(cls, ('rows', 1))
        s.of = t
        return s


class Cols(object):
    _vc_track = False

    def __init__(self, col):
        self.col = col

    def __eq__(self, o):
        return mkbool(self.col == o.col)

    __hash__ = None


class Added(LoopSpec):
    name = 'readings added up'

    def __init__(self, c, vals):
        self.c, self.vals = c, vals
        self.S = c.fresh_fun('sum of readings', I, R)

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'columns of power'

    def find(self, env):
        return [n for n, v in env.items() if isinstance(v, Sum) and v is not self.item]

    item = None

    def havoc(self, loop, env, names):
        c, out = self.c, {}
        c.assume(self.S(0) == 0)
        for n in names:
            v = env.get(n)
            if isinstance(v, Sum):
                out[n] = Sum(c, c.fresh('h_sum', R), v.col, c.fresh('h_na', B), v.e)
        self.local = [n for n in out]
        return out

    def inv(self, loop):
        self.c.assume(self.S(0) == 0)
        l = getattr(self, 'local', None) or self.find(loop.env)
        if len(l) != 1:
            raise Unsupported('the aggregate is not found')
        v = loop.env[l[0]]
        return [('it is the sum so far, not missing', z3.Or(v.e, z3.And(v.val == self.S(loop.k), z3.Not(v.na))))]

    def on_item(self, loop, item):
        self.c.assume(self.S(loop.k + 1) == self.S(loop.k) + item.val)


@unit('api.aggregate', [AP + 'create_artificial_aggregate'])
def api_aggregate(c, E):
    """the artificial mains are the sum of all the appliances at each time, whatever AC types they are measured by"""
    M = E.load('nilmtk.api')
    n = c.fresh('appliances', I)
    v, col = c.fresh_fun('power', I, R), c.fresh_fun('column', I, I)
    empty = c.fresh('no times', B)
    c.assume(n >= 1)
    spec = Added(c, v)
    E.loop_specs.append(spec)

    def zeros(shape, *a, **k):
        if a or k or not isinstance(shape, Shape):
            raise Unsupported('zeros')
        return shape.of

    def frame(x=None, index=None, columns=None, **k):
        if k or not isinstance(x, Sum) or index != 'times' or not isinstance(columns, Cols):
            raise Unsupported('DataFrame')
        return Sum(c, z3.RealVal(0), columns.col, z3.BoolVal(False), empty)
    M.np = ShimModule('np', zeros=zeros)
    M.pd = ShimModule('pd', DataFrame=frame)
    M.print = lambda *a, **k: None
    api = M.API.__new__(M.API)
    r = api.create_artificial_aggregate(VList.symbolic(n, lambda j: Sum(c, v(j), col(j), z3.BoolVal(False), empty), 'columns of power'))
    c.prove('a table with the times of the appliances', isinstance(r, Sum) and r.index == 'times')
    c.prove('the sum of all the appliances', z3.Implies(z3.Not(empty), z3.And(r.val == spec.S(n), z3.Not(r.na))))


# ---------------------------------------------------------------- errors

class Filed(object):
    """stands for a dict that a loop fills: is there a value for the name numbered i0"""

    def __init__(self, c, i0):
        self.c, self.i0 = c, i0
        self.there = z3.BoolVal(False)

    def set(self, k, v):
        if not isinstance(k, Key):
            raise Unsupported('filed under %r' % (k,))
        k.file(self, v)
        self.there = z3.Or(self.there, k.i == self.i0)

    def call(self, m, *a, **k):
        raise Unsupported('%s of a filled dict' % m)


class Key(object):
    """the name numbered i of some list; file(d, v): the contract of filing v under it"""
    _vc_track = False

    def __init__(self, c, i, kind, file=None):
        self.c, self.i, self.kind, self._f = c, i, kind, file

    def file(self, d, v):
        self._f(self, d, v)

    def __eq__(self, o):
        return mkbool(self.i == o.i) if isinstance(o, Key) and o.kind == self.kind else False

    __hash__ = None


class Filing(LoopSpec):
    """a loop over named things that files one value for each"""

    def __init__(self, c, name, tag, i0, model=Filed):
        self.c, self.name, self.tag, self.i0, self.d, self.model = c, name, tag, i0, None, model

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == self.tag

    def havoc(self, loop, env, names):
        l = [v for n, v in env.items() if isinstance(v, MDict) and v.model is None and not dict.__len__(v)]
        if len(l) != 1:
            raise Unsupported('the dict that is filled is not found')
        self.d, self.f = l[0], self.model(self.c, self.i0)
        self.f.there = self.c.fresh('h_there', B)
        self.d.become(self.f)
        return {}

    def allow_mutation(self, loop):
        return [self.d] if self.d is not None else []

    def inv(self, loop):
        there = self.f.there if self.d is not None else z3.BoolVal(False)
        return [('each name so far has a value', there == z3.And(0 <= self.i0, self.i0 < loop.k))]


@unit('api.loss', [AP + 'compute_loss'])
def api_loss(c, E):
    """each appliance of the ground truth gets the loss of its own truth and its own prediction, truth first; any number of them"""
    E.model_dicts = True
    M = E.load('nilmtk.api')
    n, i0 = c.fresh('appliances', I), c.fresh('i0', I)
    c.assume(z3.And(0 <= i0, i0 < n))

    def filed(key, d, v):
        c.prove('the loss of this appliance', isinstance(v, tuple) and v[0] == 'loss' and z3.is_true(z3.simplify(v[1] == key.i)))

    def key(i):
        return Key(c, i, 'appliance', filed)

    class Table(object):
        _vc_track = False

        def __init__(self, what):
            self.what = what

        @property
        def columns(self):
            if self.what != 'truth':
                raise Unsupported('appliances of the prediction')
            return SymIter(n, key, 'appliances')

        def __iter__(self):
            raise Unsupported('iteration')

        def __getitem__(self, k):
            if not isinstance(k, Key):
                raise Unsupported('column %r' % (k,))
            return (self.what, k.i)

    def loss(*a, **k):
        if k or len(a) != 2:
            raise Unsupported('loss arguments')
        c.prove('truth first, prediction second, of the same appliance', z3.And(z3.BoolVal(a[0][0] == 'truth' and a[1][0] == 'prediction'),
                                                                                a[0][1] == a[1][1]))
        return ('loss', a[0][1])
    spec = Filing(c, 'losses', 'appliances', i0)
    E.loop_specs.append(spec)
    M.pd = ShimModule('pd', Series=lambda d: d)
    api = M.API.__new__(M.API)
    r = api.compute_loss(Table('truth'), Table('prediction'), loss)
    c.prove('the losses that were filed', r is spec.d)
    c.prove('every appliance has its loss', spec.f.there)


# ---------------------------------------------------------------- what is trained, and how often

class Log(object):
    """how often the model followed was trained: jointly, and by chunks"""
    _vc_track = True

    def __init__(self, c):
        self.c, self.version, self.joint, self.cw, self.tested = c, 0, z3.IntVal(0), z3.IntVal(0), []

    def add(self, **k):
        for f, e in k.items():
            setattr(self, f, z3.simplify(getattr(self, f) + e))
        self.version += 1


def one(f):
    return z3.If(f, z3.IntVal(1), z3.IntVal(0))


class Models(LoopSpec):
    name = 'models'

    def __init__(self, w):
        self.w = w

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'models'

    def havoc(self, loop, env, names):
        c, log = self.w.c, self.w.log
        log.joint, log.cw = c.fresh('h_joint', I), c.fresh('h_cw', I)
        log.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.w.log]

    def inv(self, loop):
        w, done = self.w, self.w.m0 < loop.k
        return [('a model so far was trained jointly, once, unless it is pretrained or trained by chunks',
                 w.log.joint == one(z3.And(done, w.joint(w.m0)))),
                ('or by chunks as often as it has epochs', w.log.cw == z3.If(z3.And(done, w.chunks(w.m0)), w.epochs(w.m0), 0))]


class Epochs(LoopSpec):
    name = 'epochs'

    def __init__(self, w):
        self.w = w

    def match(self, loop):
        return loop.kind == 'for' and type(loop.it).__name__ == 'SymRange'

    def havoc(self, loop, env, names):
        self.w.log.cw = self.w.c.fresh('h_cw', I)
        self.w.log.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.w.log]

    def inv(self, loop):
        if not hasattr(loop, 'cw0'):
            loop.cw0 = self.w.log.cw
        return [('one training per epoch so far', self.w.log.cw == loop.cw0 + z3.If(self.w.cur == self.w.m0, loop.k, 0))]


@unit('api.experiment', [AP + 'experiment'], budget=60)
def api_experiment(c, E):
    """every model without pretrained weights is trained: by chunks, once per epoch with its number, if a chunk size is given and
    the model can, else jointly, once; all before the test, which is by chunks just if a chunk size is given"""
    M = E.load('nilmtk.api')
    w = type('W', (), {})()
    w.c, w.n, w.m0 = c, c.fresh('models', I), c.fresh('m0', I)
    c.assume(z3.And(0 <= w.m0, w.m0 < w.n))
    has_load, load = c.fresh_fun('has load_model_path', I, B), c.fresh_fun('load_model_path', I, B)
    can, has_ep, ep = c.fresh_fun('chunk_wise_training', I, B), c.fresh_fun('has n_epochs', I, B), c.fresh_fun('n_epochs', I, I)
    chunked = c.choose(2) == 1
    pre = lambda i: z3.And(has_load(i), load(i))
    w.chunks = lambda i: z3.And(z3.Not(pre(i)), z3.BoolVal(chunked), can(i))
    w.joint = lambda i: z3.And(z3.Not(pre(i)), z3.Not(z3.And(z3.BoolVal(chunked), can(i))))
    w.epochs = lambda i: z3.If(has_ep(i), ep(i), z3.IntVal(1))
    w.log = log = Log(c)

    class Clf(object):
        _vc_track = False
        MODEL_NAME = 'name'

        def __init__(self, i):
            self.i = i

        def __getattr__(self, a):
            if a == 'load_model_path':
                if c.branch(has_load(self.i)):
                    return mkbool(load(self.i))
            elif a == 'n_epochs':
                if c.branch(has_ep(self.i)):
                    return VNum(ep(self.i))
            elif a == 'chunk_wise_training':
                return mkbool(can(self.i))
            else:
                raise Unsupported('attribute %s of a model' % a)
            raise AttributeError(a)

    def at(k):
        w.cur = k
        c.assume(ep(k) >= 0)
        return ('name', Clf(k))
    c.assume(ep(w.m0) >= 0)
    api = M.API.__new__(M.API)
    api.classifiers = VList.symbolic(w.n, at, 'models')
    api.chunk_size = 100 if chunked else None
    api.train_datasets_dict, api.test_datasets_dict = train, test = object(), object()
    api.store_classifier_instances = lambda: None

    def jointly(clf, d):
        c.prove('models are trained before the test, on the training data', not log.tested and d is train)
        log.add(joint=one(clf.i == w.m0))

    def by_chunks(clf, d, epoch):
        c.prove('models are trained before the test, on the training data', not log.tested and d is train)
        c.prove('with the number of the epoch', z3.Implies(clf.i == w.m0, lift(epoch) == log.cw))
        log.add(cw=one(clf.i == w.m0))

    def test_by(kind):
        def f(d):
            c.prove('tested on the test data, once', d is test and not log.tested)
            log.tested.append(kind)
        return f
    api.train_jointly, api.train_chunk_wise = jointly, by_chunks
    api.test_jointly, api.test_chunk_wise = test_by('jointly'), test_by('chunks')
    M.print, M.clear_output = lambda *a, **k: None, lambda *a, **k: None
    E.roots.append(log)
    E.loop_specs += [Models(w), Epochs(w)]
    api.experiment()
    c.prove('tested by chunks just if a chunk size is given', log.tested == ['chunks' if chunked else 'jointly'])
    c.prove('a model is trained jointly once, unless it is pretrained or trained by chunks', log.joint == one(w.joint(w.m0)))
    c.prove('a model that is trained by chunks is, once per epoch', log.cw == z3.If(w.chunks(w.m0), w.epochs(w.m0), 0))


# ---------------------------------------------------------------- predictions

note('pandas by position', 'values.flatten() of one column is its values in order; s[:n] its first n; Series(values, index) puts value i '
                           'at place i of the index, for as many values as places')
note('model output', 'a model gives for one table of mains one table, with as many rows as the mains or more, the first ones in their '
                     'order')


class Val(object):
    """the values of column k of the predictions (or of the truth), the first n of them (None: all)"""
    _vc_track = False

    def __init__(self, what, k, cut=None):
        self.what, self.k, self.cut = what, k, cut

    def flatten(self):
        return Val(self.what, self.k, self.cut)
    ravel = flatten

    @property
    def values(self):
        return self

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.start is not None or s.step is not None or not isinstance(s.stop, Rows):
            raise Unsupported('values[%r]' % (s,))
        return Val(self.what, self.k, 'rows')


class Rows(core.Sym if isinstance(core.Sym, type) else object):
    """the number of rows of the truth"""
    _vc_track = False


@unit('api.predict', [AP + 'predict'], budget=60)
def api_predict(c, E):
    """the truth has each appliance's readings at their times; the prediction of an appliance is the model's, its first rows at the
    times of the truth, extra rows left out: for any number of appliances"""
    E.model_dicts = True
    M = E.load('nilmtk.api')
    n, m, i0, p0 = (c.fresh(x, I) for x in ('submeters', 'predicted', 'i0', 'p0'))
    c.assume(z3.And(0 <= i0, i0 < n, 0 <= p0, p0 < m))
    rows = Rows()

    def truth(key, d, v):
        c.prove('the truth of an appliance is its readings at their times', isinstance(v, tuple) and v[0] == 'series' and
                v[1].what == 'truth' and v[1].k.eq(key.i) and v[1].cut is None and v[2] == ('index', 'truth', key.i))

    def pred(key, d, v):
        c.prove('the prediction of an appliance is the model\'s, at the times of the truth, one value per time', isinstance(v, tuple) and
                v[0] == 'series' and v[1].what == 'prediction' and v[1].k.eq(key.i) and v[1].cut == 'rows' and v[2] == 'truth times')

    def sub(i):
        return (Key(c, i, 'submeter', truth), [Readings1('truth', i)])

    class Readings1(object):
        _vc_track = False

        def __init__(self, what, i):
            self.what, self.i = what, i

        @property
        def index(self):
            return ('index', self.what, self.i)

        @property
        def values(self):
            return Val(self.what, self.i)

    class Pred(object):
        _vc_track = False

        @property
        def columns(self):
            return SymIter(m, lambda i: Key(c, i, 'predicted', pred), 'predicted')

        def __iter__(self):
            raise Unsupported('iteration')

        def __getitem__(self, k):
            if not isinstance(k, Key) or k.kind != 'predicted':
                raise Unsupported('prediction %r' % (k,))
            return Val('prediction', k.i)

    class Truth(object):
        _vc_track = False
        index = 'truth times'

        def __getitem__(self, k):
            if not isinstance(k, Key):
                raise Unsupported('truth %r' % (k,))
            return self

        def vlen(self):
            return rows

        def __len__(self):
            raise Unsupported('len')

    class Done(object):
        index = 'truth times'
        _vc_track = False

        def plot(self, **k):
            pass
    made, pl = [], Pred()

    def concat(l, axis=0):
        l = concrete_items(l) if isinstance(l, VSeq) else list(l)
        if len(l) != 1:
            raise Unsupported('concat of several tables')
        if l[0] is pl:
            c.prove('tables of predictions are put one after the other', axis == 0)
        return l[0]

    def frame(d=None, dtype=None, **k):
        if k or not isinstance(d, MDict) or d.model is None:
            raise Unsupported('DataFrame')
        made.append(d)
        return Truth() if len(made) == 1 else Done()

    def series(v, index=None, **k):
        if k or not isinstance(v, Val):
            raise Unsupported('Series')
        used('pandas by position')
        return ('series', v, index)
    mains = object()

    class Clf(object):
        MODEL_NAME = 'm'

        def disaggregate_chunk(self, x):
            used('model output')
            c.prove('the model gets the test mains', x is mains)
            return [pl]
    M.pd = ShimModule('pd', concat=concat, DataFrame=frame, Series=series)
    M.print = lambda *a, **k: None
    gt, pr = Filing(c, 'truth', 'submeters', i0), Filing(c, 'predictions', 'predicted', p0)
    E.loop_specs += [gt, pr]
    api = M.API.__new__(M.API)
    api.site_only = False
    r = api.predict(Clf(), mains, VList.symbolic(n, sub, 'submeters'), 1, 'tz')
    ok = isinstance(r, tuple) and len(r) == 2
    c.prove('truth and prediction', ok and isinstance(r[0], Truth) and isinstance(r[1], Done) and
            len(made) == 2 and made[0] is gt.d and made[1] is pr.d)
    c.prove('every appliance has its truth', gt.f.there)
    c.prove('every predicted appliance has its prediction', pr.f.there)


# ---------------------------------------------------------------- the reported errors

class Name(str):
    """the text numbered i of some list"""
    _vc_track = False

    def __new__(cls, i):
        s = str.__new__(cls, core.token(VNum(i)))
        s.i = i
        return s


class Pending(Filed):
    """the predictions filed so far, by model"""

    def call(self, m, *a, **k):
        if m in ('__getitem__', 'get') and not k and isinstance(a[0], Key) and a[0].kind == 'model':
            self.c.prove('the prediction that is asked for is there', z3.Implies(a[0].i == self.i0, self.there))
            return ('prediction', a[0].i)
        return Filed.call(self, m, *a, **k)


class Predicting(Filing):
    """the loop over the models that predicts; the truth of the last one stays"""

    def __init__(self, c, w):
        Filing.__init__(self, c, 'predictions of the models', 'models', w.m0, Pending)
        self.w, self.seen = w, False

    def match(self, loop):
        return not self.seen and Filing.match(self, loop)

    def havoc(self, loop, env, names):
        rest = dict((n, v) for n, v in env.items() if n not in names)
        Filing.havoc(self, loop, rest, names)
        self.truth = [n for n in names if isinstance(env.get(n), MDict)]
        if self.c.branch(loop.k > 0):
            return dict((n, self.w.truth) for n in self.truth)
        return dict((n, env[n]) for n in self.truth)

    def inv(self, loop):
        l = Filing.inv(self, loop)
        if self.d is not None:
            ok = all(loop.env[n] is self.w.truth for n in self.truth)
            l.append(('the truth is there after the first model', z3.Or(loop.k == 0, z3.BoolVal(ok))))
        return l

    def on_exit(self, loop):
        self.seen = True


class Sink(object):
    """a list that grows; how many entries, and how often and where the one of metric m0 is"""
    _vc_track = True

    def __init__(self, c, m0, what):
        self.c, self.m0, self.what, self.version = c, m0, what, 0
        self.n, self.times, self.pos = c.fresh('entries', I), z3.IntVal(0), z3.IntVal(-1)
        c.assume(self.n >= 0)
        self.n0 = self.n

    def append(self, x):
        i = self.what(x)
        hit = i == self.m0
        self.pos = z3.simplify(z3.If(hit, self.n, self.pos))
        self.times = z3.simplify(self.times + one(hit))
        self.n = z3.simplify(self.n + 1)
        self.version += 1

    def vlen(self):
        return mknum(self.n)

    def havoc(self):
        c = self.c
        self.n, self.times, self.pos = c.fresh('h_entries', I), c.fresh('h_times', I), c.fresh('h_pos', I)
        self.version += 1

    def holds(self, P, k, sup):
        """after k metrics"""
        there = z3.And(self.m0 < k, sup(self.m0))
        return z3.And(self.n == self.n0 + P(k), self.times == one(there), self.pos == z3.If(there, self.n0 + P(self.m0), -1))


class Metrics(LoopSpec):
    name = 'metrics'

    def __init__(self, w):
        self.w = w

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'metrics'

    def havoc(self, loop, env, names):
        self.w.errors.havoc()
        self.w.keys.havoc()
        return {}

    def allow_mutation(self, loop):
        return [self.w.errors, self.w.keys]

    def inv(self, loop):
        w = self.w
        w.c.assume(w.P(0) == 0)
        return [('an error of every supported metric so far, in order', w.errors.holds(w.P, loop.k, w.sup)),
                ('and its name', w.keys.holds(w.P, loop.k, w.sup))]

    def on_item(self, loop, item):
        w, k = self.w, loop.k
        w.c.assume(w.P(k + 1) == w.P(k) + one(w.sup(k)))
        w.supported = w.c.branch(w.sup(k))


@unit('api.call_predict', [AP + 'call_predict'], budget=60)
def api_call_predict(c, E):
    """for each supported metric, in order, one table of errors is filed under data set, building and metric: for every model the
    loss of the truth against that model's own prediction; nothing without samples; for any number of models and metrics"""
    E.model_dicts = True
    M = E.load('nilmtk.api')
    c.tokens = []
    w = type('W', (), {})()
    w.c = c
    n, m, w.m0, q0, size = (c.fresh(x, I) for x in ('models', 'metrics', 'm0', 'metric0', 'samples'))
    c.assume(z3.And(0 <= w.m0, w.m0 < n, 0 <= q0, q0 < m, size >= 0))
    w.sup, w.P = c.fresh_fun('supported', I, B), c.fresh_fun('supported before', I, I)
    site_only = c.choose(2) == 1
    mains, subs, clf_of = object(), object(), {}

    class Truth(object):
        _vc_track = False

        @property
        def size(self):
            return VNum(size)

        @property
        def empty(self):
            return mkbool(size == 0)

        def vlen(self):
            return VNum(size)
    w.truth = Truth()

    class Clf(object):
        _vc_track = False
        MODEL_NAME = 'm'

        def __init__(self, i):
            self.i = i

    def filed(key, d, v):
        if isinstance(d, Pending):
            c.prove('a model\'s own prediction', isinstance(v, tuple) and v[0] == 'prediction' and v[1].eq(key.i))
        else:
            c.prove('a model\'s own loss, of this metric', isinstance(v, tuple) and v[0] == 'loss' and v[1].eq(key.i) and v[2].eq(w.metric))

    def predict(clf, test_elec, test_submeters, sample_period, timezone):
        c.prove('predicted from the test data', test_elec is mains and test_submeters is subs and sample_period == 60 and timezone == 'tz')
        return w.truth, ('prediction', clf.i)

    def compute_loss(gt, clf_pred, loss_function):
        c.prove('the truth against a prediction', gt is w.truth and isinstance(clf_pred, tuple) and clf_pred[0] == 'prediction')
        c.prove('by the metric', isinstance(loss_function, tuple) and loss_function[0] == 'metric')
        return ('loss', clf_pred[1], loss_function[1])

    class Globals(object):
        def __getitem__(self, name):
            if not isinstance(name, Name):
                raise Unsupported('globals()[%r]' % (name,))
            if not w.supported:
                raise KeyError(name)
            return ('metric', name.i)

        def get(self, name, default=None):
            return self[name] if w.supported else default

        def __contains__(self, name):
            return isinstance(name, Name) and w.supported

    class Errors(object):
        _vc_track = False

        def __init__(self, d):
            self.d, self.metric = d, w.metric

    def frame(d=None, **k):
        if k or not isinstance(d, MDict) or d is not losses.d:
            raise Unsupported('DataFrame')
        c.prove('every model has its loss', losses.f.there)
        return Errors(d)

    def which(x):
        c.prove('a table of errors is filed', isinstance(x, Errors))
        return x.metric if isinstance(x, Errors) else z3.IntVal(-1)

    def under(x):
        ok = isinstance(x, str) and x == 'set_1_' + core.token(VNum(w.metric))
        c.prove('under data set, building and metric', ok)
        return w.metric if ok else z3.IntVal(-1)

    def metric(i):
        w.metric = i
        return Name(i)
    preds = Predicting(c, w)
    losses = Filing(c, 'losses', 'models', w.m0)
    w.errors, w.keys = Sink(c, q0, which), Sink(c, q0, under)
    E.loop_specs += [preds, Metrics(w), losses]
    M.globals = Globals
    M.pd = ShimModule('pd', DataFrame=frame)
    M.print = lambda *a, **k: None
    api = M.API.__new__(M.API)
    api.site_only, api.display_predictions, api.sample_period, api.storing_key = site_only, False, 60, 'set_1'
    api.test_mains, api.test_submeters = mains, subs
    api.metrics = VList.symbolic(m, metric, 'metrics')
    api.errors, api.errors_keys = w.errors, w.keys
    api.predict, api.compute_loss = predict, compute_loss
    E.roots += [w.errors, w.keys]
    models = VList.symbolic(n, lambda i: (Key(c, i, 'model', filed), Clf(i)), 'models')
    api.call_predict(models, 'tz')
    c.prove('the truth is kept', api.gt_overall is w.truth)
    c.prove('the predictions of all models are kept', z3.And(z3.BoolVal(api.pred_overall is preds.d), preds.f.there))
    if site_only:
        c.prove('nothing is filed without a truth', z3.And(w.errors.n == w.errors.n0, w.keys.n == w.keys.n0))
        return
    c.prove('errors of every supported metric, in order, nothing without samples',
            z3.If(size == 0, w.errors.n == w.errors.n0, w.errors.holds(w.P, m, w.sup)))
    c.prove('with their names', z3.If(size == 0, w.keys.n == w.keys.n0, w.keys.holds(w.P, m, w.sup)))


# ---------------------------------------------------------------- what is loaded, for training and for testing

note('load without chunk size', 'the first table that load() without a chunk size gives holds the data of the window')
note('load by chunks', 'load(chunksize) gives tables 0, 1, ... of the window; next() gives them in order and then raises StopIteration')


class T(object):
    """the table of the mains (what 'mains'), of appliance what, or the artificial mains ('sum'); at: (data set, building, chunk)"""
    _vc_track = False

    def __init__(self, what, at, clean=False):
        self.what, self.at, self.clean = what, at, clean
        self.columns = ['first', 'second']

    def __getitem__(self, cols):
        if list(cols) != ['first']:
            raise Unsupported('columns %r' % (cols,))
        return self

    def same(self, what, at):
        if isinstance(self.what, str) or isinstance(what, str):
            w = z3.BoolVal(isinstance(self.what, str) and isinstance(what, str) and self.what == what)
        else:
            w = self.what == what
        return z3.And([w] + [a == b for a, b in zip(self.at, at)]) if len(self.at) == len(at) else z3.BoolVal(False)


class Empty(object):
    _vc_track = False


class Iter(VSeq):
    """what load() gives: n tables; pos: how many were taken"""
    _vc_track = True
    tag = 'tables'

    def __init__(self, w, what, at):
        self.w, self.what, self.key, self.pos, self.version = w, what, at, z3.IntVal(0), 0
        self.n = w.n_tables(what, *at) if w.chunked else z3.IntVal(1)

    def table(self, q):
        return T(self.what, self.key + ((q,) if self.w.chunked else ()))

    def seq(self):
        if not z3.is_int_value(self.pos) or self.pos.as_long() != 0 or not self.w.chunked:
            raise Unsupported('loop over tables')
        return self.n, self.table

    def vlen(self):
        raise Unsupported('len of a generator')

    def __iter__(self):
        raise Unsupported('iteration over tables')

    def __next__(self):
        used('load by chunks' if self.w.chunked else 'load without chunk size')
        c, p = self.w.c, self.pos
        if not self.w.chunked and not z3.is_true(z3.simplify(p == 0)):
            raise Unsupported('a second table')
        if self.w.chunked and not c.branch(p < self.n):
            raise StopIteration()
        self.pos = z3.simplify(p + 1)
        self.version += 1
        # the table after p others, called by the number of the chunk when this is the same
        q = getattr(self.w, 'q', None)
        return self.table(q if self.w.chunked and q is not None and c._check(p != q) == z3.unsat else p)


class Iters(VSeq):
    """one Iter per appliance; that of appliance i0 is followed"""
    _vc_track = False
    tag = 'appliances'

    def __init__(self, w, at):
        self.w, self.it = w, Iter(w, w.i0, at)

    def at(self, i):
        return IterRef(self, i)

    def seq(self):
        return self.w.n, self.at

    def vlen(self):
        return VNum(self.w.n)

    def __getitem__(self, k):
        return self.at(lift(k))

    def __iter__(self):
        raise Unsupported('iteration')


class IterRef(object):
    _vc_track = False

    def __init__(self, its, i):
        self.its, self.i = its, i

    def __next__(self):
        w = self.its.w
        if not self.i.eq(w.i0) and w.c._check(self.i != w.i0) != z3.unsat:
            raise Unsupported('another appliance')
        return next(self.its.it)


class Columns(object):
    """a list of tables for each appliance; n: how many that of appliance i0 has"""
    _vc_track = True

    def __init__(self, w):
        self.w, self.n, self.version = w, z3.IntVal(0), 0

    def __getitem__(self, i):
        return ColRef(self, lift(i))

    def vlen(self):
        return VNum(self.w.n)


class ColRef(object):
    _vc_track = False

    def __init__(self, cols, i):
        self.cols, self.i = cols, i

    def append(self, x):
        cols, w = self.cols, self.cols.w
        w.c.prove('an appliance gets its own table of this building, prepared', w.reading(x, self.i))
        cols.n = z3.simplify(cols.n + one(self.i == w.i0))
        cols.version += 1


class AppNames(VSeq):
    _vc_track = False
    tag = 'appliances'

    def __init__(self, w):
        self.w = w

    def seq(self):
        return self.w.n, Name

    def vlen(self):
        return VNum(self.w.n)

    def __getitem__(self, k):
        return Name(lift(k))

    def __iter__(self):
        raise Unsupported('iteration')

    def abstract_comp(self, f):
        w = self.w
        r = list(f([Name(w.i0)]))
        if len(r) == 1 and isinstance(r[0], VList) and r[0].base is None and not r[0].tail:
            w.cols = Columns(w)
            return w.cols
        if len(r) == 1 and isinstance(r[0], Iter):
            w.c.prove('an iterator of each appliance', not isinstance(r[0].what, str) and r[0].what.eq(w.i0))
            w.its = Iters(w, r[0].key)
            return w.its
        raise Unsupported('list made from the appliances')


class Keyed(VSeq):
    """a dict with symbolic keys: key(i) -> value(i)"""
    _vc_track = False

    def __init__(self, w, tag, n, key, value, enter):
        self.w, self.tag, self.n, self.key, self.value, self.enter = w, tag, n, key, value, enter

    def at(self, i):
        self.enter(i)
        return self.key(i)

    def seq(self):
        return self.n, self.at

    def keys(self):
        return self

    def items(self):
        return SymIter(self.n, lambda i: (self.at(i), self.value(i)), self.tag)

    def vlen(self):
        return VNum(self.n)

    def __iter__(self):
        raise Unsupported('iteration')

    def __getitem__(self, key):
        cur = self.w.cur[self.tag]
        ok = key == self.key(cur) if isinstance(key, str) else lift(key).eq(lift(self.key(cur)))
        if not ok:
            raise Unsupported('key %r' % (key,))
        return self.value(cur)


class World(object):
    """data sets, their buildings, meters and tables; (d0, b0[, q0]) and appliance i0 are arbitrary and followed"""

    def __init__(self, c, M, chunked, drop, artificial, site_only=False):
        I_ = lambda *names: [c.fresh(x, I) for x in names]
        self.c, self.chunked, self.drop, self.artificial, self.site_only = c, chunked, drop, artificial, site_only
        self.n, self.D, self.i0, self.d0, self.b0, self.q0 = I_('appliances', 'data sets', 'i0', 'd0', 'b0', 'q0')
        self.nb, self.NB = c.fresh_fun('buildings', I, I), c.fresh_fun('buildings before', I, I)
        self.nm, self.na = c.fresh_fun('chunks of mains', I, I, I), c.fresh_fun('chunks', I, I, I)
        self.bkey = c.fresh_fun('building number', I, I, I)
        c.assume(z3.And(0 <= self.i0, self.i0 < self.n, 0 <= self.d0, self.d0 < self.D, 0 <= self.b0, self.b0 < self.nb(self.d0),
                        0 <= self.q0, self.q0 < self.nm(self.d0, self.b0)))
        self.cur, self.q, self.cols, self.its, self.times, self.fits = {}, None, None, None, z3.IntVal(0), 0
        self._track = Times(self)
        self.power = {'mains': ['apparent'], 'appliance': ['active']}
        self.apps = AppNames(self)
        self.ds = self.win = None
        w = self

        def enter(k):
            w.cur['datasets'] = k
            c.assume(z3.And(w.nb(k) >= 0, w.NB(k + 1) == w.NB(k) + w.nb(k)))

        def enter_b(j):
            w.cur['buildings'] = j
            k = w.cur['datasets']
            c.assume(z3.And(w.nm(k, j) >= 0, w.na(k, j) >= 0))
        self.d = Keyed(self, 'datasets', self.D, Name, lambda k: {
            'path': ('path', k),
            'buildings': Keyed(w, 'buildings', w.nb(k), lambda j: VNum(w.bkey(k, j)),
                               lambda j: {'start_time': ('start', k, j), 'end_time': ('end', k, j)}, enter_b)}, enter)

        class Data(object):
            _vc_track = False

            def __init__(self, path):
                c.prove('the data set is opened at its own path', path[0] == 'path' and path[1].eq(w.cur['datasets']))
                self.k, w.ds = path[1], self
                self.metadata = {'timezone': ('timezone', self.k)}
                self.window = None

            def set_window(self, start=None, end=None):
                self.window = (start, end)

            @property
            def buildings(self):
                return Buildings(self)

        class Buildings(object):
            _vc_track = False

            def __init__(self, ds):
                self.ds = ds

            def __getitem__(self, key):
                j = w.cur['buildings']
                c.prove('the building asked for', lift(key) == w.bkey(self.ds.k, j))
                return Elec(self.ds, (self.ds.k, j))

        class Elec(object):
            _vc_track = False

            def __init__(self, ds, at, what=None):
                self.ds, self.key, self.what = ds, at, what

            @property
            def elec(self):
                return self

            def mains(self):
                return Elec(self.ds, self.key, 'mains')

            def __getitem__(self, name):
                if not isinstance(name, Name):
                    raise Unsupported('elec[%r]' % (name,))
                return Elec(self.ds, self.key, name.i)

            def load(self, **kw):
                k, j = self.key
                win = self.ds.window
                c.prove('loaded within the window of the building', win is not None and win[0] is not None and win[1] is not None and
                        win[0][0] == 'start' and win[1][0] == 'end' and all(t[1].eq(k) and t[2].eq(j) for t in win))
                c.prove('with the sample period, quantity and AC type asked for', kw.get('sample_period') == 60 and
                        kw.get('physical_quantity') == 'power' and
                        kw.get('ac_type') is w.power['mains' if isinstance(self.what, str) else 'appliance'])
                c.prove('by chunks if a chunk size is given', kw.get('chunksize') == (100 if w.chunked else None))
                if set(kw) - set(('sample_period', 'physical_quantity', 'ac_type', 'chunksize')):
                    raise Unsupported('load(%s)' % kw)
                it = Iter(w, self.what, self.key)
                if isinstance(self.what, str):
                    w.mains_its.append(it)
                return it
        self.mains_its = []
        M.DataSet = Data
        M.print = lambda *a, **k: None
        M.pd = ShimModule('pd', DataFrame=lambda: Empty())
        M.range = self.range_

    def range_(self, *a):
        from vc.seqs import v_range
        r = v_range(*a)
        r_ = r

        def comp(f):
            if len(a) != 1 or not lift(a[0]).eq(self.n):
                raise Unsupported('list made from a range')
            x = list(f([VNum(self.i0)]))
            if len(x) == 1 and isinstance(x[0], VList) and x[0].base is None and not x[0].tail:
                self.cols = Columns(self)
                return self.cols
            raise Unsupported('list made from a range')
        if isinstance(r_, VSeq):
            r_.abstract_comp = comp
        return r_

    def n_tables(self, what, k, j):
        return self.nm(k, j) if isinstance(what, str) else self.na(k, j)

    def place(self):
        p = (self.cur['datasets'], self.cur['buildings'])
        return p + (self.q,) if self.chunked else p

    def reading(self, x, i, clean=None):
        """x is the table of appliance i in this building, prepared"""
        if not isinstance(x, T) or x.clean != (self.drop if clean is None else clean):
            return z3.BoolVal(False)
        return x.same(i, self.place())

    def mains(self, x):
        if self.artificial and not self.site_only:
            return x.same('sum', self.place()) if isinstance(x, T) else z3.BoolVal(False)
        return x.same('mains', self.place()) if isinstance(x, T) and x.clean == self.drop else z3.BoolVal(False)

    def api(self, M):
        """an API whose other methods keep to their own contracts"""
        w, c, api = self, self.c, M.API.__new__(M.API)
        api.appliances, api.power, api.sample_period = self.apps, self.power, 60
        api.DROP_ALL_NANS, api.artificial_aggregate, api.site_only = self.drop, self.artificial, self.site_only
        api.chunk_size = 100 if self.chunked else None
        api.classifiers = self.models = object()
        api.test_submeters = []

        def readings(l, clean):
            n, at = l.seq() if isinstance(l, VList) else (None, None)
            c.prove('one table per appliance', n == w.n if n is not None else False)
            if n is None:
                raise PathEnd('no tables')
            x = at(w.i0)
            c.prove('the tables are the appliances\' in this building, in order', w.reading(x, w.i0, clean))

        def dropna(mains_df, appliance_dfs=()):
            c.prove('mains of this building', mains_df.same('mains', w.place()) if isinstance(mains_df, T) else False)
            if w.site_only:
                c.prove('no tables of appliances', len(appliance_dfs) == 0)
                return T('mains', w.place(), True), VList()
            readings(appliance_dfs, False)
            p = w.place()
            return T('mains', p, True), VList.symbolic(w.n, lambda i: T(i, p, True), 'appliances')

        def aggregate(l):
            readings(l, w.drop)
            return T('sum', w.place())
        api.dropna, api.create_artificial_aggregate = dropna, aggregate
        return api

    def submeters(self, l):
        """l: (name, [table]) of each appliance"""
        c = self.c
        n, at = l.seq() if isinstance(l, VList) else (None, None)
        c.prove('one entry per appliance', n == self.n if n is not None else False)
        if n is not None:
            c.prove('each with its name and table, in order', self.submeter(at(self.i0), self.i0))

    def submeter(self, x, i):
        if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], Name) and isinstance(x[1], (list, VList)) and len(x[1]) == 1):
            return z3.BoolVal(False)
        return z3.And(x[0].i == i, self.reading(x[1][0], i))

    def came(self):
        k = [self.d0, self.b0] + ([self.q0] if self.chunked else [])
        p = self.place()
        self._track.n = z3.simplify(self._track.n + one(z3.And([a == b for a, b in zip(k, p)])))
        self._track.version += 1


class Times(object):
    """how often the place followed was trained on / tested"""
    _vc_track = True

    def __init__(self, w):
        self.w, self.n, self.version = w, z3.IntVal(0), 0


class Outer(LoopSpec):
    """the loops over data sets, buildings and chunks"""

    def __init__(self, w, api, tag, grow=None):
        self.w, self.api, self.tag, self.name, self.grow = w, api, tag, tag, grow

    def match(self, loop):
        it = loop.it
        t = getattr(it, 'tag', '')
        if self.tag == 'tables':
            return 'tables' in t or isinstance(getattr(it, 'src', None), Iter)
        return t == self.tag

    def done(self, loop):
        w, k = self.w, loop.k
        if self.tag == 'datasets':
            return w.d0 < k
        d = w.cur['datasets']
        if self.tag == 'buildings':
            return z3.Or(w.d0 < d, z3.And(w.d0 == d, w.b0 < k))
        b = w.cur['buildings']
        return z3.Or(w.d0 < d, z3.And(w.d0 == d, w.b0 < b), z3.And(w.d0 == d, w.b0 == b, w.q0 < k))

    def so_far(self, loop):
        w = self.w
        return w.NB(loop.k) if self.tag == 'datasets' else w.NB(w.cur['datasets']) + loop.k

    def havoc(self, loop, env, names):
        w, c, api = self.w, self.w.c, self.api
        w._track.n = c.fresh('h_times', I)
        w._track.version += 1
        if self.grow:
            l = api.train_mains
            l.base, l.tail = (self.so_far(loop), lambda i: Poisoned()), []
            l.version += 1
            w.cols.n = c.fresh('h_col', I)
            w.cols.version += 1
        else:
            api.train_mains = api.train_submeters = api.test_mains = api.storing_key = 'arbitrary'
            api.test_submeters = VList.symbolic(c.fresh('submeters so far', I), lambda i: Poisoned(), 'earlier') if not w.chunked else 'arbitrary'
            if not w.chunked:
                c.assume(api.test_submeters.base[0] >= 0)
        if self.tag != 'tables' and w.ds is not None:
            w.ds.window = None
        if self.tag == 'tables':
            w.q = None
            self.its = [i for i in w.mains_its + ([w.its.it] if w.its else []) if i is not loop.it and i is not getattr(loop.it, 'src', None)]
            for i in self.its:
                i.pos = c.fresh('h_pos', I)
                i.version += 1
            self.started = True
            w.q = loop.k
        return {}

    def allow_mutation(self, loop):
        w = self.w
        l = [self.api, w._track] + (self.its if self.tag == 'tables' else [])
        return l + ([self.api.train_mains, w.cols] if self.grow else [self.api.test_submeters])

    def inv(self, loop):
        w = self.w
        w.c.assume(w.NB(0) == 0)
        l = [('every building (chunk) so far came once', w._track.n == one(self.done(loop)))]
        if self.grow:
            t = self.api.train_mains
            n = z3.IntVal(len(t.tail)) + (t.base[0] if t.base is not None else 0)
            l += [('one mains table per building so far', n == self.so_far(loop)),
                  ('and as many of each appliance', w.cols.n == self.so_far(loop))]
        if self.tag == 'tables' and getattr(self, 'started', False):
            for i in self.its:
                l.append(('iterators keep step', i.pos == z3.If(loop.k < i.n, loop.k, i.n)))
        return l

    def on_item(self, loop, item):
        if self.tag == 'tables':
            self.w.q = loop.k

    def at_end(self, loop):
        w = self.w
        if self.grow and self.tag == 'buildings':
            t = self.api.train_mains.tail
            w.c.prove('the mains of this building, prepared', w.mains(t[0]) if len(t) == 1 else False)
            w.came()
        elif self.grow:
            w.c.prove('nothing else', not self.api.train_mains.tail)


class Poisoned(object):
    """an earlier entry"""
    _vc_track = False


class EachApp(LoopSpec):
    """any loop over the appliances: one entry for each, in order, in a list or in the columns; the one of appliance i0 is followed"""
    name = 'appliances'

    def __init__(self, w, api):
        self.w, self.api = w, api

    def match(self, loop):
        return loop.kind == 'for'

    def havoc(self, loop, env, names):
        w, c, api = self.w, self.w.c, self.api
        loop.kinds = core.ctx().run.persist.setdefault(('entries', loop.id), [])
        loop.start_cols = w.cols.n if w.cols is not None else None
        l = [v for n, v in env.items() if n not in names and isinstance(v, VList) and v.base is None and not v.tail]
        l = [x for i, x in enumerate(l) if all(x is not y for y in l[:i])]
        if len(l) > 1:
            raise Unsupported('the list that is filled is not found')
        loop.list, loop.off = (l[0], z3.IntVal(0)) if l else (None, None)
        if loop.list is None and w.cols is None and isinstance(api.test_submeters, VList) and not w.chunked:
            loop.list = api.test_submeters
            if loop.list.tail:
                raise Unsupported('entries of the test')
            loop.off = loop.list.base[0] if loop.list.base is not None else z3.IntVal(0)
        if loop.list is not None:
            kind, off = (loop.kinds or [None])[0], loop.off
            place = w.place() if 'datasets' in w.cur and 'buildings' in w.cur else None
            cols = w.cols
            loop.list.base = (off + loop.k, lambda i: self.value(kind, z3.simplify(i - off), place, cols))
            loop.list.tail = []
            loop.list.version += 1
        else:
            if w.cols is None:
                raise Unsupported('a loop over the appliances that fills nothing')
            w.cols.n = c.fresh('h_col', I)
            w.cols.version += 1
        if w.its is not None:
            loop.pos0 = w.its.it.pos
            if loop.it is w.its or getattr(loop.it, 'src', None) is w.its:
                w.its.it.pos = c.fresh('h_pos', I)
                w.its.it.version += 1
        return {}

    def value(self, kind, i, place, cols):
        if kind in ('raw', 'clean'):
            return T(i, place, kind == 'clean')
        if kind == 'submeter':
            return (Name(i), VList([T(i, place, self.w.drop)]))
        if kind == 'column':
            return (Name(i), ColRef(cols, i))
        raise Unsupported('entries of the loop')

    def allow_mutation(self, loop):
        w = self.w
        l = [loop.list] if loop.list is not None else [w.cols]
        if w.its is not None and (loop.it is w.its or getattr(loop.it, 'src', None) is w.its):
            l.append(w.its.it)
        return l

    def inv(self, loop):
        w = self.w
        l = [('one item per appliance', loop.n == w.n)]
        if not hasattr(loop, 'kinds'):
            return l
        if loop.list is None:
            l.append(('the column of an appliance so far has one more', w.cols.n == loop.start_cols + one(w.i0 < loop.k)))
        else:
            l.append(('one entry per appliance so far', loop.list.base[0] + len(loop.list.tail) == loop.off + loop.k))
        if w.its is not None and (loop.it is w.its or getattr(loop.it, 'src', None) is w.its):
            it = w.its.it
            nxt = z3.If(loop.pos0 < it.n, loop.pos0 + 1, it.n)
            l.append(('each iterator is taken once', it.pos == z3.If(w.i0 < loop.k, nxt, loop.pos0)))
        return l

    def on_item(self, loop, item):
        if not self.w.c.branch(loop.k == self.w.i0):
            raise PathEnd('another appliance')

    def at_end(self, loop):
        w, c = self.w, self.w.c
        if loop.list is None:
            return
        t = loop.list.tail
        ok = len(t) == 1
        c.prove('one entry per appliance', ok)
        if not ok:
            return
        x, kind = t[0], None
        if isinstance(x, Empty):
            kind = 'raw'
            c.prove('an appliance without a table only if there is none left', z3.BoolVal(False) if w.q is None else w.q >= w.na(*w.place()[:2]))
        elif isinstance(x, T):
            kind = 'clean' if x.clean else 'raw'
            c.prove('the table of this appliance', self.followed(x))
        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], ColRef):
            kind = 'column'
            c.prove('name and tables of this appliance', z3.And(x[0].i == w.i0, x[1].i == w.i0) if isinstance(x[0], Name) else False)
        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], (list, VList)):
            kind = 'submeter'
            y = x[1][0] if len(x[1]) == 1 else None
            c.prove('name and table of this appliance', z3.And(x[0].i == w.i0, self.followed(y)) if isinstance(x[0], Name) and
                    isinstance(y, T) and y.clean == w.drop else False)
        if kind is None:
            raise Unsupported('entry %r' % (x,))
        if kind not in loop.kinds:
            loop.kinds.append(kind)
        c.prove('entries of one kind', len(loop.kinds) == 1)

    def followed(self, x):
        w = self.w
        if not isinstance(x.what, z3.ExprRef) or len(x.at) != len(w.place()):
            return z3.BoolVal(False)
        return z3.And([x.what == w.i0] + [a == b for a, b in zip(x.at, w.place())])


@unit('api.train_jointly', [AP + 'train_jointly'], budget=120, weak=True)
def api_train_jointly(c, E):
    """the model gets, once, one mains table and one table of each appliance for every training building of every data set, loaded
    within the building's window and prepared the same way; any number of data sets, buildings and appliances"""
    M = E.load('nilmtk.api')
    c.tokens = []
    w = World(c, M, False, c.choose(2) == 0, c.choose(2) == 1)
    api = w.api(M)
    E.roots += [w._track]
    E.loop_specs += [Outer(w, api, 'datasets', True), Outer(w, api, 'buildings', True), EachApp(w, api)]

    class Clf(object):
        _vc_track = False

        def partial_fit(self, mains, subs, *a, **k):
            w.fits += 1
            c.prove('the mains of all buildings', isinstance(mains, VList) and not mains.tail and mains.base is not None and
                    mains is api.train_mains)
            if isinstance(mains, VList) and mains.base is not None:
                c.prove('one mains table per building', mains.base[0] == w.NB(w.D))
            n, at = subs.seq() if isinstance(subs, VList) else (None, None)
            c.prove('one entry per appliance', n == w.n if n is not None else False)
            if n is None:
                return
            x = at(w.i0)
            c.prove('each with its name and the tables of all buildings', isinstance(x, tuple) and isinstance(x[0], Name) and
                    x[0].i.eq(w.i0) and isinstance(x[1], ColRef) and x[1].i.eq(w.i0) and x[1].cols is w.cols)
            c.prove('one table per building', w.cols.n == w.NB(w.D))
            c.prove('every building is there once', w._track.n == 1)
    api.train_jointly(Clf(), w.d)
    c.prove('trained once', w.fits == 1)


@unit('api.test_jointly', [AP + 'test_jointly'], budget=120, weak=True)
def api_test_jointly(c, E):
    """the models predict once for every building of every test data set, from its mains within its window, prepared the same way,
    with the readings of its appliances as the latest ones; any number of data sets, buildings and appliances"""
    M = E.load('nilmtk.api')
    c.tokens = []
    w = World(c, M, False, c.choose(2) == 0, c.choose(2) == 1, c.choose(2) == 1)
    api = w.api(M)
    E.roots += [w._track]

    def call_predict(models, timezone):
        c.prove('all models predict', models is w.models)
        k, j = w.place()
        c.prove('in the time zone of the data set', timezone[0] == 'timezone' and timezone[1].eq(k))
        t = api.test_mains
        c.prove('from the mains of this building, prepared', w.mains(t[0]) if isinstance(t, (list, VList)) and len(t) == 1 else False)
        c.prove('filed under data set and building', api.storing_key == str(Name(k)) + '_' + str(VNum(w.bkey(k, j))))
        if not w.site_only:
            l = api.test_submeters
            ok = isinstance(l, VList) and l.base is not None and not l.tail
            c.prove('the readings of the appliances', ok)
            if ok:
                c.prove('the latest ones are those of this building', w.submeter(l.base[1](z3.simplify(l.base[0] - w.n + w.i0)), w.i0))
        w.came()
    api.call_predict = call_predict
    E.loop_specs += [Outer(w, api, 'datasets'), Outer(w, api, 'buildings'), EachApp(w, api)]
    api.test_jointly(w.d)
    c.prove('every building is tested once', w._track.n == 1)


def by_chunks(c, E):
    M = E.load('nilmtk.api')
    c.tokens = []
    w = World(c, M, True, c.choose(2) == 0, c.choose(2) == 1)
    api = w.api(M)
    E.roots += [w._track]
    E.loop_specs += [Outer(w, api, 'datasets'), Outer(w, api, 'buildings'), Outer(w, api, 'tables'), EachApp(w, api)]
    return w, api


@unit('api.train_chunk_wise', [AP + 'train_chunk_wise'], budget=120, weak=True)
def api_train_chunk_wise(c, E):
    """the model is trained once on each chunk of each building of each data set: chunk q of the mains with chunk q of each
    appliance, prepared the same way, with the number of the epoch; any number of each"""
    w, api = by_chunks(c, E)

    class Clf(object):
        _vc_track = False

        def partial_fit(self, mains, subs, epoch):
            c.prove('the mains of this chunk, prepared', w.mains(mains[0]) if isinstance(mains, (list, VList)) and len(mains) == 1 else False)
            w.submeters(subs)
            c.prove('the epoch', epoch == 7)
            w.came()
    api.train_chunk_wise(Clf(), w.d, 7)
    c.prove('every chunk is trained on once', w._track.n == 1)


@unit('api.test_chunk_wise', [AP + 'test_chunk_wise'], budget=120, weak=True)
def api_test_chunk_wise(c, E):
    """the models predict once for every chunk of each building of each test data set, from chunk q of the mains, prepared the same
    way, with chunk q of each appliance as its truth; any number of each"""
    w, api = by_chunks(c, E)

    def call_predict(models, timezone):
        c.prove('all models predict', models is w.models)
        k, j, q = w.place()
        c.prove('in the time zone of the data set', timezone[0] == 'timezone' and timezone[1].eq(k))
        t = api.test_mains
        c.prove('from the mains of this chunk, prepared', w.mains(t[0]) if isinstance(t, (list, VList)) and len(t) == 1 else False)
        c.prove('filed under data set, building and chunk',
                api.storing_key == str(Name(k)) + '_' + str(VNum(w.bkey(k, j))) + '_' + str(VNum(q)))
        w.submeters(api.test_submeters)
        w.came()
    api.call_predict = call_predict
    api.test_chunk_wise(w.d)
    c.prove('every chunk is tested once', w._track.n == 1)


class Collected(LoopSpec):
    """a loop over the methods that appends one entry for each, in order"""
    name = 'methods'

    def __init__(self, w, l):
        self.w, self.l = w, l

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'methods'

    def havoc(self, loop, env, names):
        self.l.base, self.l.tail = (loop.k, lambda i: ('model', i)), []
        self.l.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.l]

    def inv(self, loop):
        n = z3.IntVal(len(self.l.tail)) + (self.l.base[0] if self.l.base is not None else 0)
        return [('one model per method so far', n == loop.k)]

    def at_end(self, loop):
        t = self.l.tail
        ok = len(t) == 1 and isinstance(t[0], tuple) and len(t[0]) == 2 and isinstance(t[0][0], Name) and t[0][1][0] == 'method'
        self.w.c.prove('the method under its name', z3.And(t[0][0].i == loop.k, t[0][1][1] == loop.k) if ok else False)


@unit('api.methods', [AP + 'store_classifier_instances'])
def api_methods(c, E):
    """every method asked for is a model under its name, in order; any number of them"""
    M = E.load('nilmtk.api')
    c.tokens = []
    w = type('W', (), {})()
    w.c, w.cur, n = c, {}, c.fresh('methods', I)
    c.assume(n >= 0)
    M.print = lambda *a, **k: None
    api = M.API.__new__(M.API)
    api.methods = Keyed(w, 'methods', n, Name, lambda k: ('method', k), lambda i: w.cur.__setitem__('methods', i))
    api.classifiers = VList()
    E.loop_specs.append(Collected(w, api.classifiers))
    api.store_classifier_instances()
    l = api.classifiers
    c.prove('as many models as methods', l.base[0] == n if isinstance(l, VList) and l.base is not None and not l.tail else False)


class Listed(LoopSpec):
    name = 'appliances asked for'

    def __init__(self, c, api):
        self.c, self.api = c, api

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'asked for'

    def havoc(self, loop, env, names):
        self.l = self.api.appliances
        self.l.base, self.l.tail = (loop.k, lambda i: ('appliance', i)), []
        self.l.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.l]

    def inv(self, loop):
        l = self.api.appliances
        n = z3.IntVal(len(l.tail)) + (l.base[0] if l.base is not None else 0)
        return [('one entry per appliance so far', n == loop.k)]

    def at_end(self, loop):
        t = self.l.tail
        self.c.prove('the appliance itself', t[0][1] == loop.k if len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == 'appliance' else False)


@unit('api.params', [AP + '__init__'])
def api_params(c, E):
    """the experiment runs once, as asked for: appliances in order, data, metrics, methods, and the documented defaults"""
    M = E.load('nilmtk.api')
    n = c.fresh('appliances', I)
    c.assume(n >= 0)
    names = dict(sample_rate=('sample_period', 1), artificial_aggregate=('artificial_aggregate', False), chunk_size=('chunk_size', None),
                 display_predictions=('display_predictions', False), DROP_ALL_NANS=('DROP_ALL_NANS', True), site_only=('site_only', False))
    want = dict(power=object(), methods=object())
    params = dict(want)
    sets, metrics = [object(), object()], object()
    params['train'] = {'datasets': sets[0]}
    params['test'] = {'datasets': sets[1], 'metrics': metrics}
    params['appliances'] = VList.symbolic(n, lambda i: ('appliance', i), 'asked for')
    given = c.choose(2) == 1
    for k, (a, default) in names.items():
        if given:
            params[k] = object()
        want[a] = params[k] if given else default
    want.update(train_datasets_dict=sets[0], test_datasets_dict=sets[1], metrics=metrics)
    runs = []

    def experiment():
        runs.append(1)
        for a, v in want.items():
            c.prove('%s is what was asked for' % a, getattr(api, a, runs) is v)
        l = api.appliances
        c.prove('all appliances, in order', l.base[0] == n if isinstance(l, VList) and l.base is not None and not l.tail else False)
        c.prove('nothing is there yet', not len(api.classifiers) and not len(api.errors) and not len(api.errors_keys) and
                not len(api.test_submeters))
    M.print = lambda *a, **k: None
    M.pd = ShimModule('pd', DataFrame=lambda: Empty())
    api = M.API.__new__(M.API)
    api.experiment = experiment
    E.loop_specs.append(Listed(c, api))
    api.__init__(params)
    c.prove('the experiment runs once', runs == [1])
