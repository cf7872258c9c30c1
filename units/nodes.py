"""Contracts of pipeline nodes (C16): requirements, clipping, applying a function."""
import z3
from vc import core
from vc.core import Unsupported, PathEnd, VNum, VBool, VSeq, Sym, zb, mknum, mkbool, lift, to_real
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, SymIter
from vc.unit import unit
from units.stores import Plain

ND = 'nilmtk/node.py:'
note('Series.clip', 'Series.clip(lower, upper) with lower <= upper maps every value to the nearest one in '
                    '[lower, upper] and keeps missing values')


class Opaque(Sym):
    """a value known only by its equality with one other"""

    def __init__(self, name, other=None, eq=None):
        self.name, self.other, self.eq = name, other, eq

    def _eq(self, o):
        if o is self:
            return True
        if isinstance(o, Opaque):
            if self.other is o:
                return self.eq
            if o.other is self:
                return o.eq
            raise Unsupported('comparison of unrelated values')
        return False

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        e = self._eq(o)
        return (not e) if isinstance(e, bool) else mkbool(z3.Not(e.e))

    __hash__ = None

    def __bool__(self):
        c = core.ctx()
        if not hasattr(self, 'truth'):
            self.truth = c.fresh('truth', z3.BoolSort())
            o = self.other
            if o is not None and hasattr(o, 'truth') and isinstance(self.eq, VBool):
                c.assume(z3.Implies(self.eq.e, self.truth == o.truth))
        return c.branch(self.truth)

    def __format__(self, spec):
        return '<%s>' % self.name
    __repr__ = __str__ = lambda self: '<%s>' % self.name


class Req(dict):
    """requirements with any number of entries"""
    _vc_track = False

    def __init__(self, c, depth):
        dict.__init__(self)
        self.c, self.depth = c, depth
        I = z3.IntSort()
        self.n = c.fresh('nreq', I)
        c.assume(self.n >= 0)
        self.total = c.fresh('unmet', I)        # messages this dictionary must give
        c.assume(self.total >= 0)
        self.cnt = c.fresh_fun('cnt', I, I)     # ... by its first k entries
        c.assume(self.cnt(0) == 0)
        self.cur = None

    def at(self, i):
        c = self.c
        k = c.choose(3)
        cond = c.choose(2) == 0         # is the key in the state?
        sub = None
        if k == 0:
            v, st = 'ANY VALUE', Opaque('state')
            unmet = z3.IntVal(0)
        elif k == 1:
            v = Opaque('value')
            eq = VBool(c.fresh('equal', z3.BoolSort()))
            st = Opaque('state', v, eq)
            unmet = z3.If(eq.e, z3.IntVal(0), z3.IntVal(1))
        else:
            v = sub = Req(c, self.depth + 1)
            st = State(c, v)
            unmet = sub.total
        if not cond:
            unmet = z3.IntVal(1)
        c.assume(self.cnt(i + 1) == self.cnt(i) + unmet)
        self.cur = dict(i=i, v=v, st=st, there=cond, unmet=unmet, leaf=k != 2 or not cond)
        return ('KEY%d' % self.depth, v)

    def items(self):
        return SymIter(self.n, self.at, 'req%d' % self.depth, src=self)

    def _no(self, *a, **k):
        raise Unsupported('operation on requirements')
    keys = values = __iter__ = __len__ = __getitem__ = get = copy = _no

    def __bool__(self):
        return self.c.branch(self.n > 0)

    def __format__(self, spec):
        return '<requirements>'
    __repr__ = __str__ = lambda self: '<requirements>'


class State(dict):
    _vc_track = False

    def __init__(self, c, req):
        dict.__init__(self)
        self.c, self.req = c, req

    def __getitem__(self, k):
        cur = self.req.cur
        if cur is None or k != 'KEY%d' % self.req.depth:
            raise Unsupported('state[%r]' % (k,))
        if not cur['there']:
            raise KeyError(k)
        return cur['st']

    def __contains__(self, k):
        self_ = self.req.cur
        if self_ is None or k != 'KEY%d' % self.req.depth:
            raise Unsupported('%r in state' % (k,))
        return self_['there']

    def get(self, k, d=None):
        return self[k] if k in self else d

    def _no(self, *a, **k):
        raise Unsupported('operation on the state')
    keys = values = items = __iter__ = __len__ = copy = _no

    def __repr__(self):
        return '<state>'

    def __format__(self, spec):
        return '<state>'


def acc_of(env):
    vs = {id(v): v for v in env.values() if isinstance(v, VList)}
    if len(vs) != 1:
        raise Unsupported('list of unmet requirements not found')
    return list(vs.values())[0]


class ReqLoop(LoopSpec):
    name = 'requirements'

    def __init__(self, c):
        self.c = c

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'req0'

    def havoc(self, loop, env, names):
        self.acc = a = acc_of(env)
        req = loop.it.src
        a.base = (req.cnt(loop.k), lambda i: 'message')
        a.tail = []
        a.token = ('msgs',)
        a.version += 1
        self.c.assume(req.cnt(loop.k) >= 0)
        self.seen = True
        return {}

    def allow_mutation(self, loop):
        return [self.acc]

    def inv(self, loop):
        a = acc_of(loop.env)
        n = a.vlen()
        return [('one message per unmet requirement', lift(n) == loop.it.src.cnt(loop.k))]

    def at_end(self, loop):
        c = self.c
        cur = loop.it.src.cur
        if cur['leaf']:
            for m in self.acc.tail:
                c.prove('the message names the requirement', isinstance(m, str) and 'KEY0' in m)


class SubLoop(LoopSpec):
    """the same function on a nested dictionary, by its contract (induction on the nesting)"""
    name = 'nested requirements'

    def __init__(self, c):
        self.c = c

    def match(self, loop):
        return getattr(loop.it, 'tag', '').startswith('req')

    def havoc(self, loop, env, names):
        a = self.acc = acc_of(env)
        req = loop.it.src
        st = [v for v in env.values() if isinstance(v, State) and v.req is req]
        self.c.prove('nested requirements are compared with the nested state', len(st) >= 1)
        a._concat(VList.symbolic(req.total, lambda i: 'message', 'nested'))
        a.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.acc]

    def on_item(self, loop, item):
        raise PathEnd('covered by the contract')


@unit('nd.unsatisfied', [ND + 'find_unsatisfied_requirements'], sizes=[0, 1, 2], weak=True, budget=60)
def nd_unsatisfied(c, E):
    """one message for every required key that is absent or (unless any value will do) different"""
    M = E.load('nilmtk.node')
    if E.size is not None:
        def mk(depth, tag, path):
            req, st, un = {}, {}, []
            for j in range(E.size):
                k = '%s%d' % (tag, j)
                kind = c.choose(3 if depth else 2)
                here = c.choose(2)
                if kind == 2:
                    r, s, u = mk(depth - 1, k + '_', path)
                    req[k] = r
                    if here:
                        st[k] = s
                        un += u
                    else:
                        un.append(k)
                else:
                    req[k] = 'ANY VALUE' if kind == 0 else 7
                    if here:
                        st[k] = 7 if c.choose(2) else 8
                        if kind == 1 and st[k] == 8:
                            un.append(k)
                    else:
                        un.append(k)
            return req, st, un
        req, st, un = mk(1 if E.size == 1 else (1 if E.size == 2 else 0), 'k', ())
        c.inp('case', dict(req=req, st=st))
        r = list(M.find_unsatisfied_requirements(st, req))
        c.prove('one message per unmet requirement', len(r) == len(un))
        c.prove('each names its requirement', all(any("'%s" % k in m for m in r) for k in un))
        return
    req = Req(c, 0)
    st = State(c, req)
    sp = ReqLoop(c)
    E.loop_specs.extend([sp, SubLoop(c)])
    r = M.find_unsatisfied_requirements(st, req)
    c.prove('the requirements are examined', getattr(sp, 'seen', False))
    c.prove('one message per unmet requirement', lift(r.vlen()) == req.cnt(req.n))


@unit('nd.check', [ND + 'Node.check_requirements'], budget=60)
def nd_check(c, E):
    """a node is refused exactly when some requirement is unmet"""
    M = E.load('nilmtk.node')
    n = c.fresh('n', z3.IntSort())
    c.assume(n >= 0)
    md = {'a': 1}
    reqs = {'b': 2}
    un = VList.symbolic(n, lambda i: 'message', 'unmet')

    def contract(state, requirements):
        c.prove('the upstream metadata is checked', state is md)
        c.prove("against the node's requirements", requirements is reqs)
        return un
    M.find_unsatisfied_requirements = contract

    class Up(object):
        def dry_run_metadata(self):
            return md

    class N(M.Node):
        requirements = reqs
    node = N(Up())
    try:
        node.check_requirements()
    except M.UnsatisfiedRequirementsError as e:
        c.prove('refused only if something is unmet', n > 0)
        c.prove('the error lists what is unmet', repr(un) in str(e))
        return
    c.prove('not refused only if nothing is unmet', n == 0)


# ------------------------------------------------------------------ Clip
CL = 'nilmtk/preprocessing/clip.py:'


class Name(tuple):
    """a column name (quantity, type), known to be the i-th"""
    idx = None


class Id(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return mkbool(self.e == o.e) if isinstance(o, Id) else False

    def __ne__(self, o):
        return mkbool(self.e != o.e) if isinstance(o, Id) else True

    __hash__ = None

    def __format__(self, s):
        return '<name>'
    __repr__ = __str__ = lambda s: '<name>'


class Cols(VSeq):
    """columns of a data frame: distinct names, any number"""
    tag = 'columns'
    _vc_track = False

    def __init__(self, c, size=None, distinct=True):
        I = z3.IntSort()
        self.c = c
        self.n = c.fresh('ncol', I) if size is None else z3.IntVal(size)
        self.q, self.t = c.fresh_fun('q', I, I), c.fresh_fun('ty', I, I)
        if size is None:
            c.assume(self.n >= 0)
            i, j = z3.Ints('ci cj')
            if distinct:
                c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n),
                                                      z3.Or(self.q(i) != self.q(j), self.t(i) != self.t(j)))))
        else:
            for j in range(size):
                c.assume(z3.And(self.q(j) == j, self.t(j) == j))

    def name(self, i):
        r = Name((Id(z3.simplify(self.q(i))), Id(z3.simplify(self.t(i)))))
        r.idx = i
        return r

    def seq(self):
        return self.n, self.name

    def vlen(self):
        return mknum(self.n)

    def __iter__(self):
        n = z3.simplify(self.n)
        if z3.is_int_value(n):
            return iter([self.name(z3.IntVal(k)) for k in range(n.as_long())])
        raise Unsupported('iteration over the columns without a loop contract')


@unit('ut.column_index', ['nilmtk/utils.py:index_of_column_name'], sizes=[1, 2, 3], budget=60)
def ut_column_index(c, E):
    """the position of a column is found; KeyError exactly if there is none"""
    M = E.load('nilmtk.utils')
    cols = Cols(c, E.size)

    class DF(object):
        columns = cols
    want = (Id(c.fresh('wq', z3.IntSort())), Id(c.fresh('wt', z3.IntSort())))
    is_ = lambda i: z3.And(cols.q(i) == want[0].e, cols.t(i) == want[1].e)

    class Sp(LoopSpec):
        name = 'columns'

        def match(self, loop):
            return 'columns' in getattr(loop.it, 'tag', '')

        def inv(self, loop):
            j = z3.Int('cj')
            return [('not found so far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < loop.k), z3.Not(is_(j)))))]
    E.loop_specs.append(Sp())
    try:
        r = M.index_of_column_name(DF(), want)
    except KeyError:
        j = c.fresh('any', z3.IntSort())
        c.prove('no such column', z3.Implies(z3.And(0 <= j, j < cols.n), z3.Not(is_(j))))
        return
    c.prove('the position is that of the column', z3.And(lift(r) >= 0, lift(r) < cols.n, is_(lift(r))))


@unit('cl.limits', [CL + '_find_limits'], sizes=[0, 1, 2, 3], budget=60)
def cl_limits(c, E):
    """the limits of the first measurement that describes the column, or none"""
    M = E.load('nilmtk.preprocessing.clip')
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    n = c.fresh('n', I) if E.size is None else z3.IntVal(E.size)
    c.assume(n >= 0)
    q, t = c.fresh_fun('mq', I, I), c.fresh_fun('mt', I, I)
    lo, hi, hl, hh = c.fresh_fun('lo', I, R), c.fresh_fun('hi', I, R), c.fresh_fun('hl', I, B), c.fresh_fun('hh', I, B)
    want = (Id(c.fresh('wq', I)), Id(c.fresh('wt', I)))

    def at(i):
        d = {'physical_quantity': Id(q(i)), 'type': Id(t(i))}
        if c.branch(hl(i)):
            d['lower_limit'] = VNum(lo(i))
        if c.branch(hh(i)):
            d['upper_limit'] = VNum(hi(i))
        return d
    is_ = lambda i: z3.And(q(i) == want[0].e, t(i) == want[1].e)
    if E.size is None:
        ms = VList.symbolic(n, at, 'measurements')

        class Sp(LoopSpec):
            name = 'measurements'

            def match(self, loop):
                return getattr(loop.it, 'tag', '') == 'measurements'

            def inv(self, loop):
                j = z3.Int('mj')
                return [('none matches so far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < loop.k), z3.Not(is_(j)))))]

            def on_item(self, loop, item):
                self.k = loop.k
        sp = Sp()
        E.loop_specs.append(sp)
    else:
        ms = VList([at(z3.IntVal(k)) for k in range(E.size)])
    r = M._find_limits(want, ms)
    l, h = r
    # the first matching measurement
    f = c.fresh('first', I)
    j = z3.Int('mj')
    if E.size is None:
        k = getattr(sp, 'k', None)
        if k is None:
            c.prove('no limits without a matching measurement', l is None and h is None)
            jj = c.fresh('any', I)
            c.prove('no measurement matches', z3.Implies(z3.And(0 <= jj, jj < n), z3.Not(is_(jj))))
            return
        c.prove('the measurement matches', is_(k))
        ks = [(z3.BoolVal(True), k)]
    else:
        none = z3.And(*[z3.Not(is_(z3.IntVal(i))) for i in range(E.size)])
        c.prove('no limits without a matching measurement',
                z3.Implies(none, z3.BoolVal(l is None and h is None)))
        ks = [(z3.And(is_(z3.IntVal(i)), *[z3.Not(is_(z3.IntVal(m))) for m in range(i)]), z3.IntVal(i))
              for i in range(E.size)]
    for g, k in ks:
        for what, v, has, val in (('lower', l, hl, lo), ('upper', h, hh, hi)):
            c.prove('the %s limit' % what, z3.Implies(g, z3.Not(has(k)) if v is None else
                                                      z3.And(has(k), to_real(lift(v)) == val(k))))


class ColVal(object):
    """a column of values"""
    _vc_track = False

    def __init__(self, f):
        self.f = f

    def clip(self, lower=None, upper=None):
        used('Series.clip')
        f = self.f
        if lower is None and upper is None:
            return ColVal(f)
        l = None if lower is None else to_real(lift(lower))
        u = None if upper is None else to_real(lift(upper))

        def g(r):
            v = f(r)
            if l is not None:
                v = z3.If(v < l, l, v)
            if u is not None:
                v = z3.If(v > u, u, v)
            return v
        return ColVal(g)


class Loc(object):
    _vc_track = False

    def __init__(self, fr):
        self.fr = fr

    def _ix(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None, None, None)):
            raise Unsupported('iloc[%r]' % (k,))
        return lift(k[1])

    def __getitem__(self, k):
        return self.fr.col(self._ix(k))

    def __setitem__(self, k, v):
        self.fr.set(self._ix(k), v)


class ColFrame(Cols):
    tag = 'columns'

    def __init__(self, c, size=None):
        Cols.__init__(self, c, size, False)
        self.V = c.fresh_fun('V', z3.IntSort(), z3.IntSort(), z3.RealSort())
        V = self.V
        self.get = lambda i, r: V(i, r)

    @property
    def columns(self):
        return self

    @property
    def iloc(self):
        return Loc(self)

    def col(self, i):
        g = self.get
        return ColVal(lambda r: g(i, r))

    def set(self, i, v):
        if not isinstance(v, ColVal):
            raise Unsupported('column assignment of %r' % (v,))
        g = self.get
        self.get = lambda j, r: z3.If(j == i, v.f(r), g(j, r))

    def __getitem__(self, k):
        if isinstance(k, Name):
            return self.col(k.idx)
        raise Unsupported('chunk[%r]' % (k,))

    def __setitem__(self, k, v):
        if not isinstance(k, Name):
            raise Unsupported('chunk[%r] = ' % (k,))
        self.set(k.idx, v)


@unit('cl.process', [CL + 'Clip.process'], sizes=[0, 1, 2, 3], weak=True, budget=90)
def cl_process(c, E):
    """every column with known limits is clipped to them, nothing else changes"""
    M = E.load('nilmtk.preprocessing.clip')
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    fr = ColFrame(c, E.size)
    lo, hi, hl, hh = c.fresh_fun('lo', I, R), c.fresh_fun('hi', I, R), c.fresh_fun('hl', I, B), c.fresh_fun('hh', I, B)
    ms = ['measurements']
    md = {'device': {'measurements': ms}}
    checked = []

    def limits(measurement, measurements):
        # callee contract (cl.limits)
        c.prove("the device's measurements are searched", measurements is ms)
        if not isinstance(measurement, Name):
            raise Unsupported('limits of %r' % (measurement,))
        i = measurement.idx
        return (VNum(lo(i)) if c.branch(hl(i)) else None), (VNum(hi(i)) if c.branch(hh(i)) else None)

    def colindex(df, nme):
        # callee contract (ut.column_index)
        if df is not fr or not isinstance(nme, Name):
            raise Unsupported('index_of_column_name')
        return mknum(nme.idx)
    M._find_limits = limits
    M.index_of_column_name = colindex
    sl = None if c.choose(2) == 0 else c.real('slower')
    su = None if c.choose(2) == 0 else c.real('supper')
    L = lambda i: (lo(i), hl(i)) if sl is None else (sl.e, z3.BoolVal(True))
    H = lambda i: (hi(i), hh(i)) if su is None else (su.e, z3.BoolVal(True))

    def spec(i, r):
        (l, a), (h, b) = L(i), H(i)
        v = fr.V(i, r)
        return z3.If(z3.And(a, b), z3.If(v < l, l, z3.If(v > h, h, v)), v)

    def pre(i):
        # lower limit <= upper limit
        (l, a), (h, b) = L(i), H(i)
        c.assume(z3.Implies(z3.And(a, b), l <= h))

    class Up(object):
        def get_metadata(self):
            return md

        def process(self):
            return chunks

        def dry_run_metadata(self):
            return md
    node = M.Clip.__new__(M.Clip)
    node.upstream, node.lower, node.upper = Up(), sl, su
    node.check_requirements = lambda: checked.append(1)
    ai, ar = c.fresh('ai', I), c.fresh('ar', I)
    c.assume(z3.And(ai >= 0, ar >= 0))
    pre(ai)

    class Sp(LoopSpec):
        name = 'columns'

        def match(self, loop):
            return 'columns' in getattr(loop.it, 'tag', '')

        def havoc(self, loop, env, names):
            k = loop.k
            fr.get = lambda i, r: z3.If(i < k, spec(i, r), fr.V(i, r))
            return {}

        def inv(self, loop):
            if loop.state == 'start' and z3.is_int_value(loop.k):
                return [('nothing changed before', fr.get(ai, ar) == fr.V(ai, ar))]
            return [('the columns so far', fr.get(ai, ar) == z3.If(ai < loop.k, spec(ai, ar), fr.V(ai, ar)))]

        def on_item(self, loop, item):
            pre(loop.k)
    if E.size is None:
        n = c.fresh('nchunks', I)
        c.assume(n >= 0)
        chunks = VList.symbolic(n, lambda i: fr, 'chunks')
        out = Plain('chunks', lambda lp: getattr(lp.it, 'tag', '') == 'chunks', [])
        E.loop_specs.extend([Sp(), out])
        out.at_end = lambda loop: c.prove('every chunk is passed on once', out.yields == 1)
    else:
        for k in range(E.size):
            pre(z3.IntVal(k))
        chunks = VList([fr])

        class O(object):
            yields = 0
        out = O()
    for d in node.process():
        out.yields += 1
        c.prove('the chunk itself is passed on', d is fr)
        c.prove('requirements are checked first', len(checked) == 1)
        c.prove('clipped to the limits, otherwise unchanged', z3.Implies(ai < fr.n, fr.get(ai, ar) == spec(ai, ar)))
    c.prove('requirements are checked', len(checked) == 1)
    if E.size is not None:
        c.prove('every chunk is passed on once', out.yields == 1)


@unit('ap.process', ['nilmtk/preprocessing/apply.py:Apply.process'], sizes=[1, 2], budget=60)
def ap_process(c, E):
    """the function is applied to each chunk, time frame and look-ahead are kept"""
    M = E.load('nilmtk.preprocessing.apply')
    checked = []

    class Chunk(object):
        _vc_track = False

    def mk(_):
        k = Chunk()
        k.timeframe = Chunk()
        if c.choose(2):
            k.look_ahead = Chunk()
        k.tf, k.la = k.timeframe, getattr(k, 'look_ahead', None)
        cur.append(k)
        return k
    cur = []

    def func(k):
        c.prove('applied to the chunk', k is cur[-1])
        r = k if mode else Chunk()
        res.append(r)
        return r
    res = []
    mode = c.choose(2)

    class Up(object):
        def process(self):
            return chunks

        def dry_run_metadata(self):
            return {}
    node = M.Apply.__new__(M.Apply)
    node.upstream, node.func = Up(), func
    node.check_requirements = lambda: checked.append(1)
    if E.size is None:
        n = c.fresh('n', z3.IntSort())
        c.assume(n >= 0)
        chunks = VList.symbolic(n, mk, 'chunks')
        out = Plain('chunks', lambda lp: getattr(lp.it, 'tag', '') == 'chunks', [node])
        out.at_end = lambda loop: c.prove('every chunk gives one', out.yields == 1)
        E.loop_specs.append(out)
    else:
        def gen():
            for _ in range(E.size):
                yield mk(None)
        chunks = gen()

        class O(object):
            yields = 0
        out = O()
    for d in node.process():
        out.yields += 1
        c.prove("the function's result is passed on", d is res[-1])
        c.prove('with the time frame', getattr(d, 'timeframe', None) is cur[-1].tf)
        c.prove('and the look-ahead', getattr(d, 'look_ahead', None) is cur[-1].la)
        c.prove('requirements are checked first', len(checked) == 1)
    if E.size is not None:
        c.prove('every chunk gives one', out.yields == E.size)
