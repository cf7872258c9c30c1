"""Contracts of the factorial hidden Markov model (C18)."""
import z3
from vc import core
from vc import arrays as A
from vc.core import Unsupported, PathEnd, VNum, VBool, zb, mknum, mkbool, lift, to_real, VSeq
from vc.loops import LoopSpec
from vc.loader import StarArgs
from vc.models import note, used, ShimModule
from vc.seqs import VList, SymIter, concrete_items
from vc.unit import unit
from units.stores import Plain
from units.disagg import Name, Acc, A_memo, one_dict

FX = 'nilmtk/disaggregate/fhmm_exact.py:'
I, R = z3.IntSort(), z3.RealSort()

note('np.zeros', 'np.zeros(shape) / zeros_like(a) make a new array of that shape; a[i] = x and a[i, j] = x store x there '
                 'and change nothing else')
note('np.argsort', 'np.argsort(a, axis=0, kind="stable") of a column holds a permutation of its rows that puts them in order; '
                   'np.sort(a, axis=0) holds the rows in that order')
note('np.kron', 'np.kron(a, b)[i * len(b) + j] = a[i] * b[j]; for matrices '
                'kron(a, b)[i * n + j, k * n + l] = a[i, k] * b[j, l]')
note('itertools.product', 'itertools.product(*lists) yields every choice of one element per list, the last list varying fastest: '
                          'with sizes K(0), K(1), ... the choice (d(0), d(1), ...) comes at position q where q(0) = 0 and '
                          'q(m+1) = q(m) * K(m) + d(m)')
note('np.reshape', 'np.reshape(vector, (n, 1)) is the column of its elements; np.tile(a, (n, 1, 1)) is n copies of a')
note('float.int', 'int(s) / f in floating point, taken modulo an integer k and stored in an integer array, is (s div f) mod k for '
                  '0 <= s < 2**53, f >= 1')


def fn(x):
    return x.e if isinstance(x, VNum) else z3.IntVal(x) if isinstance(x, int) else lift(x)


class Arr(object):
    """an array that the code fills: one or two dimensions"""
    _vc_track = True

    def __init__(self, c, dims, like=None):
        self.c, self.dims, self.like, self.version = c, list(dims), like, 0
        self.a = z3.K(I, z3.RealVal(0)) if len(dims) == 1 else None
        self.a2 = [] if len(dims) == 2 else None     # 2-D: store chain over a function
        self.base2 = None

    def havoc(self):
        self.version += 1
        if self.a is not None:
            self.a = self.c.fresh('arr', z3.ArraySort(I, R))
        else:
            self.base2, self.a2 = self.c.fresh_fun('arr2', I, I, R), []

    def idx(self, i, d):
        e = fn(i)
        self.c.prove('the index is inside the array', z3.And(0 <= e, e < self.dims[d]))
        return e

    def ev(self, *i):
        if self.a is not None:
            return z3.Select(self.a, i[0])
        r = self.base2(*i) if self.base2 is not None else z3.RealVal(0)
        for x, y, v in self.a2:
            r = z3.If(z3.And(x == i[0], y == i[1]), v, r)
        return r

    def parts(self, i):
        if isinstance(i, tuple):
            if len(i) != len(self.dims):
                raise Unsupported('index')
            return [self.idx(x, d) for d, x in enumerate(i)]
        if len(self.dims) != 1:
            raise Unsupported('row of a matrix')
        return [self.idx(i, 0)]

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice')
        return VNum(self.ev(*self.parts(i)))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('slice')
        e = self.parts(i)
        v = to_real(lift(v))
        self.version += 1
        if self.a is not None:
            self.a = z3.Store(self.a, e[0], v)
        else:
            self.a2 = self.a2 + [(e[0], e[1], v)]

    def vlen(self):
        return mknum(self.dims[0])

    @property
    def shape(self):
        return tuple(mknum(d) for d in self.dims)

    @property
    def size(self):
        if len(self.dims) != 1:
            raise Unsupported('size')
        return mknum(self.dims[0])

    def __iter__(self):
        raise Unsupported('iteration over an array')


class In(object):
    """an array that is given: f of one or two indices; other dimensions are inside the element"""
    _vc_track = False

    def __init__(self, c, name, dims, f, inner=()):
        self.c, self.name, self.dims, self.f, self.inner = c, name, list(dims), f, tuple(inner)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice')
        i = i if isinstance(i, tuple) else (i,)
        if len(i) != len(self.dims):
            raise Unsupported('index of %s' % self.name)
        e = [fn(x) for x in i]
        for x, d in zip(e, self.dims):
            self.c.prove('the index is inside the array', z3.And(0 <= x, x < d))
        return VNum(self.f(*e))

    def __setitem__(self, i, v):
        raise Unsupported('the input %s is changed' % self.name)

    def vlen(self):
        return mknum(self.dims[0])

    @property
    def shape(self):
        return tuple(mknum(d) for d in self.dims) + self.inner

    def __iter__(self):
        raise Unsupported('iteration over an array')


class Mapping(object):
    """position in the order -> index of the state; two positions have different states"""
    _vc_track = False

    def __init__(self, c, n):
        self.c, self.n, self.f = c, n, c.fresh_fun('mapping', I, I)

    def at(self, e):
        return self.f(e)

    def __getitem__(self, i):
        e = fn(i)
        self.c.prove('the mapping covers the index', z3.And(0 <= e, e < self.n))
        self.c.assume(z3.And(0 <= self.f(e), self.f(e) < self.n))
        return VNum(self.f(e))


def np_shim(c, **more):
    def zeros(shape, dtype=None):
        used('np.zeros')
        if isinstance(shape, tuple):
            if not 1 <= len(shape) <= 2:
                raise Unsupported('zeros')
            return Arr(c, [fn(s) for s in shape])
        return Arr(c, [fn(shape)])

    def zeros_like(a, dtype=None):
        used('np.zeros')
        if not isinstance(a, (In, Arr)):
            raise Unsupported('zeros_like')
        return Arr(c, a.dims, like=a)
    return ShimModule('numpy', zeros=zeros, empty=zeros, zeros_like=zeros_like, empty_like=zeros_like, **more)


class Fill(LoopSpec):
    """loops that fill arrays; what is filled after how many iterations is said by `said`"""

    def __init__(self, c, said):
        self.c, self.said, self.stack = c, said, []
        self.name = 'fill'

    def match(self, loop):
        return loop.kind == 'for'

    def arrs(self, env):
        return [v for _, v in sorted(env.items()) if isinstance(v, Arr)]

    def havoc(self, loop, env, names):
        self.cur = self.arrs(env)
        for a in self.cur:
            a.havoc()
        self.stack.append(loop)
        return {}

    def allow_mutation(self, loop):
        return self.cur

    def on_exit(self, loop):
        self.stack.remove(loop)

    def inv(self, loop):
        l = [x for x in self.stack if x is not loop] + [loop]
        return [('what was filled', self.said(a, [x.k for x in l])) for a in self.arrs(loop.env)]


def sort_unit(id, name, attr, dims, doc):
    @unit(id, [FX + name], weak=True, title=doc)
    def u(c, E):
        M = E.load('nilmtk.disaggregate.fhmm_exact')
        M.np = np_shim(c)
        n = c.fresh('n', I)
        c.assume(n >= 0)
        f = c.fresh_fun('old', *([I] * dims + [R]))
        old = In(c, attr, [n] * dims, f, inner=((1, 1) if attr == 'covars' else ()))
        mp = Mapping(c, n)
        g = [c.fresh('s%d' % d, I) for d in range(dims)]
        for x in g:
            c.assume(z3.And(0 <= x, x < n))
        want = f(*[mp.at(x) for x in g])

        def said(a, k):
            if len(a.dims) != dims:
                return z3.BoolVal(True)
            if dims == 1:
                d = k[0] > g[0]
            elif len(k) == 1:
                d = k[0] > g[0]
            else:
                d = z3.Or(k[0] > g[0], z3.And(k[0] == g[0], k[1] > g[1]))
            return z3.Implies(d, a.ev(*g) == want)
        E.loop_specs.append(Fill(c, said))
        r = getattr(M, name)(mp, old)
        if not isinstance(r, Arr) or len(r.dims) != dims:
            raise Unsupported('result %s' % type(r).__name__)
        c.prove('the shape is kept', z3.And(*[x == n for x in r.dims]))
        c.prove('each entry is that of the states it is mapped to', r.ev(*g) == want)
        if attr == 'covars':
            c.prove('the shape of a covariance is kept', r.like is old)
    return u


sort_unit('fh.start', 'sort_startprob', 'startprob', 1, 'start probabilities are permuted by the mapping')
sort_unit('fh.covars', 'sort_covars', 'covars', 1, 'covariances are permuted by the mapping')
sort_unit('fh.trans', 'sort_transition_matrix', 'transmat', 2, 'transition probabilities are permuted by the mapping, both ways')


class Means(object):
    _vc_track = False

    def __init__(self, c, n):
        self.c, self.n, self.f = c, n, c.fresh_fun('mean', I, R)
        self.order = Mapping(c, n)

    def vlen(self):
        return mknum(self.n)

    def __iter__(self):
        raise Unsupported('iteration over the means')

    @property
    def shape(self):
        return (mknum(self.n), 1)


class Sorted(object):
    """np.sort(means, axis=0)"""
    _vc_track = False

    def __init__(self, m):
        self.m, self.n = m, m.n

    @property
    def shape(self):
        return (mknum(self.n), 1)


class Row(object):
    _vc_track = False

    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        if isinstance(i, int) and i in (0, -1):
            return self.v
        raise Unsupported('row[%r]' % (i,))


@unit('fh.mapping', [FX + 'return_sorting_mapping'], weak=True)
def fh_mapping(c, E):
    """the mapping is the order of the means: every position gets its own state, with ascending means"""
    M = E.load('nilmtk.disaggregate.fhmm_exact')
    n = c.fresh('n', I)
    c.assume(n >= 0)
    m = Means(c, n)

    def argsort(a, axis=-1, kind=None, **k):
        if a is not m or axis != 0 or k:
            raise Unsupported('argsort')
        used('np.argsort')
        return SymIter(n, lambda i: Row(VNum(m.order.at(i))), 'order')
    M.np = np_shim(c, argsort=argsort)
    seen = {}

    def enum(it, start=0):
        if not isinstance(it, SymIter):
            raise Unsupported('enumerate')
        k, at = it.seq()
        return SymIter(k, lambda i: (Pos(lift(mknum(i) + start)), at(i)), it.tag)
    M.enumerate = enum

    class Loop(Plain):
        def havoc(self, loop, env, names):
            self.ds = one_dict(env)
            return {}

        def allow_mutation(self, loop):
            return self.ds

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k
            self.before = [(d, set(map(id, d))) for d in self.ds]

        def at_end(self, loop):
            new = [(k, d[k]) for d, b in self.before for k in d if id(k) not in b]
            c.prove('one position is mapped', len(new) == 1)
            k, v = new[0]
            c.prove('the position', isinstance(k, Pos) and k.e == self.k0)
            c.prove('is given the state that comes there', fn(v) == m.order.at(self.k0))

        def on_exit(self, loop):
            seen['exit'] = self.ds
    E.loop_specs.append(Loop('mapping', lambda lp: lp.kind == 'for'))
    r = M.return_sorting_mapping(m)
    c.prove('the mapping is returned', any(r is d for d in seen.get('exit', [])))


class Pos(VNum):
    """a position used as a key"""

    def __hash__(self):
        return 7


class Chains(object):
    """M chains, chain m with K(m) states, and one arbitrary state d(m) of each (and another one e(m)).
    N(m) joint states of the first m, q(m) the position of (d(0) .. d(m-1)) among them."""

    def __init__(self, c, nd):
        self.c, self.nd = c, nd
        self.M = c.fresh('chains', I)
        c.assume(self.M >= 1)
        self.K, self.N = c.fresh_fun('K', I, I), c.fresh_fun('N', I, I)
        self.d = [c.fresh_fun('d%d' % x, I, I) for x in range(nd)]
        self.q = [c.fresh_fun('q%d' % x, I, I) for x in range(nd)]
        self.v = c.fresh_fun('v', *([I] * (nd + 1) + [R]))
        self.P, self.S = c.fresh_fun('P', I, R), c.fresh_fun('S', I, R)
        c.assume(z3.And(self.N(0) == 1, self.P(0) == 1, self.S(0) == 0, *[q(0) == 0 for q in self.q]))
        self.unfold(z3.IntVal(0))

    def val(self, m):
        return self.v(m, *[d(m) for d in self.d])

    def unfold(self, m):
        c, K = self.c, self.K(m)
        c.assume(z3.And(K >= 1, self.N(m + 1) == self.N(m) * K, self.P(m + 1) == self.P(m) * self.val(m),
                        self.S(m + 1) == self.S(m) + self.val(m)))
        for d, q in zip(self.d, self.q):
            c.assume(z3.And(0 <= d(m), d(m) < K, q(m + 1) == q(m) * K + d(m)))

    def inside(self, m):
        """the position is one of the joint states"""
        return z3.And(self.N(m) >= 1, *[z3.And(0 <= q(m), q(m) < self.N(m)) for q in self.q])

    def position(self, m):
        """lemma fh.position at m"""
        self.unfold(m)
        self.c.assume(z3.Implies(self.inside(m), self.inside(m + 1)))


@unit('fh.position', [FX + 'compute_pi_fhmm', FX + 'compute_A_fhmm', FX + 'compute_means_fhmm'],
      title='lemma: positions of joint states stay inside')
def fh_position(c, E):
    """0 <= q < N and 0 <= d < K give 0 <= q * K + d < N * K"""
    N, K, q, d = [c.fresh(x, I) for x in 'NKqd']
    c.assume(z3.And(N >= 1, K >= 1, 0 <= q, q < N, 0 <= d, d < K))
    c.prove('the product of the lengths is positive', N * K >= 1)
    c.prove('lower bound', 0 <= q * K + d)
    c.prove('upper bound', q * K + d < N * K)


class Vec(object):
    """a vector or square matrix of length n"""
    _vc_track = False

    def __init__(self, n, at, m=None):
        self.n, self.at, self.m = n, at, m

    def vlen(self):
        return mknum(self.n)

    @property
    def size(self):
        raise Unsupported('size')


def chain_list(ch, tag='chains'):
    return VList.symbolic(ch.M, A_memo(lambda m: Vec(ch.K(m), lambda *i: ch.v(m, *i), m)), tag)


def kron_unit(id, name, nd, doc):
    @unit(id, [FX + name], weak=True, title=doc, budget=60)
    def u(c, E):
        M = E.load('nilmtk.disaggregate.fhmm_exact')
        ch = Chains(c, nd)
        here = {'m': None}

        def kron(a, b):
            if not isinstance(a, Vec) or not isinstance(b, Vec):
                raise Unsupported('kron of %s' % type(a).__name__)
            used('np.kron')
            f = c.fresh_fun('kron', *([I] * nd + [R]))
            m = here['m']
            if m is not None:
                i, j = [q(m) for q in ch.q], [d(m) for d in ch.d]
                inside = z3.And(*[z3.And(0 <= x, x < a.n, 0 <= y, y < b.n) for x, y in zip(i, j)])
                c.assume(z3.Implies(inside, f(*[x * b.n + y for x, y in zip(i, j)]) == a.at(*i) * b.at(*j)))
            return Vec(a.n * b.n, f)
        M.np = ShimModule('numpy', kron=kron)

        class Loop(Plain):
            def havoc(self, loop, env, names):
                over = {}
                for nme in names:
                    if isinstance(env.get(nme), Vec):
                        n, f = c.fresh('len', I), c.fresh_fun('sofar', *([I] * nd + [R]))
                        over[nme] = Vec(n, f)
                return over

            def inv(self, loop):
                r = []
                for nme in loop.names:
                    x = loop.env.get(nme)
                    if isinstance(x, Vec):
                        r += [('the joint states of the chains so far', x.n == ch.N(loop.k + 1)),
                              ('the product of their probabilities', x.at(*[q(loop.k + 1) for q in ch.q]) == ch.P(loop.k + 1))]
                return r + [('the position is inside', ch.inside(loop.k + 1))]

            def on_item(self, loop, item):
                Plain.on_item(self, loop, item)
                here['m'] = z3.simplify(loop.k + 1)
                ch.position(here['m'])
        ch.position(z3.IntVal(0))
        E.loop_specs.append(Loop('kron', lambda lp: lp.kind == 'for'))
        r = getattr(M, name)(chain_list(ch))
        if not isinstance(r, Vec):
            raise Unsupported('result %s' % type(r).__name__)
        c.prove('one entry per joint state', r.n == ch.N(ch.M))
        c.prove('the position of a joint state is inside', ch.inside(ch.M))
        c.prove("a joint state has the product of its chains' probabilities", r.at(*[q(ch.M) for q in ch.q]) == ch.P(ch.M))
    return u


kron_unit('fh.pi', 'compute_pi_fhmm', 1, "initial probabilities are the products of the chains' own")
kron_unit('fh.A', 'compute_A_fhmm', 2, "transition probabilities are the products of the chains' own")


@unit('fh.sort', [FX + 'sort_learnt_parameters'], weak=True)
def fh_sort(c, E):
    """one and the same order is applied to means, start probabilities, covariances and transitions"""
    M = E.load('nilmtk.disaggregate.fhmm_exact')
    n = c.fresh('n', I)
    c.assume(n >= 1)
    m = Means(c, n)
    pi = In(c, 'startprob', [n], c.fresh_fun('pi', I, R))
    co = In(c, 'covars', [n], c.fresh_fun('co', I, R), (1, 1))
    tr = In(c, 'transmat', [n, n], c.fresh_fun('tr', I, I, R))

    def mapping(means):
        if means is not m:
            raise Unsupported('mapping')
        return m.order                      # contract of fh.mapping

    def permuted(mp, old):                  # contracts of fh.start, fh.covars, fh.trans
        c.prove('the mapping is that of the means', mp is m.order)
        return In(c, 'new ' + old.name, old.dims, lambda *i: old.f(*[m.order.at(x) for x in i]), old.inner)

    def only(what):
        def f(mp, old):
            c.prove('%s are sorted' % what.name, old is what)
            return permuted(mp, old)
        return f
    M.return_sorting_mapping = mapping
    M.sort_startprob, M.sort_covars, M.sort_transition_matrix = only(pi), only(co), only(tr)

    def sort(a, axis=-1, kind=None):
        if a is not m or axis != 0:
            raise Unsupported('sort')
        used('np.argsort')
        return Sorted(m)
    M.np = ShimModule('numpy', sort=sort, shape=lambda a: a.shape)
    r = M.sort_learnt_parameters(pi, m, co, tr)
    r = list(concrete_items(r)) if isinstance(r, VList) else list(r)
    c.prove('four results', len(r) == 4)
    s, mm, cv, t = r
    c.prove('the means are sorted', isinstance(mm, Sorted) and mm.m is m)
    if not all(isinstance(x, In) for x in (s, cv, t)):
        raise Unsupported('results')
    i, j = c.fresh('i', I), c.fresh('j', I)
    c.assume(z3.And(0 <= i, i < n, 0 <= j, j < n))
    o = m.order.at
    c.prove('start probability of the state whose mean comes there', z3.And(s.dims[0] == n, s.f(i) == pi.f(o(i))))
    c.prove('covariance of the state whose mean comes there', z3.And(cv.dims[0] == n, cv.f(i) == co.f(o(i))))
    c.prove('transitions between the states whose means come there',
            z3.And(*([x == n for x in t.dims] + [t.f(i, j) == tr.f(o(i), o(j))])))


def sub(cls, n, at, tag):
    l = cls()
    l.base, l.tag, l.token = (n, at), tag, ('sym', id(at), tag)
    return l


class Lists(VList):
    """a list of lists that can be passed as *args"""

    def __iter__(self):
        return iter([StarArgs(self)])

    def __len__(self):
        raise TypeError('symbolic length')


class Choice(VSeq):
    """one element of itertools.product(*lists)"""
    tag = 'choice'

    def __init__(self, prod, i):
        self.prod, self.i = prod, i


@unit('fh.means', [FX + 'compute_means_fhmm'], weak=True)
def fh_means(c, E):
    """the mean of a joint state is the sum of its chains' means, at the position of the joint state"""
    M = E.load('nilmtk.disaggregate.fhmm_exact')
    ch = Chains(c, 1)
    lists = sub(Lists, ch.M, A_memo(lambda m: Vec(ch.K(m), lambda i: ch.v(m, i), m)), 'chains')
    sums = c.fresh_fun('sums', I, R)
    q = ch.q[0](ch.M)
    tot = ch.N(ch.M)
    c.assume(ch.inside(ch.M))               # lemma fh.position, by induction over the chains

    def product(*a):
        if len(a) != 1 or not isinstance(a[0], StarArgs) or a[0].seq is not lists:
            raise Unsupported('product')
        used('itertools.product')
        return VList.symbolic(tot, A_memo(lambda i: Choice(lists, i)), 'product')

    def total(x, start=0):
        if not isinstance(x, Choice):
            raise Unsupported('sum of %s' % type(x).__name__)
        # the choice at position q(M) is (d(0), .., d(M-1)): its sum is S(M)
        c.assume(z3.Implies(x.i == q, sums(x.i) == ch.S(ch.M)))
        return VNum(sums(x.i)) + start
    M.itertools = ShimModule('itertools', product=product)
    M.sum = total

    class Tall(object):
        _vc_track = False

        def __init__(self, l, n):
            self.l, self.n = l, n

    class Ident(object):
        _vc_track = False

        def __rmul__(self, o):
            return self if isinstance(o, (int, float)) and o > 0 else NotImplemented
        __mul__ = __rmul__

    def array(l, dtype=None):
        if not isinstance(l, VList):
            raise Unsupported('array')
        return l

    def reshape(a, shape):
        if not isinstance(a, VList) or not isinstance(shape, tuple) or len(shape) != 2 or shape[1] != 1:
            raise Unsupported('reshape')
        used('np.reshape')
        c.prove('as many rows as elements', fn(shape[0]) == a.seq()[0])
        return Tall(a, fn(shape[0]))

    def tile(a, reps):
        if not isinstance(a, Ident) or not isinstance(reps, tuple) or len(reps) != 3 or reps[1:] != (1, 1):
            raise Unsupported('tile')
        return Tall(a, fn(reps[0]))
    M.np = ShimModule('numpy', array=array, reshape=reshape, tile=tile, identity=lambda n: Ident())
    r = M.compute_means_fhmm(lists)
    r = list(concrete_items(r)) if isinstance(r, VList) else list(r)
    c.prove('means and covariances', len(r) == 2)
    mu, cov = r
    if not isinstance(mu, Tall) or not isinstance(cov, Tall):
        raise Unsupported('results')
    c.prove('one mean and one covariance per joint state', z3.And(mu.n == tot, cov.n == tot))
    n, at = mu.l.seq()
    c.prove('the mean is the sum of the contributions', to_real(lift(at(q))) == ch.S(ch.M))


class Coll(VList):
    """a dict of models by name, iterated by name"""

    def __getitem__(self, k):
        if not isinstance(k, Name):
            raise Unsupported('models[%s]' % type(k).__name__)
        return self.get_model(k)


@unit('fh.combined', [FX + 'create_combined_hmm'], weak=True)
def fh_combined(c, E):
    """the combined model holds what the chains of all appliances combine to, in one order of the appliances"""
    M = E.load('nilmtk.disaggregate.fhmm_exact')
    n = c.fresh('appliances', I)
    c.assume(n >= 1)

    class Tok(object):
        _vc_track = False

        def __init__(self, what, i):
            self.what, self.i = what, i

        def flatten(self):
            return self if self.what == 'means' else self.bad()
        ravel = flatten

        def tolist(self):
            return self

        def bad(self):
            raise Unsupported('flatten')

    class Model(object):
        _vc_track = False

        def __init__(self, i):
            self.startprob_, self.transmat_, self.means_ = Tok('start', i), Tok('trans', i), Tok('means', i)
            self.covars_ = Tok('covars', i)
    models = A_memo(lambda i: Model(i))
    names = sub(Coll, n, A_memo(lambda i: Name(i)), 'model')
    names.get_model = lambda k: models(k.e)
    j = c.fresh('j', I)
    c.assume(z3.And(0 <= j, j < n))

    class Comb(object):
        _vc_track = False

        def __init__(self, what):
            self.what = what
            self.n = c.fresh('joint', I)

        def vlen(self):
            return mknum(self.n)
    made = {}

    def comb(what, src):
        def f(l):
            if not isinstance(l, VList):
                raise Unsupported('list of models')
            k, at = l.seq()
            x = at(j)
            c.prove('%s: every appliance once, in order' % what,
                    z3.And(k == n, isinstance(x, Tok) and x.what == src and x.i == j))
            made.setdefault(what, Comb(what))
            return made[what]
        return f
    for w, a, b in (('pi', 'compute_pi_fhmm', 'start'), ('A', 'compute_A_fhmm', 'trans')):
        setattr(M, a, comb(w, b))
    mean = comb('mean', 'means')

    def means(l):
        r = mean(l)
        made['cov'] = Comb('cov')
        for x in made.values():
            c.assume(x.n == made['mean'].n)     # contracts of fh.pi, fh.A, fh.means: N(M) each
        return VList([r, made['cov']])
    M.compute_means_fhmm = means

    class HMM(object):
        def __init__(self, n_components=1, covariance_type='diag', **k):
            if k:
                raise Unsupported('GaussianHMM options')
            self.n_components, self.covariance_type = n_components, covariance_type
    M.hmm = ShimModule('hmm', GaussianHMM=HMM)
    r = M.create_combined_hmm(names)
    if not isinstance(r, HMM):
        raise Unsupported('result')
    c.prove('one component per joint state', fn(r.n_components) == made['pi'].n)
    c.prove('full covariances', r.covariance_type == 'full')
    for a, w in (('startprob_', 'pi'), ('transmat_', 'A'), ('means_', 'mean'), ('covars_', 'cov')):
        c.prove('%s is the combined one' % a, getattr(r, a, None) is made.get(w))


@unit('fh.digit', [FX + 'decode_hmm'], title='lemma: quotient and remainder of a mixed-radix number')
def fh_digit(c, E):
    """s = (q K + d) f + t and s = (z K + r) f + u with t, u < f and d, r < K agree"""
    s, q, d, t, z, r, u, f, K = [c.fresh(x, I) for x in 'sqdtzrufK']
    c.assume(z3.And(f >= 1, K >= 1, 0 <= t, t < f, 0 <= u, u < f, 0 <= d, d < K, 0 <= r, r < K))
    y, w = c.fresh('y', I), c.fresh('w', I)
    c.assume(z3.And(y == z * K + r, w == q * K + d, s == w * f + t, s == y * f + u))
    D = c.fresh('D', I)
    c.assume(D == y - w)
    c.prove('difference of the quotients', D * f == t - u)
    c.prove('not above', z3.Implies(D >= 1, D * f >= f))
    c.prove('not below', z3.Implies(-D >= 1, (-D) * f >= f))
    # the three facts above, without the products
    p = c.fresh('p', I)
    c.prove('equal quotients', z3.Implies(z3.And(p == t - u, z3.Implies(D >= 1, p >= f), z3.Implies(D <= -1, -p >= f)), D == 0))
    F = c.fresh('F', I)
    c.prove('equal digits', z3.Implies(z3.And(F == z - q, F * K == d - r, z3.Implies(F >= 1, F * K >= K),
                                              z3.Implies(F <= -1, F * K <= -K)), r == d))


@unit('fh.rest', [FX + 'decode_hmm'], title='lemma: the first digit and the rest of a mixed-radix number')
def fh_rest(c, E):
    """0 <= t < K f, t = d f + u, 0 <= u < f give 0 <= d < K; s = q K f + t gives s = (q K + d) f + u"""
    s, q, d, t, u, f, K, G = [c.fresh(x, I) for x in 'sqdtufKG']
    c.assume(z3.And(f >= 1, K >= 1, G == K * f, 0 <= t, t < G, t == d * f + u, 0 <= u, u < f, s == q * G + t))
    c.prove('not negative', z3.Implies(d <= -1, d * f <= -f))
    c.prove('a state of the chain', z3.Implies(d >= K, (d - K) * f >= 0))
    p = c.fresh('p', I)
    c.prove('inside', z3.Implies(z3.And(p == d * f, z3.Implies(d <= -1, p <= -f), z3.Implies(d >= K, p >= G)),
                                 z3.And(0 <= d, d < K)))
    c.prove('recomposed', s == (q * K + d) * f + u)


class Key(Name):
    """an appliance name used as a dict key"""

    def __hash__(self):
        return 11


class Quot(object):
    """int(state) / factor"""
    _vc_track = False

    def __init__(self, c, s, f, floor):
        self.c, self.s, self.f, self.floor = c, s, f, floor
        c.prove('the factor is positive', f >= 1)
        self.y, self.u = c.fresh('quot', I), c.fresh('rem', I)
        c.assume(z3.And(s == self.y * f + self.u, 0 <= self.u, self.u < f))

    def __mod__(self, K):
        c, K = self.c, fn(K)
        used('float.int')
        c.prove('the number of states is positive', K >= 1)
        z, r = c.fresh('z', I), c.fresh('digit', I)
        c.assume(z3.And(self.y == z * K + r, 0 <= r, r < K))
        d = Digit(r)
        d.frac, d.parts = not self.floor, (self.s, z, r, self.u, self.f, K)
        self.c.digits.append(d)
        return d

    def __trunc__(self):
        return VNum(self.y)

    def __getattr__(self, a):
        raise Unsupported('quotient.%s' % a)


class Digit(VNum):
    frac = False

    def __trunc__(self):
        d = Digit(self.e)
        d.parts = self.parts
        return d
    __int__ = __trunc__


class StateNum(VNum):
    def __trunc__(self):
        return self

    def __truediv__(self, f):
        return Quot(core.ctx(), self.e, fn(f), False)

    def __floordiv__(self, f):
        return Quot(core.ctx(), self.e, fn(f), True)


class Family(object):
    """one array per appliance"""
    _vc_track = True

    def __init__(self, c, chains, length, integer):
        self.c, self.integer, self.version = c, integer, 0
        self.dims = (chains, length)
        self.base, self.sets = None, []
        self.m = None

    def havoc(self):
        self.version += 1
        self.base, self.sets = self.c.fresh_fun('family', I, I, I if self.integer else R), []

    def ev(self, m, i):
        r = self.base(m, i) if self.base is not None else (z3.IntVal(0) if self.integer else z3.RealVal(0))
        for x, y, v in self.sets:
            r = z3.If(z3.And(x == m, y == i), v, r)
        return r

    def row(self, m):
        return FamilyRow(self, m)


class FamilyRow(object):
    _vc_track = False

    def __init__(self, fam, m):
        self.fam, self.m = fam, m

    def idx(self, i):
        e = fn(i)
        self.fam.c.prove('the sample is inside the array', z3.And(0 <= e, e < self.fam.dims[1]))
        return e

    def __setitem__(self, i, v):
        e, f = self.idx(i), self.fam
        if isinstance(v, Quot):
            raise Unsupported('quotient stored')
        x = lift(v)
        if f.integer:
            if x.sort() != I:
                raise Unsupported('a number with a fraction is stored in an integer array')
        else:
            if getattr(v, 'frac', False):
                raise Unsupported('a digit with a fraction')
            x = to_real(x)
        f.version += 1
        f.sets = f.sets + [(self.m, e, x)]

    def __getitem__(self, i):
        return VNum(self.fam.ev(self.m, self.idx(i)))

    def vlen(self):
        return mknum(self.fam.dims[1])


class AnyKey(object):
    """stands for every appliance; a lookup remembers which one was asked for"""

    def __init__(self):
        self.asked = None

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if not isinstance(o, Key):
            return False
        self.asked = o.e
        return True


class Filled(dict):
    pass


@unit('fh.decode', [FX + 'decode_hmm'], weak=True, budget=90)
def fh_decode(c, E):
    """every appliance gets the state it contributes to the joint state, and the power of that state"""
    M = E.load('nilmtk.disaggregate.fhmm_exact')
    c.digits = []
    n, L = c.fresh('appliances', I), c.fresh('length', I)
    c.assume(z3.And(n >= 1, L >= 0))
    K, F, N = c.fresh_fun('K', I, I), c.fresh_fun('F', I, I), c.fresh_fun('Npre', I, I)
    cent = c.fresh_fun('centroid', I, I, R)
    s = c.fresh_fun('state', I, I)
    m0, i0 = c.fresh('m0', I), c.fresh('i0', I)
    c.assume(z3.And(0 <= m0, m0 < n, 0 <= i0, i0 < L))
    t, d, q = c.fresh_fun('t', I, I), c.fresh_fun('d', I, I), c.fresh_fun('q', I, I)
    s0 = s(i0)
    # F(m) joint states of the appliances m, m + 1, ..;  t(m) the rest of the joint state at them
    c.assume(z3.And(F(n) == 1, N(0) == 1, t(0) == s0, q(0) == 0, 0 <= s0, s0 < F(0)))

    def unfold(m):
        c.assume(z3.And(K(m) >= 1, F(m + 1) >= 1, F(m) == K(m) * F(m + 1), N(m + 1) == N(m) * K(m),
                        t(m) == d(m) * F(m + 1) + t(m + 1), 0 <= t(m + 1), t(m + 1) < F(m + 1),
                        q(m + 1) == q(m) * K(m) + d(m)))
        # lemma fh.rest at m
        c.assume(z3.Implies(rest(m), z3.And(0 <= d(m), d(m) < K(m), rest(m + 1))))

    def rest(m):
        return z3.And(s0 == q(m) * F(m) + t(m), 0 <= t(m), t(m) < F(m))
    unfold(z3.IntVal(0))

    class Cent(object):
        _vc_track = False

        def __getitem__(self, a):
            if not isinstance(a, Key):
                raise Unsupported('centroids[%s]' % type(a).__name__)
            return In(c, 'centroids', [K(a.e)], lambda i: cent(a.e, i))

    class States(object):
        _vc_track = False

        def __getitem__(self, i):
            e = fn(i)
            c.prove('the sample is inside the states', z3.And(0 <= e, e < L))
            return StateNum(s(e))

        def vlen(self):
            return mknum(L)

    class Zeros(object):
        _vc_track = False

        def __init__(self, n, integer):
            self.n, self.integer = n, integer

    def zeros(shape, dtype=None):
        used('np.zeros')
        if dtype is not None and dtype not in ('i8', 'f8'):
            raise Unsupported('dtype')
        return Zeros(fn(shape), dtype == 'i8')
    M.np = ShimModule('numpy', zeros=zeros, int64='i8', float64='f8')
    persist = c.run.persist.setdefault(('fh.decode', 'dicts'), {})
    made = []

    class Flat(Plain):
        """loops over the appliances before any sample: products of sizes, arrays per appliance"""

        def havoc(self, loop, env, names):
            self.ds = one_dict(env)
            return {}

        def allow_mutation(self, loop):
            return self.ds

        def inv(self, loop):
            out = []
            for nme in loop.names:
                v = loop.env.get(nme)
                if isinstance(v, VNum) and not isinstance(v, Name) and v.is_int or type(v) is int:
                    out += [('product of the sizes so far', lift(v) == N(loop.k)),
                            ('joint states of the others', N(loop.k) * F(loop.k) == F(0))]
            return out

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k
            unfold(loop.k)
            self.before = [(d, set(map(id, d))) for d in self.ds]

        def at_end(self, loop):
            for x, (dd, b) in enumerate(self.before):
                new = [(k, dd[k]) for k in dd if id(k) not in b]
                if not new:
                    continue
                c.prove('one array per appliance', len(new) == 1)
                k, v = new[0]
                c.prove('under its name', isinstance(k, Key) and z3.eq(z3.simplify(k.e), z3.simplify(self.k0)))
                if not isinstance(v, Zeros):
                    raise Unsupported('array')
                c.prove('as long as the sequence', v.n == L)
                if persist.setdefault((loop.id, x), v.integer) != v.integer:
                    raise Unsupported('different arrays')

        def on_exit(self, loop):
            for x, dd in enumerate(self.ds):
                if (loop.id, x) in persist and not dd:
                    fam = Family(c, n, L, persist[(loop.id, x)])
                    wrap(dd, fam)

    def wrap(dd, fam):
        key = AnyKey()

        class View(object):
            _vc_track = False

            def __setitem__(self, i, v):
                fam.row(key.asked)[i] = v

            def __getitem__(self, i):
                return fam.row(key.asked)[i]

            def vlen(self):
                return mknum(L)
        fam.dd = dd
        dd[key] = View()
        made.append(fam)

    def done(k, at):
        out = []
        for f in made:
            v = f.ev(m0, i0)
            if f.integer:
                out.append(('states', z3.Implies(at, z3.And(v == d(m0), 0 <= v, v < K(m0)))))
            else:
                out.append(('powers', z3.Implies(at, v == cent(m0, d(m0)))))
        return out
    cur = {}

    class Samples(Plain):
        def match(self, loop):
            return bool(made) and loop.kind == 'for' and 'k' not in cur

        def havoc(self, loop, env, names):
            for f in made:
                f.havoc()
            return {}

        def allow_mutation(self, loop):
            return list(made)

        def inv(self, loop):
            return done(loop.k, loop.k > i0)

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            cur['k'] = loop.k

        def on_exit(self, loop):
            Plain.on_exit(self, loop)
            cur.pop('k', None)

    class Apps(Plain):
        def match(self, loop):
            return loop.kind == 'for' and 'k' in cur

        def havoc(self, loop, env, names):
            for f in made:
                f.havoc()
            return {}

        def allow_mutation(self, loop):
            return list(made)

        def inv(self, loop):
            k = loop.k
            out = [('the rest of the joint state', rest(k))]
            for nme in loop.names:
                v = loop.env.get(nme)
                if isinstance(v, VNum) and not isinstance(v, (Name, Digit)) and v.is_int and loop.state == 'start' or \
                        isinstance(v, VNum) and nme in getattr(self, 'facs', ()):
                    self.facs = getattr(self, 'facs', set()) | {nme}
                    out.append(('joint states of the appliances to come', lift(v) == F(k)))
            return out + done(k, z3.Or(cur['k'] > i0, z3.And(cur['k'] == i0, k > m0)))

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k
            unfold(loop.k)
            c.digits[:] = []

        def at_end(self, loop):
            m = self.k0
            for g in c.digits:      # lemma fh.digit
                ss, z, r, u, f, kk = g.parts
                c.assume(z3.Implies(z3.And(ss == s0, f == F(m + 1), kk == K(m), s0 == (q(m) * K(m) + d(m)) * F(m + 1) + t(m + 1),
                                           0 <= t(m + 1), t(m + 1) < f, 0 <= d(m), d(m) < kk), r == d(m)))
            c.assume(z3.Implies(rest(m), s0 == (q(m) * K(m) + d(m)) * F(m + 1) + t(m + 1)))      # lemma fh.rest

        def on_exit(self, loop):
            Plain.on_exit(self, loop)
            c.prove('the joint state is the position of these states', s0 == q(n))

    E.loop_specs += [Apps('appliances', None), Samples('samples', None), Flat('flat', lambda lp: lp.kind == 'for' and not made)]
    apps = VList.symbolic(n, A_memo(lambda m: Key(m)), 'appliances')
    r = M.decode_hmm(VNum(L), Cent(), apps, States())
    r = list(concrete_items(r)) if isinstance(r, VList) else list(r)
    c.prove('states and powers', len(r) == 2)
    st, pw = [next((f for f in made if f.dd is x), None) for x in r]
    if st is None or pw is None:
        raise Unsupported('results')
    c.prove('states are integers', st.integer)
    v = st.ev(m0, i0)
    c.prove('the appliance gets the state it contributes', z3.And(v == d(m0), 0 <= v, v < K(m0)))
    c.prove('and its power in that state', to_real(pw.ev(m0, i0)) == cent(m0, d(m0)))


# ---------------------------------------------------------------- the disaggregator

class Fill2(object):
    """an OrderedDict the code fills: appliance -> value"""
    _vc_track = True

    def __init__(self):
        self.version, self.base, self.new = 0, None, []
        OD_MADE.append(self)

    def havoc(self, n, key, at):
        self.version += 1
        self.base, self.new = (n, key, at), []

    def __setitem__(self, k, v):
        if not isinstance(k, Key):
            raise Unsupported('key %s' % type(k).__name__)
        self.version += 1
        for x in self.new:
            if z3.eq(z3.simplify(x[0].e), z3.simplify(k.e)):
                x[1] = v
                return
        self.new.append([k, v])

    def __getitem__(self, k):
        if not isinstance(k, Key):
            raise Unsupported('key %s' % type(k).__name__)
        for x in self.new:
            if z3.eq(z3.simplify(x[0].e), z3.simplify(k.e)):
                return x[1]
        if self.new or self.base is None:
            raise Unsupported('lookup in a dict that is being filled')
        return self.base[2](k.e)

    def whole(self):
        if self.new or self.base is None:
            raise Unsupported('iteration over a dict that is being filled')
        return self.base

    def keys(self):
        n, key, at = self.whole()
        return VList.symbolic(n, key, 'keys')

    def items(self):
        n, key, at = self.whole()
        return VList.symbolic(n, lambda j: (key(j), at(key(j).e)), 'items')

    def __iter__(self):
        raise Unsupported('iteration')


OD_MADE = []


class Walk(Fill2, VSeq):
    """an OrderedDict that loops can walk over"""
    tag = 'OrderedDict'

    def seq(self):
        n, key, at = self.whole()
        return n, key


def last_dicts(loop, env):
    return [v for _, v in sorted(env.items()) if isinstance(v, Fill2)]


@unit('fh.chunk', [FX + 'FHMMExact.disaggregate_chunk'], weak=True, budget=60)
def fh_chunk(c, E):
    """the prediction of a chunk is the decoding of the joint states predicted for it, with the rounded means as powers"""
    M = E.load('nilmtk.disaggregate.fhmm_exact')
    OD_MADE[:] = []
    n = c.fresh('appliances', I)
    c.assume(n >= 1)

    class Values(object):
        _vc_track = False

        def __init__(self, ch):
            self.ch = ch

        def reshape(self, *shape):
            shape = shape[0] if len(shape) == 1 else shape
            if not isinstance(shape, tuple) or len(shape) != 2 or not (shape[1] == 1):
                raise Unsupported('reshape')
            return self

    class Chunk(object):
        _vc_track = False

        def __init__(self, j):
            self.j = j
            self.n = c.fresh('rows', I)
            c.assume(self.n >= 0)
            self.values = Values(self)
            self.index = Index(self)

        def vlen(self):
            return mknum(self.n)

    class Index(object):
        _vc_track = False

        def __init__(self, ch):
            self.ch = ch

        def vlen(self):
            return mknum(self.ch.n)

    class Joint(object):
        """joint states predicted for a chunk"""
        _vc_track = False

        def __init__(self, ch):
            self.ch = ch

        def vlen(self):
            return mknum(self.ch.n)

    class Combined(object):
        _vc_track = False

        def predict(self, x):
            if not isinstance(x, Values):
                raise Unsupported('predict of %s' % type(x).__name__)
            return Joint(x.ch)

    class Mn(object):
        """means of an appliance; ascending (contract of fh.sort), so sorting them changes nothing"""
        _vc_track = False

        def __init__(self, m, rounded=False, integer=False):
            self.m, self.r, self.i = m, rounded, integer

        def round(self, *a):
            if a:
                raise Unsupported('round')
            return Mn(self.m, True, self.i)

        def astype(self, t):
            return Mn(self.m, self.r, True)

        def flatten(self):
            return Mn(self.m, self.r, self.i)
        tolist = ravel = flatten

        def sort(self, *a, **k):
            if a or k:
                raise Unsupported('sort')

    class Model(object):
        _vc_track = False

        def __init__(self, m):
            self.means_ = Mn(m)
    models = A_memo(lambda m: Model(m))
    o = M.FHMMExact.__new__(M.FHMMExact)
    o.individual = Walk()
    o.individual.base = (n, A_memo(lambda m: Key(m)), models)
    OD_MADE[:] = []
    o.model = Combined()
    o.app_names = 'names'
    M.OrderedDict = Walk
    cur = {}
    cents = A_memo(lambda m: Mn(m, True, True))

    def decode(length, centroids, appliances, states):
        if not isinstance(centroids, Fill2) or not isinstance(states, Joint):
            raise Unsupported('decode')
        k, at = appliances.seq() if isinstance(appliances, VSeq) else (None, None)
        if k is None:
            raise Unsupported('appliances')
        c.prove('every sample is decoded', fn(length) == states.ch.n)
        j = c.fresh('j', I)
        c.assume(z3.And(0 <= j, j < n))
        a = at(j)
        c.prove('for every appliance of the model, in its order', z3.And(k == n, isinstance(a, Key) and a.e == j))
        v = centroids[Key(j)]
        c.prove('with its rounded means as powers', isinstance(v, Mn) and v.r and v.i and z3.eq(z3.simplify(v.m), j))
        return VList([('states', states.ch), ('power', states.ch)])
    M.decode_hmm = decode
    made = []

    class Out(object):
        _vc_track = False

        def __init__(self, data, kw):
            self.data, self.kw = data, kw

    def frame(data=None, **kw):
        if set(kw) - {'dtype', 'index', 'columns'}:
            raise Unsupported('DataFrame options')
        made.append(Out(data, kw))
        return made[-1]
    M.pd = ShimModule('pandas', DataFrame=frame)

    class MeanLoop(Plain):
        def havoc(self, loop, env, names):
            self.ds = [x for x in last_dicts(loop, env) if x is not o.individual]
            for x in self.ds:
                x.havoc(n, A_memo(lambda m: Key(m)), cents)
            return {}

        def allow_mutation(self, loop):
            return self.ds

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k

        def at_end(self, loop):
            for x in self.ds:
                c.prove('one list of means per appliance', len(x.new) == 1)
                k, v = x.new[0]
                c.prove('under its name', z3.eq(z3.simplify(k.e), z3.simplify(self.k0)))
                c.prove('its means, rounded to whole numbers', isinstance(v, Mn) and v.r and v.i and
                        z3.eq(z3.simplify(v.m), z3.simplify(self.k0)))

    def deliver(sp, last):
        ch = sp.item
        c.prove('the prediction of the chunk is delivered', isinstance(last, Out) and last is made[-1])
        if last.data is None:
            c.prove('only an empty chunk has an empty prediction', ch.n == 0)
            return
        d = last.data
        c.prove('it holds the powers decoded for the chunk',
                isinstance(d, tuple) and len(d) == 2 and d[0] == 'power' and d[1] is ch)
        ix = last.kw.get('index')
        c.prove('and its rows', ix is None or isinstance(ix, Index) and ix.ch is ch)

    class Chunks(Acc):
        def on_item(self, loop, item):
            Acc.on_item(self, loop, item)
            made[:] = []

        def on_exit(self, loop):
            cur['lists'] = [l for _, l in self.lists]
    nch = c.fresh('nchunks', I)
    c.assume(nch >= 0)
    mains = VList.symbolic(nch, A_memo(lambda i: Chunk(i)), 'mains')
    E.loop_specs += [Chunks(c, 'chunks', lambda lp: getattr(lp.it, 'tag', '') == 'mains', lambda i: Out(None, {}), deliver),
                     MeanLoop('means', lambda lp: getattr(lp.it, 'tag', '') in ('items', 'keys', 'OrderedDict'))]
    r = o.disaggregate_chunk(mains)
    c.prove('the predictions are returned', isinstance(r, VList) and any(r is l for l in cur.get('lists', [])))
    c.prove('one prediction per chunk', r.seq()[0] == nch)


@unit('fh.fit', [FX + 'FHMMExact.partial_fit'], weak=True, budget=60)
def fh_fit(c, E):
    """the model of each appliance is what was learnt from its own data, sorted; the joint model combines them"""
    M = E.load('nilmtk.disaggregate.fhmm_exact')
    OD_MADE[:] = []

    class Data(object):
        """the readings of appliance i"""
        _vc_track = False

        def __init__(self, i):
            self.i = i
            self.shape = ('rows', 1)
            self.ndim = 2
            self.n = rows(i)

        def dropna(self):
            return self

        @property
        def values(self):
            return self

        def reshape(self, *a):
            return self

        def vlen(self):
            return mknum(self.n)

    nrows = c.fresh_fun('rows', I, I)

    def rows(i):
        if i is None:
            return z3.IntVal(1)
        c.assume(nrows(i) >= 0)
        return nrows(i)

    class Parts(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

    def concat(l, axis=0, **k):
        if axis != 0 or k or not isinstance(l, Parts):
            raise Unsupported('concat')
        return Data(l.i)
    M.pd = ShimModule('pandas', concat=concat)
    n = c.fresh('napp', I)
    c.assume(n >= 1)
    train = VList.symbolic(n, A_memo(lambda i: (Key(i), Parts(i))), 'train')
    o = M.FHMMExact.__new__(M.FHMMExact)
    o.num_of_states = VNum(c.fresh('states', I))
    o.app_names = VList([])
    o.model = {}
    M.OrderedDict = Walk

    class Par(object):
        _vc_track = False

        def __init__(self, what, i, done=False):
            self.what, self.i, self.sorted = what, i, done
            self.size = mknum(c.fresh('size', I))

    class HMM(object):
        _vc_track = False

        def __init__(self, n_components=1, covariance_type='diag', **k):
            if k:
                raise Unsupported('GaussianHMM options')
            self.covariance_type = covariance_type
            self.n_components, self.i = n_components, None

        def fit(self, X):
            if not isinstance(X, Data):
                raise Unsupported('fit of %s' % type(X).__name__)
            learn(self, X.i)
            return self

    def learn(h, i):
        h.i = i
        h.startprob_, h.means_, h.covars_, h.transmat_ = [Par(w, i) for w in ('start', 'means', 'covars', 'trans')]
        return h

    def learnt(i):
        return learn(HMM(1, 'full'), i)

    def sorted_model(i):
        h = HMM(1, 'full')
        h.i = i
        h.startprob_, h.means_, h.covars_, h.transmat_ = [Par(w, i, True) for w in ('start', 'means', 'covars', 'trans')]
        return h
    M.hmm = ShimModule('hmm', GaussianHMM=HMM)
    M.cluster = lambda *a, **k: Data(None)

    def sort_params(s, m, cv, t):
        for x, w in ((s, 'start'), (m, 'means'), (cv, 'covars'), (t, 'trans')):
            c.prove('the %s parameters are passed as such' % w, isinstance(x, Par) and x.what == w and not x.sorted)
        c.prove('all of one appliance', z3.And(*[s.i == x.i for x in (m, cv, t)]))
        return VList([Par(w, s.i, True) for w in ('start', 'means', 'covars', 'trans')])     # contract of fh.sort
    M.sort_learnt_parameters = sort_params
    joint = {}

    def combine(models):
        if not isinstance(models, Fill2):
            raise Unsupported('combine')
        joint['of'] = models
        joint['model'] = object()
        return joint['model']
    M.create_combined_hmm = combine

    def same(a, b):
        return z3.eq(z3.simplify(a), z3.simplify(b))

    def tmp_check(sp, x):
        if isinstance(x, Key):
            c.prove('the name is listed', same(x.e, sp.k0))
            return
        c.prove('the data of each appliance stay with its name',
                isinstance(x, tuple) and isinstance(x[0], Key) and isinstance(x[1], Data) and
                same(x[0].e, sp.k0) and same(x[1].i, sp.k0))

    class Gather(Acc):
        def havoc(self, loop, env, names):
            env['app_names!'] = o.app_names
            r = Acc.havoc(self, loop, env, names)
            env.pop('app_names!')
            k = c.fresh('len', I)
            c.assume(k >= 0)
            l = o.app_names
            l.version += 1
            l.base, l.tail, l.tag = (k, A_memo(lambda i: Key(i))), [], 'names'
            return r

        def allow_mutation(self, loop):
            return Acc.allow_mutation(self, loop) + [o.app_names]

    kept = c.fresh_fun('kept', I, I)        # appliances with samples, in order
    nk = c.fresh('nkept', I)
    c.assume(nk >= 0)

    def kkey(j):
        c.assume(z3.Implies(z3.And(0 <= j, j < nk), z3.And(0 <= kept(j), kept(j) < n)))
        return Key(kept(j))
    kkey = A_memo(kkey)

    class Learn(Plain):
        def havoc(self, loop, env, names):
            self.ds = last_dicts(loop, env)
            for x in self.ds:
                x.havoc(nk, kkey, A_memo(learnt))
            self.x0 = getattr(o, 'X', None)
            o.X = None
            return {}

        def allow_mutation(self, loop):
            return self.ds + [o]

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k

        def at_end(self, loop):
            for x in self.ds:
                if not x.new:
                    c.prove('only an appliance without samples is left out', nrows(self.k0) == 0)
                    continue
                c.prove('one model per appliance', len(x.new) == 1)
                k, v = x.new[0]
                c.prove('under its name', same(k.e, self.k0))
                c.prove('learnt from its own data', isinstance(v, HMM) and v.i is not None and same(v.i, self.k0))

        def on_exit(self, loop):
            Plain.on_exit(self, loop)

    class Sort(Plain):
        def havoc(self, loop, env, names):
            self.ds = [x for x in last_dicts(loop, env) if x is not loop.it]
            for x in self.ds:
                x.havoc(nk, kkey, A_memo(sorted_model))
            l = o.meters
            l.version += 1
            k = c.fresh('len', I)
            c.assume(k >= 0)
            l.base, l.tail, l.tag = (k, kkey), [], 'meters'
            return {}

        def allow_mutation(self, loop):
            return self.ds + [o.meters]

        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            self.k0 = loop.k

        def at_end(self, loop):
            c.prove('a dict of sorted models', len(self.ds) >= 1)
            for x in self.ds:
                c.prove('one model per appliance', len(x.new) == 1)
                k, h = x.new[0]
                i = kept(self.k0)
                c.prove('under its name', same(k.e, i))
                c.prove('with full covariances', isinstance(h, HMM) and h.covariance_type == 'full')
                for a, w in (('startprob_', 'start'), ('means_', 'means'), ('covars_', 'covars'), ('transmat_', 'trans')):
                    p = getattr(h, a, None)
                    c.prove('%s sorted, of this appliance' % a, isinstance(p, Par) and p.what == w and p.sorted and same(p.i, i))
    E.loop_specs += [Gather(c, 'tmp', lambda lp: getattr(lp.it, 'tag', '') == 'train',
                            lambda i: (Key(i), Data(i)), tmp_check),
                     Learn('learn', lambda lp: getattr(lp.it, 'tag', '').startswith('tmp!')),
                     Sort('sort', lambda lp: isinstance(lp.it, Walk))]
    o.partial_fit(Parts(None), train)
    c.prove('the sorted models are kept', 'of' in joint and o.individual is joint['of'])
    c.prove('the joint model combines them', o.model is joint['model'])
    k, key, at = o.individual.whole()
    j = c.fresh('j', I)
    h = at(kkey(j).e)
    c.prove('one model per appliance with samples', k == nk)
    c.prove('they are sorted', h.startprob_.sorted and h.means_.sorted and h.covars_.sorted and h.transmat_.sorted)
