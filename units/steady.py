"""Contracts of steady-state detection (C20)."""
import z3
from vc import core, arrays as A
from vc.core import VNum, VBool, VTimestamp, Unsupported, PathEnd, lift, mknum, mkbool, zb, to_real
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, VSeq, SymIter, concrete_items
from vc.unit import unit
from units.stats import Times

SS = 'nilmtk/feature_detectors/steady_states.py:'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

note('itertuples', 'DataFrame.itertuples() yields one tuple per row: the index value, then the columns')


def ab(x):
    return z3.If(x >= 0, x, -x)


def por(l):
    return z3.Or(*l) if len(l) > 1 else l[0]


class Signal(object):
    """a power signal and what the property says about it, as functions of the number of rows seen:
    jump(i)   row i differs from the row before it (zero before the first) by more than the threshold
    S(k)      first row of the run that row k - 1 belongs to
    M(k)      mean of the rows S(k) .. k - 1
    W(k)      where the change into that run began
    L(k)      mean of the last steady run that ended before row k
    E(k)      edges reported for the rows before k"""

    def __init__(self, c, dims, size):
        self.c, self.dims, self.size = c, dims, size
        self.T = Times(c, 't', size, strict=True)
        self.n = self.T.n
        c.assume(self.n >= 1)
        self.x = [c.fresh_fun('x%d' % d, I, R) for d in range(dims)]
        self.thr, self.noise = c.real('thr'), c.real('noise')
        c.assume(z3.And(self.thr.e >= 0, self.noise.e >= 0))
        D = range(dims)
        self.S, self.W, self.E = c.fresh_fun('S', I, I), c.fresh_fun('W', I, I), c.fresh_fun('E', I, I)
        self.M = [c.fresh_fun('M%d' % d, I, R) for d in D]
        self.L = [c.fresh_fun('L%d' % d, I, R) for d in D]
        self.P = [c.fresh_fun('P%d' % d, I, R) for d in D]      # sums of the first k rows
        c.assume(z3.And(self.S(0) == 0, self.W(0) == 0, self.E(0) == 0,
                        *[z3.And(self.M[d](0) == 0, self.L[d](0) == 0, self.P[d](0) == 0) for d in D]))

    def prev(self, d, i):
        return z3.If(i == 0, z3.RealVal(0), self.x[d](i - 1))

    def jump(self, i):
        return por([ab(self.x[d](i) - self.prev(d, i)) > self.thr.e for d in range(self.dims)])

    def starts(self, i):
        """a change begins at row i"""
        return z3.And(self.jump(i), z3.Not(z3.And(i > 0, self.jump(i - 1))))

    def big(self, k):
        return por([ab(self.M[d](k) - self.L[d](k)) > self.noise.e for d in range(self.dims)])

    def ev(self, k):
        """an edge is reported when row k is reached"""
        return z3.And(self.starts(k), self.big(k))

    def unfold(self, k):
        """the definitions at k"""
        c, D = self.c, range(self.dims)
        j, s = self.jump(k), self.starts(k)
        nn = z3.ToReal(k - self.S(k))
        c.assume(z3.And(
            self.S(k + 1) == z3.If(j, k, self.S(k)), self.W(k + 1) == z3.If(s, k, self.W(k)),
            self.E(k + 1) == self.E(k) + z3.If(self.ev(k), 1, 0),
            *[z3.And(self.L[d](k + 1) == z3.If(s, self.M[d](k), self.L[d](k)),
                     self.P[d](k + 1) == self.P[d](k) + self.x[d](k)) for d in D]))
        # M(k + 1) is the number whose product with the length of the run is its sum (lemma mean)
        c.assume(z3.And(*[z3.If(j, self.M[d](k + 1) == self.x[d](k),
                                self.M[d](k + 1) * (nn + 1) == nn * self.M[d](k) + self.x[d](k)) for d in D]))

    def at(self, i):
        return self.T.at(i)

    def index(self):
        return self.T.index()

    def model_value(self, mv):
        n = mv(self.n)
        if n is None or not 1 <= n <= 40:
            return None
        return [[mv(self.T.f(z3.IntVal(i)))] + [mv(f(z3.IntVal(i))) for f in self.x] for i in range(n)]


class RowLabel(object):
    _vc_track = False

    def __init__(self, name):
        self.name = name


class Frame(object):
    """the input"""
    _vc_track = False

    def __init__(self, G):
        self.G = G
        self.columns = ['c%d' % d for d in range(G.dims)]
        self.iloc = self
        self.empty = False

    @property
    def index(self):
        return self.G.index()

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            return RowLabel(self.G.at(z3.IntVal(0)))
        raise Unsupported('frame[%r]' % (i,))

    def vlen(self):
        return mknum(self.G.n)

    def __len__(self):
        raise Unsupported('len')

    def itertuples(self, index=True, name='Pandas'):
        if index is not True:
            raise Unsupported('itertuples(index=)')
        used('itertuples')
        G = self.G
        row = lambda i: (G.at(i),) + tuple(VNum(f(i)) for f in G.x)
        if G.size is not None:
            return VList([row(z3.IntVal(i)) for i in range(G.size)])
        return SymIter(G.n, row, 'rows')


class Lst(object):
    """what the lists hold: one element per edge"""

    def __init__(self, G):
        self.G = G

    def time(self, r):
        return self.G.at(self.G.W(r))

    def mean(self, r):
        return A.Arr(None, items=[VNum(self.G.M[d](r)) for d in range(self.G.dims)])

    def diff(self, r):
        return A.Arr(None, items=[VNum(self.G.M[d](r) - self.G.L[d](r)) for d in range(self.G.dims)])


def role_of(nme):
    s = nme.lower()
    return 'time' if 'index' in s or 'time' in s else 'diff' if 'transition' in s else \
        'mean' if 'state' in s or 'steady' in s else None


def same(v, w):
    """v (from the code) equals w"""
    if isinstance(w, VTimestamp):
        return v.e == w.e if isinstance(v, VTimestamp) else z3.BoolVal(False)
    v = A.asarr(v)
    if v.items is None:
        raise Unsupported('vector of unknown length')
    if len(v.items) != len(w.items):
        return z3.BoolVal(False)
    return z3.And(*[to_real(lift(a)) == to_real(lift(b)) for a, b in zip(v.items, w.items)])


class Rows(LoopSpec):
    name = 'rows'

    def __init__(self, G):
        self.G, self.c, self.H = G, G.c, Lst(G)
        self.q0 = G.c.fresh('q0', I)
        G.c.assume(self.q0 >= 0)

    def match(self, loop):
        return loop.kind == 'for'

    def havoc(self, loop, env, names):
        c, G, k = self.c, self.G, loop.k
        self.r = c.fresh_fun('row', I, I)
        self.k, self.seen = k, []
        self.lists, self.bases = {}, {}
        for nme in sorted(loop.mutated()):
            l = env.get(nme)
            role = role_of(nme)
            if not isinstance(l, VList) or role is None:
                raise Unsupported('the loop changes %s' % nme)
            if l.base is not None or l.tail:
                raise Unsupported('%s is not empty before the loop' % nme)
            l.version += 1
            l.base, l.tail, l.tag = (G.E(k), self.elem(role)), [], role
            self.lists[nme] = l
            self.bases[nme] = l.base
        over = {}
        for nme in names:
            v = env.get(nme)
            if isinstance(v, (bool, VBool)):
                if 'ongoing' in nme:
                    over[nme] = mkbool(z3.And(k > 0, G.jump(k - 1)))
            elif isinstance(v, (int, VNum)):
                over[nme] = VNum(k - G.S(k))
            elif isinstance(v, VTimestamp):
                over[nme] = G.at(G.W(k))
            elif isinstance(v, (A.Arr, VList)) and nme not in self.lists:
                r = self.vec(nme, k)
                if r is not None:
                    over[nme] = r
        self.over = {n: v for n, v in over.items() if n in loop.names}
        return over

    def vec(self, nme, k):
        G = self.G
        s = nme.lower()
        f = (lambda d: G.L[d](k)) if 'last' in s else (lambda d: G.prev(d, k)) if 'prev' in s else \
            (lambda d: G.M[d](k)) if 'estim' in s or 'steady' in s else None
        return None if f is None else A.Arr(None, items=[VNum(f(d)) for d in range(G.dims)])

    def elem(self, role):
        return lambda q: getattr(self.H, role)(self.row(q))

    def row(self, q):
        """the row at which the q-th edge was reported, with what the invariant says about it"""
        c, G, k = self.c, self.G, self.k
        q = z3.simplify(q)
        r = self.r(q)
        if not any(q.eq(p) for p in self.seen):
            c.assume(z3.Implies(z3.And(0 <= q, q < G.E(k)), self.about(r, q, k)))
            for p in self.seen:
                for a, b in ((p, q), (q, p)):
                    c.assume(z3.Implies(z3.And(0 <= a, a < b, b < G.E(k)), G.W(self.r(a)) < G.W(self.r(b))))
            self.seen.append(q)
        return r

    def about(self, r, q, k):
        G = self.G
        return z3.And(0 < r, r < k, G.ev(r), G.E(r) == q, 0 <= G.W(r), G.W(r) < G.W(k))

    def allow_mutation(self, loop):
        return list(self.lists.values())

    def inv(self, loop):
        G, k = self.G, loop.k
        out = [('run bounds', z3.And(0 <= G.S(k), G.S(k) <= k, 0 <= G.W(k), G.W(k) <= G.S(k),
                                     z3.Implies(k > 0, z3.And(G.S(k) < k, G.W(k) < k)), G.E(k) >= 0,
                                     G.W(k) < G.n)),
               ('the mean is the sum of the run over its length', z3.And(*[
                   G.M[d](k) * z3.ToReal(k - G.S(k)) == G.P[d](k) - G.P[d](G.S(k)) for d in range(G.dims)]))]
        if loop.state == 'start':
            self.over = {} if not hasattr(self, 'over') else self.over
            return out
        # the locals
        for nme in sorted(self.over):
            v = loop.env.get(nme)
            if isinstance(v, (bool, VBool)):
                f = zb(v) == z3.And(k > 0, G.jump(k - 1))
            elif isinstance(v, (int, VNum)):
                f = to_real(lift(v)) == z3.ToReal(k - G.S(k))
            elif isinstance(v, VTimestamp):
                f = v.e == G.at(G.W(k)).e
            else:
                f = same(v, self.vec(nme, k))
            out.append(('%s has its meaning' % nme, f))
        return out

    def on_item(self, loop, item):
        self.G.unfold(loop.k)
        # row 0 is reached with no run before it: nothing is reported there
        for nme, v in self.over.items():
            e = loop.entry.get(nme)
            w = self.value(nme, z3.IntVal(0), e)
            self.c.prove('%s has its meaning on entry' % nme, w)

    def value(self, nme, k, v):
        G = self.G
        if isinstance(v, (bool, VBool)):
            return zb(v) == z3.BoolVal(False)
        if isinstance(v, (int, VNum)):
            return lift(v) == 0
        if isinstance(v, VTimestamp):
            return v.e == G.at(z3.IntVal(0)).e
        return same(v, A.Arr(None, items=[VNum(z3.RealVal(0))] * G.dims))

    def at_end(self, loop):
        c, G, k = self.c, self.G, loop.k
        q0 = self.q0
        for nme, l in self.lists.items():
            l2 = loop.env[nme]
            if l2 is not l or l.base is not self.bases[nme]:
                raise Unsupported('list rebuilt')
            tail = l.tail
            c.prove('%s: an edge is reported exactly when a change begins and the last steady power has moved by more '
                    'than the noise level' % nme, z3.IntVal(len(tail)) == z3.If(G.ev(k), 1, 0))
            for v in tail:
                c.prove('%s: the element reported is that of this edge' % nme, same(v, getattr(self.H, l.tag)(k)))
        # the edges stay in order of rows
        r = z3.If(q0 < G.E(k), self.row(q0), k)
        c.prove('every reported edge has its row', z3.Implies(q0 < G.E(k + 1), self.about(r, q0, k + 1)))


def detect(c, E, dims):
    M = E.load('nilmtk.feature_detectors.steady_states')
    G = Signal(c, dims, E.size)
    n = G.n
    c.inp('case', dict(rows=G, dims=dims, thr=G.thr, noise=G.noise, tz=None))
    made = []

    class Out(object):
        _vc_track = False

        def __init__(self, data=None, index=None, columns=None, **k):
            self.data, self.index, self.columns = data, index, columns
            made.append(self)
    M.pd = ShimModule('pandas', DataFrame=Out)
    spec = Rows(G)
    if E.size is None:
        E.loop_specs.append(spec)
    st, tr = M.find_steady_states(Frame(G), state_threshold=G.thr, noise_level=G.noise)
    if not (isinstance(st, Out) and isinstance(tr, Out)):
        raise Unsupported('result')
    H = Lst(G)
    if E.size is not None:
        for k in range(E.size):
            G.unfold(z3.IntVal(k))
        rows = [k for k in range(E.size) if c.branch(G.ev(z3.IntVal(k)))]
        if c.branch(G.big(n)):
            rows.append(E.size)
        rows = [z3.IntVal(r) for r in rows]
        if rows and c.branch(first_rise(G, rows[0])):
            rows = rows[1:]
        lens = [len(x.data) if x.data is not None else 0 for x in (st, tr)]
        c.prove('as many steady states and transitions as edges', lens == [len(rows)] * 2)
        if lens != [len(rows)] * 2 or not rows:
            return
        for x, role in ((st, 'mean'), (tr, 'diff')):
            for i, r in enumerate(rows):
                c.prove('edge: %s' % role, same(A_item(x.data, i), getattr(H, role)(r)))
                c.prove('edge: time', same(A_item(x.index, i), H.time(r)))
        return
    last = G.big(n)
    cnt = G.E(n) + z3.If(last, 1, 0)
    # the first edge, if any
    r0 = z3.If(G.E(n) > 0, spec.row(z3.IntVal(0)), n)
    drop = z3.And(cnt > 0, first_rise(G, r0))
    total = z3.If(drop, cnt - 1, cnt)
    if st.data is None or tr.data is None:
        c.prove('empty only when there is no edge', z3.And(total == 0, st.data is None, tr.data is None))
        return
    f = c.fresh('f', I)
    for x, role in ((st, 'mean'), (tr, 'diff')):
        if not isinstance(x.data, VList) or not isinstance(x.index, VList):
            raise Unsupported('data of the result')
        c.prove('one row per edge', z3.And(x.data.seq()[0] == total, x.index.seq()[0] == total))
    c.assume(z3.And(0 <= f, f < total))
    if not c.feasible():
        return
    q = z3.If(drop, f + 1, f)
    r = z3.If(q < G.E(n), spec.row(q), n)
    for x, role in ((st, 'mean'), (tr, 'diff')):
        c.prove('each edge has its %s' % role, same(x.data.seq()[1](f), getattr(H, role)(r)))
        c.prove('each edge has its time', same(x.index.seq()[1](f), H.time(r)))
    g = c.fresh('g', I)
    c.assume(z3.And(f < g, g < total))
    if c.feasible():
        p = z3.If(drop, g + 1, g)
        c.prove('edges are in time order', G.T.u(G.W(r)) < G.T.u(G.W(z3.If(p < G.E(n), spec.row(p), n))))


def first_rise(G, r):
    return z3.And(G.W(r) == 0, por([G.M[d](r) > G.noise.e for d in range(G.dims)]))


def A_item(l, i):
    return concrete_items(l)[i] if isinstance(l, VSeq) else l[i]


@unit('ss.find1', [SS + 'find_steady_states'], sizes=[1, 2, 3], weak=True, budget=120)
def ss_find1(c, E):
    """the edges reported are exactly those of the signal (one power)"""
    detect(c, E, 1)


@unit('ss.find2', [SS + 'find_steady_states'], sizes=[1, 2], weak=True, budget=150)
def ss_find2(c, E):
    """the edges reported are exactly those of the signal (active and reactive power)"""
    detect(c, E, 2)
