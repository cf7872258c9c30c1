"""Contracts of the pairing of edges (C19)."""
import z3
from vc import core, arrays as A
from vc.core import VNum, VBool, Unsupported, PathEnd, lift, mknum, mkbool, zb, to_real
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList, VSeq, SymIter, SymRange, concrete_items
from vc.unit import unit
from units.stores import Plain

HT = 'nilmtk/disaggregate/hart_85.py:'
PB = HT + 'PairBuffer.'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

note('deque', 'a deque of edges: indexing, iteration, len, append (dropping the oldest when full), popleft and '
             'rotate behave as documented; entries are [time, power..., matched] lists')


def ab(x):
    return z3.If(x >= 0, x, -x)


class Heap(object):
    """the edges: immutable times and powers, and the marker of each"""
    _vc_track = True

    def __init__(self, c, dims):
        self.c, self.dims = c, dims
        self.t = c.fresh_fun('t', I, R)
        self.p = [c.fresh_fun('p%d' % k, I, R) for k in range(dims)]
        self.f0 = c.fresh_fun('marked', I, B)
        self.flag = lambda i: self.f0(i)
        self.version = 0

    def set(self, i, v):
        old, self.version = self.flag, self.version + 1
        v = zb(v)
        self.flag = lambda q: z3.If(q == i, v, old(q))


class Row(VList):
    """a list made of fields of edges"""


class Entry(VSeq):
    """[time, power..., matched] of edge number id"""
    _vc_track = False
    tag = 'edge'

    def __init__(self, h, id):
        self.h, self.id = h, id

    def field(self, k):
        h = self.h
        if k == 0:
            return VNum(h.t(self.id))
        if 1 <= k <= h.dims:
            return VNum(h.p[k - 1](self.id))
        if k == h.dims + 1:
            return mkbool(h.flag(self.id))
        raise IndexError('list index out of range')

    def __len__(self):
        return self.h.dims + 2

    def seq(self):
        return VList([self.field(k) for k in range(len(self))]).seq()

    def vlen(self):
        return len(self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return VList([self.field(i) for i in range(*k.indices(len(self)))])
        if isinstance(k, VNum):
            k = k.__index__()
        return self.field(k + len(self) if k < 0 else k)

    def __setitem__(self, k, v):
        if isinstance(k, int) and (k + len(self) if k < 0 else k) == self.h.dims + 1:
            self.h.set(self.id, v)
            return
        raise Unsupported('an edge is changed')

    def __iter__(self):
        return iter([self.field(k) for k in range(len(self))])


class Buf(VSeq):
    """the deque: n edges, the i-th is edge number at(i)"""
    _vc_track = True
    tag = 'buffer'

    def __init__(self, c, h, n, at=None, maxlen=None):
        self.c, self.h, self.n, self.at, self.maxlen = c, h, n, at or (lambda i: i), maxlen
        self.version = 0

    def seq(self):
        at = self.at
        return self.n, (lambda i: Entry(self.h, z3.simplify(at(i))))

    def vlen(self):
        return mknum(self.n)

    def __len__(self):
        n = z3.simplify(self.n)
        if z3.is_int_value(n):
            return n.as_long()
        raise Unsupported('len of a buffer of any size')

    def __bool__(self):
        return self.c.branch(self.n > 0)

    def __getitem__(self, i):
        e = lift(i)
        if e is None or not z3.is_int(e):
            raise Unsupported('buffer[%r]' % (i,))
        if self.c.branch(e < 0):
            e = e + self.n
        if not self.c.branch(z3.And(0 <= e, e < self.n)):
            raise IndexError('deque index out of range')
        return Entry(self.h, z3.simplify(self.at(e)))

    def __iter__(self):
        n = z3.simplify(self.n)
        if not z3.is_int_value(n):
            raise Unsupported('iteration over a buffer of any size')
        return iter([Entry(self.h, z3.simplify(self.at(z3.IntVal(i)))) for i in range(n.as_long())])

    def put(self, n, at):
        self.version += 1
        self.n, self.at = z3.simplify(n), at

    def rotate(self, k=1):
        used('deque')
        k = lift(k)
        n, at = self.n, self.at
        if not self.c.branch(z3.And(-n <= k, k <= n)):
            raise Unsupported('rotation by more than the length')

        def f(i):
            j = i - k
            return at(z3.If(j < 0, j + n, z3.If(j >= n, j - n, j)))
        self.put(n, f)

    def popleft(self):
        used('deque')
        if not self.c.branch(self.n > 0):
            raise IndexError('pop from an empty deque')
        n, at = self.n, self.at
        e = Entry(self.h, z3.simplify(at(z3.IntVal(0))))
        self.put(n - 1, lambda i: at(i + 1))
        return e

    def pop(self):
        used('deque')
        if not self.c.branch(self.n > 0):
            raise IndexError('pop from an empty deque')
        n, at = self.n, self.at
        e = Entry(self.h, z3.simplify(at(n - 1)))
        self.put(n - 1, at)
        return e

    def append(self, row):
        used('deque')
        c, h = self.c, self.h
        row = list(row)
        if len(row) != h.dims + 2:
            raise Unsupported('an entry of %d fields' % len(row))
        new = c.fresh('new', I)
        c.assume(z3.And(new < 0, h.t(new) == to_real(lift(row[0])),
                        *[h.p[k](new) == to_real(lift(row[k + 1])) for k in range(h.dims)]))
        h.set(new, row[-1])
        n, at = self.n, self.at
        full = self.maxlen is not None and c.branch(n >= self.maxlen)
        if full:
            self.put(n, lambda i: z3.If(i == n - 1, new, at(i + 1)))
        else:
            self.put(n + 1, lambda i: z3.If(i == n, new, at(i)))

    def model_value(self, mv):
        n = mv(self.n)
        if not isinstance(n, int) or not 0 <= n <= 30:
            return None
        out = []
        for i in range(n):
            e = Entry(self.h, self.at(z3.IntVal(i)))
            f0 = mv(self.h.f0(e.id))
            out.append([k + 1 if False else mv(x) for k, x in enumerate(list(e)[:-1])] + [f0])
            out[-1][0] = i + 1
        return out


class Pairs(object):
    """what is known about the list of new pairs and the markers, for fixed but arbitrary positions"""

    def __init__(self, c, h, n, par):
        self.c, self.h, self.n, self.par = c, h, n, par
        self.i, self.j = c.fresh('i0', I), c.fresh('j0', I)
        self.k, self.l = c.fresh('k0', I), c.fresh('k1', I)
        c.assume(z3.And(0 <= self.i, self.i < self.j, self.j < n, 0 <= self.k, self.k < self.l))
        self.w = z3.IntVal(0)       # where edge i is in the list of pairs
        self.len0 = z3.IntVal(0)
        self.before = h.flag

    def tol(self, x, y):
        m = z3.If(ab(x) >= ab(y), ab(x), ab(y))
        return z3.If(m < self.par['large'].e, self.par['min_tol'].e, self.par['percent'].e * m)

    def match(self, x, y):
        P = self.h.p
        return z3.And(P[0](x) > 0, *[ab(p(x) + p(y)) < self.tol(p(x), p(y)) for p in P])

    def free(self, x, y):
        """nothing is left to match for positions x, y"""
        F = self.h.flag
        return z3.Or(F(x), F(y), z3.Not(self.match(x, y)))

    def parse(self, row):
        """(first edge, second edge) of a pair"""
        if isinstance(row, RowOf):
            return row.a, row.b
        row = list(row)
        nm = self.h.dims + 1
        if len(row) != 2 * nm:
            raise Unsupported('a pair of %d values' % len(row))
        ids = []
        for x in (row[0], row[nm]):
            e = x.e if isinstance(x, VNum) else None
            if e is None or not (z3.is_app(e) and e.decl().eq(self.h.t)):
                raise Unsupported('a pair not made of edges')
            ids.append(e.arg(0))
        for q, i in enumerate(ids):
            for d in range(self.h.dims):
                self.c.prove('a pair holds the powers of its two edges',
                             to_real(lift(row[q * nm + 1 + d])) == self.h.p[d](i))
        return ids

    def facts(self, l):
        """facts of the list of pairs l (a VList)"""
        n, at = l.seq()
        F, G = self.h.flag, self.before
        w = z3.If(self.before_iter(self.i), self.w, self.len0)
        out = []

        def elem(q):
            e = at_if(self.c, l, q, self.parse)
            return e
        for k in (self.k, self.l):
            a, b = elem(k)
            out.append(('each pair is an earlier positive edge and a later one that cancels it, unmatched before',
                        z3.Implies(k < n, z3.And(0 <= a, a < b, b < self.n, z3.Not(G(a)), z3.Not(G(b)),
                                                 F(a), F(b), self.match(a, b)))))
        a, b = elem(self.k)
        x, y = elem(self.l)
        out.append(('no edge is in two pairs', z3.Implies(self.l < n, z3.And(a != x, a != y, b != x, b != y))))
        a, b = elem(w)
        out.append(('every marked edge is in a pair', z3.Implies(z3.And(F(self.i), z3.Not(G(self.i))),
                                                                 z3.And(0 <= w, w < n, z3.Or(a == self.i, b == self.i)))))
        out.append(('a mark is never removed', z3.Implies(G(self.i), F(self.i))))
        return out

    def before_iter(self, i):
        return self.iter0(i)


class RowOf(VList):
    """the pair of edges a, b"""

    def __init__(self, h, a, b):
        nm = h.dims + 1
        VList.__init__(self, list(Entry(h, a))[:nm] + list(Entry(h, b))[:nm])
        self.a, self.b = a, b


def at_if(c, l, q, parse):
    """(a, b) of the q-th pair as terms"""
    if l.base is None:
        r = (z3.IntVal(-1), z3.IntVal(-1))
        for m, row in reversed(list(enumerate(l.tail))):
            a, b = parse(row)
            r = (z3.If(q == m, a, r[0]), z3.If(q == m, b, r[1]))
        return r
    n, at = l.base
    a, b = l.fa(q), l.fb(q)
    for m, row in enumerate(l.tail):
        x, y = parse(row)
        a, b = z3.If(q == n + m, x, a), z3.If(q == n + m, y, b)
    return a, b


class PairLoop(LoopSpec):
    """both loops over the buffer: what was found so far is right, and complete up to here"""

    def __init__(self, name, match, P, upto):
        self.name, self._m, self.P, self.upto = name, match, P, upto

    def match(self, loop):
        return self._m(self, loop)

    def lists(self, loop):
        return [loop.env[n] for n in sorted(loop.mutated()) if isinstance(loop.env.get(n), VList)]

    def havoc(self, loop, env, names):
        c, P, h = self.P.c, self.P, self.P.h
        loop.touched = []
        for nme in sorted(loop.mutated()):
            l = env.get(nme)
            if not isinstance(l, VList):
                raise Unsupported('the loop changes %s' % nme)
            n = c.fresh('pairs', I)
            c.assume(n >= 0)
            fa, fb = c.fresh_fun('first', I, I), c.fresh_fun('second', I, I)
            l.version += 1
            l.base, l.tail, l.tag = (n, lambda q: RowOf(h, fa(q), fb(q))), [], 'pairs'
            l.fa, l.fb = fa, fb
            loop.touched.append(l)
        g = c.fresh_fun('marked', I, B)
        before = P.before
        h.version += 1
        h.flag = lambda i: z3.Or(before(i), g(i))
        P.w = c.fresh('where', I)
        over = {}
        for nme in names:
            v = env.get(nme)
            if isinstance(v, bool) or isinstance(v, VBool):
                continue
            if loop.kind == 'while' and isinstance(v, int):
                over[nme] = VNum(v + loop.k)
        loop.counters = {n: env[n] for n in over}
        return over

    def allow_mutation(self, loop):
        return loop.touched + [self.P.h]

    def inv(self, loop):
        P = self.P
        out = []
        ls = self.lists(loop)
        if not ls:
            # nothing found, nothing marked
            P.len0 = z3.IntVal(0)
            return [('complete up to here', self.upto(self, loop, z3.simplify(loop.k)))]
        if len(ls) > 1:
            raise Unsupported('two lists of pairs')
        l = ls[0]
        new = 1 if loop.state != 'start' else 0
        if not new:
            P.iter0, P.len0 = P.h.flag, l.seq()[0]
        out += P.facts(l)
        n = l.seq()[0]
        if not new:
            P.iter0, P.len0 = P.h.flag, n
        for nme in loop.names:
            v = loop.env.get(nme)
            if isinstance(v, (bool, VBool)) and isinstance(loop.entry.get(nme), (bool, VBool)):
                out.append(('%s says whether there are pairs' % nme, zb(v) == (n > 0)))
        for nme, v0 in getattr(loop, 'counters', {}).items():
            out.append(('%s counts the iterations' % nme, lift(loop.env[nme]) == v0 + loop.k))
        out.append(('nothing matchable is left up to here', self.upto(self, loop, z3.simplify(loop.k))))
        return out


def mk(c, E, dims):
    M = E.load('nilmtk.disaggregate.hart_85')
    par = dict(min_tol=c.real('min_tol'), percent=c.real('percent'), large=c.real('large'))
    c.assume(z3.And(*[v.e >= 0 for v in par.values()]))
    h = Heap(c, dims)
    n = c.fresh('n', I) if E.size is None else z3.IntVal(E.size)
    c.assume(n >= 0)
    buf = Buf(c, h, n)
    b = M.PairBuffer.__new__(M.PairBuffer)
    b._buffer_size, b._min_tol, b._percent_tol = 1000, par['min_tol'], par['percent']
    b._large_transition, b._num_measurements = par['large'], dims + 1
    b.transition_list = buf
    E.roots += [h, buf]
    c.inp('case', dict(par=dict(par, size=1000), dims=dims, edges=buf))
    return M, b, h, buf, par


class Frame(object):
    """the table of pairs: earlier ones, then new ones"""
    _vc_track = False

    def __init__(self, parts, columns=None):
        self.parts, self.columns = parts, columns

    @property
    def empty(self):
        return self.parts == []

    def __len__(self):
        raise Unsupported('len of the pairs')


def pairing(c, E, dims):
    M, b, h, buf, par = mk(c, E, dims)
    n = buf.n
    old = c.choose(2)
    b.pair_columns = ['c%d' % k for k in range(2 * dims + 2)]
    b.matched_pairs = Frame(['old'] if old else [], b.pair_columns)

    def frame(rows=None, columns=None, **k):
        if not isinstance(rows, VList) or k:
            raise Unsupported('DataFrame')
        return Frame([rows], columns)

    def concat(l, ignore_index=False, **k):
        if k or not all(isinstance(x, Frame) for x in l):
            raise Unsupported('concat')
        return Frame([y for x in l for y in x.parts], b.pair_columns)
    M.pd = ShimModule('pandas', DataFrame=frame, concat=concat)
    P = Pairs(c, h, n, par)
    P.iter0 = h.flag
    i0, j0 = P.i, P.j

    def outer(spec, loop, k):
        return z3.Implies(j0 - i0 < lift(loop.at(k)), P.free(i0, j0))

    def inner(spec, loop, k):
        e = P.dist
        return z3.Implies(z3.Or(j0 - i0 < e, z3.And(j0 - i0 == e, i0 < k)), P.free(i0, j0))

    def is_outer(spec, loop):
        if loop.kind != 'for' or spec.open or not isinstance(loop.it, VSeq):
            return False
        spec.open = True
        return True

    def is_inner(spec, loop):
        if not spec.outer.open or spec.open:
            return False
        if loop.kind == 'for' and not isinstance(loop.it, VSeq):
            return False
        P.dist = lift(spec.outer.item)
        spec.open = True
        return True
    so, si = PairLoop('distance', is_outer, P, outer), PairLoop('position', is_inner, P, inner)
    so.open = si.open = False
    si.outer = so

    def on_item(loop, item):
        so.item = item
        si.open = False
    so.on_item = on_item
    if E.size is None:
        E.loop_specs += [so, si]
    f0 = h.flag
    r = b.pair_transitions()
    c.prove('the buffer keeps its edges', z3.And(b.transition_list is buf, buf.n == n, buf.at(i0) == i0))
    fr = b.matched_pairs
    if not isinstance(fr, Frame):
        raise Unsupported('pairs')
    parts = fr.parts[1:] if old else fr.parts
    c.prove('earlier pairs are kept, before the new ones', not old or bool(fr.parts) and fr.parts[0] == 'old')
    if any(p == 'old' for p in parts) or len(parts) > 1:
        raise Unsupported('table of pairs')
    l = parts[0] if parts else VList()
    c.prove('the result says whether pairs were found', zb(r) == (l.seq()[0] > 0) if isinstance(r, (bool, VBool))
            else False, kind='weak')
    F = h.flag
    if E.size is None:
        P.before, P.iter0, P.len0 = f0, F, l.seq()[0]
        if l.base is None and not l.tail:
            P.w = z3.IntVal(0)
        for label, f in P.facts(l):
            c.prove(label, f)
        c.prove('no matchable pair remains', P.free(i0, j0))
        return
    prs = [P.parse(x) for x in l.tail]
    seen = []
    for a, z in prs:
        c.prove('each pair is an earlier positive edge and a later one that cancels it, unmatched before',
                z3.And(0 <= a, a < z, z < n, z3.Not(f0(a)), z3.Not(f0(z)), P.match(a, z)))
        c.prove('no edge is in two pairs', z3.And(*[z3.And(a != s, z != s) for s in seen]) if seen else True)
        seen += [a, z]
    for x in range(E.size):
        c.prove('an edge is marked exactly when it is in a pair',
                F(z3.IntVal(x)) == z3.Or(f0(z3.IntVal(x)), *[s == x for s in seen]))
        for y in range(x + 1, E.size):
            c.prove('no matchable pair remains', P.free(z3.IntVal(x), z3.IntVal(y)))


@unit('ht.pair1', [PB + 'pair_transitions'], sizes=[0, 1, 2, 3], weak=True, budget=120)
def ht_pair1(c, E):
    """pairing (active power): valid pairs, no edge twice, nothing matchable left"""
    pairing(c, E, 1)


@unit('ht.pair2', [PB + 'pair_transitions'], sizes=[2], weak=True, budget=150)
def ht_pair2(c, E):
    """pairing (active and reactive power)"""
    pairing(c, E, 2)


class Before(LoopSpec):
    """the entries seen so far carry no mark"""
    name = 'entries'

    def __init__(self, c, h, i0):
        self.c, self.h, self.i0 = c, h, i0

    def match(self, loop):
        return loop.kind == 'for'

    def inv(self, loop):
        return [('no marked entry so far', z3.Implies(z3.And(0 <= i, i < loop.k), z3.Not(self.h.flag(i))))
                for i in self.i0]


@unit('ht.clean', [PB + 'clean_buffer', HT + 'MyDeque.popmiddle'], sizes=[0, 1, 2, 3, 4], weak=True, budget=60)
def ht_clean(c, E):
    """cleaning removes exactly the matched edges and keeps the order of the others"""
    M, b, h, buf, par = mk(c, E, 1)
    n = buf.n
    i0, j0, j1 = c.fresh('i0', I), c.fresh('j0', I), c.fresh('j1', I)
    c.assume(z3.And(0 <= i0, i0 < n, 0 <= j0, j0 < j1))
    F = h.flag
    cand = [i0]
    pop = M.MyDeque.__dict__['popmiddle']
    Buf.popmiddle = lambda self, pos: pop(self, pos)
    if E.size is None:
        # the recursive call meets the contract being proved, on a shorter buffer
        def again():
            c.prove('the recursion works on a shorter buffer', z3.And(buf.n >= 0, buf.n < n))
            m, at = buf.n, buf.at
            k = c.fresh('left', I)
            pos, rank = c.fresh_fun('pos', I, I), c.fresh_fun('rank', I, I)
            c.assume(z3.And(0 <= k, k <= m))
            for j in (j0, j1):
                c.assume(z3.Implies(z3.And(0 <= j, j < k), z3.And(0 <= pos(j), pos(j) < m, z3.Not(F(at(pos(j)))))))
            c.assume(z3.Implies(j1 < k, pos(j0) < pos(j1)))
            for i in (i0, i0 - 1):
                c.assume(z3.Implies(z3.And(0 <= i, i < m, z3.Not(F(at(i)))),
                                    z3.And(0 <= rank(i), rank(i) < k, pos(rank(i)) == i)))
                cand.append(rank(i))
            buf.put(k, lambda j: at(pos(j)))
        b.clean_buffer = again
        E.loop_specs.append(Before(c, h, [i0, j0, j1]))
    M.PairBuffer.clean_buffer(b)
    if b.transition_list is not buf:
        raise Unsupported('another buffer')
    c.prove('no mark changes', h.flag(i0) == F(i0))
    m, at = buf.n, buf.at
    if E.size is None:
        for j in (j0, j1):
            c.prove('what is left was there and is not matched', z3.Implies(
                z3.And(0 <= j, j < m), z3.And(0 <= at(j), at(j) < n, z3.Not(F(at(j))))))
        c.prove('the order is kept', z3.Implies(j1 < m, at(j0) < at(j1)))
        c.prove('every edge that is not matched is kept', z3.Implies(
            z3.Not(F(i0)), z3.Or([z3.And(0 <= j, j < m, at(j) == i0) for j in cand])))
        return
    left = [i for i in range(E.size) if not c.branch(F(z3.IntVal(i)))]
    c.prove('exactly the matched edges leave, the order is kept', z3.And(
        m == len(left), *[at(z3.IntVal(j)) == i for j, i in enumerate(left)]))


@unit('ht.add', [PB + 'add_transition'], weak=True)
def ht_add(c, E):
    """adding an edge puts it, unmatched, at the end; a full buffer loses its oldest edge"""
    dims = 1 + c.choose(2)
    M, b, h, buf, par = mk(c, E, dims)
    n = buf.n
    c.assume(n >= 1)
    buf.maxlen = c.fresh('maxlen', I)
    c.assume(z3.And(buf.maxlen >= 1, n <= buf.maxlen))
    F = h.flag
    i0 = c.fresh('i0', I)
    c.assume(z3.And(0 <= i0, i0 < n))
    vals = [c.real('x%d' % k) for k in range(dims + 1)]
    tr = tuple(vals) if c.choose(2) else VList(vals)
    b.add_transition(tr)
    c.prove('the edge passed in is not changed', len(tr) == dims + 1)
    full = n == buf.maxlen
    m = z3.If(full, n, n + 1)
    c.prove('the buffer grows by one, up to its size', buf.n == m)
    last = Entry(h, buf.at(m - 1))
    c.prove('the edge is last and not matched', z3.And(
        h.t(last.id) == vals[0].e, z3.Not(h.flag(last.id)), *[h.p[k](last.id) == vals[k + 1].e for k in range(dims)]))
    q = z3.If(full, i0 - 1, i0)
    c.prove('the others keep their order and marks; a full buffer loses the oldest',
            z3.Implies(q >= 0, z3.And(buf.at(q) == i0, h.flag(i0) == F(i0))))


@unit('ht.feed', [HT + 'Hart85.pair'], weak=True)
def ht_feed(c, E):
    """every edge is added in order (matched ones cleaned away first when the buffer is full) and then paired"""
    M = E.load('nilmtk.disaggregate.hart_85')
    n = c.fresh('n', I)
    c.assume(n >= 0)
    dims = 1 + c.choose(2)
    size, mt, pt, lt = c.int('size'), c.real('min_tol'), c.real('percent'), c.real('large')
    c.assume(size.e >= 1)

    class Edge(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

    class Columns(object):
        _vc_track = False

        def __len__(self):
            return dims

    class Transients(object):
        _vc_track = False
        columns = Columns()

        def itertuples(self, index=True, name=None):
            if index is not True:
                raise Unsupported('itertuples without the times')
            return SymIter(n, Edge, 'edges')
    log = []

    class List(object):
        _vc_track = False

        def vlen(self):
            return mknum(c.fresh('len', I)) if log is None else cur[0]
    cur = [None]
    made = []

    class Fake(object):
        _vc_track = False

        def __init__(self, *a, **k):
            names = ['columns', 'buffer_size', 'min_tolerance', 'percent_tolerance', 'large_transition',
                     'num_measurements']
            k.update(zip(names, a))
            self.k = k
            made.append(self)
            self.transition_list = List()
            self.matched_pairs = 'the pairs'

        def clean_buffer(self):
            log.append(('clean',))

        def add_transition(self, e):
            log.append(('add', e))

        def pair_transitions(self):
            log.append(('pair',))
            return mkbool(c.fresh('found', B))
    M.PairBuffer = Fake
    o = M.Hart85.__new__(M.Hart85)
    o.columns = 'the columns'
    o.transients = Transients()

    class Feed(Plain):
        def on_item(self, loop, item):
            Plain.on_item(self, loop, item)
            del log[:]
            ln = c.int('len')
            c.assume(z3.And(0 <= ln.e, ln.e <= size.e))
            cur[0] = ln

        def at_end(self, loop):
            done = [x[0] for x in log]
            if not all(x in ('clean', 'add', 'pair') for x in done) or done[-1:] != ['pair'] or \
                    done.count('add') != 1 or 'pair' in done[:done.index('add')]:
                c.prove('each edge is added once and pairing is run after it', False)
                return
            e = [x[1] for x in log if x[0] == 'add'][0]
            c.prove('the edges are added in order', isinstance(e, Edge) and lift(mknum(e.i)) == loop.k0)
            if 'clean' not in done[:done.index('add')]:
                c.prove('a full buffer is cleaned before the next edge', cur[0].e < size.e)
    f = Feed('edges', lambda loop: loop.kind == 'for')
    _on = f.on_item

    def on(loop, item):
        loop.k0 = loop.k
        _on(loop, item)
    f.on_item = on
    E.loop_specs.append(f)
    r = o.pair(size, mt, pt, lt)
    c.prove('the pairs found are returned', r == 'the pairs' and len(made) == 1)
    k = made[0].k
    c.prove('the parameters are passed on', z3.And(
        k['columns'] == 'the columns', lift(k['buffer_size']) == size.e, lift(k['min_tolerance']) == mt.e,
        lift(k['percent_tolerance']) == pt.e, lift(k['large_transition']) == lt.e,
        lift(k['num_measurements']) == dims + 1))
