"""Contracts of the result tables (nilmtk/results.py and subclasses)."""
import z3
from vc import core, arrays as A, frames as F, tables as TB
from vc.core import (VNum, VNa, VBool, VTimestamp, VTimedelta, Unsupported, PathEnd, zb, lift, to_real,
                     mkbool, mknum)
from vc.loops import LoopSpec
from vc.seqs import VList
from vc.unit import unit
from units.tfcommon import *

RS = 'nilmtk/results.py:Results.'


def ov(s1, e1, s2, e2):
    """a positive-length span is common"""
    return z3.And(s1 < e2, s2 < e1)


def wf_rows(c, fs, fe, n, strict_disjoint=False):
    i = z3.Int('wfi')
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), fs(i) < fe(i))))


def table(c, E, name, size=None, cols=('active',), keyed=False):
    n = c.fresh(name + '_n', z3.IntSort()) if size is None else z3.IntVal(size)
    c.assume(n >= 0)
    fe = c.fresh_fun(name + '_end', z3.IntSort(), z3.RealSort())
    d = {'end': lambda k: VTimestamp(fe(k))}
    fv = {}
    for col in cols:
        f = c.fresh_fun('%s_%s' % (name, col), z3.IntSort(), z3.RealSort())
        fv[col] = f
        d[col] = (lambda f: lambda k: VNum(f(k)))(f)
    t = (TB.Keyed if keyed else TB.RTable)(c, name, n, d)
    t.fe, t.fv = fe, fv
    wf_rows(c, t.fs, fe, n)
    if not c.feasible():
        raise PathEnd()
    return t


class RowsDesc(object):
    """rows of a table for replay"""
    def __init__(self, t, cols, rate=False):
        self.t, self.cols, self.rate = t, cols, rate

    def model_value(self, mv):
        n = mv(self.t.n)
        if n is None or n > 6:
            return None
        out = []
        for i in range(n):
            zi = z3.IntVal(i)
            out.append([mv(self.t.fs(zi)), mv(self.t.fe(zi)),
                        {cc: mv(self.t.fv[cc](zi)) for cc in self.cols}])
        return out


class AppendLoop(LoopSpec):
    """rows before the current one do not overlap the new period"""
    name = 'append.rows'

    def __init__(self, t, s, e):
        self.t, self.s, self.e = t, s, e

    def match(self, loop):
        return getattr(loop.it, 'src', None) is self.t

    def inv(self, loop):
        j = z3.Int('apj')
        t = self.t
        return [('no earlier row overlaps', z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < loop.k), z3.Not(ov(t.fs(j), t.fe(j), self.s.e, self.e.e)))))]


def same_table(t, old):
    return t.cols is not None and t.fs is old.fs and not t.over and \
        all(t.cols.get(k) is v for k, v in old.cols.items()) and t.n is old.n


@unit('rs.append', [RS + 'append', 'nilmtk/stats/totalenergyresults.py:TotalEnergyResults.append'],
      weak=False)
def rs_append(c, E):
    """overlap -> ValueError and no change; else old rows plus the new one, sorted"""
    M = E.load('nilmtk.stats.totalenergyresults')
    TM = E.load('nilmtk.timeframe')
    E.models['pandas'].concat = TB.concat
    t = table(c, E, 'old')
    s, e = c.ts('s'), c.ts('e')
    c.assume(s < e)
    x = c.real('x')
    c.inp('case', dict(op='append', rows=RowsDesc(t, ['active']), new=[s, e, {'active': x}], tz=None))
    R = M.TotalEnergyResults()
    R._data = t
    E.loop_specs.append(AppendLoop(t, s, e))
    tf = TM.TimeFrame(s, e)
    res = {'active': x}
    if c.choose(2) == 1:
        res['reactive'] = c.real('y')
    keys = dict(res)
    try:
        R.append(tf, res)
    except ValueError:
        k = c.fresh('k', z3.IntSort())
        q = z3.Int('q')
        c.prove('ValueError only when a stored period overlaps',
                z3.Exists([q], z3.And(0 <= q, q < t.n, ov(t.fs(q), t.fe(q), s.e, e.e))))
        c.prove('a refused append changes nothing', R._data is t and not t.extra and not t.over and not t.others)
        return
    q = c.fresh('any', z3.IntSort())
    c.prove('no stored period overlaps the accepted one',
            z3.Implies(z3.And(0 <= q, q < t.n), z3.Not(ov(t.fs(q), t.fe(q), s.e, e.e))))
    d = R._data
    c.prove('the old rows are kept', isinstance(d, TB.RTable) and same_table(d, t) and not d.others, kind='weak')
    c.prove('exactly one row is added', len(d.extra) == 1, kind='weak')
    row = d.extra[0]
    c.prove('the new row has the period start as label', same(row['__label__'], s))
    c.prove('the new row has the period end', same(row.get('end'), e))
    c.prove('the new row has exactly the given values',
            z3.And(set(row) - {'__label__', 'end'} == set(keys),
                   *[same(row.get(k), v) for k, v in keys.items()]))
    c.prove('the table is sorted by start', d.is_sorted, kind='weak')
    c.prove('the period passed in is not changed', z3.And(same(tf.start, s), same(tf.end, e)))


@unit('rs.append_types', [RS + 'append', 'nilmtk/stats/totalenergyresults.py:TotalEnergyResults.append'])
def rs_append_types(c, E):
    """wrong argument types are refused with no change"""
    M = E.load('nilmtk.stats.totalenergyresults')
    TM = E.load('nilmtk.timeframe')
    RM = E.load('nilmtk.results')
    t = table(c, E, 'old')
    k = c.choose(3)
    tf = TM.TimeFrame(const_ts(0), const_ts(1))
    if k == 0:
        R = RM.Results()
        R._data = t
        bad, exc = (lambda: R.append('x', {})), TypeError
    elif k == 1:
        R = RM.Results()
        R._data = t
        bad, exc = (lambda: R.append(tf, [1])), TypeError
    else:
        R = M.TotalEnergyResults()
        R._data = t
        bad, exc = (lambda: R.append(tf, {'bogus': 1})), KeyError
    try:
        bad()
    except exc:
        pass
    else:
        c.prove('refused', False)
    c.prove('no change', R._data is t and not t.extra and not t.over and not t.others)


class OuterOv(LoopSpec):
    name = 'overlap.outer'

    def __init__(self, n, fs, fe):
        self.n, self.fs, self.fe = n, fs, fe

    def match(self, loop):
        if loop.kind != 'for' or getattr(loop.it, 'tag', '') != 'range':
            return False
        it = loop.it
        return z3.is_int_value(z3.simplify(it.start)) and z3.simplify(it.start).as_long() == 0

    def inv(self, loop):
        a, b = z3.Ints('oa ob')
        return [('rows before i overlap no later row', z3.ForAll([a, b], z3.Implies(
            z3.And(0 <= a, a < loop.k, a < b, b < self.n),
            z3.Not(ov(self.fs(a), self.fe(a), self.fs(b), self.fe(b))))))]


class InnerOv(LoopSpec):
    name = 'overlap.inner'

    def __init__(self, n, fs, fe):
        self.n, self.fs, self.fe = n, fs, fe

    def match(self, loop):
        return loop.kind == 'for' and getattr(loop.it, 'tag', '') == 'range'

    def inv(self, loop):
        st = loop.it.start
        b = z3.Int('ib')
        i = z3.simplify(st - 1)
        return [('row i overlaps no row before j', z3.ForAll([b], z3.Implies(
            z3.And(i < b, b < st + loop.k, b < self.n),
            z3.Not(ov(self.fs(i), self.fe(i), self.fs(b), self.fe(b))))))]


@unit('rs.check_overlap', [RS + 'check_for_overlap'])
def rs_check(c, E):
    """raises ValueError exactly when two stored periods overlap"""
    M = E.load('nilmtk.results')
    t = table(c, E, 'tab')
    R = M.Results()
    R._data = t
    c.inp('case', dict(op='update', rows=[], other=RowsDesc(t, ['active']), tz=None))
    E.loop_specs.append(OuterOv(t.n, t.fs, t.fe))
    E.loop_specs.append(InnerOv(t.n, t.fs, t.fe))
    try:
        R.check_for_overlap()
    except ValueError:
        a, b = z3.Ints('ea eb')
        c.prove('ValueError only when two periods overlap', z3.Exists([a, b], z3.And(
            0 <= a, a < b, b < t.n, ov(t.fs(a), t.fe(a), t.fs(b), t.fe(b)))))
        return
    a, b = c.fresh('a', z3.IntSort()), c.fresh('b', z3.IntSort())
    c.prove('accepted only when no two periods overlap',
            z3.Implies(z3.And(0 <= a, a < b, b < t.n), z3.Not(ov(t.fs(a), t.fe(a), t.fs(b), t.fe(b)))))
    c.prove('the table is not changed', R._data is t and not t.over and not t.extra)


@unit('rs.update', [RS + 'update'])
def rs_update(c, E):
    """the union of the rows, sorted, then checked for overlap"""
    M = E.load('nilmtk.results')
    E.models['pandas'].concat = TB.concat
    t, o = table(c, E, 'mine'), table(c, E, 'new')
    R, O = M.Results(), M.Results()
    R._data, O._data = t, o
    seen = []

    def contract():
        # callee contract (unit rs.check_overlap) on the table it is given
        seen.append(R._data)
        if c.choose(2) == 1:
            raise ValueError('Periods overlap')
    R.check_for_overlap = contract
    try:
        R.update(O)
        raised = False
    except ValueError:
        raised = True
    d = R._data
    if d is t:
        c.prove('nothing to add', o.n == 0)
        c.prove('unchanged', not t.extra and not t.others and not t.over)
        return
    c.prove('the union of both tables', isinstance(d, TB.RTable) and same_table(d, t) and d.others == [o]
            and not d.extra, kind='weak')
    c.prove('sorted by start', d.is_sorted, kind='weak')
    c.prove('the overlap check sees the final table', seen == [d], kind='weak')
    c.prove('the other table is not changed', not o.extra and not o.over and not o.others)


@unit('rs.update_type', [RS + 'update'])
def rs_update_type(c, E):
    """another class of results is refused"""
    M = E.load('nilmtk.results')
    M2 = E.load('nilmtk.stats.totalenergyresults')
    M3 = E.load('nilmtk.stats.dropoutrateresults')
    R = M2.TotalEnergyResults()
    t = R._data = table(c, E, 'mine')
    try:
        R.update(M3.DropoutRateResults())
    except TypeError:
        pass
    else:
        c.prove('TypeError', False)
    c.prove('unchanged', R._data is t and not t.extra and not t.others)


@unit('rs.combined', [RS + 'combined', RS + '_columns_with_end_removed'], weak=True)
def rs_combined(c, E):
    """the sum of every stored row, per column"""
    M = E.load('nilmtk.stats.totalenergyresults')
    cols = [['active'], ['active', 'reactive'], ['apparent', 'active', 'reactive']][c.choose(3)]
    t = table(c, E, 'tab', cols=cols)
    R = M.TotalEnergyResults()
    R._data = t
    c.inp('case', dict(op='combined', rows=RowsDesc(t, cols)))
    r = R.combined() if c.choose(2) else R.simple()
    c.prove('exactly the result columns', sorted(r.d) == sorted(cols))
    for k in cols:
        S = A.spec_sum(c, 'sum of ' + k, t.n, (lambda k: lambda i: VNum(t.fv[k](i)))(k))
        c.prove('sum of the stored rows', to_real(lift(r.d[k])) == S)


class UnifyCheck(LoopSpec):
    """base class check: all earlier rows exist in the other table with the same end"""
    name = 'unify.check'

    def __init__(self, t, o):
        self.t, self.o = t, o

    def match(self, loop):
        return getattr(loop.it, 'src', None) is self.t and loop.qual == 'Results.unify'

    def inv(self, loop):
        j = z3.Int('uj')
        t, o = self.t, self.o
        return [('earlier periods agree', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < loop.k), agree(t, o, j))))]


def agree(t, o, j):
    return z3.And(o.has(t.fs(j)), o.fe(o.row(t.fs(j))) == t.fe(j))


class UnifyAdd(LoopSpec):
    """rows before k are merged, the others untouched"""
    name = 'unify.merge'

    def __init__(self, t, o, merge):
        self.t, self.o, self.merge = t, o, merge
        self.old = dict(t.cols)

    def match(self, loop):
        return getattr(loop.it, 'src', None) is self.t and loop.qual != 'Results.unify'

    def allow_mutation(self, loop):
        return [self.t]

    def havoc(self, loop, env, names):
        # the cells as the invariant describes them
        k = loop.k
        self.t.over = []
        for col in list(self.t.cols):
            old = self.old[col]
            self.t.cols[col] = (lambda col, old: lambda j: A.ite(j < k, self.merge(col, j, old(j)), old(j)))(col, old)
        return {}

    def inv(self, loop):
        c = core.ctx()
        if not getattr(loop, 'state', '') == 'body':
            return []
        # after the arbitrary iteration: any row j
        j = c.fresh('uj', z3.IntSort())
        out = []
        for col in self.t.cols:
            new = self.t.cell(j, col)
            want = A.ite(j < loop.k, self.merge(col, j, self.old[col](j)), self.old[col](j))
            out.append(('column %s: merged before, untouched after' % col,
                        z3.Implies(z3.And(0 <= j, j < self.t.n), same(new, want))))
        return out

    def on_exit(self, loop):
        for col in list(self.t.cols):
            old = self.old[col]
            self.t.cols[col] = (lambda col, old: lambda j: self.merge(col, j, old(j)))(col, old)
        self.finished = True


def unify_body(c, E, R, cols, merge):
    t, o = R
    return t, o


def unique_labels(c, t):
    a, b = z3.Ints('la lb')
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < t.n, 0 <= b, b < t.n, t.fs(a) == t.fs(b)), a == b)))


def run_unify(c, E, cls, cols, merge):
    t = table(c, E, 'mine', cols=cols)
    o = table(c, E, 'other', cols=cols, keyed=True)
    unique_labels(c, t)
    c.assume(t.n >= 0)
    R, O = cls(), cls()
    R._data, O._data = t, o
    op = 'unify'
    c.inp('case', dict(op=op, rows=RowsDesc(t, cols), other=RowsDesc(o, cols)))
    chk = UnifyCheck(t, o)
    add = UnifyAdd(t, o, lambda col, j, v: merge(col, v, lambda cc: VNum(o.fv[cc](o.row(t.fs(j))))))
    E.loop_specs.extend([chk, add])
    try:
        R.unify(O)
    except RuntimeError:
        j = z3.Int('bad')
        c.prove('RuntimeError only when some period is missing or differs',
                z3.Exists([j], z3.And(0 <= j, j < t.n, z3.Not(agree(t, o, j)))))
        c.prove('a refused merge changes nothing', not t.over and t.cols == add.old)
        return
    j = c.fresh('row', z3.IntSort())
    c.assume(z3.And(0 <= j, j < t.n))
    if not c.feasible():
        raise PathEnd()
    c.prove('merged only when every period agrees', agree(t, o, j))
    c.prove('every row is merged', R._data is t and getattr(add, 'finished', False) and not t.over, kind='weak')
    c.prove('the other table is not changed', not o.over and not o.extra)


@unit('rs.unify_energy', [RS + 'unify', 'nilmtk/stats/totalenergyresults.py:TotalEnergyResults.unify'])
def rs_unify_energy(c, E):
    """same periods required; energies added period by period"""
    M = E.load('nilmtk.stats.totalenergyresults')
    cols = [['active'], ['active', 'reactive']][c.choose(2)]
    run_unify(c, E, M.TotalEnergyResults, cols,
              lambda col, v, other: v if col == 'end' else v + other(col))


@unit('rs.unify_dropout', [RS + 'unify', 'nilmtk/stats/dropoutrateresults.py:DropoutRateResults.unify'])
def rs_unify_dropout(c, E):
    """rates averaged, sample counts added, period by period"""
    M = E.load('nilmtk.stats.dropoutrateresults')

    def merge(col, v, other):
        if col == 'dropout_rate':
            return (v + other(col)) / 2
        if col == 'n_samples':
            return v + other(col)
        return v
    run_unify(c, E, M.DropoutRateResults, ['dropout_rate', 'n_samples'], merge)


# ------------------------------------------------------------------ good sections
GR = 'nilmtk/stats/goodsectionsresults.py:GoodSectionsResults.'


class GSTable(object):
    """rows of good sections as get_good_sections produces them for consecutive
    chunks: row k has n(k) >= 1 sections; its first start is open iff the last
    end of row k-1 is open, and then the rows' periods abut.

    P(k) = number of sections begun before row k, Q(k) = number ended before
    row k; S(j) / E(j) = the j-th start / end of all rows taken together."""

    def __init__(self, c, E, size=None):
        I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        self.c, self.E = c, E
        self.cnt = c.fresh_fun('cnt', I, I)
        self.opn = c.fresh_fun('opn', I, B)          # row k starts inside a section
        self.P = c.fresh_fun('begun', I, I)
        self.Q = c.fresh_fun('ended', I, I)
        self.S = c.fresh_fun('S', I, R)
        self.Ee = c.fresh_fun('E', I, R)
        self.memo = {}
        self.GM = E.load('nilmtk.timeframegroup')
        self.TM = E.load('nilmtk.timeframe')
        self.n = c.fresh('rows', I) if size is None else z3.IntVal(size)
        c.assume(self.n >= 0)
        c.assume(z3.And(self.P(0) == 0, self.Q(0) == 0, z3.Not(self.opn(0)), z3.Not(self.opn(self.n))))
        fe = self.fe = c.fresh_fun('end', I, R)
        self.size = size
        self.t = TB.RTable(c, 'gs', self.n, {'end': lambda k: VTimestamp(fe(k)), 'sections': self.cell})
        self.fs = self.t.fs

    def i(self, b):
        return z3.If(b, 1, 0)

    def row_facts(self, k):
        c = self.c
        k = z3.simplify(k)
        o, o1 = self.opn(k), self.opn(z3.simplify(k + 1))
        c.assume(z3.Implies(z3.And(0 <= k, k < self.n), z3.And(
            self.cnt(k) >= 1,
            self.P(k + 1) == self.P(k) + self.cnt(k) - self.i(o),
            self.Q(k + 1) == self.Q(k) + self.cnt(k) - self.i(o1),
            self.fs(k) < self.fe(k))))
        c.assume(z3.Implies(z3.And(0 <= k, k <= self.n), z3.And(
            self.P(k) >= 0, self.Q(k) >= 0, self.P(k) == self.Q(k) + self.i(o))))
        c.assume(z3.Implies(z3.And(0 < k, k < self.n), z3.And(
            self.fe(k - 1) <= self.fs(k), z3.Implies(o, self.fe(k - 1) == self.fs(k)))))

    def frame(self, j, closed):
        """the j-th section of the answer"""
        c = self.c
        c.assume(self.S(j) < self.Ee(j))
        return self.TM.TimeFrame(VTimestamp(self.S(j)), VTimestamp(self.Ee(j)) if closed else None)

    def section(self, k, i):
        c = self.c
        st = None if c.branch(z3.And(i == 0, self.opn(k))) else \
            VTimestamp(self.S(z3.simplify(self.P(k) + i - self.i(self.opn(k)))))
        en = None if c.branch(z3.And(i == self.cnt(k) - 1, self.opn(z3.simplify(k + 1)))) else \
            VTimestamp(self.Ee(z3.simplify(self.Q(k) + i)))
        for b in (st, en):
            if b is not None:
                j = b.e.arg(0)
                c.assume(self.S(j) < self.Ee(j))
        if st is not None and en is not None:
            c.assume(st.e < en.e)
        return self.TM.TimeFrame(st, en)

    def cell(self, k):
        k = z3.simplify(k)
        for kk, g in self.memo.items():
            if kk == k.get_id():
                return g[0]
        self.row_facts(k)
        g = self.GM.TimeFrameGroup()
        if self.size is not None:
            m = 1 + self.c.choose(2)
            self.c.assume(self.cnt(k) == m)
            if not self.c.feasible():
                raise PathEnd()
            g.tail = [self.section(k, z3.IntVal(i)) for i in range(m)]
            objs = [(z3.IntVal(i), o) for i, o in enumerate(g.tail)]
        else:
            at = VLmemo(lambda i: self.section(k, i))
            g.base = (self.cnt(k), at)
            g.token = ('sym', id(at), 'sections')
            g.tag = 'sections'
            objs = at.memo
        self.memo[k.get_id()] = (g, g.version, objs, k)
        return g

    def stored_unchanged(self, label):
        c = self.c
        for g, ver, objs, k in list(self.memo.values()):
            c.prove('%s: the stored list keeps its sections' % label, g.version == ver)
            for i, o in list(objs):
                w = self.section(k, i)
                c.prove('%s: the stored sections keep their bounds' % label,
                        z3.And(same(o.start, w.start), same(o.end, w.end)))


from vc.seqs import MemoAt as VLmemo


class CombineRows(LoopSpec):
    """after k rows: every section begun so far, the last one open iff row k
    continues it"""
    name = 'combined.rows'

    def __init__(self, G):
        self.G = G

    def match(self, loop):
        return getattr(loop.it, 'src', None) is self.G.t

    def content(self, k):
        G, c = self.G, core.ctx()
        G.row_facts(k)

        def at(j):
            return G.frame(j, closed=c.branch(j < G.Q(k)))
        return VLmemo(at)

    def havoc(self, loop, env, names):
        G, c, k = self.G, core.ctx(), loop.k
        over = {}
        self.lists = []
        for nme in set(names) | set(loop.mutated()):
            v = env.get(nme)
            if isinstance(v, VList):
                l = v
                l.version += 1
                l.base = (G.P(k), self.content(k))
                l.tail = []
                l.token = ('combined', 'k')
                self.lists.append(l)
                over[nme] = l
            elif nme in env and env[nme] is None:
                over[nme] = None if c.branch(k == 0) else VTimestamp(G.fe(z3.simplify(k - 1)))
        return over

    def allow_mutation(self, loop):
        return self.lists

    def inv(self, loop):
        if loop.state != 'body':
            if loop.state == 'start' and z3.is_int_value(loop.k):
                return [('nothing yet', z3.BoolVal(all(not v.tail and v.base is None for v in loop.env.values()
                                                       if isinstance(v, VList))))]
            return []
        return []

    def at_end(self, loop):
        G, c = self.G, core.ctx()
        k1 = z3.simplify(loop.k + 1)
        G.stored_unchanged('combined')
        G.row_facts(k1)
        for nme, v in loop.entry.items():
            if v is None and nme in loop.names:
                c.prove('%s: the end of the row before is carried' % self.name,
                        same(loop.env[nme], VTimestamp(G.fe(loop.k))))
        for nme in loop.env:
            l = loop.env[nme]
            if not any(l is x for x in self.lists):
                continue
            n, at = l.seq()
            c.prove('%s: as many sections as begun so far' % self.name, n == G.P(k1))
            j = c.fresh('j', z3.IntSort())
            c.assume(z3.And(0 <= j, j < G.P(k1)))
            if not c.feasible():
                continue
            o = at(j)
            w = G.frame(j, closed=c.branch(j < G.Q(k1)))
            c.prove('%s: section j begins at the j-th start' % self.name, same(o.start, w.start))
            c.prove('%s: section j ends at the j-th end, or is still open' % self.name, same(o.end, w.end))


@unit('gr.combined', [GR + 'combined'], sizes=[0, 1, 2, 3], weak=True)
def gr_combined(c, E):
    """the starts (ends) of the result are the starts (ends) of all rows in order"""
    M = E.load('nilmtk.stats.goodsectionsresults')
    mx = c.real('maxp')
    c.assume(mx.e > 0)
    G = GSTable(c, E, E.size)
    R = M.GoodSectionsResults(mx)
    R._data = G.t
    spec = CombineRows(G)
    E.loop_specs.append(spec)
    r = R.combined()
    G.row_facts(G.n)
    n, at = r.seq()
    c.prove('one section per start', n == G.P(G.n))
    c.prove('the stored table is not changed', R._data is G.t and not G.t.over and not G.t.extra)
    j = c.fresh('j', z3.IntSort())
    c.assume(z3.And(0 <= j, j < G.P(G.n)))
    if not c.feasible():
        raise PathEnd()
    if E.size is not None:
        for i in range(z3.simplify(n).as_long()):
            if c.branch(j == i):
                j = z3.IntVal(i)
                break
    o = at(j)
    c.prove('section j begins at the j-th start', same(o.start, VTimestamp(G.S(j))))
    c.prove('section j is closed, at the j-th end', same(o.end, VTimestamp(G.Ee(j))))
    if E.size is not None:
        G.stored_unchanged('after')


@unit('gs.chunk', ['nilmtk/stats/goodsections.py:GoodSections._process_chunk',
                   'nilmtk/stats/goodsections.py:GoodSections.reset', GR + 'append',
                   GR + 'periods_are_adjacent'])
def gs_chunk(c, E):
    """each chunk is told whether the adjacent chunk before ended inside a section;
    sections are stored as they are.  Three chunks: the first leads to every state
    (last section open or not), the second makes every step, the third shows its result."""
    M = E.load('nilmtk.stats.goodsections')
    GSR = E.load('nilmtk.stats.goodsectionsresults')
    TM = E.load('nilmtk.timeframe')
    calls, stored = [], []
    answers = []

    def contract(df, mx, look_ahead=None, previous_chunk_ended_with_open_ended_good_section=False):
        calls.append((df, mx, look_ahead, previous_chunk_ended_with_open_ended_good_section))
        return answers[-1]
    M.get_good_sections = contract

    def sections(k, nm):
        if not k:
            return VList([])
        n = c.fresh('n' + nm, z3.IntSort())
        c.assume(n >= 1)
        fs, fe = (c.fresh_fun(x + nm, z3.IntSort(), z3.RealSort()) for x in 'se')

        def at(i):
            c.assume(fs(i) < fe(i))
            return TM.TimeFrame(VTimestamp(fs(i)),
                                None if k == 2 and c.branch(i == n - 1) else VTimestamp(fe(i)))
        return VList.symbolic(n, at, 'secs' + nm)

    class DF(object):
        pass
    mx = c.real('max')
    c.assume(mx.e > 0)

    class Res(GSR.GoodSectionsResults):
        _vc_track = False

        def append(self, t, d):
            stored.append((t, d))
    g = M.GoodSections.__new__(M.GoodSections)
    g.results = Res(mx)
    g.reset()
    flag, last = z3.BoolVal(False), None
    for nm in 'abc':
        k = c.choose(3) if nm != 'c' else 0
        df = DF()
        s, e = c.ts('s' + nm), c.ts('e' + nm)
        c.assume(s < e)
        df.timeframe = tf = TM.TimeFrame(s, e)
        if nm == 'c' and c.choose(2):
            df.look_ahead = object()
        answers.append(sections(k, nm))
        before = len(stored)
        g._process_chunk(df, {'device': {'max_sample_period': mx}})
        if last is not None:
            flag = z3.And(flag, last.e - mx.e <= s.e, s.e <= last.e)
        c.prove('computed once, with the limit, the look-ahead',
                len(calls) == 'abc'.index(nm) + 1 and calls[-1][0] is df and calls[-1][1] is mx and
                calls[-1][2] is getattr(df, 'look_ahead', None))
        c.prove('told that a section is open exactly when the chunk before is adjacent and ended in one',
                zb(calls[-1][3]) == flag)
        last = e
        if not k:
            c.prove('without sections nothing is stored', len(stored) == before)
            continue
        flag = z3.BoolVal(k == 2)
        c.prove('the sections are stored once for the chunk', len(stored) == before + 1 and
                stored[-1][0] is tf and
                set(stored[-1][1]) == {'sections'} and len(list(stored[-1][1]['sections'])) == 1)
        got = list(stored[-1][1]['sections'])[0]
        c.prove('the stored sections are the computed ones', got is answers[-1])
