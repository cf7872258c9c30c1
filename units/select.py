"""Contracts of measurement selection (C14): guarded collections over nilmtk's vocabulary."""
import z3
from vc import core
from vc.core import Unsupported, PathEnd, zb, mknum
from vc.guarded import GList, GSet, entries
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.seqs import VList
from vc.unit import unit
from units.stores import Plain

MS = 'nilmtk/measurement.py:'
EM = 'nilmtk/elecmeter.py:ElecMeter.'
AC = ['active', 'apparent', 'reactive']
PQ = ['power', 'energy', 'cumulative energy', 'voltage', 'current', 'pf', 'frequency', 'power factor', 'state',
      'phase angle']
WITH_AC = ['power', 'energy', 'cumulative energy']
note('metadata', "a meter device's measurements name quantities of nilmtk's vocabulary, each with one of the three AC "
                 "types or none (the nilm_metadata schema)")
note('pd.MultiIndex', 'MultiIndex.from_tuples(t, names=n) has exactly the tuples t, in order')


def guards(c, E, vals, name, bounded):
    """[(guard, value)]: any subset of vals"""
    out = []
    for v in vals:
        if E.size is None:
            out.append((c.fresh('%s_%s' % (name, v), z3.BoolSort()), v))
        elif c.choose(2):
            out.append((z3.BoolVal(True), v))
    return out


class Listed(list):
    def has(self, t):
        return z3.BoolVal(t in self)


def best_of(has):
    """z3: {type: it is the best available}"""
    out, before = {}, z3.BoolVal(False)
    for t in AC:
        out[t] = z3.And(has(t), z3.Not(before))
        before = z3.Or(before, has(t))
    return out


@unit('ms.best', [MS + 'select_best_ac_type'], sizes=[0, 1, 2], budget=60)
def ms_best(c, E):
    """the first of active, apparent, reactive that is available (and recorded by the mains)"""
    E.builtins['set'] = GSet
    warned = []
    E.models['warnings'].warn = lambda *a, **k: warned.append(a)
    M = E.load('nilmtk.measurement')
    warned[:] = []
    M.warn = lambda *a, **k: warned.append(a)
    U = AC + ['other']
    if E.size is None:
        av = GList(guards(c, E, U, 'av', False))
        mains = None if c.choose(2) == 0 else GList(guards(c, E, U, 'mains', False))
    else:
        def some():
            return Listed([U[c.choose(len(U))] for _ in range(c.choose(E.size + 1))])
        av = some()
        mains = None if c.choose(2) == 0 else some()
    c.inp('case', dict(av=av, mains=mains))
    inm = (lambda t: z3.BoolVal(True)) if mains is None else mains.has
    good = best_of(lambda t: z3.And(av.has(t), inm(t)))
    anyb = best_of(av.has)
    none = z3.Not(z3.Or(*[good[t] for t in AC]))
    try:
        r = M.select_best_ac_type(av, mains)
    except KeyError:
        c.prove('an error only when no AC type is available', z3.Not(z3.Or(*[av.has(t) for t in AC])))
        return
    for t in AC + ['other']:
        if r == t:
            ok = z3.Or(good[t], z3.And(none, anyb[t])) if t in AC else z3.BoolVal(False)
            c.prove('the preferred available AC type', ok)
            break
    else:
        c.prove('an AC type is returned', False)
    c.prove('a warning exactly when the mains AC types do not match',
            none == z3.BoolVal(len(warned) > 0))


@unit('ms.columns', [MS + 'measurement_columns', MS + 'check_physical_quantity', MS + 'check_ac_type'],
      sizes=[1, 2], budget=60)
def ms_columns(c, E):
    """a column index is built exactly from valid measurements"""
    M = E.load('nilmtk.measurement')
    X = E.load('nilmtk.exceptions')

    def item(_):
        p = (PQ + ['watts'])[c.choose(11)]
        a = (AC + ['', 'other'])[c.choose(5)]
        return (p, a)

    def ok(t):
        return t[0] in PQ and (t[0] not in WITH_AC or t[1] in AC)
    seen = []

    class MI(object):
        @staticmethod
        def from_tuples(t, names=None):
            used('pd.MultiIndex')
            seen.append((t, names))
            return 'index'
    M.pd = ShimModule('pandas', MultiIndex=MI)
    if E.size is None:
        n = c.fresh('n', z3.IntSort())
        c.assume(n >= 0)
        l = VList.symbolic(n, item, 'tuples')
        sp = Plain('tuples', lambda lp: getattr(lp.it, 'tag', '') == 'tuples')
        sp.at_end = lambda loop: c.prove('an accepted measurement is valid', ok(loop._item))
        E.loop_specs.append(sp)
        try:
            r = M.measurement_columns(l)
        except X.MeasurementError:
            c.prove('only an unknown measurement is refused', not ok(sp.item))
            return
    else:
        l = VList([item(None) for _ in range(E.size)])
        try:
            r = M.measurement_columns(l)
        except X.MeasurementError:
            c.prove('only an unknown measurement is refused', not all(ok(t) for t in l))
            return
        c.prove('every measurement is valid', all(ok(t) for t in l))
    c.prove('the index is returned', r == 'index')
    c.prove('it holds the tuples, with the level names',
            len(seen) == 1 and seen[0][0] is l and list(seen[0][1]) == ['physical_quantity', 'type'])


@unit('ut.flatten', ['nilmtk/utils.py:flatten_2d_list'], sizes=[0, 1, 2, 3], budget=60)
def ut_flatten(c, E):
    """flattening a list of lists concatenates them"""
    M = E.load('nilmtk.utils')
    if E.size is not None:
        lens = [c.choose(3) for _ in range(E.size)]
        l = VList([VList([(i, j) for j in range(k)]) for i, k in enumerate(lens)])
        r = M.flatten_2d_list(l)
        c.prove('concatenation', list(r) == [(i, j) for i, k in enumerate(lens) for j in range(k)])
        return
    I = z3.IntSort()
    n = c.fresh('n', I)
    c.assume(n >= 0)
    ln, off = c.fresh_fun('len', I, I), c.fresh_fun('off', I, I)
    el, flat = c.fresh_fun('el', I, I, I), c.fresh_fun('flat', I, I)
    # the concatenation, by definition
    c.assume(off(0) == 0)
    lists = {}

    def at(i):
        c.assume(z3.And(ln(i) >= 0, off(i + 1) == off(i) + ln(i)))
        return VList.symbolic(ln(i), lambda j: mknum(el(i, j)), 'inner')
    l = VList.symbolic(n, at, 'lists')

    def seq_is(loop, k):
        vs = [v for v in loop.env.values() if isinstance(v, VList) and v.tag != 'lists' and v.tag != 'inner']
        vs += [v for v in loop.env.values() if isinstance(v, VList) and v.tag == 'inner' and v is not getattr(loop, '_item', None)]
        if len(set(id(v) for v in vs)) != 1:
            raise Unsupported('accumulator not found')
        return vs[0]

    class Sp(LoopSpec):
        name = 'lists'

        def match(self, loop):
            return getattr(loop.it, 'tag', '') == 'lists'

        def havoc(self, loop, env, names):
            v = seq_is(loop, loop.k)
            m, f = off(loop.k), flat
            v.base, v.tail = (m, lambda i: mknum(f(i))), []
            c.assume(m >= 0)
            v.version += 1
            self.acc = v
            return {}

        def allow_mutation(self, loop):
            return [self.acc]

        def inv(self, loop):
            if loop.state == 'start' and z3.is_int_value(loop.k):
                v = seq_is(loop, loop.k)
                return [('starts empty', zb(v.vlen() == 0))]
            v = self.acc
            if loop.state != 'body':
                return []
            m, f = v.seq()
            i = c.fresh('i', I)
            j = z3.simplify(loop.k - 1)
            # definition of flat at the elements of list j
            d = z3.Implies(z3.And(i >= off(j), i < off(j) + ln(j)), flat(i) == el(j, i - off(j)))
            return [('length', m == off(loop.k)),
                    ('elements', z3.Implies(z3.And(d, i >= 0, i < m), core.lift(f(i)) == flat(i)))]
    E.loop_specs.append(Sp())
    r = M.flatten_2d_list(l)
    m, f = r.seq()
    c.prove('as many elements as all lists together', m == off(n))
    i = c.fresh('i', I)
    c.prove('the elements in order', z3.Implies(z3.And(i >= 0, i < m), core.lift(f(i)) == flat(i)))


class BestLoop(LoopSpec):
    """columns = best column of every quantity seen so far"""
    name = 'quantities'

    def __init__(self, c, bestcol):
        self.c, self.bestcol = c, bestcol

    def match(self, loop):
        return isinstance(loop.it, GList)

    def acc(self, loop):
        vs = [v for v in loop.env.values() if type(v) is GSet]
        if len(vs) != 1:
            raise Unsupported('accumulator of the best columns not found')
        return vs[0]

    def havoc(self, loop, env, names):
        c = self.c
        self.set = self.acc(loop)
        self.items = {}
        for g, v in loop.it.items_:
            self.items[v] = z3.Or(self.items[v], g) if v in self.items else g
        self.P = {v: c.fresh('seen_%s' % v, z3.BoolSort()) for v in self.items}
        for v in self.P:
            c.assume(z3.Implies(self.P[v], self.items[v]))
        self.set.g = {(q, t): c.fresh('col_%s_%s' % (q, t), z3.BoolSort()) for q in PQ + ['watts'] for t in AC + ['']}
        self.set.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.set]

    def on_item(self, loop, item):
        self.cur = item

    def on_exit(self, loop):
        for v in self.P:
            self.c.assume(self.P[v] == self.items[v])

    def inv(self, loop):
        if not hasattr(self, 'P'):
            s = self.acc(loop)
            return [('nothing selected before', z3.Not(z3.Or(*(list(s.g.values()) or [z3.BoolVal(False)]))))]
        P = dict(self.P)
        if getattr(self, 'cur', None) is not None:
            P[self.cur] = z3.BoolVal(True)
        out = [('no unknown name so far', z3.Not(P.get('watts', z3.BoolVal(False))))]
        s = self.set
        for q in PQ + ['watts']:
            for t in AC + ['']:
                w = z3.And(P.get(q, z3.BoolVal(False)), self.bestcol(q, t))
                out.append(('column (%s, %s)' % (q, t), s.has((q, t)) == w))
        for v in s.g:
            if v not in [(q, t) for q in PQ + ['watts'] for t in AC + ['']]:
                out.append(('no other column', z3.Not(s.g[v])))
        return out


def install(E, c, sizes_univ=None):
    E.builtins['set'] = GSet
    M = E.load('nilmtk.elecmeter')
    real = E.load('nilmtk.utils').flatten_2d_list

    def flatten(l):
        # callee contract (ut.flatten): the elements of all the lists
        if isinstance(l, GList):
            return GList([(z3.And(g, g2), v) for g, inner in l.items_ for g2, v in entries(inner)])
        return real(l)
    M.flatten_2d_list = flatten
    return M


def meter(c, E, M):
    univ = [(q, t) for q in PQ for t in AC + [None]]
    if E.size is not None:
        univ = [('power', 'active'), ('power', 'reactive'), ('energy', 'reactive'), ('voltage', None)]
    g = guards(c, E, univ, 'm', True)
    have = {v: z3.BoolVal(False) for v in univ}
    have.update({v: gg for gg, v in g})
    mk = lambda q, t: dict(physical_quantity=q, type=t) if t is not None else dict(physical_quantity=q)
    if E.size is None:
        ms = GList([(gg, mk(*v)) for gg, v in g], 'measurements')
    else:
        ms = VList([mk(*v) for _, v in g])
    m = M.ElecMeter.__new__(M.ElecMeter)
    m.metadata = {'device_model': 'd'}
    M.ElecMeter.meter_devices = {'d': {'measurements': ms}}
    c.inp('ms', GList([(gg, list(v)) for gg, v in g]))
    return m, lambda q, t: have.get((q, t or None), z3.BoolVal(False))


FUNS = [EM + '_convert_physical_quantity_and_ac_type_to_cols', EM + '_ac_type_to_columns',
        EM + '_physical_quantity_to_columns', EM + '_get_columns_with_best_ac_type', EM + 'available_columns',
        EM + 'available_ac_types', EM + 'available_physical_quantities', EM + 'device']


def request(c, E, opts, bad, name):
    """None, one name, or a list; -> (value, has(name), falsy, bad condition)"""
    F = z3.BoolVal(False)
    k = c.choose(3)
    if k == 0:
        return None, lambda x: F, z3.BoolVal(True), F
    if k == 1:
        o = opts + [bad]
        v = o[c.choose(len(o))]
        return v, lambda x: z3.BoolVal(x == v), F, z3.BoolVal(v == bad)
    if E.size is None:
        l = GList(guards(c, E, opts + [bad], name, False), name)
    else:
        l = VList([opts[c.choose(len(opts))] for _ in range(1 + c.choose(2))])
    has = lambda x: z3.Or(*[g for g, v in entries(l) if v == x] or [F])
    return l, has, z3.Not(z3.Or(*[g for g, _ in entries(l)] or [F])), has(bad)


@unit('em.columns', FUNS, sizes=[0], budget=150)
def em_columns(c, E):
    """quantity / AC type requests select exactly the matching available columns"""
    M = install(E, c)
    X = E.load('nilmtk.exceptions')
    m, have = meter(c, E, M)
    pqs = PQ if E.size is None else ['power', 'energy', 'voltage']
    pq, inpq, nopq, badpq = request(c, E, pqs, 'watts', 'rq')
    if c.choose(2) == 0:
        ac, inac, noac, badac, best = 'best', None, z3.BoolVal(False), z3.BoolVal(False), True
        # an empty list of quantities asks for nothing: outside the contract
        if pq is not None:
            c.assume(z3.Not(nopq))
    else:
        ac, inac, noac, badac = request(c, E, AC, 'actve', 'ra')
        best = False
    if not c.feasible():
        raise PathEnd()
    bestof = {q: best_of(lambda t, q=q: have(q, t)) for q in PQ}
    bestcol = lambda q, t: bestof[q][t] if q in bestof and t in AC else z3.BoolVal(False)
    E.loop_specs.append(BestLoop(c, bestcol))
    sel = {}
    for q in PQ:
        for t in AC + ['']:
            if best:
                sel[q, t] = z3.And(bestcol(q, t), z3.Or(nopq, inpq(q)))
            else:
                sel[q, t] = z3.And(have(q, t), z3.Or(nopq, inpq(q)), z3.Or(noac, inac(t) if t else z3.BoolVal(False)))
    asked = z3.Not(z3.And(nopq, noac))
    nothing = z3.Not(z3.Or(*sel.values()))
    c.inp('pq', pq)
    c.inp('ac', ac)
    try:
        r = m._convert_physical_quantity_and_ac_type_to_cols(physical_quantity=pq, ac_type=ac, chunksize=7)
    except X.MeasurementError:
        c.prove('refused only if nothing matches or a name is unknown', z3.Or(badpq, badac, z3.And(asked, nothing)))
        return
    c.prove('unknown names and requests without match are refused',
            z3.Not(z3.Or(badpq, badac, z3.And(asked, nothing))))
    c.prove('the other arguments are passed on', sorted(r) == ['chunksize', 'columns'] and r['chunksize'] == 7)
    es = entries(r['columns'])
    for (q, t), f in sel.items():
        got = z3.Or(*[g for g, v in es if v == (q, t)] or [z3.BoolVal(False)])
        c.prove('column (%s, %s) is selected exactly when it matches' % (q, t), got == f)
    for g, v in es:
        if v not in sel:
            c.prove('no other column', z3.Not(g))


@unit('em.explicit', [FUNS[0], FUNS[4], FUNS[7]], sizes=[0], budget=60)
def em_explicit(c, E):
    """explicit columns are passed through if and only if available"""
    M = install(E, c)
    X = E.load('nilmtk.exceptions')
    m, have = meter(c, E, M)
    univ = [(q, t) for q in PQ for t in AC + ['']] + [('watts', '')]
    if E.size is not None:
        univ = [('power', 'active'), ('voltage', ''), ('energy', 'active')]
    cols = GList(guards(c, E, univ, 'c', True), 'cols')
    if E.size is not None:
        cols = VList([v for _, v in cols.items_])
    es = entries(cols)
    some = z3.Or(*[g for g, _ in es] or [z3.BoolVal(False)])
    c.assume(some)
    if not c.feasible():
        raise PathEnd()
    pq = [None, 'power', None][c.choose(3)]
    ac = [None, 'active', 'best'][c.choose(3)]
    ok = z3.And(*[z3.Implies(g, have(*v)) for g, v in es])
    c.inp('cols', cols)
    try:
        r = m._convert_physical_quantity_and_ac_type_to_cols(physical_quantity=pq, ac_type=ac, columns=cols, sections=3)
    except ValueError:
        c.prove('columns together with a quantity or AC type are refused', bool(pq or ac))
        return
    except X.MeasurementError:
        c.prove('refused only if some column is not available', z3.And(z3.Not(ok), z3.BoolVal(not (pq or ac))))
        return
    c.prove('only without quantity and AC type', not (pq or ac))
    c.prove('all columns are available', ok)
    c.prove('the columns are passed through', r['columns'] is cols and r['sections'] == 3 and len(r) == 2)
