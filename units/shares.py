"""Contracts of statistics over several meters (C33) and of the train/test split (C34)."""
import z3
from vc import core, arrays as A
from vc.core import VNum, VNa, VBool, VTimestamp, VTimedelta, Unsupported, zb, lift, to_real, mknum, mkbool
from vc.fold import FoldSpec
from vc.loops import LoopSpec
from vc.models import ShimModule, note, used
from vc.seqs import VList, VSeq, SymIter, concrete_items
from vc.unit import unit

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
MG, EL = 'nilmtk/metergroup.py:MeterGroup.', 'nilmtk/electric.py:Electric.'
AC = ['active', 'apparent', 'reactive']
F, Tr = z3.BoolVal(False), z3.BoolVal(True)
note('Series arithmetic', 'a + b and a / b of two Series have every label of either, and are NaN at a label of only one; '
                          'a += b keeps the labels of a; a.add(b, fill_value=0) takes 0 where only one is missing')
note('offset_alias_to_seconds', 'the length of a pandas period is a positive constant')
note('meter statistics', 'what one meter answers (its energies, rate, good sections) is arbitrary and the same each time it is asked')


class Keys(list):
    _vc_track = False

    def intersection(self, o):
        return Keys(x for x in self if x in list(o))

    def tolist(self):
        return list(self)

    @property
    def empty(self):
        return not self


class Series(object):
    """one number per AC type: has (is there a row), val, na (is it NaN)"""
    _vc_track = False

    def __init__(self, has, val, na=None, idx=None):
        self.has, self.val, self.na, self.idx = list(has), list(val), list(na or [F] * 3), idx

    def present(self, t):
        return z3.And(self.has[t], z3.Not(self.na[t]))

    def rows(self):
        out = []
        for t in range(3):
            h = z3.simplify(self.has[t])
            if not (z3.is_true(h) or z3.is_false(h)):
                h = z3.BoolVal(core.ctx().branch(h))
                self.has[t] = h
            if z3.is_true(h):
                out.append(t)
        return out

    def keys(self):
        return Keys(AC[t] for t in self.rows())

    index = property(keys)

    @property
    def empty(self):
        return mkbool(z3.Not(z3.Or(self.has)))

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in AC or AC.index(k) not in self.rows():
                raise KeyError(k)
            t = AC.index(k)
            return core.mkna(self.val[t], self.na[t])
        ks = concrete_items(k) if isinstance(k, VSeq) else list(k)
        if any(x not in self.keys() for x in ks):
            raise KeyError(ks)
        return Series([self.has[t] if AC[t] in ks else F for t in range(3)], self.val, self.na)

    loc = property(lambda self: self)

    def __iter__(self):
        return iter([self[k] for k in self.keys()])

    def sum(self, **kw):
        if kw:
            raise Unsupported('sum')
        return VNum(z3.Sum([z3.If(self.present(t), self.val[t], z3.RealVal(0)) for t in range(3)]))

    def mean(self):
        ts = [t for t in self.rows() if not core.ctx().branch(self.na[t])]
        if not ts:
            return float('nan')
        return VNum(z3.Sum([self.val[t] for t in ts]) / len(ts))

    def dropna(self):
        return Series([self.present(t) for t in range(3)], self.val)

    def copy(self, **kw):
        return Series(self.has, self.val, self.na, self.idx)

    def add(self, o, fill_value=None):
        if not isinstance(o, Series) or fill_value not in (None, 0):
            raise Unsupported('add')
        used('Series arithmetic')
        p, q = [[s.present(t) for t in range(3)] for s in (self, o)]
        has = [z3.Or(self.has[t], o.has[t]) for t in range(3)]
        if fill_value is None:
            return Series(has, [a + b for a, b in zip(self.val, o.val)], [z3.Not(z3.And(a, b)) for a, b in zip(p, q)])
        return Series(has, [z3.If(a, x, z3.RealVal(0)) + z3.If(b, y, z3.RealVal(0)) for a, x, b, y in zip(p, self.val, q, o.val)],
                      [z3.Not(z3.Or(a, b)) for a, b in zip(p, q)])

    def __add__(self, o):
        return self.add(o)

    def __radd__(self, o):
        if o == 0:
            return self
        raise Unsupported('+ Series')

    def __iadd__(self, o):
        r = self.add(o)
        return Series(self.has, r.val, r.na)

    def __truediv__(self, o):
        if isinstance(o, Series):
            used('Series arithmetic')
            has = [z3.Or(self.has[t], o.has[t]) for t in range(3)]
            both = [z3.And(self.present(t), o.present(t)) for t in range(3)]
            val = [A.ediv(VNum(self.val[t]), VNum(o.val[t])).e if z3.is_true(z3.simplify(both[t])) else self.val[t] / o.val[t]
                   for t in range(3)]
            return Series(has, val, [z3.Not(b) for b in both])
        e = lift(o)
        if e is None:
            raise Unsupported('Series / %r' % type(o))
        return Series(self.has, [A.ediv(VNum(v), VNum(e)).e for v in self.val], self.na)


class Mapped(FoldSpec):
    """a loop that appends one value per item, in order"""

    def __init__(self, name, match, n, value, same):
        FoldSpec.__init__(self, name, match, step=self._check)
        self.n, self.value, self.same = n, value, same

    def _check(self, loop, item, new):
        c = core.ctx()
        c.prove('%s: one answer of each meter is collected' % self.name,
                self.same(loop.k, new[0]) if len(new) == 1 else False)

    def result_base(self, c):
        return self.n, self.value

    def finish_list(self, l, start):
        if start == ('empty',) and not l.tail:
            l.base = self.result_base(core.ctx())


class Result(object):
    """a full result; `merged`: how many results, from the first on, it holds"""
    _vc_track = True

    def __init__(self, idx):
        self.idx, self.merged, self.version = idx, z3.IntVal(1), 0

    def unify(self, o):
        c = core.ctx()
        c.prove('the results are unified with the first one, each once, in order',
                z3.And(self.idx == 0, o.idx == self.merged) if isinstance(o, Result) else False)
        self.merged = self.merged + 1
        self.version += 1


def meters_world(c, E):
    M = E.load('nilmtk.metergroup')
    n = c.fresh('meters', I)
    c.assume(n >= 0)
    M.print_on_line = lambda *a, **k: None
    return M, n


class Totals(LoopSpec):
    """adds up, or unifies, the answers collected"""
    name = 'answers'

    def __init__(self, c, n, H, V, HT, ST):
        self.c, self.n, self.H, self.V, self.HT, self.ST = c, n, H, V, HT, ST

    def match(self, loop):
        it = loop.it
        if not isinstance(it, VSeq) or loop.kind != 'for':
            return False
        x = it.seq()[1](z3.IntVal(0))
        return isinstance(x, (Series, Result))

    def first(self, loop):
        return loop.it.seq()[1](z3.IntVal(0)).idx

    def done(self, loop):
        return z3.simplify(self.first(loop) + loop.k)

    def vars(self, loop, env):
        return [x for x in sorted(loop.names) if isinstance(env.get(x), (Series, Result)) or x in env and env[x] is None]

    def havoc(self, loop, env, names):
        out, k = {}, self.done(loop)
        for t in range(3):
            self.unfold(k, t)
        self.changed = []
        seen = [v for v in loop.entry.values() if isinstance(v, Result)]
        for v in seen:
            if not any(v is x for x in self.changed):
                self.changed.append(v)
                v.merged = self.c.fresh('merged', I)
                v.version += 1
        for x in self.vars(loop, loop.entry):
            if isinstance(env.get(x), Result):
                out[x] = env[x]
                continue
            if self.c.branch(k <= 0):
                out[x] = loop.entry[x]
            else:
                out[x] = Series([self.HT[t](k) for t in range(3)], [self.ST[t](k) for t in range(3)])
        return out

    def allow_mutation(self, loop):
        return self.changed

    def unfold(self, k, t):
        self.c.assume(z3.And(self.HT[t](k + 1) == z3.Or(self.HT[t](k), self.H[t](k)),
                             self.ST[t](k + 1) == z3.If(self.HT[t](k), self.ST[t](k), z3.RealVal(0)) + z3.If(self.H[t](k), self.V[t](k), z3.RealVal(0))))

    def inv(self, loop):
        out, k = [], self.done(loop)
        for x, v in sorted(loop.entry.items()):
            if isinstance(v, Result) and loop.env.get(x) is v:
                out.append(('the results so far are unified', v.merged == k))
        for x in self.vars(loop, loop.entry):
            v = loop.env.get(x)
            if isinstance(v, Series):
                for t in range(3):
                    out.append(('%s energy of the meters so far' % AC[t],
                                z3.And(v.has[t] == self.HT[t](k), z3.Implies(v.has[t], z3.And(z3.Not(v.na[t]), v.val[t] == self.ST[t](k))))))
            elif v is None:
                out.append(('nothing so far', k <= 0))
        return out

    def on_item(self, loop, item):
        for t in range(3):
            self.unfold(self.done(loop), t)


def group(c, E, method, answer):
    """a group of any number of meters that answer `method`"""
    M, n = meters_world(c, E)
    full = c.choose(3)                      # not asked for, asked for, explicitly not
    kw = {'ac_type': 'best'}
    sections = c.choose(2) == 0
    if sections:
        kw['sections'] = 'SECTIONS'
    want = dict(kw)
    if full:
        kw['full_results'] = full == 1

    class Meter(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i
            self.identifier = 'id'
            self.store = self

        @property
        def all_sections_smaller_than_chunksize(self):
            return VBool(c.fresh('small', B))
    results = {}

    def value(i):
        i = z3.simplify(i)
        if full == 1:
            if i.sexpr() not in results:
                results[i.sexpr()] = Result(i)
            return results[i.sexpr()]
        return answer(i)

    def ask(self, **k):
        got = dict(k)
        c.prove('every meter is asked with the arguments given', bool(got.pop('full_results', False)) == (full == 1) and got == want)
        return value(self.i)
    setattr(Meter, method, ask)
    g = M.MeterGroup.__new__(M.MeterGroup)
    g.meters = VList.symbolic(n, Meter, 'meters')
    g.disabled_meters = []

    def same(k, v):
        return v.idx == k if hasattr(v, 'idx') else F
    E.loop_specs.append(Mapped('meters', lambda loop: getattr(loop.it, 'tag', '') == 'meters', n, value, same))
    return M, g, n, kw, full == 1, sections


def full_result(c, n, r):
    if r is None:
        c.prove('nothing only for no meters', n == 0)
        return
    if not isinstance(r, Result):
        raise Unsupported('returned %r' % type(r))
    c.prove('the results of all meters, unified', z3.And(r.idx == 0, r.merged == n))


@unit('mg.total_energy', [MG + 'total_energy', MG + '_collect_stats_on_all_meters', MG + '_check_kwargs_for_full_results_and_sections'],
      budget=60)
def mg_total_energy(c, E):
    """the energy of every AC type that a meter measures is the sum over the meters that measure it, for any number of meters"""
    H, HT = [[c.fresh_fun('%s %s' % (p, a), I, B) for a in AC] for p in ('has', 'any')]
    V, ST = [[c.fresh_fun('%s %s' % (p, a), I, R) for a in AC] for p in ('energy', 'sum')]
    M, g, n, kw, full, sections = group(c, E, 'total_energy', lambda i: Series([h(i) for h in H], [v(i) for v in V], idx=i))
    used('meter statistics')
    spec = Totals(c, n, H, V, HT, ST)
    for t in range(3):
        c.assume(z3.And(z3.Not(HT[t](0)), ST[t](0) == 0))
        spec.unfold(z3.IntVal(0), t)
    E.loop_specs.append(spec)
    kw0 = dict(kw)
    try:
        r = g.total_energy(**kw)
    except RuntimeError:
        c.prove('refused only for full results of several meters over unknown sections', z3.And(z3.BoolVal(full and not sections), n > 1))
        return
    c.prove('full results of several meters need sections', z3.Or(z3.BoolVal(not full or sections), n <= 1))
    if full:
        return full_result(c, n, r)
    if r is None:
        c.prove('no energy only for no meters', n == 0)
        return
    if not isinstance(r, Series):
        raise Unsupported('returned %r' % type(r))
    for t in range(3):
        c.prove('%s energy is there if a meter measures it' % AC[t], r.has[t] == HT[t](n))
        c.prove('%s energy is the sum' % AC[t], z3.Implies(HT[t](n), z3.And(z3.Not(r.na[t]), r.val[t] == ST[t](n))))


class Rate(object):
    _vc_track = False

    def __init__(self, i):
        self.idx = i


@unit('mg.dropout_rate', [MG + 'dropout_rate', MG + '_collect_stats_on_all_meters', MG + '_check_kwargs_for_full_results_and_sections'],
      budget=60)
def mg_dropout_rate(c, E):
    """the mean of the dropout rates of all meters"""
    M, g, n, kw, full, sections = group(c, E, 'dropout_rate', Rate)
    used('meter statistics')
    MEAN = object()
    i0 = c.fresh('i0', I)
    c.assume(z3.And(0 <= i0, i0 < n))

    def mean(l):
        if not isinstance(l, VSeq):
            raise Unsupported('mean of %r' % type(l))
        m, at = l.seq()
        c.prove('the mean is over as many rates as meters', m == n)
        x = at(i0)
        c.prove('each rate is in the mean', x.idx == i0 if isinstance(x, Rate) else False)
        return MEAN
    M.np = ShimModule('numpy', mean=mean)
    dummy = [c.fresh_fun('x', I, B)] * 3
    z = [c.fresh_fun('y', I, R)] * 3
    E.loop_specs.append(Totals(c, n, dummy, z, dummy, z))
    try:
        r = g.dropout_rate(**kw)
    except RuntimeError:
        c.prove('refused only for full results of several meters over unknown sections', z3.And(z3.BoolVal(full and not sections), n > 1))
        return
    c.prove('full results of several meters need sections', z3.Or(z3.BoolVal(not full or sections), n <= 1))
    if full:
        return full_result(c, n, r)
    c.prove('the result is the mean', r is MEAN)


def some_series(c, nm):
    ks = c.choose(8)
    has = [z3.BoolVal(bool(ks >> t & 1)) for t in range(3)]
    return Series(has, [c.real('%s %s' % (nm, a)).e for a in AC])


def two(c, E, other_name):
    M = E.load('nilmtk.electric')
    M.pd = ShimModule('pandas', Series=Series)
    M.np = ShimModule('numpy', nan=float('nan'))
    M.warn = lambda *a, **k: None
    own, oth = some_series(c, 'own'), some_series(c, 'other')
    return M, own, oth


@unit('el.proportion_of_energy', [EL + 'proportion_of_energy'], budget=120)
def el_proportion_of_energy(c, E):
    """the share of the other meter's energy: the mean over shared AC types of the ratio, else that of the preferred types"""
    M, own, oth = two(c, E, 'other')
    good = object()
    given = c.choose(2) == 0
    kw = {'ac_type': 'best'}
    if given:
        kw['sections'] = 'SECTIONS'
    sect = 'SECTIONS' if given else good

    def asked(k):
        c.prove('both energies are over the same sections', k.get('sections') is sect and
                {a: b for a, b in k.items() if a != 'sections'} == {'ac_type': 'best'})

    class Meter(M.Electric):
        def __init__(self, s):
            self.s = s

        def good_sections(self, **k):
            c.prove('the sections are the good ones of the other meter', self.s is oth and k == kw)
            return good

        def total_energy(self, **k):
            asked(k)
            return self.s
    a, b = Meter(own), Meter(oth)
    zero = c.choose(2) == 0
    for t in oth.rows():
        c.assume(oth.val[t] == 0 if zero else oth.val[t] > 0)
    r = a.proportion_of_energy(b, **kw)
    os, ss = oth.rows(), own.rows()
    if zero or not os:
        c.prove('NaN if the other meter used no energy', isinstance(r, float) and r != r)
        return
    if not ss:
        c.prove('0 without energy of its own', lift(r) is not None and to_real(lift(r)) == 0)
        return
    sh = [t for t in os if t in ss]
    e, na = core.na_parts(r)
    if e is None:
        raise Unsupported('returned %r' % type(r))
    if sh:
        want = z3.Sum([own.val[t] / oth.val[t] for t in sh]) / len(sh)
    else:
        want = own.val[ss[0]] / oth.val[os[0]]
    c.prove('the share', z3.And(z3.Not(na), to_real(e) == want))


@unit('el.proportion_of_upstream', [EL + 'proportion_of_upstream'], budget=120)
def el_proportion_of_upstream(c, E):
    """the share of the upstream meter's energy, of the preferred AC type that both measure, over the upstream meter's good sections"""
    M, own, oth = two(c, E, 'upstream')
    good = object()

    class Meter(M.Electric):
        def __init__(self, s):
            self.s = s

        def upstream_meter(self):
            return up

        def good_sections(self, **k):
            c.prove("the good sections are the upstream meter's", self.s is oth)
            return good

        def total_energy(self, **k):
            c.prove('both energies are over the same sections', k.get('sections') is good)
            return self.s
    me, up = Meter(own), Meter(oth)
    sh = [t for t in own.rows() if t in oth.rows()]
    if not sh:
        core.ctx().assume(F)
        from vc.core import PathEnd
        raise PathEnd()
    for t in oth.rows():
        c.assume(oth.val[t] > 0)
    r = me.proportion_of_upstream()
    e, na = core.na_parts(r)
    if e is None:
        raise Unsupported('returned %r' % type(r))
    c.prove('the share of the preferred AC type that both measure', z3.And(z3.Not(na), to_real(e) == own.val[sh[0]] / oth.val[sh[0]]))


@unit('el.average_energy', [EL + 'average_energy_per_period', EL + 'uptime'], budget=60)
def el_average_energy(c, E):
    """the energy divided by the number of periods in the up-time (or in the whole time frame); NaN without time"""
    M = E.load('nilmtk.electric')
    NAN = float('nan')
    M.np = ShimModule('numpy', nan=NAN)
    M.pd = ShimModule('pandas', Series=Series)
    own = some_series(c, 'own')
    up, whole, per = c.real('uptime'), c.real('whole'), c.real('period')
    c.assume(z3.And(up.e >= 0, whole.e >= 0, per.e > 0))
    used('offset_alias_to_seconds')
    alias = ['D', 'H'][c.choose(2)]
    default = alias == 'D' and c.choose(2) == 0

    def secs(a):
        c.prove('the period asked for', a == alias)
        return per
    M.offset_alias_to_seconds = secs
    use = c.choose(3)
    kw = {'ac_type': 'best'}

    class Good(object):
        def uptime(self):
            return VTimedelta(up.e)

    class Frame(object):
        timedelta = VTimedelta(whole.e)

    class Meter(M.Electric):
        def good_sections(self, **k):
            c.prove('arguments are passed on to good_sections', k == kw)
            return Good()

        def get_timeframe(self):
            return Frame()

        def total_energy(self, **k):
            c.prove('arguments are passed on to total_energy', k == kw)
            return own
    args = dict(kw)
    if use:
        args['use_uptime'] = use == 1
    if not default:
        args['offset_alias'] = alias
    time = whole.e if use == 2 else up.e
    if c.choose(2) == 0:
        try:
            Meter().average_energy_per_period(sections='S', **args)
        except RuntimeError:
            return
        c.prove('sections are refused', False)
    r = Meter().average_energy_per_period(**args)
    if isinstance(r, float) and r != r:
        c.prove('NaN only without time', time == 0)
        return
    if not isinstance(r, Series):
        raise Unsupported('returned %r' % type(r))
    c.prove('NaN without time', time > 0)
    for t in range(3):
        c.prove('a row for each AC type', r.has[t] == own.has[t])
        if t in own.rows():
            c.prove('energy per period', z3.And(z3.Not(r.na[t]), r.val[t] * (time / per.e) == own.val[t]))


@unit('mg.submetered', [MG + 'proportion_of_energy_submetered'], budget=60)
def mg_submetered(c, E):
    """the shares of the meters right below the mains add up; NaN if none has one"""
    M = E.load('nilmtk.metergroup')
    n = c.fresh('downstream', I)
    c.assume(n >= 0)
    P, NA, T, ANY = c.fresh_fun('share', I, R), c.fresh_fun('nan', I, B), c.fresh_fun('sum', I, R), c.fresh_fun('any', I, B)
    c.assume(z3.And(T(0) == 0, z3.Not(ANY(0))))
    MAINS = object()
    kw = {'sections': 'S'}
    if c.choose(2) == 0:
        kw['verbose'] = True

    class Meter(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

        def proportion_of_energy(self, other, **k):
            c.prove('the share of the mains, with the arguments given', other is MAINS and k == kw)
            return VNa(P(self.i), NA(self.i))

    class Down(object):
        meters = VList.symbolic(n, Meter, 'downstream')

    class Group(M.MeterGroup):
        def mains(self):
            return MAINS

        def meters_directly_downstream_of_mains(self):
            return Down()

    def isnan(x):
        e, na = core.na_parts(x)
        if e is None:
            raise Unsupported('isnan(%r)' % type(x))
        return mkbool(na)
    M.np = ShimModule('numpy', nan=float('nan'), isnan=isnan)
    M.print = lambda *a, **k: None

    class Spec(LoopSpec):
        name = 'downstream'

        def match(self, loop):
            return getattr(loop.it, 'tag', '') == 'downstream'

        def vars(self, loop, env):
            return [x for x in sorted(loop.names) if isinstance(env.get(x), (bool, VBool, int, float, VNum))]

        def havoc(self, loop, env, names):
            out = {}
            for x in self.vars(loop, loop.entry):
                e = loop.entry[x]
                if isinstance(e, (bool, VBool)):
                    out[x] = VBool(c.fresh('h_' + x, B))
                elif isinstance(e, float) and e != e:
                    out[x] = VNa(c.fresh('h_' + x, R), c.fresh('na_' + x, B))
                else:
                    out[x] = VNum(c.fresh('h_' + x, R))
            return out

        def inv(self, loop):
            out, k = [], loop.k
            for x in self.vars(loop, loop.entry):
                e, v = loop.entry[x], loop.env[x]
                if isinstance(e, (bool, VBool)):
                    out.append(('flag of a share so far', zb(v) == (z3.Not(ANY(k)) if z3.is_true(z3.simplify(zb(e))) else ANY(k))))
                else:
                    a, na = core.na_parts(v)
                    if isinstance(e, float) and e != e:
                        out.append(('sum of the shares so far', z3.And(na == z3.Not(ANY(k)), z3.Implies(ANY(k), to_real(a) == T(k)))))
                    else:
                        out.append(('sum of the shares so far', z3.And(z3.Not(na), to_real(a) == T(k))))
            return out

        def on_item(self, loop, item):
            k = loop.k
            c.assume(z3.And(T(k + 1) == T(k) + z3.If(NA(k), z3.RealVal(0), P(k)), ANY(k + 1) == z3.Or(ANY(k), z3.Not(NA(k)))))
    E.loop_specs.append(Spec())
    g = Group.__new__(Group)
    g.meters, g.disabled_meters = [], []
    r = g.proportion_of_energy_submetered(**kw)
    e, na = core.na_parts(r)
    if e is None:
        raise Unsupported('returned %r' % type(r))
    c.prove('NaN exactly if no meter has a share', na == z3.Not(ANY(n)))
    c.prove('the sum of the shares', z3.Implies(ANY(n), to_real(e) == T(n)))


# -- the table of energies ------------------------------------------------------------------------------------
class Ident(VNum):
    __slots__ = ()

    def __init__(self, i):
        VNum.__init__(self, i)

    def __hash__(self):
        return 7


COLUMNS = object()


class Table(object):
    """a column per meter, a row per AC type"""
    _vc_track = True

    def __init__(self, c):
        self.c, self.version = c, 0
        self.columns = COLUMNS
        self.cell = lambda j, t: (z3.RealVal(0), Tr)            # value, missing

    def __setitem__(self, key, v):
        e = lift(key)
        if e is None:
            raise Unsupported('table[%r]' % type(key))
        old = self.cell
        if isinstance(v, Series):
            new = lambda t: (v.val[t], z3.Not(v.present(t)))
        else:
            a, na = core.na_parts(v)
            if a is None:
                raise Unsupported('table[..] = %r' % type(v))
            new = lambda t: (to_real(a), na)

        def cell(j, t):
            (a, p), (b, q) = new(t), old(j, t)
            return z3.If(j == e, a, b), z3.If(j == e, p, q)
        self.cell = cell
        self.version += 1

    def dropna(self, **kw):
        t = Table(self.c)
        t.cell, t.columns = self.cell, self.columns
        return t

    def copy(self):
        return self.dropna()


@unit('mg.energy_per_meter', [MG + 'energy_per_meter', MG + 'identifier'], budget=60)
def mg_energy_per_meter(c, E):
    """column i holds the energy of meter i for each AC type it measures, for any number of meters"""
    M, n = meters_world(c, E)
    H, V = [c.fresh_fun('has ' + a, I, B) for a in AC], [c.fresh_fun('energy ' + a, I, R) for a in AC]
    i0 = c.fresh('i0', I)
    c.assume(z3.And(0 <= i0, i0 < n))
    per = [None, 'D'][c.choose(2)]
    kw = {'sections': 'S'} if per is None else {}
    if c.choose(2) == 0:
        kw['ac_type'] = 'active'
    if per and c.choose(2) == 0:
        kw['use_uptime'] = True
    tables = []
    M.stdout = ShimModule('stdout', flush=lambda: None)
    M.print = lambda *a, **k: None

    class Meter(object):
        _vc_track = False

        def __init__(self, i):
            self.i, self.identifier = i, Ident(i)

        def answer(self, k, want):
            c.prove('every meter is asked with the arguments given (AC type best unless given)', k == want)
            used('meter statistics')
            return Series([h(self.i) for h in H], [v(self.i) for v in V], idx=self.i)

        def total_energy(self, **k):
            return self.answer(k, dict({'ac_type': 'best'}, **kw) if per is None else None)

        def average_energy_per_period(self, offset_alias='D', **k):
            c.prove('the period asked for', offset_alias == per)
            return self.answer(k, dict({'ac_type': 'best', 'use_uptime': False}, **kw))

        def __format__(self, f):
            return 'meter'

    def frame(columns=None, index=None, **k):
        if k or not isinstance(columns, VSeq):
            raise Unsupported('DataFrame')
        m, at = columns.seq()
        c.prove('a column per meter', z3.And(m == n, lift(at(i0)) == i0))
        c.prove('a row per AC type', sorted(index) == AC)
        tables.append(Table(c))
        return tables[-1]
    M.pd = ShimModule('pandas', DataFrame=frame, Series=Series)
    M.AC_TYPES = AC
    M.tuple = lambda l=(): l

    class Spec(LoopSpec):
        name = 'meters'

        def match(self, loop):
            return isinstance(loop.it, VSeq) and concrete_items(loop.it) is None

        def havoc(self, loop, env, names):
            f, g = c.fresh_fun('cell', I, I, R), c.fresh_fun('missing', I, I, B)
            for t in tables:
                t.cell = lambda j, a: (f(j, z3.IntVal(a)), g(j, z3.IntVal(a)))
                t.version += 1
            self.dicts = [(d, dict(d)) for d in loop.entry.values() if type(d) is dict]
            for d, _ in self.dicts:
                if per and 'use_uptime' not in d and c.choose(2) == 0:     # an earlier iteration may have set it
                    d['use_uptime'] = False
            return {}

        def allow_mutation(self, loop):
            return tables + [d for d, _ in self.dicts]

        def inv(self, loop):
            k = loop.k
            out = [('the arguments stay, but for the default', z3.BoolVal(d == d0 or bool(per) and d == dict(d0, use_uptime=False)))
                   for d, d0 in getattr(self, 'dicts', [])]
            for tb in tables:
                for t in range(3):
                    v, na = tb.cell(i0, t)
                    out.append(('the column of a meter asked holds its energy', z3.And(
                        na == z3.Not(z3.And(i0 < k, H[t](i0))), z3.Implies(z3.And(i0 < k, H[t](i0)), v == V[t](i0)))))
            return out
    E.loop_specs.append(Spec())
    how = c.choose(4)                   # plain, with labels, with the remainder, with both
    mains, labels, rest = object(), object(), object()

    class Group(M.MeterGroup):
        def get_labels(self, ids, pretty=True):
            c.prove('the labels of its own columns', ids is COLUMNS and pretty is True)
            return labels

        def _energy_per_meter_with_remainder(self, table, m, p, **k):
            c.prove('the remainder of this table, with the arguments given', m is mains and p == per and
                    k == dict(dict({'ac_type': 'best'}, use_uptime=False) if per and k.get('use_uptime') is False and 'use_uptime' not in kw
                              else {'ac_type': 'best'}, **kw))
            return (rest, table)
    g = Group.__new__(Group)
    g.meters, g.disabled_meters = VList.symbolic(n, Meter, 'meters'), []
    r = g.energy_per_meter(per_period=per, mains=mains if how >= 2 else None, use_meter_labels=how in (1, 3), **kw)
    if how >= 2:
        c.prove('the remainder is added', isinstance(r, tuple) and r[0] is rest)
        r = r[1]
    if isinstance(r, Table):
        c.prove('labels just if asked for', r.columns is (labels if how in (1, 3) else COLUMNS))
    if not isinstance(r, Table):
        raise Unsupported('returned %r' % type(r))
    for t in range(3):
        v, na = r.cell(i0, t)
        c.prove('missing exactly where the meter does not measure the AC type', na == z3.Not(H[t](i0)))
        c.prove('the energy of the meter', z3.Implies(H[t](i0), v == V[t](i0)))


@unit('mg.remainder', [MG + '_energy_per_meter_with_remainder'], budget=60)
def mg_remainder(c, E):
    """the energy of each meter over its AC types, and what the mains (by the AC type most meters used, if they measure it) have beyond these"""
    M = E.load('nilmtk.metergroup')
    n, i0, S, EN = c.fresh('meters', I), c.fresh('i0', I), c.fresh('sum', R), c.fresh_fun('energy', I, R)
    has = [c.choose(2) == 0 for a in AC]        # the AC types of meter i0
    measured = [c.choose(2) == 0 for a in AC]   # of the mains
    best = c.choose(3)
    c.assume(z3.And(0 <= i0, i0 < n))
    per = [None, 'D'][c.choose(2)]
    kw = {'sections': 'S', 'ac_type': ['best', 'active'][c.choose(2)]}
    x = c.real('energy of the mains')
    TYPES = object()
    mine = [a for a, h in zip(AC, has) if h]

    class Used(object):
        def dropna(self):
            return type('Index', (), dict(index=list(mine)))()

    class Per(object):
        _vc_track = False
        rest, ordered = None, None

        def sum(self):
            return VNum(S if self.rest is None else S + to_real(self.rest))

        def __setitem__(self, k, v):
            c.prove('the remainder is called so', k == 'Remainder' and lift(v) is not None)
            self.rest = lift(v)

        def sort_values(self, inplace=False, ascending=True, **k):
            if k:
                raise Unsupported('sort_values')
            if inplace:
                self.ordered = not ascending
                return None
            r = Per()
            r.rest, r.ordered = self.rest, not ascending
            return r

    class Tab(object):
        def abstract_comp(self, f):
            c.prove('the AC types for which each meter has energy', list(f([i0])) == mine)
            return TYPES

        def __getitem__(self, k):
            if k is not i0:
                raise Unsupported('table[%r]' % (k,))
            return Used()

        def sum(self, axis=0):
            c.prove('over the AC types', axis in (0, 'index'))
            return Per()

    class Energy(object):
        def keys(self):
            return ['its AC type']

        def __getitem__(self, k):
            if k != 'its AC type':
                raise KeyError(k)
            return x

        @property
        def iloc(self):
            return {0: x}

    class Mains(object):
        def available_ac_types(self, q):
            c.prove('whatever the mains measure', sorted(q) == ['cumulative energy', 'energy', 'power'])
            return [a for a, h in zip(AC, measured) if h]

        def answer(self, k):
            c.prove('the mains by the AC type that most meters used, if they measure it',
                    k == dict(kw, ac_type=AC[best] if measured[best] else 'best'))
            return Energy()

        def total_energy(self, **k):
            c.prove('the energy of the mains', per is None)
            return self.answer(k)

        def average_energy_per_period(self, offset_alias='D', **k):
            c.prove('the energy of the mains per period', offset_alias == per)
            return self.answer(k)

    def common(l):
        c.prove('the most common AC type of all meters', l is TYPES)
        return AC[best]
    M.most_common = common
    g = M.MeterGroup.__new__(M.MeterGroup)
    r = g._energy_per_meter_with_remainder(Tab(), Mains(), per, **kw)
    if not isinstance(r, Per):
        raise Unsupported('returned %r' % type(r))
    c.prove('the remainder is what the mains have beyond the meters', to_real(r.rest) == to_real(lift(x)) - S if r.rest is not None else False)
    c.prove('largest first', r.ordered is True)


@unit('ut.most_common', ['nilmtk/utils.py:most_common'])
def ut_most_common(c, E):
    """an entry of the list that is in it as often as any"""
    M = E.load('nilmtk.utils')
    cnt, ARG = c.fresh('count', I), object()
    entry = object()

    class Lst(object):
        def count(self, e):
            if e is not entry:
                raise Unsupported('count')
            return VNum(cnt)
    LST = Lst()

    def lst(l):
        c.prove('of the list given', l is LST)
        return LST

    def distinct(l):
        c.prove('of the list given', l is LST)
        return [entry]                          # an arbitrary entry

    def largest(it, key=None):
        e = list(it)
        c.prove('the largest by the count of each entry', len(e) == 1 and e[0] is entry and key is not None and lift(key(entry)) is not None)
        c.prove('by its count', lift(key(entry)) == cnt)
        return ARG
    M.list, M.set, M.max = lst, distinct, largest
    c.prove('the entry with the largest count', M.most_common(LST) is ARG)


@unit('mg.fraction', [MG + 'fraction_per_meter'], budget=60)
def mg_fraction(c, E):
    """the energy of each meter (its largest AC type) as a fraction of their sum"""
    M = E.load('nilmtk.metergroup')
    n, X, S = c.fresh('meters', I), c.fresh_fun('largest', I, R), c.fresh('sum', R)
    c.assume(z3.And(n >= 1, S > 0))

    class Per(object):
        _vc_track = False

        def __init__(self, f, total):
            self.f, self.total = f, total

        def sum(self):
            return VNum(self.total)

        def __truediv__(self, o):
            e = to_real(lift(o))
            return Per(lambda i: self.f(i) / e, self.total / e)

        def div(self, o):
            return self / o

    class Tab(object):
        _vc_track = False

        def max(self, axis=0):
            c.prove('the largest AC type of each meter', axis in (0, 'index'))
            return Per(X, S)

    class Group(M.MeterGroup):
        def energy_per_meter(self, **k):
            c.prove('the arguments are passed on', k == {'ac_type': 'active', 'sections': 'S'})
            return Tab()
    g = Group.__new__(Group)
    g.meters, g.disabled_meters = [], []
    r = g.fraction_per_meter(ac_type='active', sections='S')
    if not isinstance(r, Per):
        raise Unsupported('returned %r' % type(r))
    i0 = c.fresh('i0', I)
    c.prove('its fraction of the sum', r.f(i0) * S == X(i0))
    c.prove('the fractions add up to one', r.total == 1)


# -- C34 ------------------------------------------------------------------------------------------------------
@unit('mg.train_test_split', [MG + 'train_test_split'], budget=120)
def mg_train_test_split(c, E):
    """the split lies in a good section, with the asked fraction of the records (to one sample period, or one second) before it"""
    M = E.load('nilmtk.metergroup')
    n = c.fresh('sections', I)
    c.assume(n >= 1)
    st, ln, cnt, NS = c.fresh_fun('start', I, R), c.fresh_fun('length', I, R), c.fresh_fun('records', I, I), c.fresh_fun('before', I, I)
    p, f = c.real('sample_period'), c.real('train_fraction')
    c.assume(z3.And(p.e > 0, f.e > 0, f.e < 1, NS(0) == 0))
    N = NS(n)
    c.assume(N >= 1)
    at = [z3.IntVal(0)]

    def unfold(k):
        inside = z3.And(0 <= k, k < n)
        c.assume(z3.Implies(inside, z3.And(ln(k) > 0, cnt(k) >= 0, cnt(k) * p.e <= ln(k), ln(k) < (cnt(k) + 1) * p.e,
                                           NS(k + 1) == NS(k) + cnt(k), NS(k + 1) <= N, NS(k) >= 0)))

    class Sect(object):
        _vc_track = False

        def __init__(self, i):
            self.start, self.end = VTimestamp(st(i)), VTimestamp(st(i) + ln(i))

        @property
        def timedelta(self):
            return self.end - self.start

    class Mains(object):
        def good_sections(self, **k):
            return VList.symbolic(n, Sect, 'sections')

        def sample_period(self):
            return p

    class Group(M.MeterGroup):
        def mains(self):
            return Mains()
    i0 = c.fresh('i0', I)
    c.assume(z3.And(0 <= i0, i0 < n))
    unfold(i0)
    unfold(z3.IntVal(0))

    def total(l):
        if not isinstance(l, VSeq) or concrete_items(l) is not None:
            raise Unsupported('sum')
        m, el = l.seq()
        c.prove('the records of every section are counted', z3.And(m == n, lift(el(i0)) == cnt(i0)))
        used('finite sums')
        return Total(N)

    class Total(VNum):
        __slots__ = ()
        __hash__ = None

        def __mul__(self, o):
            return VNum(G) if lift(o) is not None and (lift(o).eq(f.e) or half and isinstance(o, float) and o == 0.5) else VNum.__mul__(self, o)
        __rmul__ = __mul__
    G = c.fresh('train records', R)         # by name: train_fraction * N, between 0 and N
    c.assume(z3.And(0 < G, G < N))
    half = c.choose(2) == 0                 # the default
    if half:
        c.assume(f.e == z3.Q(1, 2))
    M.sum = total

    class Spec(LoopSpec):
        name = 'sections'

        def match(self, loop):
            return loop.kind == 'for' and isinstance(loop.it, VSeq) and concrete_items(loop.it) is None

        def vars(self, loop, env):
            return [x for x in sorted(loop.names) if isinstance(env.get(x), VNum)]

        def havoc(self, loop, env, names):
            return {x: VNum(c.fresh('h_' + x, R)) for x in self.vars(loop, loop.entry)}

        def inv(self, loop):
            return [('the records still to train on', z3.And(to_real(lift(loop.env[x])) == G - NS(loop.k),
                                                             to_real(lift(loop.env[x])) > 0))
                    for x in self.vars(loop, loop.entry)]

        def on_item(self, loop, item):
            at[0] = loop.k
            unfold(loop.k)
            unfold(loop.k + 1)
    E.loop_specs.append(Spec())
    g = Group.__new__(Group)
    g.meters, g.disabled_meters = [], []
    r = g.train_test_split() if half else g.train_test_split(train_fraction=f)
    if not isinstance(r, VTimestamp):
        c.prove('a time', False)
        return
    k = at[0]

    def ok(q):
        d = r.e - st(q)
        return z3.And(0 <= q, q < n, 0 <= d, d <= ln(q), NS(q) * p.e + d <= G * p.e,
                      z3.Or(NS(q) * p.e + d > G * p.e - 1, NS(q) * p.e + d > G * p.e - p.e))
    unfold(k)
    unfold(k + 1)
    c.prove('the split', z3.Or(ok(k), ok(k + 1)))
