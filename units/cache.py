"""Contracts of the cached statistics of a meter (C25).

One arbitrary section s0 of the query is followed through the code: collections of sections are known only by
whether they hold s0 (and by whether they can hold others); a table of results by its rows for s0."""
import z3
from vc import core
from vc.core import Unsupported, PathEnd
from vc.models import note, ShimModule
from vc.loops import LoopSpec
from vc.core import VSeq
from vc.seqs import VList, v_sorted
from vc.unit import unit

EM = 'nilmtk/elecmeter.py:ElecMeter.'

note('sections of a query', 'the sections of a query are distinct and do not overlap; sections with the same start and '
                            'end are equal whether or not they include their end (C05)')
note('cache', 'a table of the cache holds, for the key it was written under, at most one row per section, as written by '
              'earlier queries; append, put and remove of the store change that table only')


class Sec(object):
    """the arbitrary section"""
    _vc_track = False

    def __init__(self, W, empty):
        self.W, self.empty, self.include_end = W, empty, None

    def __bool__(self):
        return not self.empty


class Coll(object):
    """a list or set of sections"""
    _vc_track = False

    def __init__(self, W, has, others=True):
        self.W, self.has, self.others = W, has, others

    def like(self, has, others=None):
        return Coll(self.W, has, self.others if others is None else others)

    def abstract_comp(self, f):
        if not self.has:
            return self.like(False)
        r = list(f([self.W.s0]))
        if any(x is not self.W.s0 for x in r) or len(r) > 1:
            raise Unsupported('a list made from sections')
        return self.like(bool(r))

    def coll(self, o):
        if isinstance(o, Coll):
            return o
        if isinstance(o, (list, VList, set)) and not list(o):
            return Coll(self.W, False, False)
        raise Unsupported('set operation with %r' % type(o))

    def __sub__(self, o):
        return self.like(self.has and not self.coll(o).has)

    difference = __sub__

    def __and__(self, o):
        o = self.coll(o)
        return self.like(self.has and o.has, self.others and o.others)

    intersection = __and__

    def __or__(self, o):
        o = self.coll(o)
        return self.like(self.has or o.has, self.others or o.others)

    union = __add__ = __or__

    def __contains__(self, x):
        if x is self.W.s0:
            return self.has
        raise Unsupported('section in sections')

    def __bool__(self):
        if self.has:
            return True
        return bool(self.others and core.ctx().choose(2))

    def copy(self):
        return self.like(self.has)

    def __eq__(self, o):
        raise Unsupported('comparison of collections of sections')
    __ne__ = __eq__
    __hash__ = None

    def __iter__(self):
        raise Unsupported('iteration over sections')

    def __len__(self):
        raise Unsupported('number of sections')
    vlen = __len__


class Simple(object):
    _vc_track = False

    def __init__(self, W, rows):
        self.W, self.rows = W, list(rows)

    def keys(self):
        if self.W.scalar:
            raise AttributeError("no attribute 'keys'")
        return list(self.W.keys(self.rows))

    @property
    def empty(self):
        return not self.W.keys(self.rows)

    def __getitem__(self, k):
        return ('selected', self, sorted(k))


class Stat(object):
    """a table read from, or to be written to, the cache"""
    _vc_track = False

    def __init__(self, W, rows, others, key=None):
        self.W, self.rows, self.others, self.key = W, list(rows), others, key
        self._empty = None

    @property
    def empty(self):
        if self.rows:
            return False
        if self._empty is None:
            self._empty = not (self.others and core.ctx().choose(2))
        return self._empty


class Res(object):
    """a Results object: `rows` are those for s0: 'cached', 'whole' or 'parts' of the section"""
    _vc_track = False
    name = 'thestat'

    def __init__(self, W, rows=(), others=False):
        self.W, self.rows, self.others, self.src = W, list(rows), others, None

    def copy(self):
        return Res(self.W, self.rows, self.others)

    @property
    def _data(self):
        return Stat(self.W, self.rows, self.others)

    def import_from_cache(self, stat, sections):
        W = self.W
        if not isinstance(stat, Stat) or stat.key is None or not isinstance(sections, (Coll, list, VList)):
            raise Unsupported('import')
        if self.rows or self.others:
            raise Unsupported('import into results')
        has = isinstance(sections, Coll) and sections.has
        if has:
            W.reads.append(stat.key)
        self.rows = ['cached'] if has and stat.rows else []
        self.others = True

    def timeframes(self):
        return Coll(self.W, any(r != 'parts' for r in self.rows), self.others)

    def independent(self, sections):
        W = self.W
        if not isinstance(sections, Coll):
            raise Unsupported('independent')
        W.c.prove('what is independent is judged from all sections', sections.has == W.here)
        return sections.like(sections.has and W.indep)

    def update(self, o):
        if not isinstance(o, Res):
            raise Unsupported('update')
        self.W.c.prove('results for a section are merged once', not (self.rows and o.rows))
        self.rows += o.rows
        self.others = self.others or o.others

    def for_timeframes(self, tfs):
        keep = isinstance(tfs, Coll) and tfs.has
        if not isinstance(tfs, Coll) and list(tfs):
            raise Unsupported('for_timeframes')
        return Res(self.W, [r for r in self.rows if keep and r != 'parts'],
                   self.others and isinstance(tfs, Coll) and tfs.others)

    def export_to_cache(self):
        return Stat(self.W, self.rows, self.others)

    def simple(self):
        s = Simple(self.W, self.rows)
        s.src = self
        return s

    combined = simple


class Cache(object):
    _vc_track = False

    def __init__(self, W):
        self.W = W

    def table(self, key):
        return self.W.table(key)

    def __getitem__(self, key):
        return self.W.get(key)

    def check(self, key, stat):
        W, c = self.W, self.W.c
        if not isinstance(stat, Stat):
            raise Unsupported('stored table')
        c.prove('nothing is stored of a query that changes the data', not W.preproc)
        if stat.rows:
            c.prove('only a section of the query is stored', W.here)
            c.prove('only results for the whole section are stored', 'parts' not in stat.rows)
            c.prove('a result that depends on other sections is not stored', W.indep)
            c.prove('it is stored where it is looked for', key in W.reads)
            c.prove('it is stored once', len(stat.rows) == 1)

    def append(self, key, stat):
        W, c = self.W, self.W.c
        self.check(key, stat)
        if W.free and c.choose(2):
            raise ValueError('columns differ')
        if stat.rows:
            c.prove('a stored result is not stored again', not W.table(key))
            W.tables[key] = True

    def remove(self, key):
        self.W.tables[key] = False

    def put(self, key, stat):
        self.check(key, stat)
        self.W.tables[key] = bool(stat.rows)


class World(object):
    """columns: of the query; given: sections are named; here: s0 is one of them, and not empty"""

    def __init__(self, c, columns=(), given=True, here=True, empty=False, include_end=False, preproc=False,
                 fixed=None, free=False):
        self.c, self.columns, self.given, self.preproc = c, list(columns), given, preproc
        self.here = here and not empty
        self.free, self.known = free, {}        # free: everything else is arbitrary, chosen when it matters
        self.s0 = Sec(self, empty)
        self.s0.include_end = include_end
        self.listed = here
        self.reads, self.tables, self.fixed, self.computed, self.keynames = [], {}, fixed, [], []

    def choice(self, what, n, otherwise):
        if not self.free:
            return otherwise
        if what not in self.known:
            self.known[what] = self.c.choose(n)
        return self.known[what]

    indep = property(lambda self: bool(self.choice('independent', 2, 1)) or not self.here)
    parts = property(lambda self: bool(self.choice('parts', 2, 0)))
    scalar = property(lambda self: not self.choice('keys', 2, 0))

    def keys(self, rows):
        return [(), ('active', 'reactive'), ('active',)][self.choice(('keys', bool(rows)), 3 if rows else 2, 1)]

    def table(self, key):
        """does the table hold a row for s0?"""
        if not isinstance(key, tuple) or key[0] != 'key':
            raise Unsupported('a key that is not made by key_for_cached_stat')
        if key not in self.tables:
            self.tables[key] = bool(self.c.choose(2)) if self.fixed is None else self.fixed
        return self.tables[key]

    def get(self, key):
        has = self.table(key)
        return Stat(self, ['cached'] if has else [], True, key)


def run(c, E, W, kwargs, results=None):
    """call the real method on a meter of which everything else is its contract"""
    M = E.load('nilmtk.elecmeter')
    m = M.ElecMeter.__new__(M.ElecMeter)
    d = m.__dict__
    d['key_for_cached_stat'] = lambda name: ('key', str(name))
    d['get_cached_stat'] = W.get
    d['cache'] = Cache(W)
    d['get_timeframe'] = lambda: W.s0

    def convert(physical_quantity=None, ac_type=None, columns=None, **kw):
        kw['columns'] = list(W.columns)
        return kw
    d['_convert_physical_quantity_and_ac_type_to_cols'] = convert
    given = dict(kwargs)
    nodes = ['the nodes']

    class Node(object):
        pass

    def compute(ns, kw):
        c.prove('the statistic asked for is computed', ns is nodes)
        kw = dict(kw)
        secs = kw.pop('sections', None)
        has = secs.has if isinstance(secs, Coll) else None
        if has is None:
            raise Unsupported('sections to compute')
        want = {k: v for k, v in given.items() if k not in ('sections', 'full_results', 'ac_type')}
        if W.columns:
            want['columns'] = list(W.columns)
        c.prove('it is computed with the arguments of the query', set(kw) == set(want) and
                all(list(kw[k]) == list(want[k]) if k == 'columns' else kw[k] is want[k] for k in want))
        W.computed.append(has)
        n = Node()
        n.results = Res(W, [('parts' if W.parts else 'whole')] if has else [], True)
        return n
    d['_compute_stat'] = compute
    M.deepcopy = lambda x: x.copy() if isinstance(x, Res) else x
    M.set = lambda *a: a[0].copy() if a and isinstance(a[0], Coll) else set(*a)
    M.sorted = lambda x, **k: x.copy() if isinstance(x, Coll) else v_sorted(x, **k)
    M.list = lambda *a: a[0].copy() if a and isinstance(a[0], Coll) else VList(*a)

    def group(x=None):
        if isinstance(x, Coll):
            return x.copy()
        its = list(x) if x is not None else []
        if any(i is not W.s0 for i in its) or len(its) > 1:
            raise Unsupported('sections')
        return Coll(W, bool(its), False)
    M.TimeFrameGroup = group

    def series(data, index=None):
        return ('series', data, sorted(index))
    M.pd = ShimModule('pandas', Series=series)
    return m._get_stat_from_cache_or_compute(nodes, Res(W) if results is None else results, kwargs)


COLUMNS = [[], [('power', 'active'), ('energy', 'reactive'), ('voltage', '')]]


@unit('cs.get', [EM + '_get_stat_from_cache_or_compute'], budget=120)
def cs_get(c, E):
    """the result holds each section once, from the cache only what was stored for it; what is stored is the result
    for a whole section that was not there, under the key where it is looked for"""
    given = c.choose(2) == 1
    here, empty = True, False
    if given:
        k = c.choose(3)
        here, empty = k != 1, k == 2
    else:
        empty = c.choose(2) == 1
    cols = COLUMNS[c.choose(len(COLUMNS))]
    W = World(c, columns=cols, given=given, here=here, empty=empty, include_end=bool(c.choose(2)) if given else False,
              preproc=c.choose(2) == 1, free=True)
    kw = {}
    if given:
        kw['sections'] = Coll(W, here)
    if cols == COLUMNS[1] and c.choose(2):
        kw['ac_type'] = 'asked'
    elif cols:
        kw['columns'] = list(cols)
    if W.preproc:
        kw['preprocessing'] = object()
    full = c.choose(2) == 1
    if full:
        kw['full_results'] = True
    final = []
    r = run(c, E, W, dict(kw))
    ac = {t for _, t in cols if t}
    if full:
        c.prove('the full results are returned', isinstance(r, Res))
        res = r
    else:
        s = r
        if isinstance(r, tuple) and r[0] == 'series':
            ok = isinstance(r[1], tuple) and r[1][0] == 'selected'
            c.prove('the AC types asked for are returned', ok and r[1][2] == sorted(ac) and r[2] == sorted(ac))
            s = r[1][1]
        else:
            c.prove('all is returned when no AC type is asked for, or there are none',
                    not ac or W.scalar or (isinstance(r, Simple) and r.empty))
        c.prove('the simple result is returned', isinstance(s, Simple))
        res = s.src
    if not isinstance(res, Res):
        raise Unsupported('result')
    c.prove('a section of the query is in the result once, no other', len(res.rows) == (1 if W.here else 0))
    c.prove('it is computed at most once', sum(W.computed) <= 1)
    c.prove('a section is looked for under one key', len(set(W.reads)) <= 1)
    if W.preproc:
        c.prove('a query that changes the data does not use the cache', not W.reads and 'cached' not in res.rows)
    if W.here and not W.indep:
        c.prove('a section whose result depends on others is computed', sum(W.computed) == 1)
        c.prove('it is not taken from the cache', not W.reads and 'cached' not in res.rows)
    if W.here and W.indep and not W.preproc and sum(W.computed) == 0:
        c.prove('a section that is not computed is in the cache', res.rows == ['cached'])


@unit('cs.names', [EM + '_get_stat_from_cache_or_compute'])
def cs_names(c, E):
    """sections that differ in columns, in the statistic or in including their end are kept under different keys"""
    U = [[], [('power', 'active')], [('power', 'reactive')], [('energy', 'active')], [('power', '')],
         [('power', 'active'), ('power', 'reactive')], [('power', 'active'), ('energy', 'active')],
         [('power', 'active'), ('power', 'reactive'), ('energy', 'active')], [('cumulative energy', 'active')],
         [('voltage', '')], [('power', 'active'), ('voltage', '')]]
    seen = {}
    for name in ('total_energy', 'dropout_rate', 'good_sections'):
        for cols in U:
            for inc in (False, True):
                W = World(c, columns=cols, include_end=inc, fixed=False)
                R = Res(W)
                R.name = name
                R.copy = lambda R=R, W=W: named(W, R)
                run(c, E, W, dict(sections=Coll(W, True, False), columns=list(cols)) if cols else
                    dict(sections=Coll(W, True, False)), R)
                ks = set(W.reads) | {k for k, v in W.tables.items() if v}
                c.prove('one key', len(ks) == 1)
                for k in ks:
                    c.prove('the key is of this statistic, these columns and this kind of section only', k not in seen)
                    seen[k] = (name, cols, inc)
                W2 = World(c, columns=list(reversed(cols)), include_end=inc, fixed=True)
                R = Res(W2)
                R.name = name
                R.copy = lambda R=R, W=W2: named(W, R)
                run(c, E, W2, dict(sections=Coll(W2, True, False), columns=list(reversed(cols))) if cols else
                    dict(sections=Coll(W2, True, False)), R)
                c.prove('it is found there again', set(W2.reads) == ks and not W2.computed)


def named(W, R):
    r = Res(W, R.rows, R.others)
    r.name = R.name
    return r


@unit('cs.key', [EM + 'key_for_cached_stat'])
def cs_key(c, E):
    """meters and statistics have keys of their own"""
    M = E.load('nilmtk.elecmeter')
    keys = {}

    class Int(int):
        """an arbitrary whole number, printed as a token"""
        _vc_track = False

        def __new__(cls, tok):
            o = int.__new__(cls, 0)
            o.tok = tok
            return o

        def __format__(self, spec):
            return self.tok

        def __str__(self):
            return self.tok
    ins = [Int('<i>'), Int('<j>'), (Int('<i>'), Int('<j>')), (Int('<j>'), Int('<i>')), (Int('<i>'), Int('<i>')),
           (Int('<i>'), Int('<j>'), Int('<i>'))]
    for d in (None, '<d>', '<e>'):
        for b in (Int('<i>'), Int('<j>')):
            for i in ins:
                for s in ('<s>', '<t>'):
                    m = M.ElecMeter.__new__(M.ElecMeter)
                    m.__dict__.update(instance=lambda i=i: i, building=lambda b=b: b, dataset=lambda d=d: d)
                    k = m.key_for_cached_stat(s)
                    c.prove('numbers are kept apart', '><' not in k)
                    c.prove('the key of another meter or statistic is another one', k not in keys)
                    keys[k] = 1
                    c.prove('the statistics of a meter lie below the key it clears',
                            k == m.key_for_cached_stat('') + s)


@unit('cs.table', [EM + 'get_cached_stat'])
def cs_table(c, E):
    """the cached table, or an empty one"""
    M = E.load('nilmtk.elecmeter')
    k = c.choose(3)
    table, new = object(), object()
    asked = []

    class Store(object):
        _vc_track = False

        def __getitem__(self, key):
            asked.append(key)
            if k == 0:
                raise KeyError(key)
            return None if k == 1 else table
    M.pd = ShimModule('pandas', DataFrame=lambda: new)
    m = M.ElecMeter.__new__(M.ElecMeter)
    m.__dict__['cache'] = Store()
    r = m.get_cached_stat('the key')
    c.prove('the key is looked up', asked == ['the key'])
    c.prove('the cached table is returned; an empty one when there is none', r is (table if k == 2 else new))


# ------------------------------------------------------------------ tables of results, to and from the cache
from vc import tables as TB, fold                                                                          # noqa: E402
from vc.core import VTimestamp, VNum, mkbool, mknum, lift, zb                                              # noqa: E402
from vc.fold import Counting, FoldSpec, Picked                                                             # noqa: E402
from vc.seqs import SymIter                                                                                # noqa: E402
from units.tfcommon import same, NaT                                                                       # noqa: E402
from units.results import table                                                                            # noqa: E402

RS = 'nilmtk/results.py:Results.'
GR = 'nilmtk/stats/goodsectionsresults.py:GoodSectionsResults.'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

note('table.loc', 'table.loc[start] of a cached table: KeyError when no row has this label, a Series when one has, a table of the '
                  'rows in order when several have; groupby visits each label once, with all its rows in order; '
                  'table.loc[mask] has exactly the rows at which the mask is True')
note('to_numeric', 'pd.to_numeric(errors="ignore") turns a time into the nanoseconds of the same instant in UTC and leaves the '
                   'order of rows; the store gives back what was stored')


@unit('ut.localize', ['nilmtk/utils.py:tz_localize_naive', 'nilmtk/utils.py:timestamp_is_naive'])
def ut_localize(c, E):
    """what was a time comes back as the same instant, in the time zone of the table"""
    M = E.load('nilmtk.utils')
    nat = object()

    class TS(object):
        """an instant, with or without time zone (then in UTC)"""
        _vc_track = False

        def __init__(self, x, tz=None):
            self.at, self.tz = (x.at, x.tz) if isinstance(x, TS) else (x.e, tz)

        @property
        def tzinfo(self):
            class Zone(object):
                def utcoffset(self, t):
                    return 0
            return None if self.tz is None else Zone()

        def tz_localize(self, tz):
            c.prove('only naive times are localized', self.tz is None)
            c.prove('naive times are taken as UTC', tz in ('UTC', 'utc'))
            return TS(VNum(self.at), 'UTC')

        def tz_convert(self, tz):
            c.prove('only aware times are converted', self.tz is not None)
            return TS(VNum(self.at), tz)
    M.pd = ShimModule('pandas', Timestamp=TS, NaT=nat, isnull=lambda x: x is None or x is nat)
    tz = [None, 'Europe/London', 'UTC'][c.choose(3)]
    k = c.choose(5)
    x = c.fresh('at', I)
    v = [None, nat, VNum(x), TS(VNum(x)), TS(VNum(x), 'UTC')][k]
    if tz is None and k == 4:
        raise PathEnd()
    r = M.tz_localize_naive(v, tz)
    if k < 2:
        c.prove('no time stays no time', r is nat)
        return
    c.prove('a time comes back', isinstance(r, TS))
    c.prove('it is the same instant', r.at == x)
    c.prove('it is in the time zone of the table', r.tz == tz)


@unit('rs.timeframes', [RS + 'timeframes'])
def rs_timeframes(c, E):
    """one time frame per row, in order"""
    M = E.load('nilmtk.results')
    t = table(c, E, 'tab')
    r = M.Results()
    r._data = t
    l = r.timeframes()
    n, at = l.seq()
    c.prove('as many as rows', n == t.n)
    i = c.fresh('i0', I)
    c.assume(z3.And(0 <= i, i < t.n))
    c.assume(t.fs(i) < t.fe(i))
    if not c.feasible():
        raise PathEnd()
    f = at(i)
    c.prove('time frame i is the period of row i', z3.And(same(f.start, VTimestamp(t.fs(i))), same(f.end, VTimestamp(t.fe(i)))))


class Mask(object):
    _vc_track = False

    def __init__(self, l):
        self.l = l

    @property
    def values(self):
        return self

    to_numpy = lambda self: self


@unit('rs.for_timeframes', [RS + 'for_timeframes', RS + 'timeframes', RS + 'independent'])
def rs_for_timeframes(c, E):
    """the rows of exactly the given periods; the results themselves stay as they are"""
    M = E.load('nilmtk.results')
    t = table(c, E, 'tab')
    given = c.fresh_fun('given', R, R, B)

    class Given(object):
        _vc_track = False

        def __contains__(self, tf):
            return mkbool(given(tf.start.e, tf.end.e))
    masks = []

    class Loc(object):
        _vc_track = False

        def __getitem__(self, m):
            if not isinstance(m, Mask):
                raise Unsupported('loc')
            masks.append(m)
            return ('rows', m)
    t.__class__ = type('T', (type(t),), {'loc': property(lambda s: Loc())})
    M.pd = ShimModule('pandas', Series=lambda l, dtype=None, **k: Mask(l), DataFrame=M.pd.DataFrame)
    r = M.Results()
    r._data = t
    r.more = more = object()
    g = Given()
    f = r.for_timeframes(g)
    c.prove('the results stay as they are', r._data is t and f is not r and not t.over and not t.extra)
    c.prove('everything else is kept', type(f) is type(r) and f.more is more)
    c.prove('rows are selected once', len(masks) == 1 and f._data == ('rows', masks[0]))
    n, at = masks[0].l.seq() if isinstance(masks[0].l, VList) else (None, None)
    if n is None:
        raise Unsupported('mask')
    c.prove('the mask has one entry per row', n == t.n)
    i = c.fresh('i0', I)
    c.assume(z3.And(0 <= i, i < t.n))
    c.assume(t.fs(i) < t.fe(i))
    if not c.feasible():
        raise PathEnd()
    c.prove('a row is kept exactly when its period is given', zb(at(i)) == given(t.fs(i), t.fe(i)))
    s = object()
    c.prove('results do not depend on other sections', r.independent(s) is s)


class Cell(object):
    """a stored time"""
    _vc_track = False

    def __init__(self, e, null=None):
        self.e, self.null = e, null


class Row(object):
    """row (i, k): the k-th row of the i-th label"""
    _vc_track = False

    def __init__(self, T, i, k, end=None, copied=False):
        self.T, self.i, self.k, self.end, self.copied = T, i, k, end, copied

    def astype(self, t):
        return Row(self.T, self.i, self.k, self.end, True)

    copy = lambda self: self.astype(None)

    def __getitem__(self, col):
        if col != 'end':
            raise Unsupported('column %r' % col)
        return Cell(self.T.raw(self.i, self.k)) if self.end is None else self.end

    def __setitem__(self, col, v):
        if col != 'end' or not self.copied:
            raise Unsupported('assignment to a row')
        self.end = v


class Many(object):
    _vc_track = False

    def __init__(self, T, i):
        self.T, self.i = T, i

    @property
    def shape(self):
        return (mknum(self.T.m(self.i)), 3)

    vlen = lambda self: mknum(self.T.m(self.i))

    @property
    def iloc(self):
        T, i = self.T, self.i

        class At(object):
            def __getitem__(self, k):
                e = k.e if isinstance(k, VNum) else z3.IntVal(k)
                T.c.prove('the row is inside the table', z3.And(0 <= e, e < T.m(i)))
                return Row(T, i, e)
        return At()

    def iterrows(self):
        return SymIter(self.T.m(self.i), lambda k: (VTimestamp(self.T.start(self.i)), Row(self.T, self.i, k)), 'rows of label',
                       src=self)


class CachedTable(object):
    _vc_track = False

    def __init__(self, c):
        self.c = c
        f = c.fresh_fun
        self.m, self.raw, self.local = f('rows', I, I), f('stored_end', I, I, R), f('localized', R, R)
        self.start, self.end, self.some = f('start', I, R), f('end', I, R), f('nonempty', I, B)
        self.isempty = c.choose(2) == 1
        self.n = c.fresh('sections', I)
        c.assume(self.n >= 0)
        self.i0, self.k0 = c.fresh('i0', I), c.fresh('k0', I)

    empty = property(lambda self: self.isempty)

    @property
    def loc(self):
        T = self

        class At(object):
            def __getitem__(self, s):
                if not isinstance(s, VTimestamp) or not s.e.decl().eq(T.start):
                    raise Unsupported('label')
                i = s.e.arg(0)
                T.c.assume(T.m(i) >= 0)
                T.c.prove('the cached table is read only when it holds rows', not T.isempty)
                if T.c.branch(T.m(i) == 0):
                    raise KeyError(s)
                if T.c.branch(T.m(i) == 1):
                    return Row(T, i, z3.IntVal(0))
                return Many(T, i)
        return At()

    def section(self, i):
        T = self

        class S(object):
            _vc_track = False
            start, end = VTimestamp(T.start(i)), VTimestamp(T.end(i))
            empty = property(lambda s: mkbool(z3.Not(T.some(i))))

            def __bool__(s):
                return T.c.branch(T.some(i))
        return S()

    def match(self, i, k):
        return z3.And(self.some(i), 0 <= k, k < self.m(i), self.local(self.raw(i, k)) == self.end(i))

    def worth(self, x):
        if not isinstance(x, Row) or x.T is not self:
            raise Unsupported('a row of the result')
        self.c.prove('the row keeps its values; its end is the time that was stored',
                     x.end is not None and isinstance(x.end, VTimestamp) and
                     x.end.e.eq(self.local(self.raw(x.i, x.k))))
        return z3.If(z3.And(x.i == self.i0, x.k == self.k0), 1, 0)


@unit('rs.import', [RS + 'import_from_cache'])
def rs_import(c, E):
    """exactly the stored rows whose start and end are those of a section that is asked for, each once per section"""
    M = E.load('nilmtk.results')
    T = CachedTable(c)
    out = []

    class Data(object):
        _vc_track = False

        def __init__(self, l):
            self.l, self.sorts = l, 0
            out.append(self)

        def sort_index(self, inplace=False):
            self.sorts += 1
            return None if inplace else self
    M.pd = ShimModule('pandas', Series=Row, DataFrame=lambda l=None, columns=None, **k: Data(l))
    M.get_tz = lambda df: ('zone of', df)

    def localize(x, tz):
        c.prove('the time zone is that of the cached table', tz == ('zone of', T))
        if not isinstance(x, Cell):
            raise Unsupported('localize')
        return VTimestamp(T.local(x.e))
    M.tz_localize_naive = localize
    r = M.Results()
    before = r._data
    cur = {}

    class Sections(Counting):
        def on_item(self, loop, item):
            cur['i'] = loop.k

    def outer(loop, k):
        return z3.If(z3.And(0 <= T.i0, T.i0 < k, T.match(T.i0, T.k0)), 1, 0)

    def inner(loop, k):
        i = cur['i']
        return outer(loop, i) + z3.If(z3.And(T.i0 == i, T.k0 < k, T.match(T.i0, T.k0)), 1, 0)
    secs = SymIter(T.n, T.section, 'sections')
    E.loop_specs.append(Sections('sections', lambda lp: getattr(lp.it, 'tag', '') == 'sections', T.worth, outer))
    E.loop_specs.append(Counting('rows', lambda lp: lp.kind == 'for' and getattr(lp.it, 'tag', '') != 'sections', T.worth, inner))
    r.import_from_cache(T, secs)
    if T.isempty:
        c.prove('without cached rows nothing changes', r._data is before)
        return
    d = r._data
    c.prove('the result holds the rows found, in order of time', isinstance(d, Data) and d is not before and d.sorts >= 1)
    cnt = E.loop_specs[0].value(d.l) if isinstance(d.l, VList) else None
    if cnt is None:
        raise Unsupported('rows')
    c.prove('row k0 of section i0 is in the result once exactly when its period is that of the section',
            cnt == z3.If(z3.And(0 <= T.i0, T.i0 < T.n, T.match(T.i0, T.k0)), 1, 0))


class Log(object):
    _vc_track = True

    def __init__(self):
        self.version, self.count = 0, z3.IntVal(0)


class Groups(object):
    """the cached good sections: label i, end (i, j), row (i, j, k)"""
    _vc_track = False

    def __init__(self, c):
        self.c = c
        f = c.fresh_fun
        self.n, self.m, self.nr = c.fresh('labels', I), f('ends', I, I), f('rows', I, I, I)
        self.start, self.end = f('start', I, R), f('end', I, I, R)
        self.s, self.e = f('section_start', I, I, I, R), f('section_end', I, I, I, R)
        self.sn, self.en = f('no_start', I, I, I, B), f('no_end', I, I, I, B)
        self.local = f('localized', R, R)
        self.asked = f('asked', R, R, B)
        self.i0, self.j0 = c.fresh('i0', I), c.fresh('j0', I)
        c.assume(self.n >= 0)

    empty = property(lambda self: mkbool(self.n == 0))

    def groupby(self, by=None, level=None, **k):
        if by is not None or level != 0 or k:
            raise Unsupported('groupby')
        return SymIter(self.n, lambda i: (VTimestamp(self.start(i)), Label(self, i)), 'labels')


class Label(object):
    _vc_track = False

    def __init__(self, T, i):
        self.T, self.i = T, i

    def groupby(self, by=None, **k):
        T, i = self.T, self.i
        if by != 'end' or k:
            raise Unsupported('groupby')
        T.c.assume(T.m(i) >= 1)
        return SymIter(T.m(i), lambda j: (Cell(T.end(i, j)), Ends(T, i, j)), 'ends')


class Ends(object):
    _vc_track = False

    def __init__(self, T, i, j):
        self.T, self.i, self.j = T, i, j

    def iterrows(self):
        T, i, j = self.T, self.i, self.j
        T.c.assume(T.nr(i, j) >= 1)

        def row(k):
            return (VTimestamp(T.start(i)), {'end': Cell(T.end(i, j)), 'section_start': Cell(T.s(i, j, k), T.sn(i, j, k)),
                                             'section_end': Cell(T.e(i, j, k), T.en(i, j, k))})
        return SymIter(T.nr(i, j), row, 'rows')


@unit('gsr.import', [GR + 'import_from_cache'])
def gsr_import(c, E):
    """the stored sections of each period that is asked for, in order, under that period"""
    M = E.load('nilmtk.stats.goodsectionsresults')
    TM = E.load('nilmtk.timeframe')
    T, log = Groups(c), Log()
    M.get_tz = lambda df: ('zone of', df)

    def localize(x, tz):
        c.prove('the time zone is that of the cached table', tz == ('zone of', T))
        if not isinstance(x, Cell):
            raise Unsupported('localize')
        if x.null is not None and c.branch(x.null):
            return NaT
        return VTimestamp(T.local(x.e))
    M.tz_localize_naive = localize
    cur = {}

    class Secs(object):
        _vc_track = False

        def __contains__(self, f):
            return mkbool(T.asked(f.start.e, f.end.e))

    def bound(x, e, null):
        if x is None:
            return null
        return z3.And(z3.Not(null), x.e == T.local(e))

    def valid(i, j, k):
        # what was stored was a time frame
        return z3.And(T.local(T.end(i, j)) > T.start(i),
                      z3.Implies(z3.And(z3.Not(T.sn(i, j, k)), z3.Not(T.en(i, j, k))),
                                 T.local(T.s(i, j, k)) < T.local(T.e(i, j, k))))

    def good(i, j):
        return T.asked(T.start(i), T.local(T.end(i, j)))

    class Res(M.GoodSectionsResults):
        _vc_track = False

        def append(self, tf, new):
            i, j = cur['i'], cur['j']
            c.prove('only a period that is asked for is read', good(i, j))
            c.prove('the sections are kept under their period',
                    z3.And(same(tf.start, VTimestamp(T.start(i))), same(tf.end, VTimestamp(T.local(T.end(i, j))))))
            ss = list(new.get('sections', [])) if set(new) == {'sections'} else []
            c.prove('one list of sections is stored', len(ss) == 1 and isinstance(ss[0], VList))
            c.prove('it has all sections of the period in order', ss[0].token == inner.end_token() and not ss[0].tail)
            log.version += 1
            log.count = log.count + z3.If(z3.And(i == T.i0, j == T.j0), 1, 0)
    r = Res.__new__(Res)

    def step(loop, item, new):
        i, j, k = cur['i'], cur['j'], loop.k
        c.prove('one section per stored row', len(new) == 1)
        f = new[0]
        c.prove('the section begins and ends where it did', z3.And(bound(f.start, T.s(i, j, k), T.sn(i, j, k)),
                                                                   bound(f.end, T.e(i, j, k), T.en(i, j, k))))

    class Rows(FoldSpec):
        def on_item(self, loop, item):
            i, j, k = cur['i'], cur['j'], loop.k
            c.assume(valid(i, j, k))
    inner = Rows('rows', lambda lp: getattr(lp.it, 'tag', '') == 'rows', step)

    class Lab(Counting):
        def on_item(self, loop, item):
            cur['i'] = loop.k

    class En(Counting):
        def on_item(self, loop, item):
            cur['j'] = loop.k
            c.assume(valid(cur['i'], loop.k, z3.IntVal(0)))

    def outer_n(loop, k):
        return z3.If(z3.And(0 <= T.i0, T.i0 < k, 0 <= T.j0, T.j0 < T.m(T.i0), good(T.i0, T.j0)), 1, 0)

    def ends_n(loop, k):
        i = cur['i']
        return outer_n(loop, i) + z3.If(z3.And(T.i0 == i, 0 <= T.j0, T.j0 < k, good(i, T.j0)), 1, 0)
    E.loop_specs += [Lab('labels', lambda lp: getattr(lp.it, 'tag', '') == 'labels', None, outer_n, [log]),
                     En('ends', lambda lp: getattr(lp.it, 'tag', '') == 'ends', None, ends_n, [log]), inner]
    E.roots = list(getattr(E, 'roots', [])) + [log]
    r.import_from_cache(T, Secs())
    c.prove('each period that is asked for is read once, with its sections',
            log.count == z3.If(z3.And(0 <= T.i0, T.i0 < T.n, 0 <= T.j0, T.j0 < T.m(T.i0), good(T.i0, T.j0)), 1, 0))


@unit('gsr.independent', [GR + 'independent', GR + 'periods_are_adjacent'], sizes=[0, 1, 2, 3])
def gsr_independent(c, E):
    """sections that no other section of the query is adjacent to"""
    M = E.load('nilmtk.stats.goodsectionsresults')
    TM = E.load('nilmtk.timeframe')
    n = c.fresh('sections', I) if E.size is None else z3.IntVal(E.size)
    c.assume(n >= 0)
    s, e = c.fresh_fun('start', I, R), c.fresh_fun('end', I, R)
    mx = c.real('maxp')
    c.assume(mx.e > 0)

    class S(object):
        _vc_track = False

        def __init__(self, i):
            self.i, self.start, self.end = i, VTimestamp(s(i)), VTimestamp(e(i))
    ordered = VList.symbolic(n, S, 'sections') if E.size is None else VList([S(z3.IntVal(i)) for i in range(E.size)])
    given = object()

    def sort(x, **k):
        c.prove('the given sections are ordered', x is given and not k)
        return ordered
    M.sorted = sort
    r = M.GoodSectionsResults(mx)

    def adj(i):
        """does section i follow section i - 1?"""
        return z3.And(1 <= i, i < n, e(i - 1) - mx.e <= s(i), s(i) <= e(i - 1))

    def keep(i):
        return z3.And(z3.Not(adj(i)), z3.Not(adj(i + 1)))
    P = Picked('sections', lambda lp: 'zip' in getattr(lp.it, 'tag', ''), n, S, keep,
               lambda item, x: z3.BoolVal(isinstance(x, S)) if not isinstance(x, S) else x.i == item[0].i)
    if E.size is None:
        E.loop_specs.append(P)
    out = r.independent(given)
    if E.size is not None:
        its = list(out)
        for i in range(E.size):
            c.prove('a section is kept, once, exactly when none is adjacent to it',
                    keep(z3.IntVal(i)) if sum(1 for x in its if x is ordered[i]) == 1 else
                    z3.And(z3.Not(keep(z3.IntVal(i))), z3.BoolVal(all(x is not ordered[i] for x in its))))
        return
    i0 = c.fresh('i0', I)
    c.assume(z3.And(0 <= i0, i0 < n))
    if not c.feasible():
        c.prove('without sections none is kept', isinstance(out, VList))
        raise PathEnd()
    if isinstance(out, VList) and out.token == P.end_token() and not out.tail:
        P.fact(i0)
        return
    its = list(out)
    c.prove('a section is kept exactly when none is adjacent to it', z3.Or([z3.BoolVal(False)] + [x.i == i0 for x in its]) == keep(i0))


@unit('gsr.export', [GR + 'export_to_cache'])
def gsr_export(c, E):
    """one stored row per section: the period, and where the section begins and ends"""
    M = E.load('nilmtk.stats.goodsectionsresults')
    TM = E.load('nilmtk.timeframe')
    f = c.fresh_fun
    n, m = c.fresh('rows', I), f('sections', I, I)
    c.assume(n >= 0)
    start, end, s, e = f('start', I, R), f('end', I, R), f('s', I, I, R), f('e', I, I, R)
    sn, en = f('no_start', I, I, B), f('no_end', I, I, B)
    cur, kinds = {}, c.run.persist.setdefault('gsr.export', {})

    def frame(i, j):
        c.assume(z3.Implies(z3.And(z3.Not(sn(i, j)), z3.Not(en(i, j))), s(i, j) < e(i, j)))
        a = None if c.branch(sn(i, j)) else VTimestamp(s(i, j))
        return TM.TimeFrame(a, None if c.branch(en(i, j)) else VTimestamp(e(i, j)))

    def row(i):
        c.assume(m(i) >= 0)
        return (VTimestamp(start(i)), {'end': VTimestamp(end(i)),
                                       'sections': VList.symbolic(m(i), lambda j: frame(i, j), 'sections of row')})

    class Data(object):
        _vc_track = False

        def iterrows(self):
            return SymIter(n, row, 'rows')

    def step(loop, item, new):
        i, j = cur['i'], loop.k
        c.prove('one stored row per section', len(new) == 1)
        x = new[0]
        if isinstance(x, VTimestamp):
            c.prove('it is kept under the start of the period', x.e == start(i))
            kind = 'index'
        elif isinstance(x, dict):
            c.prove('it has the end of the period and the bounds of the section', set(x) == {'end', 'section_start', 'section_end'})
            c.prove('the end of the period', same(x['end'], VTimestamp(end(i))))
            for nm, z, none in (('section_start', s, sn), ('section_end', e, en)):
                c.prove('the bound of the section, or none', none(i, j) if x[nm] is NaT else
                        z3.And(z3.Not(none(i, j)), same(x[nm], VTimestamp(z(i, j)))))
            kind = 'data'
        else:
            raise Unsupported('an element of the stored table')
        for nme, (l, _) in loop.outs.items():
            if l.tail and l.tail[-1] is x:
                kinds[nme] = kind

    class Inner(FoldSpec):
        pass

    class Outer(FoldSpec):
        def on_item(self, loop, item):
            cur['i'] = loop.k

        def on_exit(self, loop):
            FoldSpec.on_exit(self, loop)
            for nme, (l, _) in loop.outs.items():
                l.kind = kinds.get(nme)
    inner = Inner('sections of row', lambda lp: getattr(lp.it, 'tag', '') == 'sections of row', step)
    outer = Outer('rows', lambda lp: getattr(lp.it, 'tag', '') == 'rows', nested=lambda lp: inner)
    E.loop_specs += [inner, outer]
    made = []

    class Table(object):
        _vc_track = False

        def __init__(self, data, index=None):
            self.data, self.index, self.applied = data, index, []
            made.append(self)

        def apply(self, fn, **k):
            self.applied.append((fn, k))
            return self
    numeric = object()
    M.pd = ShimModule('pandas', DataFrame=Table, to_numeric=numeric)
    r = M.GoodSectionsResults.__new__(M.GoodSectionsResults)
    r._data = d = Data()
    t = r.export_to_cache()
    c.prove('the results stay as they are', r._data is d)
    c.prove('one table is made', len(made) == 1 and t is made[0])
    ok = all(isinstance(l, VList) and l.token == outer.end_token() and not l.tail for l in (t.data, t.index))
    if not ok:
        raise Unsupported('the stored table')
    c.prove('the sections are its rows, the starts of the periods its labels',
            getattr(t.data, 'kind', None) == 'data' and getattr(t.index, 'kind', None) == 'index')
    c.prove('its times are made numbers', all(fn is numeric for fn, _ in t.applied) and len(t.applied) >= 1)


@unit('rs.export', [RS + 'export_to_cache'])
def rs_export(c, E):
    """the table, its times made numbers"""
    M = E.load('nilmtk.results')
    seen = []
    numeric = object()

    class Data(object):
        _vc_track = False

        def apply(self, fn, **k):
            seen.append(fn)
            return 'the table'
    M.pd = ShimModule('pandas', to_numeric=numeric)
    r = M.Results.__new__(M.Results)
    r._data = d = Data()
    t = r.export_to_cache()
    c.prove('the table is exported as it is, its times made numbers', t == 'the table' and seen == [numeric] and r._data is d)


@unit('cs.clear', [EM + 'clear_cache', 'nilmtk/metergroup.py:MeterGroup.clear_cache', 'nilmtk/dataset.py:DataSet.clear_cache'])
def cs_clear(c, E):
    """just what lies below the meter's own key is removed, if there is anything; a group and a data set clear each meter of theirs once"""
    which = c.choose(3)
    if which == 0:
        M = E.load('nilmtk.elecmeter')
        own = 'building1/elec/meter1'
        mine = ['/%s/total_energy' % own, '/%s/dropout_rate' % own] if c.choose(2) == 0 else []
        others = ['/building1/elec/meter10/total_energy', '/building1/elec/meter11/good_sections', '/building2/elec/meter1/total_energy']
        held = mine + others

        class Cache(object):
            """a cache, in which what lies at or beneath a key is removed with it"""
            store = type('Store', (), dict(keys=lambda self: list(held)))()

            def remove(self, key):
                key = '/' + key.strip('/')
                gone = [k for k in held if k == key or k.startswith(key + '/')]
                if not gone:
                    raise KeyError(key)
                held[:] = [k for k in held if k not in gone]
        m = M.ElecMeter.__new__(M.ElecMeter)
        m.__dict__.update(cache=Cache(), key_for_cached_stat=lambda s: own + '/' + s)
        M.print = lambda *a, **k: None
        m.clear_cache(*[(), (True,), (False,)][c.choose(3)])
        c.prove("what is kept of the meter itself, and no other meter's", held == others)
        return
    n, i0 = c.fresh('members', z3.IntSort()), c.fresh('i0', z3.IntSort())
    c.assume(z3.And(0 <= i0, i0 < n))
    w = type('W', (), dict(cleared=None))()

    class Member(object):
        _vc_track = False

        def __init__(self, i):
            self.i = i

        def clear_cache(self, verbose=False):
            c.prove('once', w.cleared == [])
            w.cleared.append(self.i)

    class Spec(LoopSpec):
        name = 'members'

        def match(self, loop):
            return isinstance(loop.it, VSeq) and getattr(loop.it, 'tag', '') == 'members'

        def on_item(self, loop, item):
            w.cleared = []

        def at_end(self, loop):
            c.prove('every member is cleared', len(w.cleared) == 1 and w.cleared[0].eq(loop.k))

        def on_exit(self, loop):
            w.left = True
    E.loop_specs.append(Spec())
    members = VList.symbolic(n, Member, 'members')
    if which == 1:
        M = E.load('nilmtk.metergroup')
        g = M.MeterGroup.__new__(M.MeterGroup)
        g.meters, g.disabled_meters = members, []
    else:
        M = E.load('nilmtk.dataset')
        g = M.DataSet.__new__(M.DataSet)
        g.elecs = lambda: members
    g.clear_cache()
    c.prove('all members', getattr(w, 'left', False))
