"""Contracts of the data stores: HDFDataStore.load, CSVDataStore.load."""
import ast
import sys
import z3
from vc import core, arrays as A, frames as F
from vc.core import (VNum, VBool, VTimestamp, VSeq, Unsupported, PathEnd, zb, lift, to_real, mkbool, mknum)
from vc.loops import LoopSpec
from vc.models import note, used
from vc.seqs import VList, MemoAt, concrete_items
from vc.unit import unit
from units.tfcommon import *
from units.stats import Times

HD = 'nilmtk/datastore/hdfdatastore.py:'
note('pd.HDFStore', 'pandas.HDFStore: select(key, columns, start, stop) returns rows start..stop-1 of the table '
                    '(fewer at its end) with the given columns; select_as_coordinates returns, in order, the row '
                    'numbers that satisfy the query; get_storer(key).nrows is the row count')


class Rows(object):
    """rows a..b-1 of a stored table, as a DataFrame"""
    _vc_track = False

    def __init__(self, tab, a, b, columns):
        self.__dict__.update(_tab=tab, _a=z3.simplify(a), _b=z3.simplify(b), _cols=columns)

    @property
    def index(self):
        t = self._tab
        n = z3.simplify(self._b - self._a)
        return F.Index(n, lambda i: t.T.at(z3.simplify(self._a + i)), 'rows')

    def vlen(self):
        return mknum(z3.simplify(self._b - self._a))

    @property
    def empty(self):
        return mkbool(self._b <= self._a)


class Table(object):
    _vc_track = False

    def __init__(self, c, size=None):
        self.c = c
        self.T = Times(c, 't', size, strict=True, all_pairs=True)
        self.n = self.T.n
        self.key = None
        self.size = size
        c.assume(self.n >= 1)

    # -- pandas.HDFStore
    def get_storer(self, key):
        used('pd.HDFStore')
        self.check_key(key)

        class S(object):
            nrows = mknum(self.n)
        return S()

    def check_key(self, key):
        self.c.prove('the table asked for is read', key == '/building1/elec/meter1')

    def select(self, key, where=None, start=None, stop=None, columns=None, **k):
        used('pd.HDFStore')
        c = self.c
        self.check_key(key)
        if where is not None or k:
            raise Unsupported('HDFStore.select(where)')
        a = z3.IntVal(0) if start is None else lift(start)
        b = self.n if stop is None else lift(stop)
        if c.branch(a < 0):
            a = z3.If(self.n + a < 0, z3.IntVal(0), self.n + a)
        if c.branch(a > self.n):
            a = self.n
        if c.branch(b > self.n):
            b = self.n
        if c.branch(b < a):
            b = a
        return Rows(self, a, b, columns)

    def select_as_coordinates(self, key, where=None, start=None, stop=None):
        used('pd.HDFStore')
        c = self.c
        self.check_key(key)
        fr = sys._getframe(1)
        scope = dict(fr.f_globals)
        scope.update(fr.f_locals)
        conds = []
        if where is not None and not isinstance(where, str):
            # pandas 2.3 on Python >= 3.12 looks for the variables of a list of
            # terms one frame too far up and does not find them
            raise ValueError('Invalid Attribute context Load')
        for t in ([] if where is None else where.replace(' and ', '&').split('&')):
            e = ast.parse(t.strip(), mode='eval').body
            if not (isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name)
                    and e.left.id == 'index'):
                raise Unsupported('query %r' % t)
            v = eval(compile(ast.Expression(e.comparators[0]), 'q', 'eval'), scope)
            if not isinstance(v, VTimestamp):
                raise Unsupported('query bound %r' % (v,))
            conds.append((type(e.ops[0]).__name__, v.e))
        ops = {'GtE': lambda t, b: t >= b, 'Gt': lambda t, b: t > b, 'Lt': lambda t, b: t < b,
               'LtE': lambda t, b: t <= b}
        if any(o not in ops for o, _ in conds):
            raise Unsupported('query operator')
        self.query = lambda t: z3.And(*[ops[o](t, b) for o, b in conds])
        lo, hi, some = self.span(self.query)
        self.coords = (lo, hi, some)
        if not some:
            return A.Arr(z3.IntVal(0), lambda i: mknum(i), 'coords')
        return A.Arr(z3.simplify(hi - lo + 1), lambda i: mknum(z3.simplify(lo + i)), 'coords')

    def span(self, pred):
        """first and last row with pred (rows in between have it: pred is an
        interval and times increase)"""
        c = self.c
        i = z3.Int('rowi')
        f = self.T.f
        if c.choose(2) == 0:
            if self.size is None:
                c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.Not(pred(f(i))))))
            else:
                for k in range(self.size):
                    c.assume(z3.Not(pred(f(z3.IntVal(k)))))
            if not c.feasible():
                raise PathEnd()
            return None, None, False
        if self.size is None:
            lo, hi = c.fresh('lo', z3.IntSort()), c.fresh('hi', z3.IntSort())
            c.assume(z3.And(0 <= lo, lo <= hi, hi < self.n))
            c.assume(z3.And(pred(self.T.u(lo)), pred(self.T.u(hi))))
            c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n, pred(f(i))), z3.And(lo <= i, i <= hi))))
        else:
            lo = c.choose(self.size)
            hi = lo + c.choose(self.size - lo)
            for k in range(self.size):
                p = pred(f(z3.IntVal(k)))
                c.assume(p if lo <= k <= hi else z3.Not(p))
            lo, hi = z3.IntVal(lo), z3.IntVal(hi)
        if not c.feasible():
            raise PathEnd()
        return lo, hi, True


class Plain(LoopSpec):
    """a loop that carries no state of its own"""

    def __init__(self, name, match, allow=()):
        self.name, self._m, self._allow = name, match, list(allow)
        self.loop = None
        self.yields = 0

    def match(self, loop):
        return self._m(loop)

    def allow_mutation(self, loop):
        return self._allow

    def on_item(self, loop, item):
        self.loop, self.item, self.yields = loop, item, 0

    def on_exit(self, loop):
        self.loop = None


class Chunks(Plain):
    def at_end(self, loop):
        core.ctx().prove('every chunk of the section is delivered once', self.yields == 1)


class Sections(Plain):
    def at_end(self, loop):
        self.end(self)


def arb_frame(c, E, name):
    """an arbitrary frame: any bounds, flag, possibly empty"""
    return mk_tf(c, E, name)


@unit('hdf.load', [HD + 'HDFDataStore.load', HD + '_timeframe_for_chunk'], sizes=[1, 2, 3, 4], weak=True, budget=120)
def hdf_load(c, E):
    """each section's chunks are exactly its rows, sharing one row, with abutting frames and right look-ahead"""
    M = E.load('nilmtk.datastore.hdfdatastore')
    TM = E.load('nilmtk.timeframe')
    tab = Table(c, E.size)
    T, N = tab.T, tab.n
    st = M.HDFDataStore.__new__(M.HDFDataStore)
    st.store = tab
    win = TM.TimeFrame()
    sec = TM.TimeFrame()
    W, dW = mk_tf(c, E, 'w', flags=True)
    real = TM.TimeFrame.intersection

    def contract(self, other):
        # callee contract (C02): W is the common span of the window and the section
        if self is win and other is sec:
            return W
        return real(self, other)
    TM.TimeFrame.intersection = contract
    E.reset_hooks.append(lambda: setattr(TM.TimeFrame, 'intersection', real))
    st._window = win
    if E.size is None:
        cs = c.int('chunksize')
        la = c.int('la')
        c.assume(lift(la) >= 0)
        c.assume(cs.e >= 1)
    else:
        cs = 1 + c.choose(3)
        la = c.choose(3)
    kc = c.choose(3)
    key = ['/building1/elec/meter1', 'building1/elec/meter1', '/building1/elec/meter1/'][kc]
    cols = [None, VList([('power', 'active')]), VList([('voltage', None)])][kc]
    wcols = None if cols is None else [tuple('' if x is None else x for x in t) for t in cols]

    def pred(t):
        return z3.And(*([t >= W.start.e] if W.start is not None else []) +
                      ([z3.If(zb(W.include_end), t <= W.end.e, t < W.end.e)] if W.end is not None else []))
    state = {}
    if not W.empty:
        c.inp('case', dict(times=T, ncol=3, tz=None, window=None, sections=[[W.start, W.end, W.include_end]],
                           chunk=cs, la=la, cols=[None, 0, None][kc], key=key))

    def truth():
        """rows inside W, decided by the specification"""
        if 'span' not in state:
            if W.empty:
                state['span'] = (None, None, False)
            elif W.start is None and W.end is None:
                state['span'] = (z3.IntVal(0), z3.simplify(N - 1), True)
            elif hasattr(tab, 'coords'):
                lo, hi, some = tab.coords
                if some:
                    i = c.fresh('any', z3.IntSort())
                    c.prove('the query selects exactly the rows inside',
                            z3.Implies(z3.And(0 <= i, i < N), tab.query(T.u(i)) == pred(T.f(i))))
                else:
                    i = c.fresh('any', z3.IntSort())
                    c.prove('the query selects exactly the rows inside',
                            z3.Implies(z3.And(0 <= i, i < N), z3.Not(pred(T.f(i)))))
                state['span'] = tab.coords
            else:
                state['span'] = tab.span(pred)
        return state['span']

    def chunk(d, k, last):
        lo, hi, some = truth()
        c.prove('rows only for a section with rows', some)
        a, b = d._a, d._b
        e = lo + k * lift(cs)
        c.prove('chunk k begins k chunk sizes into the section', a == e)
        c.prove('chunk k ends one chunk size later, or with the section',
                b == z3.If(e + lift(cs) < hi, e + lift(cs), hi) + 1)
        c.prove('the chunk has rows', a < b)
        if last is not None:
            c.prove('the chunks end exactly when the section does', zb(last) == (e + lift(cs) >= hi))
        islast = e + lift(cs) >= hi
        T.u(z3.simplify(a)), T.u(z3.simplify(b - 1))
        s, en = d.timeframe.start, d.timeframe.end
        ws = T.f(a) if W.start is None else z3.If(k == 0, W.start.e, T.f(a))
        we = T.f(z3.simplify(b - 1)) if W.end is None else z3.If(islast, W.end.e, T.f(z3.simplify(b - 1)))
        c.prove('the time frame runs from the first row (or the section start) ...',
                z3.BoolVal(False) if s is None else s.e == ws)
        c.prove('... to the last row (or the section end)', z3.BoolVal(False) if en is None else en.e == we)
        check_cols(d)
        if c.branch(lift(la) > 0):
            l = getattr(d, 'look_ahead', None)
            if not isinstance(l, Rows):
                c.prove('look-ahead only missing at the end of the table',
                        z3.BoolVal(l is not None and l.vlen() == 0) if l is not None else z3.BoolVal(False))
                c.prove('look-ahead only empty at the end of the table', b >= N)
            else:
                w = z3.If(b + lift(la) < N, b + lift(la), N)
                c.prove('the look-ahead rows are those that follow',
                        z3.If(b >= N, l._a >= l._b, z3.And(l._a == b, l._b == w)))
                check_cols(l)

    def check_cols(d):
        got = None if d._cols is None else [tuple(x) for x in d._cols]
        c.prove('exactly the requested columns', got == wcols)

    def nothing(d):
        lo, hi, some = truth()
        ok = z3.BoolVal(True)
        if some:
            ok = lo == hi if W.start is None and W.end is None else z3.BoolVal(False)
        c.prove('an empty frame only for a section without rows', ok)
        c.prove('the empty frame is empty', d.vlen() == 0)

    def end_section(o):
        lo, hi, some = truth()
        if o.yields == 0 and not o.inner:
            c.prove('a section with two rows or more gives chunks', False if some is False else
                    (lo == hi if some else False))

    if E.size is None:
        n = c.fresh('nsec', z3.IntSort())
        c.assume(n >= 1)
        secs = VList.symbolic(n, lambda i: sec, 'sections')
        inner = Chunks('chunks', lambda lp: getattr(lp.it, 'tag', '').startswith(('enumerate(range', 'range')), [st])
        outer = Sections('sections', lambda lp: isinstance(lp.it, VList) and lp.it.tag == 'sections', [st])
        outer.inner = False

        def end_outer(o):
            lo, hi, some = truth()
            if o.yields:
                return
            c.prove('a section without a chunk has at most one row',
                    z3.BoolVal(False) if not some else state.get('covered', lo == hi))
        outer.end = end_outer

        def on_exit(loop):
            # all chunks delivered: they must have covered the section
            lo, hi, some = truth()
            inner.loop = None
            c.prove('the chunks cover the section', z3.And(lo + loop.n * lift(cs) >= hi, some is True))
            state['covered'] = z3.Or(loop.n >= 1, lo == hi)
        inner.on_exit = on_exit
        E.loop_specs.extend([inner, outer])
        for d in st.load(key, columns=cols, sections=secs, n_look_ahead_rows=la, chunksize=cs):
            if inner.loop is not None and inner.loop.state == 'body':
                inner.yields += 1
                k = inner.loop.k
                chunk(d, k, mkbool(k == inner.loop.n - 1))
            else:
                outer.yields += 1
                c.prove('one empty frame per section', outer.yields == 1)
                nothing(d)
        return
    got = list(st.load(key, columns=cols, sections=VList([sec]), n_look_ahead_rows=la, chunksize=cs))
    lo, hi, some = truth()
    if len(got) == 1 and not isinstance(got[0], Rows):
        nothing(got[0])
        return
    if not some:
        c.prove('an empty frame for a section without rows', False)
        return
    lo, hi = z3.simplify(lo).as_long(), z3.simplify(hi).as_long()
    want = -(-(hi - lo) // cs)
    c.prove('number of chunks', len(got) == want or (lo == hi and len(got) <= 1))
    for k, d in enumerate(got):
        chunk(d, z3.IntVal(k), k == len(got) - 1)


# ------------------------------------------------------------------ CSV
CS = 'nilmtk/datastore/csvdatastore.py:CSVDataStore.'
note('pd.read_csv', 'pandas.read_csv(header=[0, 1], index_col=0, chunksize=s) yields the data rows in blocks of s '
                    '(the last one shorter); with header=None, skiprows=r, nrows=m it returns the m file lines after '
                    'the first r; the file has two header lines, plus one exactly when the index has a name')


class CsvFile(object):
    """rows of a CSV table; the value in each row is its row number"""

    def __init__(self, c, cs, named, size=None):
        self.c, self.cs, self.named = c, cs, named
        self.T = Times(c, 't', size, strict=True, all_pairs=True)
        self.n, self.size = self.T.n, size
        c.assume(self.n >= 1)
        self.names = [('power', 'active'), ('voltage', 'x')]

    def frame(self, a, n, cols=None):
        ix = F.Index(n, lambda i: self.T.at(z3.simplify(a + i)), 'rows')
        ix.name = 'index' if self.named else None
        ix.srt = True
        return F.Frame({k: A.Arr(n, (lambda j: lambda i: VNum(z3.ToReal(z3.simplify(a + i)) + j * 1000000))(j), 'rowno')
                        for j, k in enumerate(self.names if cols is None else cols)}, ix)

    def read_csv(self, path, index_col=None, header='infer', parse_dates=False, chunksize=None, skiprows=None,
                 nrows=None, **k):
        used('pd.read_csv')
        c = self.c
        if k or index_col != 0 or not parse_dates:
            raise Unsupported('read_csv arguments')
        c.prove('the file of the key is read', path == '/store/building1/elec/meter1.csv')
        if chunksize is not None:
            if [x for x in header] != [0, 1] or skiprows is not None or nrows is not None:
                raise Unsupported('read_csv arguments')
            s = lift(chunksize)
            c.prove('the requested chunk size is used', s == lift(self.cs), kind='weak')
            k = A.conc(self.n)
            if k is not None and A.conc(s) is not None:
                m = z3.IntVal(-(-k // A.conc(s)))
            else:
                m = c.fresh('nchunks', z3.IntSort())
                c.assume(z3.And(m >= 1, (m - 1) * s < self.n, self.n <= m * s))

            def at(i):
                a = z3.simplify(i * s)
                c.assume(z3.Implies(z3.And(0 <= i, i < m), a < self.n))
                return self.frame(a, z3.simplify(z3.If(a + s < self.n, s, self.n - a)))
            from vc.seqs import SymIter
            return SymIter(m, at, 'csvblocks', src=self)
        if header is not None or skiprows is None:
            raise Unsupported('read_csv arguments')
        a = lift(skiprows) - (3 if self.named else 2)
        if c.branch(a >= self.n):
            raise ValueError('No columns to parse from file')
        if c.branch(a < 0):
            c.prove('the header lines are skipped', False)
            raise PathEnd()
        if nrows is None:
            return Rows(self, a, self.n, None)
        b = z3.If(a + lift(nrows) < self.n, a + lift(nrows), self.n)
        return Rows(self, a, b, None)


@unit('csv.load', [CS + 'load', CS + '_key_to_abs_path'], sizes=[1, 2, 3, 4], weak=True, budget=120)
def csv_load(c, E):
    """each block of the file gives exactly its rows inside the section, with the look-ahead that follows"""
    M = E.load('nilmtk.datastore.csvdatastore')
    TM = E.load('nilmtk.timeframe')
    if E.size is None:
        cs, la = c.int('chunksize'), c.int('la')
        c.assume(z3.And(cs.e >= 1, la.e >= 0))
    else:
        cs, la = 1 + c.choose(3), c.choose(3)
    opt = c.choose(3)
    tab = CsvFile(c, cs, opt > 0, E.size)
    T, N = tab.T, tab.n
    E.models['pandas'].read_csv = tab.read_csv
    st = M.CSVDataStore.__new__(M.CSVDataStore)
    st.filename = '/store'
    win, sec = TM.TimeFrame(), TM.TimeFrame()
    W, dW = mk_tf(c, E, 'w', flags=False)
    real = TM.TimeFrame.intersection

    def contract(self, other):
        # callee contract (C02): W is the common span of the window and the section
        if self is win and other is sec:
            return W
        return real(self, other)
    TM.TimeFrame.intersection = contract
    E.reset_hooks.append(lambda: setattr(TM.TimeFrame, 'intersection', real))
    st._window = win
    cols = [None, [('power', 'active')], VList([('voltage', 'x'), ('power', 'active')])][opt]
    wcols = tab.names if cols is None else list(cols)
    key = ['/building1/elec/meter1', 'building1/elec/meter1', '/building1/elec/meter1'][opt]
    if not W.empty:
        c.inp('case', dict(times=T, ncol=2, tz=None, window=None, sections=[[W.start, W.end, False]], chunk=cs, la=la,
                           cols=0 if opt == 1 else None, key=key, iname='index' if opt > 0 else None, cut=99,
                           other=False))

    def pred(t):
        if W.empty:
            return z3.BoolVal(False)
        return z3.And(*([t >= W.start.e] if W.start is not None else []) +
                      ([t < W.end.e] if W.end is not None else []))

    def check(d, k):
        """d: what was delivered for block k"""
        s = lift(cs)
        lo = k * s
        hi = z3.If(lo + s < N, lo + s, N)
        n = d.index.zn
        c.prove('a delivered chunk has rows', n >= 1)
        c.prove('exactly the requested columns', [tuple(x) for x in d._cols] == [tuple(x) for x in wcols])
        j = c.fresh('j', z3.IntSort())
        c.assume(z3.And(0 <= j, j < n))

        def rowno(j):
            return lift(d._cols[('power', 'active')].ev(j)) if ('power', 'active') in d._cols else None
        r = rowno(j)
        off = z3.RealVal(1000000 * [tuple(x) for x in wcols].index(('power', 'active'))) if cols is None else z3.RealVal(0)
        ri = z3.ToInt(r)
        t = d.index.ev(j).e
        c.prove('every delivered row is a row of the block', z3.And(z3.ToReal(ri) == r, lo <= ri, ri < hi))
        c.prove('with its own time, inside the section', z3.And(t == T.f(ri), pred(t)))
        i = c.fresh('i', z3.IntSort())
        c.assume(z3.And(lo <= i, i < hi, pred(T.u(i))))
        for f in A.Facts.memo(c).get('filters', []):
            f.inst(z3.simplify(i - lo))
        if c.feasible():
            fs = A.Facts.memo(c).get('filters', [])
            ws = [f.rank(z3.simplify(i - lo)) for f in fs] + [z3.simplify(i - lo)]
            c.prove('every row of the block inside the section is delivered, in order',
                    z3.Or(*[z3.And(0 <= w, w < n, z3.ToInt(rowno(w)) == i) for w in ws]))
        last = z3.ToInt(rowno(z3.simplify(n - 1)))
        c.prove('the time frame runs from the first row ...',
                z3.BoolVal(False) if d.timeframe.start is None else d.timeframe.start.e == d.index.ev(z3.IntVal(0)).e)
        c.prove('... to the last', z3.BoolVal(False) if d.timeframe.end is None else
                d.timeframe.end.e == d.index.ev(z3.simplify(n - 1)).e)
        if c.branch(lift(la) > 0):
            l = getattr(d, 'look_ahead', None)
            if isinstance(l, Rows):
                e = last + 1 + lift(la)
                c.prove('the look-ahead is the rows that follow in the file',
                        z3.And(l._a == last + 1, l._b == z3.If(e < N, e, N)))
            else:
                c.prove('no look-ahead only at the end of the file', z3.And(z3.BoolVal(l is not None), last + 1 >= N))

    def no_rows(k):
        s = lift(cs)
        lo = k * s
        hi = z3.If(lo + s < N, lo + s, N)
        i = c.fresh('i', z3.IntSort())
        c.assume(z3.And(lo <= i, i < hi))
        T.u(i)
        for f in A.Facts.memo(c).get('filters', []):
            f.inst(z3.simplify(i - lo))
        c.prove('a block that delivers nothing has no row inside', z3.Not(pred(T.f(i))))

    def one_row(k):
        """known finding: a block with exactly one matching row"""
        s = lift(cs)
        lo = k * s
        hi = z3.If(lo + s < N, lo + s, N)
        i, j = c.fresh('i', z3.IntSort()), c.fresh('j', z3.IntSort())
        c.assume(z3.And(lo <= i, i < j, j < hi, pred(T.u(i)), pred(T.u(j))))
        for f in A.Facts.memo(c).get('filters', []):
            f.inst(z3.simplify(i - lo)), f.inst(z3.simplify(j - lo))
        c.prove('refused only when a block has a single row inside', False) if c.feasible() else None

    if E.size is None:
        n = c.fresh('nsec', z3.IntSort())
        c.assume(n >= 1)
        secs = VList.symbolic(n, lambda i: sec, 'sections')
        inner = Plain('blocks', lambda lp: 'csvblocks' in str(getattr(lp.it, 'tag', '')), [st])
        outer = Plain('sections', lambda lp: isinstance(lp.it, VList) and lp.it.tag == 'sections', [st])

        def at_end(loop):
            if inner.yields == 0:
                no_rows(loop.k)
        inner.at_end = at_end
        E.loop_specs.extend([inner, outer])
        try:
            for d in st.load(key, columns=cols, sections=secs, n_look_ahead_rows=la, chunksize=cs):
                inner.yields += 1
                c.prove('at most one chunk per block', inner.yields == 1 and inner.loop is not None)
                check(d, inner.loop.k)
        except ValueError as e:
            if inner.loop is None:
                raise
            one_row(inner.loop.k)
        return
    got, err = [], False
    try:
        for d in st.load(key, columns=cols, sections=VList([sec]), n_look_ahead_rows=la, chunksize=cs):
            got.append(d)
    except ValueError:
        err = True
    # the blocks with rows inside, decided by the specification
    exp = []
    for k in range(-(-E.size // cs)):
        rows = [i for i in range(k * cs, min(E.size, (k + 1) * cs)) if c.branch(pred(T.u(z3.IntVal(i))))]
        if rows:
            exp.append((k, rows))
    if err:
        k = len(got)
        c.prove('refused only at a block with a single row inside', k < len(exp) and len(exp[k][1]) == 1)
    else:
        c.prove('one chunk per block with rows', len(got) == len(exp))
    for d, (k, rows) in zip(got, exp):
        n = A.conc(d.index.zn)
        c.prove('as many rows as the block has inside', n == len(rows))
        col = d._cols.get(('power', 'active'))
        for j, i in enumerate(rows):
            if j < n:
                c.prove('the rows of the block inside the section, in order',
                        z3.And(d.index.ev(z3.IntVal(j)).e == T.f(i), lift(col.ev(z3.IntVal(j))) == i))
        c.prove('exactly the requested columns', [tuple(x) for x in d._cols] == [tuple(x) for x in wcols])
        c.prove('time frame', z3.And(same(d.timeframe.start, VTimestamp(T.f(rows[0]))),
                                     same(d.timeframe.end, VTimestamp(T.f(rows[-1])))))
        if la:
            l = getattr(d, 'look_ahead', None)
            if isinstance(l, Rows):
                c.prove('the look-ahead is the rows that follow in the file',
                        z3.And(l._a == rows[-1] + 1, l._b == min(rows[-1] + 1 + la, E.size)))
            else:
                c.prove('no look-ahead only at the end of the file', l is not None and rows[-1] + 1 >= E.size)


# ------------------------------------------------------------------ time frames of tables
def span_of(c, r, win, dW, T, N):
    """r is the time from the first to the last row, cut by the window"""
    a, b = T.f(z3.IntVal(0)), T.f(z3.simplify(N - 1))
    ws, we = dW['start'], dW['end']
    lo = a if ws is None else z3.If(ws.e > a, ws.e, a)
    hi = b if we is None else z3.If(we.e < b, we.e, b)
    some = z3.BoolVal(False) if dW['empty'] else lo < hi
    c.prove('nothing exactly when the window leaves nothing', z3.BoolVal(r.empty is False) == some)
    if r.empty is False:
        c.prove('from the first row (or the window)', z3.BoolVal(False) if r.start is None else r.start.e == lo)
        c.prove('to the last row (or the window)', z3.BoolVal(False) if r.end is None else r.end.e == hi)


class HdfEnds(Table):
    """select(key, [rows]) or select(key, start=..): rows by number"""

    def select(self, key, where=None, start=None, stop=None, columns=None, **k):
        if where is None:
            return Table.select(self, key, None, start, stop, columns, **k)
        w = concrete_items(where) if isinstance(where, (VSeq, list, tuple)) else None
        if w is None or len(w) != 1 or type(w[0]) is not int or start is not None or stop is not None or k:
            raise Unsupported('HDFStore.select(where)')
        self.check_key(key)
        if w[0] < 0:
            raise ValueError('no such row')
        self.c.prove('the row asked for is there', self.n > w[0])
        return Rows(self, z3.IntVal(w[0]), z3.IntVal(w[0] + 1), columns)


@unit('hdf.timeframe', [HD + 'HDFDataStore.get_timeframe'], weak=True)
def hdf_timeframe(c, E):
    """the time frame of a table of two rows or more runs from its first to its last row, cut by the window"""
    M = E.load('nilmtk.datastore.hdfdatastore')
    tab = HdfEnds(c)
    c.assume(tab.n >= 2)
    tab.T.u(z3.IntVal(0)), tab.T.u(z3.simplify(tab.n - 1))
    c.assume(tab.T.f(z3.IntVal(0)) < tab.T.f(z3.simplify(tab.n - 1)))
    st = M.HDFDataStore.__new__(M.HDFDataStore)
    st.store = tab
    win, dW = mk_tf(c, E, 'w', flags=False)
    st._window = win
    span_of(c, st.get_timeframe('/building1/elec/meter1'), win, dW, tab.T, tab.n)


@unit('csv.timeframe', [CS + 'get_timeframe'], sizes=[2, 3], weak=True)
def csv_timeframe(c, E):
    """the time frame of a table of two rows or more runs from its first to its last row, cut by the window"""
    M = E.load('nilmtk.datastore.csvdatastore')
    tab = CsvFile(c, None, c.choose(2) == 1, E.size)
    c.assume(tab.n >= 2)
    T, N = tab.T, tab.n
    T.u(z3.IntVal(0)), T.u(z3.simplify(N - 1))
    c.assume(T.f(z3.IntVal(0)) < T.f(z3.simplify(N - 1)))

    def read(path, chunksize=None, **k):
        if chunksize is not None and E.size is not None:
            chunksize = 2
        tab.cs = chunksize
        if chunksize is None:
            raise Unsupported('the whole file at once')
        return tab.read_csv(path, chunksize=chunksize, **k)
    E.models['pandas'].read_csv = read
    st = M.CSVDataStore.__new__(M.CSVDataStore)
    st.filename = '/store'
    win, dW = mk_tf(c, E, 'w', flags=False)
    st._window = win

    class Spec(LoopSpec):
        name = 'blocks'

        def match(self, lp):
            return 'csvblocks' in str(getattr(lp.it, 'tag', ''))

        def vars(self, loop):
            return [n for n in loop.names if n in loop.entry and (loop.entry[n] is None)]

        def havoc(self, loop, env, names):
            self.none = c.choose(2) == 0
            return {n: None if self.none else VTimestamp(c.fresh(n, z3.RealSort())) for n in self.vars(loop)}

        def inv(self, loop):
            out = []
            for n in self.vars(loop):
                v = loop.env[n]
                first = 'start' in n or 'first' in n or 'begin' in n
                if v is None:
                    out.append((n + ' not known yet', loop.k == 0))
                    continue
                if not isinstance(v, VTimestamp):
                    raise Unsupported('loop variable %s' % n)
                s = lift(tab.cs)
                last = z3.If(loop.k * s < N, loop.k * s, N) - 1
                out.append((n + ' of the rows so far',
                            z3.And(loop.k >= 1, v.e == (T.f(z3.IntVal(0)) if first else T.f(z3.simplify(last))))))
            return out
    if E.size is None:
        E.loop_specs.append(Spec())
    span_of(c, st.get_timeframe('/building1/elec/meter1'), win, dW, T, N)


# ------------------------------------------------------------------ saving
note('to_csv', "DataFrame.to_csv(path, mode='w', header=h) replaces the file by the header (if h) and the rows; mode='a' "
               "writes them after what is there; it needs the directory of the file")


class Disk(object):
    """what exists, and what was written to which file"""
    _vc_track = False

    def __init__(self, c):
        self.c = c
        self.dirs, self.files, self.ask = {}, {}, {}

    def there(self, p):
        if p in self.files:
            return True
        if p in self.dirs:
            return self.dirs[p]
        if p not in self.ask:
            self.ask[p] = self.c.choose(2) == 1
        return self.ask[p]


class Saved(object):
    """a table to save"""
    _vc_track = False

    def __init__(self, disk, rows):
        self.__dict__.update(disk=disk, rows=rows)

    def to_csv(self, path, mode='w', header=True, **k):
        used('to_csv')
        if k or not isinstance(path, str) or mode not in ('w', 'a'):
            raise Unsupported('to_csv arguments')
        d = self.disk
        import posixpath
        if d.dirs.get(posixpath.dirname(path)) is not True:
            raise OSError('no directory %s' % posixpath.dirname(path))
        if type(header) is not bool:
            raise Unsupported('to_csv header')
        old = [] if mode == 'w' else list(d.files.get(path, []))
        d.files[path] = old + (['header'] if header else []) + [self.rows]


@unit('csv.save', [CS + 'put', CS + 'append', CS + '_key_to_abs_path'], weak=True)
def csv_save(c, E):
    """put: the file of the key holds one header and the rows given; append: the old rows, then those given; the
    directory is made if it is not there, no other file is touched"""
    M = E.load('nilmtk.datastore.csvdatastore')
    D = Disk(c)
    d, f = '/store/building1/elec', '/store/building1/elec/meter1.csv'
    case = c.choose(3)       # nothing there / the directory / the file
    D.dirs = {'/store': True, '/': True, '/store/building1': case > 0, d: case > 0}
    old = ['header', 'old rows']
    if case == 2:
        D.files[f] = list(old)
    other = '/store/building1/elec/meter2.csv'
    if c.choose(2) == 1 and case > 0:
        D.files[other] = ['header', 'other rows']
    others = {k: list(v) for k, v in D.files.items() if k != f}

    def makedirs(p, mode=0o777, exist_ok=False):
        if not isinstance(p, str):
            raise Unsupported('makedirs')
        if D.dirs.get(p) and not exist_ok:
            raise OSError('exists')
        parts = p.split('/')
        for i in range(1, len(parts) + 1):
            D.dirs['/'.join(parts[:i]) or '/'] = True

    def exists(p):
        return p in D.files or bool(D.dirs.get(p))
    for n, fn in (('exists', exists), ('makedirs', makedirs), ('isfile', lambda p: p in D.files),
                  ('isdir', lambda p: bool(D.dirs.get(p)))):
        if hasattr(M, n):
            setattr(M, n, fn)
    st = M.CSVDataStore.__new__(M.CSVDataStore)
    st.filename = '/store'
    key = ['/building1/elec/meter1', 'building1/elec/meter1'][c.choose(2)]
    v = Saved(D, 'rows')
    put = c.choose(2) == 0
    (st.put if put else st.append)(key, v)
    want = ['header', 'rows'] if put or case < 2 else old + ['rows']
    c.prove('the file holds what it should', D.files.get(f) == want)
    c.prove('no other file is touched', {k: x for k, x in D.files.items() if k != f} == others)


class Log(object):
    """pandas.HDFStore, told what to do"""
    _vc_track = False

    def __init__(self, c):
        self.c, self.log = c, []

    def put(self, key, value, **k):
        self.log.append(('put', key, value, k))

    def append(self, key, value, **k):
        self.log.append(('append', key, value, k))

    def remove(self, key, **k):
        self.log.append(('remove', key, None, k))

    def create_table_index(self, *a, **k):
        pass

    def flush(self, *a, **k):
        pass


@unit('hdf.save', [HD + 'HDFDataStore.put', HD + 'HDFDataStore.append', HD + 'HDFDataStore.remove'], weak=True)
def hdf_save(c, E):
    """put and append hand the table unchanged, under its key, to pandas (put: as a table, so that it can be queried and
    appended to); remove removes that key only"""
    used('pd.HDFStore')
    M = E.load('nilmtk.datastore.hdfdatastore')
    st = M.HDFDataStore.__new__(M.HDFDataStore)
    st.store = S = Log(c)
    v = object()
    which = c.choose(3)
    key = '/building1/elec/meter1'
    [lambda: st.put(key, v), lambda: st.append(key, v), lambda: st.remove(key)][which]()
    c.prove('one operation', len(S.log) == 1)
    op, k, x, kw = S.log[0]
    c.prove('the operation', op == ['put', 'append', 'remove'][which])
    c.prove('under the key given', k == key)
    c.prove('with the table given', which == 2 or x is v)
    if which == 0:
        c.prove('in table format', kw.get('format') == 'table' or kw.get('table') is True)
        c.prove('nothing dropped', kw.get('append', False) is False and not kw.get('dropna') and
                kw.get('data_columns') in (None, False))
    if which == 1:
        c.prove('all columns and rows', not kw.get('dropna') and kw.get('format', 'table') == 'table' and
                kw.get('append', True) is True and kw.get('columns') is None)
