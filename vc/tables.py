"""Model of the small result tables (pandas DataFrames keyed by period start):
rows of unknown number, unique labels, cells read and written by label."""
import z3
from . import core, frames as F, arrays as A
from .core import VTimestamp, VNum, VNa, Unsupported, PathEnd, mknum, mkbool, ctx, zb, lift
from .seqs import VList, SymIter
from .models import note, used, NaT

note('pd.table', 'DataFrame rows of a result table: iterrows visits every row once in order, .loc[label] and '
                 '.iloc[i] read and write exactly that cell (chained column assignment writes through, as pandas '
                 '2 does), concat appends rows and with verify_integrity refuses duplicate labels, sort_index '
                 'orders rows by label')


class RTable(object):
    _vc_track = True

    def __init__(self, c, name, n, cols, labels=None):
        """cols: {name: fn(z3 Int) -> value}"""
        self.c, self.name, self.n = c, name, n
        self.fs = labels if labels is not None else c.fresh_fun(name + '_lab', z3.IntSort(), z3.RealSort())
        self.cols = dict(cols)
        self.over = []            # (row, col, value), newest last
        self.extra = []           # appended rows: dicts with '__label__'
        self.others = []          # appended tables
        self.is_sorted = True
        self.version = 0

    # identity of the content (for postconditions)
    def clone(self):
        t = RTable(self.c, self.name, self.n, self.cols, self.fs)
        t.over, t.extra, t.others = list(self.over), list(self.extra), list(self.others)
        t.is_sorted = self.is_sorted
        return t

    def _plain(self):
        if self.extra or self.others:
            raise Unsupported('access to a concatenated table')

    def label(self, k):
        t = VTimestamp(self.fs(k))
        return t

    def cell(self, k, col):
        if col not in self.cols:
            raise KeyError(col)
        v = self.cols[col](k)
        for r, cc, x in self.over:
            if cc == col:
                v = A.ite(r == k, x, v)
        return v

    def row_of(self, label):
        """row index of a label produced by this table's own iteration"""
        e = label.e if isinstance(label, VTimestamp) else None
        if e is not None and z3.is_app(e) and e.num_args() == 1 and e.decl().eq(self.fs):
            return e.arg(0)
        return None

    # -- pandas interface
    def iterrows(self):
        self._plain()
        used('pd.table')
        return SymIter(self.n, lambda k: (self.label(k), RRow(self, k)), 'rows:' + self.name, src=self)

    def vlen(self):
        self._plain()
        return mknum(self.n)

    @property
    def empty(self):
        self._plain()
        return mkbool(self.n == 0)

    @property
    def index(self):
        return RIndex(self)

    @property
    def columns(self):
        return F.Columns(self.cols)

    @property
    def iloc(self):
        return RILoc(self)

    def __getitem__(self, col):
        if isinstance(col, (list, VList)):
            t = self.clone()
            t.cols = {k: self.cols[k] for k in col}
            return t
        if col not in self.cols:
            raise KeyError(col)
        return RCol(self, col)

    def sort_index(self, inplace=False, **k):
        if inplace:
            self.version += 1
            self.is_sorted = True
            return None
        t = self.clone()
        t.is_sorted = True
        return t

    def copy(self, *a, **k):
        return self.clone()

    def fillna(self, v):
        raise Unsupported('fillna of a table')

    def sum(self, *a, **k):
        self._plain()
        if self.over:
            raise Unsupported('sum of a changed table')
        return F.Row({col: F.Series(A.Arr(self.n, f)).sum() for col, f in self.cols.items()}, 'sum')


class RIndex(object):
    def __init__(self, t):
        self.t = t

    def __getitem__(self, i):
        c = ctx()
        e = lift(i)
        n, lab = row_view(self.t)
        if c.branch(z3.Or(e < 0, e >= n)):
            raise IndexError('index out of bounds')
        return VTimestamp(lab(e))

    def __contains__(self, label):
        t = self.t
        t._plain()
        c = ctx()
        if t.row_of(label) is not None:
            return True
        has = t.lookup_has(label)
        return c.branch(has)


def row_view(t):
    if t.extra or t.others:
        if not hasattr(t, 'merged'):
            raise Unsupported('rows of a concatenated table')
        return t.merged
    return t.n, t.fs


class RILoc(object):
    def __init__(self, t):
        self.t = t

    def __getitem__(self, i):
        c = ctx()
        e = lift(i)
        if hasattr(self.t, 'merged'):
            return MRow(self.t, e)
        self.t._plain()
        if c.branch(z3.Or(e < 0, e >= self.t.n)):
            raise IndexError('out of bounds')
        return RRow(self.t, e)


class MRow(object):
    def __init__(self, t, k):
        self.t, self.k = t, k

    def __getitem__(self, col):
        if col == 'end':
            return VTimestamp(self.t.merged_end(self.k))
        raise Unsupported('cell of a merged table')


class RRow(object):
    def __init__(self, t, k):
        self.t, self.k = t, k

    def __getitem__(self, col):
        return self.t.cell(self.k, col)


class RCol(object):
    def __init__(self, t, col):
        self.t, self.col = t, col

    @property
    def loc(self):
        return RLoc(self.t, self.col)

    def sum(self):
        return F.Series(A.Arr(self.t.n, lambda i: self.t.cell(i, self.col))).sum()


class RLoc(object):
    def __init__(self, t, col):
        self.t, self.col = t, col

    def __getitem__(self, label):
        t = self.t
        k = t.row_of(label)
        if k is not None:
            return t.cell(k, self.col)
        c = ctx()
        if not c.branch(t.lookup_has(label)):
            raise KeyError(label)
        return t.cell(t.lookup_row(label), self.col)

    def __setitem__(self, label, v):
        t = self.t
        k = t.row_of(label)
        if k is None:
            raise Unsupported('assignment at an unknown label')
        t.version += 1
        t.over.append((k, self.col, v))


class Keyed(RTable):
    """a table looked up by label: has(t), row(t)"""

    def __init__(self, c, name, n, cols):
        RTable.__init__(self, c, name, n, cols)
        self.has = c.fresh_fun(name + '_has', z3.RealSort(), z3.BoolSort())
        self.row = c.fresh_fun(name + '_row', z3.RealSort(), z3.IntSort())

    def lookup_has(self, label):
        e = label.e
        self.c.assume(z3.Implies(self.has(e), z3.And(0 <= self.row(e), self.row(e) < self.n,
                                                     self.fs(self.row(e)) == e)))
        return self.has(e)

    def lookup_row(self, label):
        return self.row(label.e)


def concat(objs, axis=0, verify_integrity=False, sort=False, ignore_index=False, **k):
    objs = list(objs)
    if not objs or not isinstance(objs[0], RTable):
        raise Unsupported('pd.concat')
    c = ctx()
    t = objs[0].clone()
    for o in objs[1:]:
        if isinstance(o, RTable):
            t.others.append(o)
            continue
        if not isinstance(o, F.Frame):
            raise Unsupported('concat with %r' % type(o))
        if A.conc(o.index.zn) != 1:
            raise Unsupported('concat with a frame of several rows')
        row = {kk: v.items[0] for kk, v in o._cols.items()}
        lab = o.index.items[0]
        row['__label__'] = lab
        if verify_integrity and isinstance(lab, VTimestamp):
            if c.choose(2) == 0:
                d = c.fresh('dup', z3.IntSort())
                c.assume(z3.And(0 <= d, d < t.n, t.fs(d) == lab.e))
                if not c.feasible():
                    raise PathEnd()
                raise ValueError('Indexes have overlapping values')
            q = z3.Int('dupq')
            c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t.n), t.fs(q) != lab.e)))
        t.extra.append(row)
    t.is_sorted = False
    t.version += 1
    return t
