"""Models of pandas Series / Index / DataFrame over Arr columns."""
import builtins
import z3
from . import core
from .core import (VNum, VNa, VBool, VTimestamp, VTimedelta, VSeq, Sym, Unsupported, lift, to_real,
                   mknum, mkbool, zb, ctx)
from .seqs import VList, concrete_items, znum
from .models import note, used
from . import arrays as A
from .arrays import Arr, array, asarr, ite, isnan, is_scalar, ediv

note('pd.Series', 'Series arithmetic between series with one index acts row by row; dropna keeps exactly the '
                  'non-missing rows in order; Series.sum/mean skip missing rows; iloc is positional')
note('pd.DataFrame', 'a DataFrame is its index plus named columns; df[col], dropna (rows without missing '
                     'entries), iloc, len and empty as documented by pandas')
note('pd.sort_index', 'sort_index orders the rows by index (identity on an increasing index)')


class Index(Arr):
    tz = None
    tzinfo = None
    name = None

    @classmethod
    def of(cls, a, tz=None):
        r = cls(a._n, a._at, a.tag, None if a.items is None else list(a.items))
        r.tz = r.tzinfo = tz
        r.srt = getattr(a, 'srt', False)
        if hasattr(a, 'filter'):
            r.filter = a.filter
        return r

    @property
    def values(self):
        r = Arr(self._n, self._at, self.tag, None if self.items is None else list(self.items))
        return r

    def __getitem__(self, i):
        r = Arr.__getitem__(self, i)
        return Index.of(r, self.tz) if isinstance(r, Arr) else r

    def to_series(self, *a, **k):
        return Series(self.values, self)

    def __contains__(self, x):
        if self.items is None:
            raise Unsupported('membership in a symbolic index')
        for y in self.items:
            if bool(x == y):
                return True
        return False


def same_index(a, b):
    if a is b:
        return True
    if a.items is not None and b.items is not None:
        return len(a.items) == len(b.items) and all(x is y or (not isinstance(x == y, VBool) and (x == y) is True)
                                                    for x, y in builtins.zip(a.items, b.items))
    if a.items is None and b.items is None:
        c = ctx()
        try:
            return A.key_of(c, a._n, a._at) == A.key_of(c, b._n, b._at)
        except core.NoBranch:
            return False
    return False


class ILoc(object):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, i):
        return self.o._iloc(i)

    def __setitem__(self, i, v):
        self.o._iloc_set(i, v)


class Series(VSeq):
    _vc_track = True
    ndim = 1

    def __init__(self, data=None, index=None, name=None, dtype=None, **k):
        if isinstance(data, Series):
            index = data._index if index is None else index
            data = data._v
        self._v = asarr(data)
        if index is None:
            n = self._v.vlen()
            index = A.arange(n)
        self._index = index if isinstance(index, Index) else Index.of(asarr(index))
        self.name = name
        self.version = 0

    def new(self, v, index=None):
        return Series(v, self._index if index is None else index, self.name)

    index = property(lambda s: s._index)
    values = property(lambda s: s._v)
    size = property(lambda s: s._v.vlen())
    shape = property(lambda s: (s._v.vlen(),))
    dtype = property(lambda s: s._v.dtype)
    iloc = property(ILoc)
    tag = 'series'

    @property
    def empty(self):
        return self._v.vlen() == 0

    def seq(self):
        return self._v.seq()

    def vlen(self):
        return self._v.vlen()

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __bool__(self):
        raise ValueError('The truth value of a Series is ambiguous.')

    def to_numpy(self, *a, **k):
        return self._v
    def tolist(self): return self._v.tolist()
    def copy(self, *a, **k): return self.new(self._v.copy())
    def __deepcopy__(self, memo): return self.copy()

    def _op(self, o, f):
        if isinstance(o, Series):
            if not same_index(self._index, o._index):
                raise Unsupported('arithmetic of series with different indices')
            o = o._v
        if isinstance(o, (list, VList, tuple)):
            o = array(o)
        if not (is_scalar(o) or isinstance(o, Arr)):
            return NotImplemented
        r = self._v.zip(o, f)
        return self.new(r)

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._op(o, ediv)
    def __rtruediv__(self, o): return self._op(o, lambda a, b: ediv(b, a))
    def __pow__(self, o): return self._op(o, lambda a, b: a ** b)
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._op(o, lambda a, b: a == b)
    def __ne__(self, o): return self._op(o, lambda a, b: a != b)
    def __and__(self, o): return self._op(o, lambda a, b: mkbool(z3.And(zb(a), zb(b))))
    def __or__(self, o): return self._op(o, lambda a, b: mkbool(z3.Or(zb(a), zb(b))))
    def __invert__(self): return self.new(~self._v)
    def __neg__(self): return self.new(-self._v)
    def __abs__(self): return self.new(abs(self._v))
    abs = __abs__
    __hash__ = None

    def astype(self, t, **k):
        return self.new(self._v.astype(t))

    def map_values(self, f):
        return self.new(self._v.map(f))

    def isnull(self):
        return self.new(self._v.map(lambda x: mkbool(isnan(x))))
    isna = isnull

    def notnull(self):
        return self.new(self._v.map(lambda x: mkbool(z3.Not(isnan(x)))))
    notna = notnull

    def fillna(self, v=None, **k):
        if not is_scalar(v):
            raise Unsupported('fillna')
        return self.new(self._v.map(lambda x: ite(isnan(x), v, plain(x))))

    def dropna(self, *a, **k):
        return self[self.notnull()]._strip()

    def _strip(self):
        """rows known not to be missing"""
        return Series(self._v.map(plain), self._index, self.name)

    def clip(self, lower=None, upper=None, *a, **k):
        if not (is_scalar(lower) and is_scalar(upper)):
            raise Unsupported('clip by a vector')
        return self.new(self._v.clip(lower, upper))

    def sum(self, *a, **k):
        used('pd.Series')
        v = self._v.map(lambda x: ite(isnan(x), 0.0, plain(x)) if isinstance(x, (VNa, float)) else x)
        return v.sum()

    def count(self):
        return self.notnull().values.astype('int').sum()

    def mean(self, *a, **k):
        n = self.count()
        if n == 0:
            return A.NAN
        return ediv(self.sum(), n)

    def max(self, *a, **k): return self.dropna()._v.max()
    def min(self, *a, **k): return self.dropna()._v.min()
    def any(self, *a, **k): return self._v.any()
    def all(self, *a, **k): return self._v.all()

    def sort_index(self, *a, **k):
        if getattr(self._index, 'srt', False):
            return self.copy()
        raise Unsupported('sort_index of an unsorted series')

    def __getitem__(self, i):
        if isinstance(i, Series):
            i = i._v
        if isinstance(i, Arr):
            return Series(self._v[i], self._index[i], self.name)
        if isinstance(i, slice):
            return self._iloc(i)
        raise Unsupported('label access to a series')

    def __setitem__(self, i, v):
        self.version += 1
        if isinstance(i, Series):
            i = i._v
        if isinstance(i, Arr):
            self._v = self._v.copy()
            self._v[i] = v
            return
        raise Unsupported('label assignment to a series')

    def _iloc(self, i):
        r = self._v[i]
        if isinstance(r, Arr):
            ix = self._index[i]
            ix.srt = getattr(self._index, 'srt', False)
            return Series(r, ix, self.name)
        return r

    def _iloc_set(self, i, v):
        self.version += 1
        self._v = self._v.copy()
        self._v[i] = v

    def head(self, n=5): return self._iloc(slice(None, n))

    def diff(self, periods=1):
        d = A.diff(self._v)
        return self.new(A.concatenate([array([A.NAN]), d]) if self._v.items is None or self._v.items else d)

    def shift(self, k=1):
        raise Unsupported('shift')

    def model_value(self, f):
        return {'index': self._index.model_value(f), 'values': self._v.model_value(f)}


def plain(x):
    """value of an element known not to be missing"""
    if isinstance(x, VNa):
        return VNum(x.e)
    return x


class _Attr(object):
    pass


class Frame(VSeq):
    """DataFrame"""
    _vc_track = True
    ndim = 2
    tag = 'frame'

    def __init__(self, data=None, index=None, columns=None, **k):
        self.version = 0
        cols = {}
        if isinstance(data, Frame):
            index = data._index if index is None else index
            cols = dict(data._cols)
        elif isinstance(data, dict):
            for kk, v in data.items():
                if isinstance(v, Series):
                    index = v._index if index is None else index
                    v = v._v
                cols[kk] = asarr(v)
        elif data is None:
            pass
        elif isinstance(data, Series):
            index = data._index if index is None else index
            cols[0 if columns is None else list(columns)[0]] = data._v
        else:
            raise Unsupported('DataFrame(%r)' % type(data))
        if index is None:
            n = next(iter(cols.values())).vlen() if cols else 0
            index = A.arange(n)
        self._index = index if isinstance(index, Index) else Index.of(asarr(index))
        if columns is not None and not isinstance(data, Series):
            cols = {kk: cols.get(kk) for kk in list(columns)}
            for kk in cols:
                if cols[kk] is None:
                    cols[kk] = A.full(self._index.vlen(), A.NAN)
        self._cols = cols

    def _mk(self, f, index):
        r = Frame({k: f(v) for k, v in self._cols.items()}, index)
        return r

    index = property(lambda s: s._index)

    @property
    def columns(self):
        return Columns(self._cols)

    def keys(self):
        return VList(list(self._cols))

    def vlen(self):
        return self._index.vlen()

    def __len__(self):
        return len(self._index)

    def __iter__(self):
        return iter(list(self._cols))

    def __contains__(self, k):
        return k in self._cols

    @property
    def empty(self):
        if not self._cols:
            return True
        return self.vlen() == 0

    shape = property(lambda s: (s.vlen(), len(s._cols)))
    iloc = property(ILoc)

    def __getitem__(self, k):
        if isinstance(k, VList) and k.base is not None:
            k = asarr(k)
        elif isinstance(k, (list, VList)) and len(k) and all(isinstance(x, (bool, core.VBool)) for x in k):
            k = asarr(k)
        if isinstance(k, Series) or isinstance(k, Arr):
            m = k._v if isinstance(k, Series) else k
            return self._mk(lambda v: v[m], self._index[m])
        if isinstance(k, slice):
            return self._iloc(k)
        if isinstance(k, (list, VList)):
            ks = list(k)
            r = Frame({x: self._cols[x] for x in ks}, self._index)
            return r
        if k not in self._cols:
            raise KeyError(k)
        return Series(self._cols[k], self._index, k)

    def __setitem__(self, k, v):
        self.version += 1
        if isinstance(v, Series):
            v = v._v
        if is_scalar(v):
            v = A.full(self._index.vlen(), v)
        self._cols[k] = asarr(v)

    def _iloc(self, i):
        if isinstance(i, tuple):
            r, cidx = i
            if isinstance(cidx, int):
                k = list(self._cols)[cidx]
                return Series(self._cols[k], self._index, k)._iloc(r)
            raise Unsupported('iloc[%r]' % (i,))
        ix = self._index[i]
        if isinstance(ix, Arr):
            ix.srt = getattr(self._index, 'srt', False)
            return self._mk(lambda v: v[i], ix)
        return Row({k: v[i] for k, v in self._cols.items()}, ix)

    def dropna(self, *a, **k):
        if a or k:
            raise Unsupported('dropna arguments')
        m = None
        for v in self._cols.values():
            ok = v.map(lambda x: mkbool(z3.Not(isnan(x))))
            m = ok if m is None else (m & ok)
        if m is None:
            return self
        r = self[m]
        r._cols = {kk: v.map(plain) for kk, v in r._cols.items()}
        r._index.srt = getattr(self._index, 'srt', False)
        return r

    def sort_index(self, *a, **k):
        if getattr(self._index, 'srt', False):
            return self.copy()
        raise Unsupported('sort_index of an unsorted frame')

    def copy(self, *a, **k):
        r = self._mk(lambda v: v.copy(), self._index)
        return r

    def sum(self, axis=0, **k):
        raise Unsupported('DataFrame.sum')

    def head(self, n=5):
        return self._iloc(slice(None, n))

    def seq(self):
        raise Unsupported('frame as a sequence')

    @property
    def values(self):
        if len(self._cols) == 1:
            raise Unsupported('2-d values')
        raise Unsupported('2-d values')

    def model_value(self, f):
        return {'index': self._index.model_value(f),
                'cols': [[str(k), v.model_value(f)] for k, v in self._cols.items()]}


class Columns(VList):
    def __init__(self, cols=()):
        VList.__init__(self, list(cols))

    @property
    def values(self):
        return VList(self.tail)

    def tolist(self):
        return VList(self.tail)

    def get_level_values(self, name):
        i = {'physical_quantity': 0, 'type': 1, 0: 0, 1: 1}[name]
        return VList([x[i] for x in self.tail])


class Row(object):
    """one row of a frame (a Series keyed by column)"""

    def __init__(self, d, name):
        self.d = d
        self.name = name

    def __getitem__(self, k):
        return self.d[k]


def pd_isnull(old):
    def f(x):
        if isinstance(x, (Series, Arr)):
            return x.isnull() if isinstance(x, Series) else x.map(lambda v: mkbool(isnan(v)))
        if isinstance(x, VNa):
            return mkbool(x.na)
        return old(x)
    return f


def install(pd, np, engine):
    pd.__dict__.update(dict(Series=Series, DataFrame=Frame, Index=Index, DatetimeIndex=Index,
                            isnull=pd_isnull(pd.__dict__['isnull']),
                            isna=pd_isnull(pd.__dict__['isnull']),
                            notnull=lambda x: ~pd_isnull(pd.__dict__['isnull'])(x)))
