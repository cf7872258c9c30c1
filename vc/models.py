"""Models (assumed contracts) of the third-party names the verified functions
use.  Each model is a stated assumption; MODEL_NOTES is the mechanical list
that goes to the evidence, and oracle/modelcheck.py compares every one of them
with the installed pandas / numpy on random inputs."""
import z3
from . import core
from .core import (VNum, VBool, VTimestamp, VTimedelta, VIso, Unsupported, lift, to_real,
                   mknum, mkbool, ctx)

MODEL_NOTES = {}


def note(key, text):
    MODEL_NOTES[key] = text


USED = set()


def used(key):
    USED.add(key)


class _PlaceMeta(type):
    def __getattr__(cls, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return placeholder(cls._path + '.' + a)

    def __call__(cls, *a, **k):
        raise Unsupported('%s is not modelled' % cls._path)

    def __instancecheck__(cls, o):
        return False


class _Place(metaclass=_PlaceMeta):
    _path = '?'


def placeholder(path):
    return _PlaceMeta(path.rsplit('.', 1)[-1], (_Place,), {'_path': path})


class ShimModule(object):
    def __init__(self, nm, **attrs):
        self.__dict__['_nm'] = nm
        self.__dict__.update(attrs)

    def __getattr__(self, a):
        if a in ('__path__', '__all__', '__wrapped__'):
            raise AttributeError(a)
        p = placeholder(self.__dict__['_nm'] + '.' + a)
        self.__dict__[a] = p
        return p


class _NaT(object):
    def __repr__(self):
        return 'NaT'

    def __bool__(self):
        return True

    def _c(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _c

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


NaT = _NaT()
note('pd.Timestamp', 'pd.Timestamp(x) of a timestamp is the same instant; of its isoformat() text '
                     'the same instant; instants are totally ordered, differences are exact '
                     '(one time zone per run, seconds as mathematical reals)')
note('pd.NaT', 'pd.NaT is a singleton')
note('timedelta', 'datetime.timedelta(seconds=x) is exactly x seconds (rounding to 1 us is ignored)')
note('hash', 'hash() is an uninterpreted function: equal values have equal hashes')
note('tz_localize', 'Timestamp.tz_localize is strictly increasing')


class _TsMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, VTimestamp)

    def __call__(cls, x=None, *a, **k):
        used('pd.Timestamp')
        if isinstance(x, VTimestamp):
            return x
        if isinstance(x, VIso):
            return x.ts
        if x is NaT or x is None:
            return NaT
        raise Unsupported('pd.Timestamp(%r)' % (x,))


class Timestamp(metaclass=_TsMeta):
    pass


class _TdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, VTimedelta)

    def __call__(cls, *a, **k):
        used('timedelta')
        tot = z3.RealVal(0)
        scale = {'days': 86400, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'weeks': 604800,
                 'milliseconds': core.Fraction(1, 1000), 'microseconds': core.Fraction(1, 1000000)}
        if a and isinstance(a[0], VTimedelta):
            return a[0]
        for nme, v in list(zip(('days', 'seconds', 'microseconds'), a)) + list(k.items()):
            if nme not in scale:
                raise Unsupported('timedelta(%s=)' % nme)
            e = lift(v)
            if e is None:
                raise Unsupported('timedelta of %r' % (v,))
            tot = tot + to_real(e) * core.rv(scale[nme])
        return VTimedelta(z3.simplify(tot))


class timedelta(metaclass=_TdMeta):
    pass


class _Warnings(ShimModule):
    pass


class _NullCtx(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def recursively_update_dict(d, u):
    for k, v in u.items():
        if isinstance(v, dict):
            d[k] = recursively_update_dict(d.get(k, {}), v)
        elif isinstance(v, list) and isinstance(d.get(k), list):
            d[k] = d[k] + v
        else:
            d[k] = v
    return d


def isnull(x):
    used('pd.isnull')
    if x is None or x is NaT:
        return True
    if isinstance(x, core.Sym):
        return False
    if isinstance(x, float):
        return x != x
    if isinstance(x, (int, str)):
        return False
    raise Unsupported('pd.isnull(%r)' % (x,))


def make(engine):
    nop = lambda *a, **k: None
    pd = ShimModule('pandas', Timestamp=Timestamp, NaT=NaT, isnull=isnull, Timedelta=timedelta)
    np = ShimModule('numpy')
    warnings = ShimModule('warnings', warn=nop, catch_warnings=_NullCtx, filterwarnings=nop,
                          simplefilter=nop)
    datetime = ShimModule('datetime', timedelta=timedelta)
    gc = ShimModule('gc', collect=nop)
    nm = ShimModule('nilm_metadata', recursively_update_dict=recursively_update_dict)
    mods = {'pandas': pd, 'numpy': np, 'warnings': warnings, 'datetime': datetime, 'gc': gc,
            'nilm_metadata': nm}
    from . import arrays
    arrays.install(pd, np, engine)
    return mods
