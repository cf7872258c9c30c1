"""Contract of converting one data store into another (C27)."""
import z3
from vc.core import VNum, Unsupported, mkbool, mknum, lift
from vc.loops import LoopSpec
from vc.models import note
from vc.seqs import VList, SymIter
from vc.unit import unit

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

note('stores', 'elements_below_key() lists each name once; load() gives the rows of the table in order, consecutive '
               'chunks sharing at most their boundary row (C07, C08); times of a table strictly increase')


class Time(object):
    """time of row r of table t"""
    _vc_track = False

    def __init__(self, S, t, r):
        self.S, self.t, self.r = S, t, r

    def __eq__(self, o):
        if isinstance(o, Time):
            if all(x.eq(y) for x, y in zip(self.t, o.t)):
                return mkbool(self.r == o.r)
            return mkbool(self.S.time(*self.t, self.r) == self.S.time(*o.t, o.r))
        return False

    def __ne__(self, o):
        r = self == o
        return mkbool(z3.Not(r.e)) if hasattr(r, 'e') else not r

    def __le__(self, o):
        if isinstance(o, Time) and all(x.eq(y) for x, y in zip(self.t, o.t)):
            return mkbool(self.r <= o.r)
        raise Unsupported('comparison of times')

    def __lt__(self, o):
        if isinstance(o, Time) and all(x.eq(y) for x, y in zip(self.t, o.t)):
            return mkbool(self.r < o.r)
        raise Unsupported('comparison of times')
    __hash__ = None


class Index(object):
    _vc_track = False

    def __init__(self, ch):
        self.ch = ch

    def __getitem__(self, k):
        c, ch = self.ch.S.c, self.ch
        if k not in (0, -1):
            raise Unsupported('index[%r]' % (k,))
        if not c.branch(ch.lo < ch.hi):
            raise IndexError('index 0 is out of bounds for axis 0 with size 0')
        return Time(ch.S, ch.t, ch.lo if k == 0 else ch.hi - 1)

    def __len__(self):
        raise Unsupported('len')

    def vlen(self):
        return self.ch.vlen()


class Rows(object):
    _vc_track = False

    def __init__(self, ch):
        self.ch = ch

    def __getitem__(self, s):
        ch = self.ch
        if isinstance(s, slice) and s.stop is None and s.step is None and isinstance(s.start, int) and s.start >= 0:
            n = ch.lo + s.start
            return Chunk(ch.S, ch.t, z3.If(n < ch.hi, n, ch.hi), ch.hi)
        raise Unsupported('iloc[%r]' % (s,))


class Chunk(object):
    """rows lo .. hi-1 of table t"""
    _vc_track = False

    def __init__(self, S, t, lo, hi):
        self.S, self.t, self.lo, self.hi = S, t, lo, hi

    index = property(Index)
    iloc = property(Rows)
    empty = property(lambda self: mkbool(self.lo >= self.hi))

    def vlen(self):
        return mknum(self.hi - self.lo)

    def __len__(self):
        raise Unsupported('len')

    def __bool__(self):
        raise ValueError('The truth value of a DataFrame is ambiguous.')


class Meta(object):
    _vc_track = False

    def __init__(self, path):
        self.path = path


class Stores(object):
    """the input store, and what is known of the output store"""

    def __init__(self, c, E):
        self.c, self.E = c, E
        self.names = {}
        f = c.fresh_fun
        self.nu, self.nm, self.nc, self.N = f('utilities', I, I), f('meters', I, I, I), f('chunks', I, I, I, I), \
            f('rows', I, I, I, I)
        self.cache = f('cache', I, I, I, B)
        self.lo, self.E_ = f('lo', I, I, I, I, I), f('covered', I, I, I, I, I)
        self.time = f('time', I, I, I, I, R)
        self.b0, self.u0, self.m0 = (c.fresh(x, I) for x in ('b0', 'u0', 'm0'))
        self.cur = {}
        sz = E.size
        self.nb = c.fresh('buildings', I) if sz is None else z3.IntVal(sz[0])
        c.assume(self.nb >= 0)

    # names of elements: text that carries the position
    def name(self, kind, ix):
        s = '%s%d' % (kind, len(self.names) + 1)
        self.names[s] = tuple(ix)
        return s

    def path(self, key):
        p = [x for x in key.split('/') if x]
        ix = ()
        for k, x in enumerate(p):
            if x == 'cache' and k == 2:
                return 'cache'
            if x not in self.names or len(self.names[x]) != k + 1 or \
                    not all(a.eq(b) for a, b in zip(self.names[x], ix)):
                self.c.prove('the keys of the input are used', False)
                raise Unsupported('key %r' % key)
            ix = self.names[x]
        return ix

    def valid0(self):
        """the arbitrary table exists and is no cache"""
        return z3.And(0 <= self.b0, self.b0 < self.nb, 0 <= self.u0, self.u0 < self.nu(self.b0), 0 <= self.m0,
                      self.m0 < self.nm(self.b0, self.u0), z3.Not(self.cache(self.b0, self.u0, self.m0)))

    def is0(self, t):
        return z3.And(t[0] == self.b0, t[1] == self.u0, t[2] == self.m0)

    def seq(self, n, at, tag, size):
        if self.E.size is None:
            return SymIter(n, at, tag)
        return [at(z3.IntVal(i)) for i in range(size)]


class In(object):
    _vc_track = False

    def __init__(self, S):
        self.S = S

    def load_metadata(self, key='/'):
        p = self.S.path(key)
        if p == 'cache' or len(p) > 1:
            raise KeyError(key)
        return Meta(p)

    def elements_below_key(self, key='/'):
        S, c, sz = self.S, self.S.c, self.S.E.size
        p = S.path(key)
        if p == ():
            return S.seq(S.nb, lambda i: S.name('building', [i]), 'buildings', sz and sz[0])
        if len(p) == 1:
            c.assume(S.nu(p[0]) >= 0 if sz is None else S.nu(p[0]) == sz[1])
            return S.seq(S.nu(p[0]), lambda i: S.name('elec', [p[0], i]), 'utilities', sz and sz[1])
        if len(p) == 2:
            c.assume(S.nm(*p) >= 0 if sz is None else S.nm(*p) == sz[2])
            return S.seq(S.nm(*p), lambda i: 'cache' if c.branch(S.cache(*p, i)) else S.name('meter', [*p, i]),
                         'meters', sz and sz[2])
        raise Unsupported('elements below %r' % key)

    def load(self, key, **kw):
        S, c, sz = self.S, self.S.c, self.S.E.size
        t = S.path(key)
        c.prove('the cache is not copied', t != 'cache')
        if t == 'cache' or len(t) != 3 or kw:
            raise Unsupported('load')
        n = S.nc(*t)
        c.assume(z3.And(n >= 0, S.E_(*t, 0) == 0, S.E_(*t, n) == S.N(*t), S.N(*t) >= 0))
        if sz is not None:
            c.assume(n == sz[3])

        def at(i):
            lo, e, hi = S.lo(*t, i), S.E_(*t, i), S.E_(*t, i + 1)
            c.assume(z3.And(e >= 0, hi >= e, z3.Or(lo == e, z3.And(e > 0, lo == e - 1)), lo >= 0))
            return Chunk(S, t, lo, hi)
        S.cur['table'] = t
        return S.seq(n, at, 'chunks', sz and sz[3])


class Out(object):
    _vc_track = True

    def __init__(self, S):
        self.S, self.version = S, 0
        self.A, self.MB, self.top = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)

    def save_metadata(self, key, md):
        S, c = self.S, self.S.c
        p = S.path(key)
        ok = isinstance(md, Meta) and p != 'cache' and len(p) < 2 and len(md.path) == len(p) and \
            all(a.eq(b) for a, b in zip(md.path, p))
        c.prove('metadata is saved under the key it was loaded from', ok)
        self.version += 1
        if p == ():
            self.top = self.top + 1
        elif p != 'cache':
            self.MB = self.MB + z3.If(p[0] == S.b0, 1, 0)

    def append(self, key, df):
        S, c = self.S, self.S.c
        t = S.path(key)
        if not isinstance(df, Chunk):
            raise Unsupported('append')
        same = t != 'cache' and len(t) == 3 and all(a.eq(b) for a, b in zip(t, df.t))
        c.prove('a table is appended under the key it was loaded from', same)
        if not same:
            return
        is0 = S.is0(t)
        c.prove('the rows appended follow those appended before', z3.Implies(z3.And(is0, df.lo < df.hi), df.lo == self.A))
        self.version += 1
        self.A = z3.If(z3.And(is0, df.lo < df.hi), df.hi, self.A)


class Level(LoopSpec):
    def __init__(self, S, out, name):
        self.S, self.out, self.name = S, out, name

    def match(self, loop):
        return loop.kind == 'for' and getattr(loop.it, 'tag', '') == self.name

    def allow_mutation(self, loop):
        return [self.out]

    def havoc(self, loop, env, names):
        c, o = self.S.c, self.out
        o.A, o.MB = c.fresh('A', I), c.fresh('MB', I)
        o.version += 1
        return self.more(loop, env, names)

    def more(self, loop, env, names):
        return {}

    def before(self, b, u, m):
        """the arbitrary table comes before position (b, u, m) (None: whole level)"""
        S = self.S
        r = S.b0 < b
        if u is not None:
            r = z3.Or(r, z3.And(S.b0 == b, S.u0 < u))
        if m is not None:
            r = z3.Or(r, z3.And(S.b0 == b, S.u0 == u, S.m0 < m))
        return z3.And(S.valid0(), r)

    def want(self, r, b):
        S, o = self.S, self.out
        return [('rows of the tables so far', o.A == z3.If(r, S.N(S.b0, S.u0, S.m0), 0)),
                ('metadata of the buildings so far', o.MB == z3.If(z3.And(0 <= S.b0, S.b0 < b), 1, 0)),
                ('the dataset metadata is saved', o.top == 1)]


class Buildings(Level):
    def inv(self, loop):
        return self.want(self.before(loop.k, None, None), loop.k)

    def on_item(self, loop, item):
        self.S.cur['b'] = loop.k


class Utilities(Level):
    def inv(self, loop):
        b = self.S.cur['b']
        return self.want(self.before(b, loop.k, None), b + 1)

    def on_item(self, loop, item):
        self.S.cur['u'] = loop.k


class Meters(Level):
    def inv(self, loop):
        b, u = self.S.cur['b'], self.S.cur['u']
        return self.want(self.before(b, u, loop.k), b + 1)

    def on_item(self, loop, item):
        self.S.cur['m'] = loop.k


class Chunks(Level):
    def inv(self, loop):
        S, o = self.S, self.out
        t = S.cur['table']
        b, u, m = t
        e = S.E_(*t, loop.k)
        out = [('rows of the chunks so far', o.A == z3.If(z3.And(S.is0(t), S.valid0()), e, z3.If(
            self.before(b, u, m), S.N(S.b0, S.u0, S.m0), 0)))] + self.want(S.valid0(), b + 1)[1:]
        out.append(('covered', e >= 0))
        for n in sorted(set(loop.names)):
            v, v0 = loop.env.get(n), loop.entry.get(n)
            if v0 is None and n in loop.entry or isinstance(v0, Time) or isinstance(v, Time):
                if v is None:
                    out.append(('%s is None before the first row' % n, e == 0))
                elif isinstance(v, Time):
                    out.append(('%s is the time of the last row' % n, z3.And(e > 0, v.r == e - 1) if all(
                        x.eq(y) for x, y in zip(v.t, t)) else z3.BoolVal(False)))
        return out

    def more(self, loop, env, names):
        S = self.S
        t = S.cur['table']
        out = {}
        for n in names:
            if n in env and (env[n] is None or isinstance(env[n], Time)):
                out[n] = None if S.c.choose(2) == 0 else Time(S, t, c_last(S, t, loop))
        return out


def c_last(S, t, loop):
    return S.E_(*t, loop.k) - 1


@unit('cv.convert', ['nilmtk/datastore/datastore.py:convert_datastore'],
      sizes=[(0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 1, 1), (1, 1, 2, 1), (1, 1, 1, 2), (1, 1, 1, 3), (1, 1, 2, 2), (2, 1, 1, 1),
             (1, 2, 1, 1)], budget=120)
def cv_convert(c, E):
    """the output gets the dataset metadata, each building's, and the rows of each table once and in order"""
    M = E.load('nilmtk.datastore.datastore')
    S = Stores(c, E)
    src, out = In(S), Out(S)
    if E.size is None:
        E.loop_specs += [Buildings(S, out, 'buildings'), Utilities(S, out, 'utilities'), Meters(S, out, 'meters'),
                         Chunks(S, out, 'chunks')]
        E.roots = list(getattr(E, 'roots', [])) + [out]
    M.convert_datastore(src, out)
    c.prove('the metadata of the dataset is saved', out.top == 1)
    c.prove('the metadata of each building is saved', z3.Implies(z3.And(0 <= S.b0, S.b0 < S.nb), out.MB == 1))
    c.prove('every row of each table is appended', z3.Implies(S.valid0(), out.A == S.N(S.b0, S.u0, S.m0)))
    c.prove('nothing else is appended', z3.Implies(z3.Not(S.valid0()), out.A == 0))
