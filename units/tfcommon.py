"""Symbolic time frames, built through the real public constructor."""
import z3
from vc import core
from vc.core import VNum, VBool, VTimestamp, VTimedelta, zb, lift, to_real, PathEnd
from vc.seqs import VList
from vc.models import NaT


def tf_mod(E):
    return E.load('nilmtk.timeframe')


def bound(c, name, allow_none=True, nat=False):
    k = c.choose(1 + bool(allow_none) + bool(nat))
    if k == 0:
        return c.ts(name)
    if k == 1 and allow_none:
        return None
    return NaT


def const_ts(x):
    return VTimestamp(z3.RealVal(x))


def mk_tf(c, E, name, allow_open=True, allow_empty=True, flags=True, enabled=True):
    """An arbitrary reachable frame -> (TimeFrame, description for replay)."""
    M = tf_mod(E)
    if allow_empty and c.choose(2) == 1:
        tf = M.TimeFrame(const_ts(0), const_ts(1)).intersection(
            M.TimeFrame(const_ts(2), const_ts(3)))
        s = e = None
        empty = True
    else:
        s = bound(c, name + '_s', allow_open)
        e = bound(c, name + '_e', allow_open)
        if s is not None and e is not None:
            c.assume(s < e)
        tf = M.TimeFrame(s, e)
        empty = False
    inc = False
    if flags:
        inc = c.bool(name + '_incl')
        tf.include_end = inc
    en = True
    if not enabled:
        en = c.choose(2) == 0
        tf.enabled = en
    return tf, dict(start=s, end=e, empty=empty, incl=inc, enabled=en)


def tsnap(tf):
    return (tf.start, tf.end, tf.empty, tf.include_end, tf.enabled)


def same(a, b):
    """z3 formula: two observable values are identical."""
    if a is None or b is None or a is NaT or b is NaT:
        return z3.BoolVal(a is b)
    if isinstance(a, (bool, VBool)) and isinstance(b, (bool, VBool)):
        return zb(a) == zb(b)
    if isinstance(a, VTimestamp) and isinstance(b, VTimestamp):
        return a.e == b.e
    if isinstance(a, VTimedelta) and isinstance(b, VTimedelta):
        return a.e == b.e
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        la, lb = core.both(la, lb)
        return la == lb
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    return z3.BoolVal(False)


def same_snap(a, b):
    return z3.And(*[same(x, y) for x, y in zip(a, b)])


def wf(tf):
    s, e = tf.start, tf.end
    if s is None or e is None:
        return z3.BoolVal(True)
    return s.e < e.e


class TFList(object):
    """List of n well-formed bounded frames, n unknown (or a given size)."""

    def __init__(self, c, E, name, size=None, flags=False, min_len=0):
        self.c, self.E, self.name = c, E, name
        self.fs = c.fresh_fun(name + '_s', z3.IntSort(), z3.RealSort())
        self.fe = c.fresh_fun(name + '_e', z3.IntSort(), z3.RealSort())
        self.n = c.fresh(name + '_n', z3.IntSort()) if size is None else z3.IntVal(size)
        c.assume(self.n >= min_len)
        if size is None:
            i = z3.Int('i_' + name)
            c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), self.fs(i) < self.fe(i))))
        else:
            for i in range(size):
                c.assume(self.fs(i) < self.fe(i))
        if not c.feasible():
            raise PathEnd()
        self.M = tf_mod(E)
        self.size = size
        self.items = None
        if size is not None:
            self.items = [self.at(z3.IntVal(i)) for i in range(size)]

    def at(self, i):
        self.c.assume(z3.Implies(z3.And(0 <= i, i < self.n), self.fs(i) < self.fe(i)))
        return self.M.TimeFrame(VTimestamp(self.fs(i)), VTimestamp(self.fe(i)))

    def sorted_disjoint(self):
        c = self.c
        if self.size is None:
            i, j = z3.Int('i_so'), z3.Int('j_so')
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n),
                                                  self.fe(i) <= self.fs(j))))
        else:
            for i in range(self.size - 1):
                c.assume(self.fe(i) <= self.fs(i + 1))
        if not c.feasible():
            raise PathEnd()

    def vlist(self, cls=None):
        if self.items is not None:
            l = VList(list(self.items))
        else:
            l = VList.symbolic(self.n, self.at, self.name)
        if cls is not None:
            t = cls()
            t.base, t.tail, t.tag, t.token = l.base, l.tail, l.tag, l.token
            return t
        return l

    def model_value(self, mv):
        n = mv(self.n)
        if n is None or n > 12:
            return None
        return [dict(start={'t': mv(self.fs(z3.IntVal(i)))}, end={'t': mv(self.fe(z3.IntVal(i)))},
                     empty=False, incl=False, enabled=True) for i in range(n)]


def expect(c, f, exc):
    """Run f; -> (value, raised?) where only `exc` may be raised."""
    try:
        return f(), None
    except exc as e:
        return None, e
