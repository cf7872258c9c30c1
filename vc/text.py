"""Symbolic text (z3 strings)."""
import z3
from . import core
from .core import Sym, Unsupported, VNum, mkbool, mknum, ctx, lift
from .models import note, used

note('str.strip', "str.strip('/') removes the slashes at both ends: its result neither begins nor ends with one and "
                  "is unchanged by another strip")
_strip = z3.Function('strip', z3.StringSort(), z3.StringSort())


def ze(x):
    if isinstance(x, VStr):
        return x.e
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported('text %r' % (x,))


class VStr(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        return VStr(z3.Concat(self.e, ze(o)))

    def __radd__(self, o):
        return VStr(z3.Concat(ze(o), self.e))

    def __bool__(self):
        return ctx().branch(z3.Length(self.e) > 0)

    def vlen(self):
        return mknum(z3.Length(self.e))

    def strip(self, ch=None):
        used('str.strip')
        if ch != '/':
            raise Unsupported('strip(%r)' % ch)
        c = ctx()
        r = _strip(self.e)
        sl = z3.StringVal('/')
        c.assume(z3.And(z3.Not(z3.PrefixOf(sl, r)), z3.Not(z3.SuffixOf(sl, r)), _strip(r) == r))
        return VStr(r)

    def startswith(self, s):
        return mkbool(z3.PrefixOf(ze(s), self.e))

    def endswith(self, s):
        return mkbool(z3.SuffixOf(ze(s), self.e))

    def __eq__(self, o):
        if not isinstance(o, (str, VStr)):
            return False
        return mkbool(self.e == ze(o))

    def __ne__(self, o):
        if not isinstance(o, (str, VStr)):
            return True
        return mkbool(self.e != ze(o))

    __hash__ = None

    def __getitem__(self, i):
        c = ctx()
        n = z3.Length(self.e)

        def norm(k, default):
            if k is None:
                return default
            e = lift(k)
            if c.branch(e < 0):
                e = n + e
                if c.branch(e < 0):
                    return z3.IntVal(0)
            return n if c.branch(e > n) else e
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('stepped slice of text')
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return VStr(z3.SubString(self.e, a, z3.If(b > a, b - a, 0)))
        e = lift(i)
        if c.branch(e < 0):
            e = n + e
        if c.branch(z3.Or(e < 0, e >= n)):
            raise IndexError('string index out of range')
        return VStr(z3.SubString(self.e, e, 1))

    def __contains__(self, x):
        return ctx().branch(z3.Contains(self.e, ze(x)))

    def __format__(self, spec):
        return '<text>'

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('str.%s on symbolic text' % a)


def v_str(x=''):
    return x if isinstance(x, VStr) else str(x)
