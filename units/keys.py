"""Contracts of store keys (C15)."""
import z3
from vc import core
from vc.core import Unsupported, PathEnd, VNum, zb
from vc.loader import _NumMeta, StarArgs
from vc.loops import LoopSpec
from vc.seqs import VList
from vc.text import VStr, v_str, ze
from vc.unit import unit
from vc.models import note, used

KY = 'nilmtk/datastore/key.py:Key.'
note('decimal', "'{:d}'.format(n) and int() are inverse to each other; the text of an integer holds neither a slash "
                "nor a letter")


class StrProxy(metaclass=_NumMeta):
    _real = str
    _conv = staticmethod(v_str)

    @staticmethod
    def _inst(o):
        return isinstance(o, (str, VStr))


def num(c, name):
    n = c.int(name)
    return n


@unit('key.roundtrip', [KY + '__init__', KY + '_check', KY + '__repr__'], budget=60)
def key_roundtrip(c, E):
    """a key prints as /building<b>[/elec/meter<m>] and parses back, with or without slashes around"""
    used('decimal')
    M = E.load('nilmtk.datastore.key')
    c.tokens = []
    b, m = c.int('b'), None if c.choose(2) == 0 else c.int('m')
    ok = z3.And(b.e >= 1, m.e >= 1) if m is not None else b.e >= 1
    c.inp('case', dict(b=b, m=m, pre='', post='', bad='building0'))
    try:
        k = M.Key(building=b, meter=m)
    except AssertionError:
        c.prove('only numbers below one are refused', z3.Not(ok))
        return
    c.prove('building and meter numbers are positive', ok)
    txt = repr(k)
    want = '/building{:d}'.format(b) + ('' if m is None else '/elec/meter{:d}'.format(m))
    c.prove('the printed form', txt == want)
    pre, post = ['', '/', '///'][c.choose(3)], ['', '/', '//'][c.choose(3)]
    p = M.Key(pre + want.strip('/') + post)
    c.prove('same building', zb(p.building == b))
    c.prove('same meter', z3.BoolVal(p.meter is None) if m is None else
            (zb(p.meter == m) if p.meter is not None else z3.BoolVal(False)))
    c.prove('utility', p.utility == (None if m is None else 'elec'))
    c.prove('prints the same', repr(p) == want)


@unit('key.malformed', [KY + '__init__', KY + '_check'], budget=60)
def key_malformed(c, E):
    """a text is accepted exactly when it reads building<b>[/<utility>[/meter<m>]] with positive numbers"""
    M = E.load('nilmtk.datastore.key')
    c.tokens = []
    b, m = c.int('b'), c.int('m')
    T = '{:d}'.format(b)
    U = '{:d}'.format(m)
    a = ['building' + T, 'building', 'buildingx', 'building' + T + 'x', T, 'house' + T, 'xbuilding' + T, 'meter' + T,
         'Building' + T, 'building' + T + '.5', '']
    ia = c.choose(len(a))
    parts, good = [a[ia]], z3.And(z3.BoolVal(ia == 0), b.e >= 1)
    wm = None
    k = c.choose(3)
    if k >= 1:
        parts.append('elec')
    if k == 2:
        z = ['meter' + U, 'meter', 'meterx', U, 'cache', 'xmeter' + U, 'Meter' + U]
        iz = c.choose(len(z))
        parts.append(z[iz])
        good = z3.And(good, z3.BoolVal(iz == 0), m.e >= 1)
        wm = m
    pre, post = ['', '/'][c.choose(2)], ['', '/'][c.choose(2)]
    if ia == len(a) - 1 and k == 0:
        good = z3.BoolVal(False)
    elif ia == len(a) - 1:
        good = z3.BoolVal(False)
    try:
        p = M.Key(pre + '/'.join(parts) + post)
    except (AssertionError, ValueError):
        c.prove('a well formed key is not refused', z3.Not(good))
        return
    c.prove('a malformed key is refused', good)
    c.prove('building', zb(p.building == b))
    c.prove('meter', z3.BoolVal(p.meter is None) if wm is None else
            (zb(p.meter == wm) if p.meter is not None else z3.BoolVal(False)))


@unit('key.join', ['nilmtk/datastore/datastore.py:join_key'], sizes=[0, 1, 2], budget=60)
def key_join(c, E):
    """joining gives '/' and the non-empty stripped parts with single slashes between"""
    M = E.load('nilmtk.datastore.datastore')
    if E.size is not None:
        body = ['', 'building1', 'x/y']
        ks = [c.choose(3) for _ in range(E.size)]
        sl = ['', '/', '//']
        args = [sl[c.choose(3)] + body[k] + sl[c.choose(2)] for k in ks]
        r = M.join_key(*args)
        c.inp('case', dict(parts=args, sl=[[0, 0]] * len(args)))
        c.prove('the joined key', r == '/' + '/'.join(body[k] for k in ks if body[k]))
        return
    E.builtins['str'] = StrProxy
    I, S = z3.IntSort(), z3.StringSort()
    n = c.fresh('n', I)
    c.assume(n >= 0)
    part, J = c.fresh_fun('part', I, S), c.fresh_fun('J', I, S)
    sl = z3.StringVal('/')

    def at(i):
        # J(i): the first i parts that are not empty, stripped, each followed by a slash
        p = VStr(part(i))
        s = p.strip('/').e
        c.assume(J(i + 1) == z3.If(z3.Length(s) > 0, z3.Concat(J(i), s, sl), J(i)))
        return p
    c.assume(J(0) == z3.StringVal(''))
    parts = VList.symbolic(n, at, 'parts')

    class Sp(LoopSpec):
        name = 'parts'

        def match(self, loop):
            return getattr(loop.it, 'tag', '') == 'parts'

        def find(self, loop):
            vs = [k for k in loop.names if isinstance(loop.entry.get(k), (str, VStr))] if hasattr(loop, 'entry') else \
                [k for k in loop.names if isinstance(loop.env.get(k), (str, VStr))]
            if len(vs) != 1:
                raise Unsupported('accumulated key not found')
            return vs[0]

        def havoc(self, loop, env, names):
            return {self.find(loop): VStr(c.fresh('key', S))}

        def inv(self, loop):
            return [('the key so far', ze(loop.env[self.find(loop)]) == z3.Concat(sl, J(loop.k))),
                    ('ends with a slash', z3.Or(J(loop.k) == z3.StringVal(''), z3.SuffixOf(sl, J(loop.k))))]
    E.loop_specs.append(Sp())
    r = ze(M.join_key(StarArgs(parts)))
    J_ = J(n)
    c.prove('the joined key', r == z3.If(J_ == z3.StringVal(''), sl,
                                         z3.Concat(sl, z3.SubString(J_, 0, z3.Length(J_) - 1))))
    c.prove('it is absolute', z3.PrefixOf(sl, r))
