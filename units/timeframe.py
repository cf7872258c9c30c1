import z3
from vc import core
from vc.core import VTimestamp, VTimedelta, VNum, zb, lift, to_real, mkbool
from vc.unit import unit
from vc.seqs import VList, concrete_items
from vc.loops import LoopSpec
from vc.fold import FoldSpec, token_of
from vc.core import Unsupported
from vc.models import NaT, note, used
from .tfcommon import *

TFM = 'nilmtk.timeframe:'
note('pandas_mask', 'indexing a table with a boolean array keeps the rows where it is true; slices and boolean '
     'indexing give new tables; comparison of an index with an instant is row by row')
BASE = [TFM + 'TimeFrame.__init__', TFM + 'TimeFrame.start (get/set)', TFM + 'TimeFrame.end (get/set)',
        TFM + 'convert_nat_to_none']


@unit('tf.init', BASE + [TFM + 'TimeFrame.clear'])
def tf_init(c, E):
    """constructor: ValueError exactly when start >= end; otherwise bounds as given"""
    M = tf_mod(E)
    s = bound(c, 's', True, True)
    e = bound(c, 'e', True, True)
    c.inp('case', dict(op='init', start=s if s is not NaT else 'NaT', end=e if e is not NaT else 'NaT'))
    tf, err = expect(c, lambda: M.TimeFrame(s, e), ValueError)
    s0 = None if s is NaT else s
    e0 = None if e is NaT else e
    bad = z3.BoolVal(False) if s0 is None or e0 is None else s0.e >= e0.e
    if err is not None:
        c.cover('refused')
        c.prove('construction is refused only when start >= end', bad)
        return
    c.cover('built')
    c.prove('construction with start >= end is refused', z3.Not(bad))
    c.prove('start is as given', same(tf.start, s0))
    c.prove('end is as given', same(tf.end, e0))
    c.prove('a new frame is enabled, not empty and excludes its end',
            tf.enabled is True and tf.empty is False and tf.include_end is False)


@unit('tf.init_tz', BASE)
def tf_init_tz(c, E):
    """constructor with a time zone keeps the order of the bounds"""
    M = tf_mod(E)
    s = bound(c, 's')
    e = bound(c, 'e')
    if s is not None and e is not None:
        c.assume(s < e)
    c.inp('case', dict(op='init_tz', start=s, end=e))
    tf = M.TimeFrame(s, e, tz='UTC')
    f = c.monotone('tz_localize')
    c.prove('localised start', same(tf.start, None if s is None else VTimestamp(f(s.e))))
    c.prove('localised end', same(tf.end, None if e is None else VTimestamp(f(e.e))))
    c.prove('start before end', wf(tf))
    c.prove('not empty, enabled', tf.empty is False and tf.enabled is True)


@unit('tf.set', BASE)
def tf_set(c, E):
    """assigning a bound: refused exactly when it would break start < end"""
    tf, d = mk_tf(c, E, 'f', allow_empty=False, enabled=False)
    which = ('start', 'end')[c.choose(2)]
    v = bound(c, 'v', True, True)
    c.inp('case', dict(op='set', a=d, which=which, value=v if v is not NaT else 'NaT'))
    v0 = None if v is NaT else v
    other = d['end'] if which == 'start' else d['start']
    if v0 is None or other is None:
        bad = z3.BoolVal(False)
    else:
        bad = v0.e >= other.e if which == 'start' else v0.e <= other.e
    _, err = expect(c, lambda: setattr(tf, which, v), ValueError)
    en = tf.enabled
    c.prove('the assignment does not change whether the frame is enabled', en is d['enabled'])
    tf.enabled = True
    if err is not None:
        c.cover('refused')
        c.prove('assignment is refused only when start >= end would result', bad)
        c.prove('a refused assignment leaves the bounds unchanged',
                z3.And(same(tf.start, d['start']), same(tf.end, d['end'])))
    else:
        c.prove('an assignment that breaks start < end is refused', z3.Not(bad))
        c.prove('the assigned bound is stored', same(getattr(tf, which), v0))
        c.prove('the other bound is unchanged', same(tf.end if which == 'start' else tf.start, other))
    c.prove('start before end', wf(tf))
    c.prove('emptiness and end inclusion unchanged',
            z3.And(same(tf.empty, d['empty']), same(tf.include_end, d['incl'])))


@unit('tf.enabled', BASE)
def tf_enabled(c, E):
    """a disabled frame reports no bounds; enabling it restores them"""
    tf, d = mk_tf(c, E, 'f')
    c.inp('case', dict(op='enabled', a=d))
    before = tsnap(tf)
    tf.enabled = False
    c.prove('a disabled frame reports no bounds', tf.start is None and tf.end is None)
    tf.enabled = True
    c.prove('enabling restores the frame', same_snap(before, tsnap(tf)))


@unit('tf.copy', BASE + [TFM + 'TimeFrame.copy_constructor'])
def tf_copy(c, E):
    """the copy constructor gives an equal, independent frame"""
    M = tf_mod(E)
    tf, d = mk_tf(c, E, 'f', enabled=False)
    c.inp('case', dict(op='copy', a=d))
    before = tsnap(tf)
    cp = M.TimeFrame(tf)
    c.prove('the copy equals the original', same_snap(tsnap(cp), before))
    cp.enabled = tf.enabled = True
    c.prove('the copy has the original bounds', z3.And(same(cp.start, d['start']), same(cp.end, d['end'])))
    full = tsnap(tf)
    cp.start = None
    cp.end = None
    cp.include_end = True
    cp.enabled = False
    c.prove('changing the copy leaves the original alone', same_snap(full, tsnap(tf)))


def spec_intersection(c, a, b):
    """(start, end, empty, incl) as a term of the operands' observable state;
    bounds are (is_none, expr) pairs."""
    if a[2] is True or b[2] is True:
        return None, None, True, None
    A, B = a, b
    s = B[0] if A[0] is None else A[0] if B[0] is None else \
        VTimestamp(z3.If(A[0].e >= B[0].e, A[0].e, B[0].e))
    e = B[1] if A[1] is None else A[1] if B[1] is None else \
        VTimestamp(z3.If(A[1].e <= B[1].e, A[1].e, B[1].e))
    if A[1] is None and B[1] is None:
        inc = None
    elif B[1] is None:
        inc = zb(A[3])
    elif A[1] is None:
        inc = zb(B[3])
    else:
        inc = z3.If(B[1].e <= A[1].e, zb(B[3]), zb(A[3]))
    return s, e, None, inc


@unit('tf.intersection', BASE + [TFM + 'TimeFrame.intersection', TFM + 'TimeFrame.empty'])
def tf_intersection(c, E):
    """intersection = [later start, earlier end], empty iff nothing in common"""
    a, da = mk_tf(c, E, 'a', enabled=False)
    b, db = mk_tf(c, E, 'b')
    c.inp('case', dict(op='intersection', a=da, b=db))
    sa, sb = tsnap(a), tsnap(b)
    r = a.intersection(b)
    s, e, empty, inc = spec_intersection(c, sa, sb)
    if empty is None:
        empty = z3.BoolVal(False) if s is None or e is None else s.e >= e.e
    c.prove('empty exactly when no positive-length span is common', zb(r.empty) == zb(empty))
    c.prove('an empty intersection has no bounds',
            z3.Implies(zb(empty), z3.BoolVal(r.start is None and r.end is None)))
    c.prove('starts at the later start', z3.Or(zb(empty), same(r.start, s)))
    c.prove('ends at the earlier end', z3.Or(zb(empty), same(r.end, e)))
    if inc is not None:
        c.prove('end inclusion follows the frame that supplies the end',
                z3.Or(zb(empty), zb(r.include_end) == inc))
    c.prove('start before end', wf(r))
    c.prove('the operands are not changed', z3.And(same_snap(sa, tsnap(a)), same_snap(sb, tsnap(b))))
    c.prove('the result is a new frame', r is not a and r is not b)


@unit('tf.intersection_none', BASE + [TFM + 'TimeFrame.intersection'])
def tf_intersection_none(c, E):
    """intersection with None gives an equal copy"""
    a, da = mk_tf(c, E, 'a')
    c.inp('case', dict(op='intersection', a=da, b=None))
    sa = tsnap(a)
    r = a.intersection(None)
    c.prove('equal copy', same_snap(tsnap(r), sa))
    c.prove('a new object', r is not a)


@unit('tf.overlap', BASE + [TFM + 'TimeFrame.check_for_overlap', TFM + 'TimeFrame.intersection'])
def tf_overlap(c, E):
    """check_for_overlap raises ValueError exactly when a positive-length span is common"""
    a, da = mk_tf(c, E, 'a', flags=False)
    b, db = mk_tf(c, E, 'b', flags=False)
    c.inp('case', dict(op='overlap', a=da, b=db))
    sa, sb = tsnap(a), tsnap(b)
    _, err = expect(c, lambda: a.check_for_overlap(b), ValueError)
    s, e, empty, inc = spec_intersection(c, sa, sb)
    if empty is None:
        empty = z3.BoolVal(False) if s is None or e is None else s.e >= e.e
    c.prove('raises exactly when the frames overlap', zb(err is not None) == z3.Not(zb(empty)))


@unit('tf.query_terms', [TFM + 'TimeFrame.query_terms'])
def tf_query(c, E):
    """the store query selects start <= t < end (<= end when the end is included)"""
    a, da = mk_tf(c, E, 'a')
    c.inp('case', dict(op='query_terms', a=da))
    try:
        terms = a.query_terms('foo')
    except Exception as e:
        c.prove('refused only for an empty frame', da['empty'])
        return
    c.prove('an empty frame is refused', not da['empty'])
    want = []
    if da['start'] is not None:
        want.append('index>=foo.start')
    got = [] if terms is None else list(terms)
    lo = [t for t in got if '>=' in t and t.replace(' ', '') == 'index>=foo.start']
    hi = [t for t in got if t.replace(' ', '') == 'index<foo.end']
    hie = [t for t in got if t.replace(' ', '') == 'index<=foo.end']
    c.prove('lower bound present exactly when there is a start', bool(lo) == (da['start'] is not None))
    c.prove('upper bound present exactly when there is an end',
            bool(hi or hie) == (da['end'] is not None))
    if da['end'] is not None:
        c.prove('end included exactly when flagged', zb(da['incl']) == z3.BoolVal(bool(hie)))
    c.prove('no other condition', len(got) == len(lo) + len(hi) + len(hie))


class Rows(object):
    """rows with instants, of which those are kept for which the condition holds"""
    _vc_track = False

    def __init__(self, t, keep=(), whole=False):
        self.__dict__.update(t=t, keep=tuple(keep), whole=whole)

    @property
    def index(self):
        return RowTimes(self)

    @property
    def loc(self):
        return self

    def copy(self, deep=True):
        return Rows(self.t, self.keep)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k == slice(None):
                return Rows(self.t, self.keep)
            if k == slice(None, 0):
                return Rows(self.t, (z3.BoolVal(False),))
            raise Unsupported('slice of rows')
        if isinstance(k, RowMask):
            return Rows(self.t, self.keep + (k.e,))
        raise Unsupported('selection of rows')

    def __len__(self):
        raise Unsupported('length')

    def __bool__(self):
        raise ValueError('the truth value of a table is ambiguous')


class RowTimes(object):
    def __init__(self, rows):
        self.rows = rows

    def _cmp(self, o, f):
        if not isinstance(o, VTimestamp):
            raise Unsupported('comparison of the index')
        return RowMask(f(self.rows.t, o.e))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)


class RowMask(object):
    def __init__(self, e):
        self.e = e

    def __and__(self, o):
        return RowMask(z3.And(self.e, o.e))

    def __or__(self, o):
        return RowMask(z3.Or(self.e, o.e))

    def __invert__(self):
        return RowMask(z3.Not(self.e))

    def __bool__(self):
        raise ValueError('the truth value of an array is ambiguous')


@unit('tf.slice', [TFM + 'TimeFrame.slice'])
def tf_slice(c, E):
    """slicing keeps a row (an arbitrary one) exactly when its instant is in the frame; the table itself is untouched"""
    used('pandas_mask')
    a, da = mk_tf(c, E, 'a')
    t = c.ts('row')
    table = Rows(t.e)
    c.inp('case', dict(op='slice', a=da))
    r = a.slice(table)
    c.prove('a table is returned', isinstance(r, Rows))
    ok = []
    if da['start'] is not None:
        ok.append(t.e >= da['start'].e)
    if da['end'] is not None:
        ok.append(z3.If(zb(da['incl']), t.e <= da['end'].e, t.e < da['end'].e))
    want = z3.BoolVal(False) if da['empty'] else z3.And(z3.BoolVal(True), *ok)
    c.prove('a row is kept exactly when it lies in the frame', z3.And(z3.BoolVal(True), *r.keep) == want)
    c.prove('the result is another table than the one given', r is not table)
    c.prove('the frame is noted on the result', getattr(r, 'timeframe', None) is a)
    c.prove('the table given is unchanged', table.keep == () and 'timeframe' not in table.__dict__)


@unit('tf.eq_hash', BASE + [TFM + 'TimeFrame.__eq__', TFM + 'TimeFrame.__hash__'])
def tf_eq(c, E):
    """equality = same start, end, emptiness; equal frames hash equally"""
    a, da = mk_tf(c, E, 'a')
    b, db = mk_tf(c, E, 'b')
    c.inp('case', dict(op='eq', a=da, b=db))
    want = z3.And(same(da['start'], db['start']), same(da['end'], db['end']),
                  z3.BoolVal(da['empty'] == db['empty']))
    r = a == b
    c.prove('equal exactly when start, end and emptiness agree', zb(r) == want)
    c.prove('!= is the negation', zb(a != b) == z3.Not(want))
    from vc.seqs import v_hash
    ha, hb = v_hash(a), v_hash(b)
    c.prove('equal frames hash equally', z3.Implies(want, zb(ha == hb)))


@unit('tf.lt', BASE + [TFM + 'TimeFrame.__lt__'])
def tf_lt(c, E):
    """'<' orders by start, an unbounded start first"""
    a, da = mk_tf(c, E, 'a', flags=False)
    b, db = mk_tf(c, E, 'b', flags=False)
    c.inp('case', dict(op='lt', a=da, b=db))
    sa, sb = a.start, b.start
    if sa is None or sb is None:
        want = z3.BoolVal(sa is None and sb is not None)
    else:
        want = sa.e < sb.e
    c.prove('a < b exactly when a starts earlier', zb(a < b) == want)


@unit('tf.lt_lemma', [TFM + 'TimeFrame.__lt__'])
def tf_lt_lemma(c, E):
    """'<' is a strict weak order (so sorting puts starts in non-decreasing order)"""
    fr = [mk_tf(c, E, n, flags=False, allow_empty=False) for n in 'xyz']
    c.inp('case', dict(op='sort', l=[d for _, d in fr]))
    x, y, z = [f for f, _ in fr]

    def lt(p, q):
        return zb(p < q)
    c.prove('irreflexive', z3.Not(lt(x, x)))
    c.prove('asymmetric', z3.Not(z3.And(lt(x, y), lt(y, x))))
    c.prove('transitive', z3.Implies(z3.And(lt(x, y), lt(y, z)), lt(x, z)))
    c.prove('incomparability is transitive',
            z3.Implies(z3.And(z3.Not(lt(x, y)), z3.Not(lt(y, x)), z3.Not(lt(y, z)), z3.Not(lt(z, y))),
                       z3.And(z3.Not(lt(x, z)), z3.Not(lt(z, x)))))


@unit('tf.dict', BASE + [TFM + 'TimeFrame.to_dict', TFM + 'TimeFrame.from_dict',
                         TFM + 'timeframe_from_dict'])
def tf_dict(c, E):
    """dict round trip of a non-empty frame"""
    M = tf_mod(E)
    a, da = mk_tf(c, E, 'a', allow_empty=False)
    c.inp('case', dict(op='dict', a=da))
    before = tsnap(a)
    d = a.to_dict()
    b = M.timeframe_from_dict(d)
    c.prove('reading back gives an equal frame',
            z3.And(same(b.start, a.start), same(b.end, a.end), same(b.empty, a.empty)))
    b = M.TimeFrame.from_dict(a.to_dict())
    c.prove('reading back gives an equal frame (method)',
            z3.And(same(b.start, a.start), same(b.end, a.end), same(b.empty, a.empty)))
    c.prove('the frame is not changed', same_snap(before, tsnap(a)))


@unit('tf.dict_list', [TFM + 'list_of_timeframe_dicts', TFM + 'list_of_timeframes_from_list_of_dicts'],
      sizes=[0, 1, 2])
def tf_dict_list(c, E):
    """list round trip: same length, element i equals element i"""
    M = tf_mod(E)
    L = TFList(c, E, 'tfs', E.size)
    c.inp('case', dict(op='dict_list', l=L))
    out = M.list_of_timeframes_from_list_of_dicts(M.list_of_timeframe_dicts(L.vlist()))
    n, at = out.seq()
    c.prove('same length', n == L.n)
    if L.size is None:
        i = c.fresh('i', z3.IntSort())
        c.assume(z3.And(0 <= i, i < L.n))
        if not c.feasible():
            return
        idx = [i]
    else:
        idx = [z3.IntVal(j) for j in range(L.size)]
    for i in idx:
        b = at(i)
        c.prove('element i equals element i', z3.And(b.start.e == L.fs(i), b.end.e == L.fe(i)))


@unit('tf.adjacent', BASE + [TFM + 'TimeFrame.adjacent'])
def tf_adjacent(c, E):
    """adjacent: one frame starts within [end, end + gap] of the other"""
    a, da = mk_tf(c, E, 'a', allow_open=False, flags=False)
    b, db = mk_tf(c, E, 'b', allow_open=False, flags=False)
    g = c.real('gap')
    c.assume(g >= 0)
    c.inp('case', dict(op='adjacent', a=da, b=db, gap=g))
    r = a.adjacent(b, g)
    if da['empty'] or db['empty']:
        want = z3.BoolVal(False)
    else:
        A, B = (da['start'].e, da['end'].e), (db['start'].e, db['end'].e)
        want = z3.Or(z3.And(B[0] >= A[1], B[0] - A[1] <= g.e), z3.And(A[0] >= B[1], A[0] - B[1] <= g.e))
    c.prove('adjacent exactly when one starts at most gap after the other ends', zb(r) == want)


@unit('tf.adjacent0', [TFM + 'TimeFrame.adjacent'])
def tf_adjacent0(c, E):
    """default gap is zero"""
    a, da = mk_tf(c, E, 'a', allow_open=False, flags=False, allow_empty=False)
    b, db = mk_tf(c, E, 'b', allow_open=False, flags=False, allow_empty=False)
    c.inp('case', dict(op='adjacent', a=da, b=db, gap=None))
    r = a.adjacent(b)
    want = z3.Or(db['start'].e == da['end'].e, da['start'].e == db['end'].e)
    c.prove('adjacent exactly when one starts where the other ends', zb(r) == want)


@unit('tf.union', BASE + [TFM + 'TimeFrame.union'])
def tf_union(c, E):
    """union spans both frames"""
    a, da = mk_tf(c, E, 'a', allow_open=False, flags=False, allow_empty=False)
    b, db = mk_tf(c, E, 'b', allow_open=False, flags=False, allow_empty=False)
    c.inp('case', dict(op='union', a=da, b=db))
    sa, sb = tsnap(a), tsnap(b)
    r = a.union(b)
    c.prove('starts at the earlier start', zb(r.start == core.VTimestamp(
        z3.If(da['start'].e <= db['start'].e, da['start'].e, db['start'].e))))
    c.prove('ends at the later end', zb(r.end == core.VTimestamp(
        z3.If(da['end'].e >= db['end'].e, da['end'].e, db['end'].e))))
    c.prove('operands unchanged', z3.And(same_snap(sa, tsnap(a)), same_snap(sb, tsnap(b))))


@unit('tf.timedelta', [TFM + 'TimeFrame.timedelta'])
def tf_td(c, E):
    """duration of a frame"""
    a, da = mk_tf(c, E, 'a', flags=False)
    c.inp('case', dict(op='timedelta', a=da))
    r = a.timedelta
    if da['empty']:
        c.prove('an empty frame lasts zero', isinstance(r, VTimedelta) and zb(r.e == 0))
    elif da['start'] is None or da['end'] is None:
        c.prove('an unbounded frame has no duration', r is None)
    else:
        c.prove('duration is end - start', isinstance(r, VTimedelta) and
                zb(r.e == da['end'].e - da['start'].e))


# ------------------------------------------------------------------ merge

class MergeSpec(LoopSpec):
    name = 'merge'

    def __init__(self, L, gap, base):
        self.L, self.gap = L, gap
        self.sinv = base['sinv']
        self.einv = base['einv']
        self.srcs = base['srcs']

    def match(self, loop):
        return loop.kind == 'for' and getattr(loop.it, 'tag', '').startswith(self.L.name)

    def roles(self, env, loop):
        """the list under construction, and (optionally) an open frame"""
        M = self.L.M
        lists = [(n, v) for n, v in env.items() if isinstance(v, VList) and v is not loop.it
                 and not v.tag.startswith(self.L.name) and (n in loop.mutated() or n in loop.names)]
        cur = [(n, v) for n, v in env.items() if n in loop.names and isinstance(v, M.TimeFrame)
               and n in loop.entry]
        return lists, cur

    def shift(self, loop):
        """index in the input of loop item 0"""
        t = loop.it.tag
        return 1 if '[slice]' in t else 0

    def havoc(self, loop, env, names):
        c = core.ctx()
        lists, cur = self.roles(env, loop)
        over = {}
        loop.allow = []
        for n, l in lists:
            fs = c.fresh_fun('out_s', z3.IntSort(), z3.RealSort())
            fe = c.fresh_fun('out_e', z3.IntSort(), z3.RealSort())
            nb = c.fresh('out_n', z3.IntSort())
            c.assume(nb >= 0)
            M = self.L.M

            def at(i, fs=fs, fe=fe):
                c.assume(fs(i) < fe(i))
                t = M.TimeFrame(VTimestamp(fs(i)), VTimestamp(fe(i)))
                self.srcs.append((t, tsnap(t)))
                return t
            l.version += 1
            l.base = (nb, at)
            l.tail = []
            l.funs = (fs, fe)
            l.token = ('merge',)
            loop.allow.append(l)
        for n, t in cur:
            s, e = c.ts('cur_s'), c.ts('cur_e')
            c.assume(s < e)
            over[n] = self.L.M.TimeFrame(s, e)
        return over

    def allow_mutation(self, loop):
        return loop.allow

    def out_parts(self, env, loop):
        lists, cur = self.roles(env, loop)
        if len(lists) > 1 or len(cur) > 1:
            raise core.Unsupported('merge: cannot identify the list under construction')
        l = lists[0][1] if lists else None
        ent = cur[0][1] if cur else None
        return l, ent

    def inv(self, loop):
        l, cur = self.out_parts(loop.env, loop)
        if l is None and cur is None:
            # before the frame of the loop is known
            return []
        return self.out_inv(l, cur, loop.k + self.shift(loop))

    def out_inv(self, l, cur, k):
        """the output list describes exactly the first k inputs"""
        L, gap = self.L, self.gap
        s, e = L.fs, L.fe
        si, ei = self.sinv, self.einv
        conc = [(t.start.e, t.end.e) for t in (l.tail if l is not None else [])]
        if cur is not None:
            conc.append((cur.start.e, cur.end.e))
        fs = fe = None
        nb = z3.IntVal(0)
        if l is not None and l.base is not None:
            nb = l.base[0]
            fs, fe = l.funs
        out = []
        j = z3.Int('j_out')
        i = z3.Int('i_out')

        def one(S, En):
            return z3.And(s(si(S)) == S, e(ei(En)) == En, 0 <= si(S), si(S) <= ei(En), ei(En) < k,
                          S < En)

        def holes(S, En):
            return z3.Implies(z3.And(si(S) <= i, i < ei(En)), s(i + 1) - e(i) <= gap)

        def pair(E1, S2):
            return z3.And(si(S2) == ei(E1) + 1, S2 - E1 > gap)
        if fs is not None:
            body = one(fs(j), fe(j))
            out.append(('each output frame runs from the start of an input to the end of the same or a '
                        'later one',
                        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nb), body))))
            out.append(('outputs bridge only holes of at most gap',
                        z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < nb), holes(fs(j), fe(j))))))
            out.append(('neighbouring outputs are consecutive and more than gap apart',
                        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j + 1 < nb), pair(fe(j), fs(j + 1))))))
        for S, En in conc:
            out.append(('output frame is a run of inputs', one(S, En)))
            out.append(('outputs bridge only holes of at most gap',
                        z3.ForAll([i], holes(S, En))))
        for (S1, E1), (S2, E2) in zip(conc, conc[1:]):
            out.append(('neighbouring outputs are consecutive and more than gap apart', pair(E1, S2)))
        if conc:
            S, En = conc[0]
            if fs is not None:
                out.append(('first open output follows the closed ones',
                            z3.If(nb > 0, pair(fe(nb - 1), S), si(S) == 0)))
                out.append(('outputs start with the first input', z3.Implies(nb > 0, si(fs(0)) == 0)))
            else:
                out.append(('outputs start with the first input', si(S) == 0))
            out.append(('outputs reach the last processed input', ei(conc[-1][1]) == k - 1))
        else:
            if fs is None:
                out.append(('nothing processed yet', k == 0))
            else:
                out.append(('outputs start with the first input', z3.And(nb >= 1, si(fs(0)) == 0)))
                out.append(('outputs reach the last processed input', ei(fe(nb - 1)) == k - 1))
        return out


@unit('tf.merge', [TFM + 'merge_timeframes', TFM + 'TimeFrame.adjacent', TFM + 'TimeFrame.union'],
      sizes=[0, 1, 2, 3, 4], budget=90)
def tf_merge(c, E):
    """merge_timeframes on any sorted disjoint list"""
    M = tf_mod(E)
    L = TFList(c, E, 'tfs', E.size)
    L.sorted_disjoint()
    g = c.real('gap')
    c.assume(g >= 0)
    c.inp('case', dict(op='merge', l=L, gap=g))
    sinv = c.fresh_fun('sinv', z3.RealSort(), z3.IntSort())
    einv = c.fresh_fun('einv', z3.RealSort(), z3.IntSort())
    i = z3.Int('i_inv')
    if E.size is None:
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.n), z3.And(sinv(L.fs(i)) == i,
                                                                         einv(L.fe(i)) == i))))
        srcs = []
        spec = MergeSpec(L, g.e, dict(sinv=sinv, einv=einv, srcs=srcs))
        E.loop_specs.append(spec)
        arg = L.vlist()
        out = M.merge_timeframes(arg, g)
        c.prove('the input list is not changed', arg.token[0] == 'sym' and not arg.tail, kind='weak')
        if isinstance(out, VList) and out.base is None and not out.tail:
            c.prove('an empty list merges to an empty list', L.n == 0)
            return
        if isinstance(out, VList) and not hasattr(out, 'funs') and out.base is not None:
            c.prove('the result describes the input', z3.And(L.n == 1, out.base[0] == 1) if
                    out.token == arg.token and not out.tail else False, kind='weak')
            return
        c.prove('something to merge', L.n > 0)
        for lab, f in spec.out_inv(out, None, L.n):
            c.prove('result: ' + lab, f)
        return
    n = E.size
    src = list(L.items)
    snaps = [tsnap(t) for t in src]
    arg = L.vlist()
    out = list(M.merge_timeframes(arg, g))
    c.prove('input list unchanged', len(arg) == n and all(x is y for x, y in zip(arg, src)))
    c.prove('input frames unchanged', z3.And(*[same_snap(s, tsnap(t)) for s, t in zip(snaps, src)]))
    # greedy expectation, by cases on the holes
    exp = []
    for k in range(n):
        if exp and bool(mkbool(L.fs(k) - L.fe(k - 1) <= g.e)):
            exp[-1] = (exp[-1][0], L.fe(k))
        else:
            exp.append((L.fs(k), L.fe(k)))
    c.prove('number of merged frames', len(out) == len(exp))
    for t, (s, e) in zip(out, exp):
        c.prove('merged frame bounds', z3.And(same(t.start, VTimestamp(s)), same(t.end, VTimestamp(e))))


# ------------------------------------------------------------------ split

class SplitSpec(LoopSpec):
    """Loop of split(): what has been yielded so far tiles [START, prev_end]."""
    name = 'split'

    def __init__(self, g, M):
        self.g, self.M = g, M

    def match(self, loop):
        return loop.kind == 'while' and loop.id.startswith('nilmtk.timeframe:') and self.g.active

    def cands(self, loop):
        g = self.g
        out = []
        for n in loop.names:
            v = loop.env.get(n)
            if n not in loop.entry:
                continue
            if isinstance(v, self.M.TimeFrame):
                s, e = v.start, v.end
                if s is None or e is None:
                    continue
                out.append((n, 'start', 'remaining frame starts where the last piece ended',
                            s.e == g.prev.e))
                out.append((n, 'end', 'remaining frame ends at the end', e.e == g.END))
            elif isinstance(v, VTimestamp):
                out.append((n, 'prev', 'cursor is where the last piece ended', v.e == g.prev.e))
                out.append((n, 'END', 'limit is the end', v.e == g.END))
        return out

    def havoc(self, loop, env, names):
        c = core.ctx()
        g = self.g
        # keep the candidate facts that hold on entry
        loop.keep = set()
        for n, k, lab, f in self.cands(loop):
            if c._check(z3.Not(f)) == z3.unsat:
                loop.keep.add((n, k))
        g.prev = c.ts('prev_end')
        over = {}
        for n in names:
            v = loop.entry.get(n)
            if isinstance(v, self.M.TimeFrame):
                s, e = c.ts('r_s'), c.ts('r_e')
                c.assume(s < e)
                over[n] = self.M.TimeFrame(s, e)
        return over

    def inv(self, loop):
        g = self.g
        out = [('pieces lie inside the frame', z3.And(g.prev.e >= g.START, g.prev.e <= g.END,
                                                    g.START < g.END)),
               ('some time remains', g.prev.e < g.END)]
        keep = getattr(loop, 'keep', None)
        if keep is not None:
            for n, k, lab, f in self.cands(loop):
                if (n, k) in keep:
                    out.append((lab, f))
        return out

    def variant(self, loop):
        return self.g.END - self.g.prev.e

    def variant_step(self, loop):
        return self.g.thr


class Ghost(object):
    pass


def _split_ghost(c, s, e, d):
    g = Ghost()
    g.START, g.END, g.thr = s, e, d
    g.prev = VTimestamp(s)
    g.active = True
    return g


def _piece(c, g, p):
    c.prove('a piece begins where the previous one ended', p.start is not None and zb(p.start.e == g.prev.e))
    c.prove('a piece is not longer than the duration', zb(p.end.e - p.start.e <= g.thr))
    c.prove('every piece but the last is exactly that long',
            z3.Or(p.end.e == g.END, p.end.e - p.start.e == g.thr))
    c.prove('a piece stays inside the frame', p.end.e <= g.END)
    c.prove('a piece is a well-formed non-empty frame', z3.And(p.start.e < p.end.e, zb(p.empty) == False))
    c.prove('nothing follows the piece that reaches the end', z3.Not(g.prev.e >= g.END))
    g.prev = VTimestamp(p.end.e)


@unit('tf.split', BASE + [TFM + 'TimeFrame.split', TFM + 'TimeFrame.timedelta'], sizes=[3], budget=60)
def tf_split(c, E):
    """split tiles the frame exactly"""
    M = tf_mod(E)
    a, da = mk_tf(c, E, 'a', flags=True)
    d = c.real('duration')
    c.assume(d > 0)
    c.inp('case', dict(op='split', a=da, dur=d))
    if da['empty'] or da['start'] is None or da['end'] is None:
        def go():
            return list(a.split(d))
        _, err = expect(c, go, ValueError)
        c.prove('a frame that is empty or lacks a bound is refused', err is not None)
        return
    if E.size is not None:
        c.assume(da['end'].e - da['start'].e <= d.e * E.size)
    sa = tsnap(a)
    g = _split_ghost(c, da['start'].e, da['end'].e, d.e)
    if E.size is None:
        E.loop_specs.append(SplitSpec(g, M))
    for p in a.split(d):
        _piece(c, g, p)
    c.prove('the last piece ends at the end of the frame', g.prev.e == g.END)
    c.prove('the frame is not changed', same_snap(sa, tsnap(a)))


@unit('tf.split_list', [TFM + 'split_timeframes', TFM + 'TimeFrame.split'], sizes=[0, 1, 2], budget=60)
def tf_split_list(c, E):
    """split_timeframes tiles each frame of a list in turn"""
    E.stateless = lambda loop: len(loop.names) == 1      # it passes the pieces on
    M = tf_mod(E)
    L = TFList(c, E, 'tfs', E.size)
    d = c.real('duration')
    c.assume(d > 0)
    c.inp('case', dict(op='split_list', l=L, dur=d))
    g = _split_ghost(c, z3.RealVal(0), z3.RealVal(0), d.e)
    g.i = None
    if E.size is None:
        g.i = None

        def havoc(loop, env, names):
            g.done = loop.k          # frames fully tiled
            return {}

        def on_item(loop, item):
            g.START, g.END = L.fs(loop.k), L.fe(loop.k)
            g.prev = VTimestamp(g.START)

        def extra(loop):
            return [('every frame before this one was tiled to its end',
                     z3.Implies(loop.k > 0, g.prev.e == g.END))] if getattr(g, 'seen', False) else []
        outer = FoldSpec('split_outer', lambda lp: lp.kind == 'for' and getattr(lp.it, 'tag', '') == 'tfs',
                         step=lambda *a: None)
        outer.on_item = on_item

        def at_end(loop):
            c.prove('each frame is tiled to its end', g.prev.e == g.END)
        outer.at_end = at_end
        E.loop_specs.append(outer)
        E.loop_specs.append(SplitSpec(g, M))
        for p in M.split_timeframes(L.vlist(), d):
            _piece(c, g, p)
        return
    for i in range(E.size):
        c.assume(L.fe(i) - L.fs(i) <= d.e * 2)
    it = M.split_timeframes(L.vlist(), d)
    for i in range(E.size):
        g.START, g.END = L.fs(i), L.fe(i)
        g.prev = VTimestamp(g.START)
        while c.branch(g.prev.e < g.END):
            try:
                p = next(it)
            except StopIteration:
                c.prove('each frame is tiled to its end', False)
                return
            _piece(c, g, p)
    try:
        next(it)
        c.prove('no extra piece', False)
    except StopIteration:
        c.prove('no extra piece', True)


# ------------------------------------------------------------------ groups
TG = 'nilmtk.timeframegroup:TimeFrameGroup.'


def tg_mod(E):
    return E.load('nilmtk.timeframegroup')


@unit('tg.intersection', [TG + 'intersection', TG + '__init__', TFM + 'TimeFrame.intersection'],
      sizes=[(0, 1), (1, 0), (1, 1), (2, 1), (1, 2)], budget=90)
def tg_intersection(c, E):
    """the non-empty pairwise intersections, in order, and nothing else"""
    G = tg_mod(E)
    sz = E.size or (None, None)
    A = TFList(c, E, 'ga', sz[0])
    B = TFList(c, E, 'gb', sz[1])
    c.inp('case', dict(op='tg_intersection', a=A, b=B))
    ga, gb = A.vlist(G.TimeFrameGroup), B.vlist(G.TimeFrameGroup)

    def bounds(i, j):
        s = z3.If(A.fs(i) >= B.fs(j), A.fs(i), B.fs(j))
        e = z3.If(A.fe(i) <= B.fe(j), A.fe(i), B.fe(j))
        return s, e
    if E.size is None:
        cur = {}

        def outer_item(loop, item):
            cur['i'] = loop.k

        def step(loop, item, new):
            s, e = bounds(cur['i'], loop.k)
            if len(new) == 0:
                c.prove('a pair without common span adds nothing', s >= e)
            elif len(new) == 1:
                r = new[0]
                c.prove('only non-empty intersections are added', s < e)
                c.prove('the added frame is the pairwise intersection',
                        z3.And(r.start.e == s, r.end.e == e, z3.Not(zb(r.empty))))
            else:
                c.prove('a pair adds at most one frame', False)
        inner = FoldSpec('tg_inner', lambda lp: getattr(lp.it, 'tag', '') == 'gb', step=step)
        outer = FoldSpec('tg_outer', lambda lp: getattr(lp.it, 'tag', '') == 'ga', nested=lambda lp: inner)
        outer.on_item = outer_item
        E.loop_specs += [outer, inner]
        r = ga.intersection(gb)
        c.prove('the result is exactly the in-order collection of pairwise intersections',
                z3.Or(r.token == outer.end_token() and not r.tail,
                      z3.And(r.token == ('empty',) and not r.tail, z3.Or(A.n == 0, B.n == 0))), kind='hard')
        c.prove('the groups are not changed', ga.token[0] == 'sym' and gb.token[0] == 'sym'
                and not ga.tail and not gb.tail)
        c.prove('the result is a group', isinstance(r, G.TimeFrameGroup))
        return
    snap = [(t, tsnap(t)) for t in A.items + B.items]
    r = ga.intersection(gb)
    got = list(r)
    exp = []
    for i in range(sz[0]):
        for j in range(sz[1]):
            s, e = bounds(i, j)
            if c.branch(s < e):
                exp.append((s, e))
    c.prove('number of frames', len(got) == len(exp))
    for t, (s, e) in zip(got, exp):
        c.prove('frame bounds', z3.And(same(t.start, VTimestamp(s)), same(t.end, VTimestamp(e)),
                                       zb(t.empty) == False))
    c.prove('the groups are not changed', len(ga) == sz[0] and len(gb) == sz[1] and
            all(x is y for x, y in zip(list(ga) + list(gb), A.items + B.items)))
    c.prove('the frames are not changed', z3.And(*[same_snap(s, tsnap(t)) for t, s in snap]))


@unit('tg.uptime', [TG + 'uptime', TFM + 'TimeFrame.timedelta'], sizes=[0, 1, 2, 3])
def tg_uptime(c, E):
    """uptime is the sum of the durations"""
    G = tg_mod(E)
    A = TFList(c, E, 'ga', E.size)
    c.inp('case', dict(op='uptime', a=A))
    ga = A.vlist(G.TimeFrameGroup)
    if E.size is None:
        S = c.fresh_fun('SUM', z3.IntSort(), z3.RealSort())
        c.assume(S(0) == 0)

        def acc(loop, nme, v):
            if isinstance(v, (VTimedelta, VNum, int, float)) and nme not in ('timeframe',):
                e0 = v.e if isinstance(v, VTimedelta) else to_real(lift(v))
                return lambda k: S(k)
            return None
        spec = FoldSpec('uptime', lambda lp: getattr(lp.it, 'tag', '') == 'ga', acc=acc)

        def on_item(loop, item):
            c.assume(S(loop.k + 1) == S(loop.k) + A.fe(loop.k) - A.fs(loop.k))
        spec.on_item = on_item
        E.loop_specs.append(spec)
        r = ga.uptime()
        c.prove('uptime is the sum of the durations', isinstance(r, VTimedelta) and zb(r.e == S(A.n)))
        return
    r = ga.uptime()
    tot = sum([A.fe(i) - A.fs(i) for i in range(E.size)], z3.RealVal(0))
    c.prove('uptime is the sum of the durations', isinstance(r, VTimedelta) and zb(r.e == tot))


@unit('tg.remove_shorter', [TG + 'remove_shorter_than'], sizes=[0, 1, 2, 3])
def tg_remove(c, E):
    """keeps, in order, exactly the frames lasting at least the threshold"""
    G = tg_mod(E)
    A = TFList(c, E, 'ga', E.size)
    th = c.real('threshold')
    c.inp('case', dict(op='remove_shorter', a=A, threshold=th))
    ga = A.vlist(G.TimeFrameGroup)
    if E.size is None:
        def step(loop, item, new):
            d = A.fe(loop.k) - A.fs(loop.k)
            if len(new) == 0:
                c.prove('a dropped frame is shorter than the threshold', d < th.e)
            elif len(new) == 1:
                c.prove('a kept frame lasts at least the threshold', d >= th.e)
                c.prove('the kept frame is the original one',
                        z3.And(same(new[0].start, item.start), same(new[0].end, item.end)))
            else:
                c.prove('each frame is kept at most once', False)
        spec = FoldSpec('remove_shorter', lambda lp: getattr(lp.it, 'tag', '') == 'ga', step=step)
        E.loop_specs.append(spec)
        r = ga.remove_shorter_than(th)
        c.prove('the result is exactly the kept frames in order',
                z3.Or(r.token == spec.end_token() and not r.tail,
                      z3.And(r.token == ('empty',) and not r.tail, A.n == 0)))
        c.prove('the group is not changed', ga.token[0] == 'sym' and not ga.tail)
        c.prove('the result is a group', isinstance(r, G.TimeFrameGroup))
        return
    snap = [tsnap(t) for t in A.items]
    r = list(ga.remove_shorter_than(th))
    exp = [A.items[i] for i in range(E.size) if c.branch(A.fe(i) - A.fs(i) >= th.e)]
    c.prove('number kept', len(r) == len(exp))
    for t, x in zip(r, exp):
        c.prove('kept frame', z3.And(same(t.start, x.start), same(t.end, x.end)))
    c.prove('group unchanged', len(ga) == E.size and all(x is y for x, y in zip(ga, A.items)))
    c.prove('frames unchanged', z3.And(*[same_snap(s, tsnap(t)) for s, t in zip(snap, A.items)]))
