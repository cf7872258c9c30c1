import copy
from datetime import timedelta
import pandas as pd
from common import *
from nilmtk.timeframe import *
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup


def mk(d, tz=None):
    """the frame described by d, built through the public interface"""
    if d.get('empty'):
        t = TimeFrame(T(0, tz), T(1, tz)).intersection(TimeFrame(T(2, tz), T(3, tz)))
    else:
        s, e = T(d['start'], tz), T(d['end'], tz)
        if s is not None and e is not None and not s < e:
            raise Invalid()
        t = TimeFrame(s, e)
    t.include_end = bool(d.get('incl', False))
    t.enabled = bool(d.get('enabled', True))
    return t


def obs(t):
    return (t.start, t.end, t.empty, t.include_end, t.enabled)


def rtf(g, open_=True, empty=True, enabled=False):
    if empty and g.flag(0.1):
        return dict(start=None, end=None, empty=True, incl=g.flag(), enabled=True)
    s, e = g.sec(), g.sec()
    while not ns(s) < ns(e):
        s, e = g.sec(), g.sec(1, 20)
    if open_ and g.flag(0.2):
        s = None
    if open_ and g.flag(0.2):
        e = None
    return dict(start=s, end=e, empty=False, incl=g.flag(), enabled=not (enabled and g.flag(0.3)))


def rlist(g, n, sort=False):
    if not sort:
        return [rtf(g, False, False) for _ in range(n)]
    out = []
    t = g.choice([0, 1, 5.5])
    for _ in range(n):
        d = abs(g.sec(1, 6)) or 1
        out.append(dict(start=t, end=t + d, empty=False, incl=False, enabled=True))
        h = g.hint(0.2)
        t = t + d + (abs(h) if h is not None else g.choice([0, 0, 1, 2, 3, 5, 0.5, 1e-9, 60]))
    return out


def isnone(x):
    return x is None


# ------------------------------------------------------------------ C01
@prop('C01')
class C01(object):
    @staticmethod
    def fixed():
        base = dict(start=0, end=10, empty=False, incl=False, enabled=True)
        for v in (None, 'NaT', 0, 5, 10, 15, -5):
            for w in ('start', 'end'):
                for en in (True, False):
                    yield dict(op='set', a=dict(base, enabled=en), which=w, value=v, tz=None)
        for s in (None, 'NaT', 5):
            for e in (None, 'NaT', 4, 5, 6):
                for tz in (None, 'Europe/London'):
                    yield dict(op='init', start=s, end=e, tz=tz)

    @staticmethod
    def gen(g):
        op = g.choice(['init', 'init_tz', 'set', 'copy', 'enabled', 'history', 'history'])
        if op in ('init', 'init_tz'):
            v = [g.choice([None, 'NaT', g.sec(), g.sec(), g.sec(), g.sec()]) for _ in range(2)]
            return dict(op=op, start=v[0], end=v[1], tz=g.tz(), form=g.choice(['ts', 'str', 'dt']))
        if op == 'history':
            return dict(op=op, a=rtf(g, True, False, True), tz=g.tz(),
                        steps=[[g.choice(['start', 'end', 'enable', 'disable']),
                                g.choice([None, 'NaT', g.sec(), g.sec(), g.sec()])]
                               for _ in range(g.size(1, 8))])
        d = dict(op=op, a=rtf(g, True, op != 'set', op in ('set', 'copy')), tz=g.tz())
        if op == 'set':
            d.update(which=g.choice(['start', 'end']), value=g.choice([None, 'NaT', g.sec(), g.sec()]))
        return d

    @staticmethod
    def check(case):
        tz = case.get('tz')
        op = case['op']
        if op in ('init', 'init_tz'):
            s, e = T(case['start'], None if op == 'init_tz' else tz), \
                T(case['end'], None if op == 'init_tz' else tz)
            s0 = None if s is pd.NaT else s
            e0 = None if e is pd.NaT else e
            bad = s0 is not None and e0 is not None and s0 >= e0
            s1, e1 = s, e
            if case.get('form') == 'str':
                s1 = str(s) if s0 is not None else s
                e1 = str(e) if e0 is not None else e
            elif case.get('form') == 'dt':
                s1 = s.to_pydatetime() if s0 is not None else s
                e1 = e.to_pydatetime() if e0 is not None else e
                if (s0 is not None and pd.Timestamp(s1) != s) or (e0 is not None and pd.Timestamp(e1) != e):
                    raise Invalid()
            try:
                t = TimeFrame(s1, e1, tz='UTC') if op == 'init_tz' else TimeFrame(s1, e1)
            except ValueError:
                must(bad, 'a valid frame %s..%s was refused' % (s0, e0))
                return
            must(not bad, 'frame with start %s >= end %s was accepted' % (s0, e0))
            if op == 'init_tz':
                s0 = s0.tz_localize('UTC') if s0 is not None else None
                e0 = e0.tz_localize('UTC') if e0 is not None else None
            must(t.start == s0 if s0 is not None else t.start is None, 'start is %s, given %s' % (t.start, s0))
            must(t.end == e0 if e0 is not None else t.end is None, 'end is %s, given %s' % (t.end, e0))
            must(t.enabled is True and t.empty is False and t.include_end is False, 'flags of a new frame')
            return
        a = mk(case['a'], tz)
        if op == 'copy':
            before = obs(a)
            b = TimeFrame(a)
            must(obs(b) == before, 'copy differs: %s vs %s' % (obs(b), before))
            a.enabled = b.enabled = True
            full = obs(a)
            must(obs(b) == full, 'copy differs when enabled')
            b.start = None
            b.end = None
            b.include_end = not b.include_end
            b.enabled = False
            must(obs(a) == full, 'changing the copy changed the original')
        elif op == 'enabled':
            before = obs(a)
            a.enabled = False
            must(a.start is None and a.end is None, 'disabled frame reports bounds')
            a.enabled = True
            must(obs(a) == before, 'enabling does not restore the frame')
        elif op in ('set', 'history'):
            steps = case.get('steps') or [[case['which'], case['value']]]
            st = {'start': T(case['a']['start'], tz), 'end': T(case['a']['end'], tz)}
            en = a.enabled
            for which, v in steps:
                if which in ('enable', 'disable'):
                    en = which == 'enable'
                    a.enabled = en
                else:
                    v = T(v, tz)
                    v0 = None if v is pd.NaT else v
                    new = dict(st)
                    new[which] = v0
                    bad = new['start'] is not None and new['end'] is not None and \
                        new['start'] >= new['end']
                    if v0 is None:
                        bad = False
                    try:
                        setattr(a, which, v)
                        must(not bad, '%s=%s accepted although it breaks start < end (%s)' % (which, v, st))
                        st = new
                    except ValueError:
                        must(bad, '%s=%s refused although it is valid (%s)' % (which, v, st))
                must(a.enabled == en, 'enabled flag changed')
                a.enabled = True
                must(a.start == st['start'] if st['start'] is not None else a.start is None,
                     'start is %s, expected %s' % (a.start, st['start']))
                must(a.end == st['end'] if st['end'] is not None else a.end is None,
                     'end is %s, expected %s' % (a.end, st['end']))
                a.enabled = en
                must(en or (a.start is None and a.end is None), 'disabled frame reports bounds')


# ------------------------------------------------------------------ C02
def spec_intersection(a, b):
    if a[2] or b[2]:
        return None, None, True, None
    s = b[0] if a[0] is None else a[0] if b[0] is None else max(a[0], b[0])
    e = b[1] if a[1] is None else a[1] if b[1] is None else min(a[1], b[1])
    inc = None
    if e is not None:
        if b[1] is not None and b[1] == e:
            inc = b[3]
        else:
            inc = a[3]
    if s is not None and e is not None and s >= e:
        return None, None, True, None
    return s, e, False, inc


@prop('C02')
class C02(object):
    @staticmethod
    def gen(g):
        op = g.choice(['intersection', 'intersection', 'intersection', 'overlap', 'query_terms', 'slice'])
        tz = g.tz()
        a = rtf(g, True, True, True)
        b = None if op == 'intersection' and g.flag(0.05) else rtf(g)
        if b is not None and g.flag(0.3):
            # share bounds
            for k in ('start', 'end'):
                if g.flag() and not a['empty'] and not b['empty']:
                    n = dict(b)
                    n[k] = a[g.choice(['start', 'end'])]
                    if n['start'] is None or n['end'] is None or ns(n['start']) < ns(n['end']):
                        b = n
        d = dict(op=op, a=a, b=b, tz=tz)
        if op == 'slice':
            d['rows'] = sorted(set(g.sec(0, 14) for _ in range(g.size(0, 10))))
        return d

    @staticmethod
    def check(case):
        tz = case.get('tz')
        op = case['op']
        a = mk(case['a'], tz)
        if op in ('intersection', 'overlap'):
            b = None if case['b'] is None else mk(case['b'], tz)
            sa = obs(a)
            sb = obs(b) if b is not None else None
            if op == 'intersection':
                r = a.intersection(b)
                must(r is not a and r is not b, 'intersection returned an operand itself')
                if b is None:
                    must(obs(r) == sa, 'intersection with None gives %s, expected %s' % (obs(r), sa))
                else:
                    s, e, empty, inc = spec_intersection(sa, sb)
                    must(bool(r.empty) == empty, 'empty is %s, expected %s' % (r.empty, empty))
                    must(r.start == s if s is not None else r.start is None,
                         'start %s, expected %s' % (r.start, s))
                    must(r.end == e if e is not None else r.end is None, 'end %s, expected %s' % (r.end, e))
                    if inc is not None:
                        must(bool(r.include_end) == bool(inc), 'include_end %s, expected %s'
                             % (r.include_end, inc))
            else:
                s, e, empty, inc = spec_intersection(sa, sb)
                try:
                    a.check_for_overlap(b)
                    must(empty, 'overlap not reported')
                except ValueError:
                    must(not empty, 'overlap reported for frames that do not overlap')
            must(obs(a) == sa and (b is None or obs(b) == sb), 'an operand was changed')
        elif op == 'query_terms':
            try:
                t = a.query_terms('foo')
            except Exception:
                must(a.empty, 'non-empty frame refused')
                return
            must(not a.empty, 'empty frame accepted')
            foo = a
            lo = [] if t is None else t
            for x in (0, 3, 5.5, 7, 12):
                index = T(x, tz)
                got = all(eval(c, {'index': index, 'foo': foo}) for c in lo)
                want = (a.start is None or index >= a.start) and \
                    (a.end is None or index < a.end or (a.include_end and index == a.end))
                must(got == want, 'query terms %s select %s: %s' % (t, index, got))
            for index in (a.start, a.end):
                if index is not None:
                    got = all(eval(c, {'index': index, 'foo': foo}) for c in lo)
                    want = (a.start is None or index >= a.start) and \
                        (a.end is None or index < a.end or (a.include_end and index == a.end))
                    must(got == want, 'query terms %s select %s: %s' % (t, index, got))
        elif op == 'slice':
            idx = pd.DatetimeIndex([T(x, tz) for x in case['rows']]) if case['rows'] else \
                pd.DatetimeIndex([], tz=tz)
            df = pd.DataFrame({'x': range(len(idx))}, index=idx)
            before = df.copy()
            r = a.slice(df)
            want = [i for i, t in enumerate(idx) if not a.empty and (a.start is None or t >= a.start) and
                    (a.end is None or t < a.end or (a.include_end and t == a.end))]
            must(list(r['x']) == want, 'slice keeps rows %s, expected %s' % (list(r['x']), want))
            must(df.equals(before), 'slice changed the table')


# ------------------------------------------------------------------ C03
@prop('C03')
class C03(object):
    @staticmethod
    def gen(g):
        op = g.choice(['adjacent', 'union', 'merge', 'merge', 'timedelta'])
        gap = g.choice([0, 0, 1, 2, 0.5, 3, 60, g.sec(), 1e-6])
        gap = abs(gap)
        if op == 'merge':
            return dict(op=op, l=rlist(g, g.size(0, 7, 30), True), gap=gap, tz=g.tz())
        d = dict(op=op, a=rtf(g, op == 'timedelta', op != 'union'), b=rtf(g, False, op != 'union'),
                 gap=gap if g.flag(0.8) else None, tz=g.tz())
        if op == 'adjacent' and g.flag(0.6) and not d['a']['empty']:
            a = d['a']
            w = g.choice([1, 2, 0.5])
            off = g.choice([0, gap, gap + 1e-6, gap / 2, gap + 1, max(0, gap - 1)])
            if g.flag():
                d['b'] = dict(start=a['end'] + off, end=a['end'] + off + w, empty=False, incl=False, enabled=True)
            else:
                d['b'] = dict(start=a['start'] - off - w, end=a['start'] - off, empty=False, incl=False,
                              enabled=True)
        return d

    @staticmethod
    def check(case):
        tz = case.get('tz')
        op = case['op']
        gap = case.get('gap')
        if gap is not None and gap < 0:
            raise Invalid()
        # gaps are whole microseconds, as datetime.timedelta
        gtd = pd.Timedelta(timedelta(seconds=gap or 0))
        if op == 'merge':
            l = [mk(d, tz) for d in case['l']]
            for x, y in zip(l, l[1:]):
                if x.end > y.start:
                    raise Invalid()
            src = list(l)
            before = [obs(t) for t in l]
            out = merge_timeframes(l, gap)
            must(l == src and all(x is y for x, y in zip(l, src)) and len(l) == len(src),
                 'the input list was changed')
            must([obs(t) for t in src] == before, 'an input frame was changed')
            exp = []
            for s, e, _, _, _ in before:
                if exp and s - exp[-1][1] <= gtd:
                    exp[-1][1] = e
                else:
                    exp.append([s, e])
            got = [[t.start, t.end] for t in out]
            must(got == exp, 'merged frames %s, expected %s' % (got, exp))
            must(all(not t.empty for t in out), 'merged frame is empty')
            return
        a, b = mk(case['a'], tz), mk(case.get('b') or case['a'], tz)
        if op != 'timedelta' and any(not x.empty and (x.start is None or x.end is None) for x in (a, b)):
            raise Invalid()
        sa, sb = obs(a), obs(b)
        if op == 'adjacent':
            r = a.adjacent(b) if gap is None else a.adjacent(b, gap)
            if a.empty or b.empty:
                want = False
            else:
                z = pd.Timedelta(0)
                want = z <= b.start - a.end <= gtd or z <= a.start - b.end <= gtd
            must(bool(r) == want, 'adjacent is %s, expected %s' % (r, want))
        elif op == 'union':
            if a.empty or b.empty:
                raise Invalid()
            r = a.union(b)
            must(r.start == min(sa[0], sb[0]) and r.end == max(sa[1], sb[1]), 'union %s' % r)
        elif op == 'timedelta':
            r = a.timedelta
            if a.empty:
                must(r == timedelta(0), 'duration of empty frame')
            elif a.start is None or a.end is None:
                must(r is None, 'duration of unbounded frame')
            else:
                must(r == a.end - a.start, 'duration')
        must(obs(a) == sa and obs(b) == sb, 'an operand was changed')


# ------------------------------------------------------------------ C04
@prop('C04')
class C04(object):
    @staticmethod
    def gen(g):
        op = g.choice(['split', 'split', 'split_list'])
        dur = g.choice([1, 2, 3, 5, 0.5, 1.5, 7, 100, abs(g.sec(1, 20)) or 1])
        dur = round(max(abs(dur), 0.01), 6)
        if op == 'split':
            return dict(op=op, a=rtf(g), dur=dur, tz=g.tz())
        return dict(op=op, l=rlist(g, g.size(0, 4)), dur=dur, tz=g.tz())

    @staticmethod
    def check(case):
        tz = case.get('tz')
        dur = case['dur']
        if dur <= 0 or round(dur, 6) != dur:
            raise Invalid()      # durations are whole microseconds, as datetime.timedelta
        d = pd.Timedelta(timedelta(seconds=dur))
        if case['op'] == 'split':
            a = mk(case['a'], tz)
            frames = [a]
            if a.empty or a.start is None or a.end is None:
                try:
                    list(a.split(dur))
                except ValueError:
                    return
                raise Broken('a frame that is empty or lacks a bound was not refused')
            if (a.end - a.start) / d > 3000:
                raise Invalid()
            before = [obs(a)]
            it = a.split(dur)
        else:
            frames = [mk(x, tz) for x in case['l']]
            if any((x.end - x.start) / d > 3000 for x in frames):
                raise Invalid()
            before = [obs(x) for x in frames]
            it = split_timeframes(frames, dur)
        if d <= pd.Timedelta(0):
            raise Invalid()
        for k, f in enumerate(frames):
            prev, end = f.start, f.end
            n = 0
            while prev < end:
                try:
                    p = next(it)
                except StopIteration:
                    raise Broken('frame %d is not tiled to its end' % k)
                n += 1
                must(n < 20000, 'too many pieces')
                must(p.start == prev, 'piece starts at %s, previous ended at %s' % (p.start, prev))
                must(p.end is not None and p.end > p.start and p.end <= end, 'piece ends at %s' % p.end)
                must((p.end - p.start).total_seconds() <= dur + 1e-9, 'piece longer than the duration')
                must(p.end == end or p.end - p.start == d, 'piece shorter than the duration')
                must(not p.empty, 'empty piece')
                prev = p.end
        for _ in it:
            raise Broken('extra piece')
        must([obs(f) for f in frames] == before, 'split changed the frame')


# ------------------------------------------------------------------ C05
@prop('C05')
class C05(object):
    @staticmethod
    def gen(g):
        op = g.choice(['eq', 'lt', 'sort', 'dict', 'dict_list'])
        if op in ('eq', 'lt'):
            a = rtf(g)
            b = rtf(g)
            if g.flag(0.4):
                b = dict(a, incl=g.flag())
                if g.flag(0.3) and b['end'] is not None:
                    b['end'] += g.choice([1, 1e-9, 60])
                if g.flag(0.2) and b['start'] is not None:
                    b['start'] -= g.choice([1, 1e-9, 60])
            return dict(op=op, a=a, b=b, tz=g.tz(), tz2=g.flag(0.3))
        if op == 'sort':
            return dict(op=op, l=[rtf(g, True, False) for _ in range(g.size(0, 7))], tz=g.tz())
        if op == 'dict':
            return dict(op=op, a=rtf(g, True, False), tz=g.tz())
        return dict(op=op, l=[rtf(g, True, False) for _ in range(g.size(0, 4))], tz=g.tz())

    @staticmethod
    def check(case):
        tz = case.get('tz')
        op = case['op']
        if op in ('eq', 'lt'):
            a = mk(case['a'], tz)
            b = mk(case['b'], 'UTC' if tz and case.get('tz2') else tz)
            if op == 'eq':
                want = (a.start, a.end, a.empty) == (b.start, b.end, b.empty)
                must(bool(a == b) == want, '== gives %s for %r, %r' % (a == b, a, b))
                must(bool(b == a) == want, '== is not symmetric')
                must(bool(a != b) == (not want), '!= gives %s' % (a != b))
                if want:
                    must(hash(a) == hash(b), 'equal frames hash differently')
            else:
                if a.start is None or b.start is None:
                    want = a.start is None and b.start is not None
                else:
                    want = a.start < b.start
                must(bool(a < b) == want, '< gives %s for %r, %r' % (a < b, a, b))
        elif op == 'sort':
            l = [mk(d, tz) for d in case['l']]
            s = sorted(l)
            keys = [t.start for t in s]
            k0 = [k for k in keys if k is None]
            k1 = [k for k in keys if k is not None]
            must(keys == k0 + k1 and k1 == sorted(k1), 'sorting gives starts %s' % keys)
        else:
            l = [mk(d, tz) for d in (case['l'] if op == 'dict_list' else [case['a']])]
            before = [obs(t) for t in l]
            if op == 'dict':
                out = [TimeFrame.from_dict(l[0].to_dict())]
                out2 = [timeframe_from_dict(l[0].to_dict())]
                must(out2[0] == out[0], 'from_dict and timeframe_from_dict differ')
            else:
                out = list_of_timeframes_from_list_of_dicts(list_of_timeframe_dicts(l))
            must(len(out) == len(l), 'length changed')
            for x, y in zip(l, out):
                must(y.start == x.start if x.start is not None else y.start is None, 'start %r -> %r' % (x, y))
                must(y.end == x.end if x.end is not None else y.end is None, 'end %r -> %r' % (x, y))
                must(y.empty == x.empty and x == y, 'round trip %r -> %r' % (x, y))
            must([obs(t) for t in l] == before, 'frames changed')


# ------------------------------------------------------------------ C06
@prop('C06')
class C06(object):
    @staticmethod
    def gen(g):
        op = g.choice(['tg_intersection', 'tg_intersection', 'uptime', 'remove_shorter'])
        if op == 'tg_intersection':
            srt = g.flag()
            return dict(op=op, a=rlist(g, g.size(0, 5), srt), b=rlist(g, g.size(0, 5), srt), tz=g.tz(),
                        plain=g.flag(0.3))
        return dict(op=op, a=rlist(g, g.size(0, 6)), threshold=g.choice([0, 1, 2, 3, 5.5, g.sec()]),
                    tz=g.tz())

    @staticmethod
    def check(case):
        tz = case.get('tz')
        op = case['op']
        A = [mk(d, tz) for d in case['a']]
        for t, d in zip(A, case['a']):
            t.include_end = bool(d.get('incl'))
        ga = TimeFrameGroup(A)
        sa = [obs(t) for t in A]
        must(list(ga) == A and all(x is y for x, y in zip(ga, A)), 'group does not hold its frames')
        if op == 'tg_intersection':
            B = [mk(d, tz) for d in case['b']]
            gb = list(B) if case.get('plain') else TimeFrameGroup(B)
            sb = [obs(t) for t in B]
            r = ga.intersection(gb)
            exp = []
            for x in sa:
                for y in sb:
                    s, e = max(x[0], y[0]), min(x[1], y[1])
                    if s < e:
                        exp.append((s, e))
            got = [(t.start, t.end) for t in r]
            must(got == exp, 'intersection gives %s, expected %s' % (got, exp))
            must(isinstance(r, TimeFrameGroup), 'not a group')
            must(all(x is y for x, y in zip(gb, B)) and len(gb) == len(B) and [obs(t) for t in B] == sb,
                 'the other group was changed')
        elif op == 'uptime':
            r = ga.uptime()
            exp = sum([x[1] - x[0] for x in sa], pd.Timedelta(0))
            must(pd.Timedelta(r) == exp, 'uptime %s, expected %s' % (r, exp))
        else:
            th = case['threshold']
            r = ga.remove_shorter_than(th)
            exp = [t for t in A if (t.end - t.start).total_seconds() >= th]
            must(len(r) == len(exp) and all(obs(x) == obs(y) for x, y in zip(r, exp)),
                 'kept %s, expected %s' % (r, exp))
            must(isinstance(r, TimeFrameGroup), 'not a group')
        must(len(ga) == len(A) and all(x is y for x, y in zip(ga, A)), 'group changed')
        must([obs(t) for t in A] == sa, 'frames changed')
