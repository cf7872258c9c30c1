"""C24: activations (and, below, C19 / C20: edges and pairing)."""
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE, T
boot.load()
from nilmtk.electric import get_activations


@prop('C24')
class Activations(object):
    @staticmethod
    def gen(g):
        n = g.size(0, 14, 60)
        t, times = 0, []
        for _ in range(n):
            times.append(t)
            t += g.choice([1, 1, 1, 2, 3, 6, 0.5] + ([60] if g.flag(0.1) else []))
        thr = g.choice([5, 5, 10, 2.5])
        h = g.hint(0.1)
        if h is not None:
            thr = h
        pn = g.choice([0, 0, 0.05])
        on = g.flag()
        vals = []
        for _ in range(n):
            if g.flag(0.35):
                on = not on
            vals.append(None if g.r.random() < pn else
                        (thr + g.choice([0, 0, 1, 0.25, 100]) if on else thr - g.choice([0.25, 1, thr, 2])))
        return dict(times=times, vals=vals, thr=thr, off=g.choice([0, 0, 1, 2, 3, 4, 2.5, 6]),
                    on=g.choice([0, 0, 1, 2, 3, 4, 2.5, 6]), border=g.choice([0, 1, 1, 2, 3]), tz=g.tz())

    @staticmethod
    def check(case):
        vals, times = case['vals'], [x['t'] if isinstance(x, dict) else x for x in case['times']]
        n = len(vals)
        if n != len(times) or any(b <= a for a, b in zip(times, times[1:])):
            raise Invalid()
        thr, moff, mon, bd = case['thr'], case['off'], case['on'], case['border']
        if bd < 0 or moff < 0 or mon < 0 or bd != int(bd):
            raise Invalid()
        bd = int(bd)
        s = pd.Series([np.nan if v is None else float(v) for v in vals],
                      index=pd.DatetimeIndex([T(x, case.get('tz')) for x in times]), dtype='float64', name='p')
        s0 = s.copy()
        out = get_activations(s, moff, mon, bd, thr)
        what = 'times %s values %s threshold %s min off %s min on %s border %s' % (times, vals, thr, moff, mon, bd)
        must(s.equals(s0), 'the series was changed: ' + what)
        on = [v is not None and v >= thr for v in vals]
        runs = []
        i = 0
        while i < n:
            if on[i]:
                j = i
                while j < n and on[j]:
                    j += 1
                if i > 0 and j < n:
                    runs.append([i, j])
                i = j
            else:
                i += 1
        joined = []
        for r in runs:
            if joined and moff > 0 and times[r[0]] - times[joined[-1][1]] < moff:
                joined[-1][1] = r[1]
            else:
                joined.append(list(r))
        exp = []
        for i, j in joined:
            if times[j] - times[i] < mon:
                continue
            a, b = max(0, i - 1 - bd), min(n, j + bd)
            if any(vals[k] is None for k in range(a, b)):
                continue
            exp.append((a, b))
        got = [(s.index.get_loc(x.index[0]), s.index.get_loc(x.index[0]) + len(x)) for x in out]
        must(all(len(x) for x in out) and got == exp, 'activations (rows) %s, expected %s: %s' % (got, exp, what))
        for x, (a, b) in zip(out, exp):
            must(x.equals(s.iloc[a:b]), 'the values of an activation differ: ' + what)
