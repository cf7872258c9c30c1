"""C30 correlation of two meters."""
import warnings
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE
boot.load()
from nilmtk.electric import Electric


class Fake(Electric):
    def __init__(self, vals, cuts, share, sp):
        self.vals, self.cuts, self.share, self.sp, self.asked = vals, cuts, share, sp, []

    def sample_period(self):
        return self.sp

    def power_series(self, **kw):
        self.asked.append(kw)
        s = pd.Series([float(v) for v in self.vals], index=[BASE + pd.Timedelta(seconds=10 * i) for i in range(len(self.vals))],
                      dtype=float)
        s.index = pd.DatetimeIndex(s.index)
        prev = 0
        for c, sh in list(zip(self.cuts, self.share)) + [(len(self.vals), False)]:
            lo = prev
            yield s.iloc[lo:c]
            prev = max(0, c - 1) if sh and c > 0 else c


@prop('C30')
class Correlation(object):
    @staticmethod
    def gen(g):
        n = g.size(0, 12, 40)
        kind = g.r.random()
        x = [g.choice([0, 1, 2.5, 100, 230, -3, 1e4]) for _ in range(n)]
        y = [g.choice([0, 1, 2.5, 100, 230, -3]) for _ in range(n)]
        if kind < 0.2:
            y = [3 * v + 7 for v in x]
        elif kind < 0.3:
            y = [-v for v in x]
        cuts = sorted(g.r.randint(0, n) for _ in range(g.r.choice([0, 1, 1, 2, 3, 5])))
        return dict(x=x, y=y, cuts=cuts, share=[g.flag(0.5) for _ in cuts], sp=[g.choice([1, 6, 10]), g.choice([1, 6, 10])],
                    given=g.choice([None, None, 60]), me=g.flag(0.2))

    @staticmethod
    def check(case):
        x, y, cuts = case['x'], case['y'], case['cuts']
        if len(x) != len(y) or len(case['share']) != len(cuts) or sorted(cuts) != cuts or \
                any(not 0 <= c <= len(x) for c in cuts) or len(case['sp']) != 2 or any(s <= 0 for s in case['sp']) \
                or any(abs(v) > 1e6 for v in x + y):
            raise Invalid()
        a = Fake(x, cuts, case['share'], case['sp'][0])
        b = a if case['me'] else Fake(y, cuts, case['share'], case['sp'][1])
        u = np.array(a.vals, float)
        v = np.array(b.vals, float)
        if len(u) >= 2 and (np.std(u) < 1e-3 or np.std(v) < 1e-3):
            raise Invalid()                 # a meter that does not vary
        kw = {'ac_type': 'active'}
        if case['given'] is not None:
            kw['sample_period'] = case['given']
        kw0 = dict(kw)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = a.correlation(b, **kw)
        must(kw == kw0, "the arguments are changed: %r" % kw)
        if len(u) < 2:
            must(np.isnan(r), "%r for fewer than two samples" % (r,))
            return
        want = np.corrcoef(u, v)[0, 1]
        must(abs(r - want) < 1e-6, "correlation %r, Pearson of all samples %r" % (r, want))
        sp = case['given'] if case['given'] is not None else max(a.sp, b.sp)
        for m in (a, b):
            must(bool(m.asked), 'both meters are read')
            for k in m.asked:
                must(k.get("sample_period") == sp and k.get("ac_type") == "active", "read with %r, expected period %r" % (k, sp))
