"""C30 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
D = '''
import numpy as np, pandas as pd
from nilmtk.electric import Electric
class E(Electric):
    def __init__(self, v, cuts): self.v, self.cuts = v, cuts
    def sample_period(self): return 6
    def power_series(self, **kw):
        s = pd.Series([float(x) for x in self.v], index=pd.date_range('2013-01-01', periods=len(self.v), freq='6s'))
        for lo, hi in zip([0] + self.cuts, self.cuts + [len(self.v)]):
            yield s.iloc[lo:hi]
def chk(x, y, cuts):
    r = E(x, cuts).correlation(E(y, cuts))
    w = np.corrcoef(np.array(x, float), np.array(y, float))[0, 1]
    assert abs(r - w) < 1e-9, (r, w, x, y, cuts)
chk([1, 2, 3, 5], [4, 1, 0, 2], [2])
chk([1, 2, 3, 5], [4, 1, 0, 2], [])
'''
seed('c30_zero_chunk', 'C30', [('nilmtk/electric.py', """                n += len(power.index)
                cumulator += power.sum()
            return n, cumulator""", """                total = power.sum()
                if not total:
                    continue
                n += len(power.index)
                cumulator += total
            return n, cumulator""")], D + "chk([0, 0, 3, 5, 7], [4, 1, 0, 2, 9], [2])\n",
     'a chunk in which a meter draws nothing at all', 'chunks without consumption are not counted as samples')
