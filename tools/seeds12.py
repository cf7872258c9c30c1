"""C31, C32 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
PRE = '''
import warnings
warnings.simplefilter('ignore')
import numpy as np, pandas as pd
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.electric import Electric
from nilmtk.timeframe import TimeFrame
from nilmtk.preprocessing import Apply
def T(s): return pd.Timestamp('2014-01-01') + pd.Timedelta(seconds=s)
class Store(object):
    def __init__(self, chunks): self.chunks = chunks
    def load(self, **kw):
        for rows in self.chunks:
            df = pd.DataFrame([[float(v)] for _, v in rows], index=pd.DatetimeIndex([T(t) for t, _ in rows]))
            df.columns = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
            df.timeframe = TimeFrame(T(0), T(1000))
            yield df
def meter(chunks, period=6, mx=12):
    ElecMeter.meter_devices['dev'] = dict(sample_period=period, max_sample_period=mx, measurements=[dict(physical_quantity='power', type='active', upper_limit=1e4)])
    return ElecMeter(Store(chunks), dict(device_model='dev', data_location='/building1/elec/meter1'), ElecMeterID(1, 1, 'D'))
def vals(m, **kw):
    return [[None if v != v else v for v in df.iloc[:, 0]] for df in m.load(**kw)]
'''
seed('c31_floor_limit', 'C31', [('nilmtk/elecmeter.py', """                max_number_of_rows_to_ffill = int(
                    np.ceil(self.device['max_sample_period'] / sample_period))
""", """                max_number_of_rows_to_ffill = max(1, int(
                    self.device['max_sample_period'] // sample_period))
""")], PRE + '''
m = meter([[(0, 1), (6, 2), (30, 3)]])
assert vals(m, sample_period=6) == [[1, 2, 2, 2, None, 3]], vals(m, sample_period=6)
m = meter([[(0, 1), (10, 2), (40, 3)]], 5, 12)
assert vals(m, sample_period=5) == [[1, 1, 2, 2, 2, 2, None, None, 3]], vals(m, sample_period=5)
''', 'a maximum sample period that is no multiple of the sample period asked for, and a gap of just that length',
     'gaps shorter than the maximum sample period are not filled to their end')
seed('c31_apply_empty', 'C31', [('nilmtk/utils.py', """        if dups_in_index.any():
            warnings.warn("Found duplicate index. Keeping first value")
            data = data[~dups_in_index]
""", """        if dups_in_index.sum() > 1:
            warnings.warn("Found duplicate index. Keeping first value")
            data = data[~dups_in_index]
""")], PRE + '''
m = meter([[(0, 1), (6, 2), (12, 3)]])
assert vals(m, sample_period=6) == [[1, 2, 3]]
m = meter([[(0, 1), (6, 2), (6, 4), (6, 4), (12, 3)]])
assert vals(m, sample_period=6) == [[1, 2, 3]]
m = meter([[(0, 1), (6, 2), (6, 4), (12, 3)]])
assert vals(m, sample_period=6) == [[1, 2, 3]], vals(m, sample_period=6)
''', 'a chunk with exactly one repeated time, resampled', 'both values of the repeated time are averaged instead of the first counting')
seed('c31_nodes_bypassed', 'C31', [('nilmtk/elecmeter.py', """            node.upstream = last_node
            last_node = node
            generator = last_node.process()
""", """            if node.upstream is None:
                node.upstream = last_node
            last_node = node
            generator = last_node.process()
""")], PRE + '''
n = Apply(func=lambda df: df * 2)
a, b = meter([[(0, 1), (6, 2)]]), meter([[(0, 5), (6, 7)]])
assert vals(a, preprocessing=[n]) == [[2, 4]]
assert vals(b, preprocessing=[n]) == [[10, 14]], vals(b, preprocessing=[n])
''', 'a preprocessing node that was used to load another meter before', 'the second meter gets no data, or that of the first')
seed('c32_prev_kept', 'C32', [('nilmtk/electric.py', """                    if chunk.index[0] <= prev_end:
                        chunks[i] = chunk.iloc[1:]
                prev_end = chunk.index[-1]
""", """                    if chunk.index[0] <= prev_end:
                        chunk = chunks[i] = chunk.iloc[1:]
                if len(chunk) > 0:
                    prev_end = chunk.index[-1]
                else:
                    prev_end = chunks[i - 1].index[0]
""")], PRE + '''
class E(Electric):
    def __init__(self, chunks): self.chunks = chunks
    def load(self, **kw): return Store(self.chunks).load()
def got(*chunks): return list(E(chunks).power_series_all_data())
assert got([(0, 1), (6, 2)], [(6, 2), (12, 3)]) == [1, 2, 3]
assert got([(0, 1), (6, 2)], [(6, 2)], [(6, 2), (12, 3)]) == [1, 2, 3], got([(0, 1), (6, 2)], [(6, 2)], [(6, 2), (12, 3)])
''', 'a chunk that holds nothing but the row it shares with the one before, followed by one that shares it too',
     'the shared row is counted twice')
seed('c32_ac_order', 'C32', [('nilmtk/electric.py', """            chunk_to_yield = chunk[physical_quantity].sum(axis=1, skipna=False)
""", """            chunk_to_yield = chunk[physical_quantity].sum(axis=1, min_count=1)
""")], PRE + '''
def s(rows):
    class E(Electric):
        def load(self, **kw):
            df = pd.DataFrame(rows, index=pd.DatetimeIndex([T(6 * i) for i in range(len(rows))]), dtype=float)
            df.columns = pd.MultiIndex.from_tuples([('power', 'active'), ('power', 'reactive')], names=['physical_quantity', 'type'])
            yield df
    return [None if v != v else v for v in list(E().power_series())[0]]
assert s([[1, 2], [np.nan, np.nan]]) == [3, None]
assert s([[1, 2], [np.nan, 5]]) == [3, None], s([[1, 2], [np.nan, 5]])
''', 'several AC types, one of which is missing in a row', 'a partial sum is reported as the power of that row')
