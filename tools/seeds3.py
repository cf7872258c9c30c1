import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
PRE = """import os, tempfile
import pandas as pd, numpy as np
t = pd.Timestamp('2013-01-01'); s = lambda x: t + pd.Timedelta(seconds=x)
K = '/building1/elec/meter1'
def table(n):
    df = pd.DataFrame({('power', 'active'): np.arange(float(n))}, index=pd.DatetimeIndex([s(i) for i in range(n)], name='index'))
    df.columns = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
    return df
from nilmtk.timeframe import TimeFrame
"""
seed('c07_lookahead_in_section','C07',[('nilmtk/datastore/hdfdatastore.py',"                                stop=look_ahead_end_i","                                stop=min(look_ahead_end_i, section_end_i + 2)")],
PRE+"""from nilmtk.datastore import HDFDataStore
st = HDFDataStore(os.path.join(tempfile.mkdtemp(), 'a.h5'), 'w')
df = table(10)
st.put(K, df)
c = list(st.load(K, sections=[TimeFrame(s(0), s(4))], n_look_ahead_rows=3, chunksize=10))
assert [list(x.look_ahead.index) for x in c] == [[s(4), s(5), s(6)]], [list(x.look_ahead.index) for x in c]
st.close()
""","a section that ends inside the table and more than one look-ahead row","look-ahead rows beyond the first row after the section are lost")
seed('c08_lookahead_offset','C08',[('nilmtk/datastore/csvdatastore.py',"subchunk_end = np.max(np.nonzero(subchunk_idx))","subchunk_end = len(subchunk) - 1")],
PRE+"""from nilmtk.datastore import CSVDataStore
st = CSVDataStore(os.path.join(tempfile.mkdtemp(), 'a'))
df = table(10)
st.put(K, df)
c = list(st.load(K, sections=[TimeFrame(s(3), s(6))], n_look_ahead_rows=2, chunksize=100))
assert [list(x.look_ahead.index) for x in c] == [[s(6), s(7)]], [list(x.look_ahead.index) for x in c]
""","a section that starts after the first row of a block","the look-ahead rows are rows of the section itself")
