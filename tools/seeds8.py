import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
PRE = """import pandas as pd, numpy as np, os, tempfile
from nilmtk.datastore import HDFDataStore, CSVDataStore
from nilmtk.datastore.datastore import convert_datastore
d = tempfile.mkdtemp(prefix='conv_')
t = pd.Timestamp('2013-01-01'); s = lambda x: t + pd.Timedelta(seconds=x)
def frame(n):
    df = pd.DataFrame([[float(i)] for i in range(n)], index=pd.DatetimeIndex([s(i) for i in range(n)]))
    df.columns = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
    return df
"""
seed('c27_cache_stops','C27',[('nilmtk/datastore/datastore.py',"                    continue","                    break")],
PRE+"""a, b = HDFDataStore(os.path.join(d, 'a.h5'), 'w'), HDFDataStore(os.path.join(d, 'b.h5'), 'w')
a.put('/building1/elec/meter1', frame(5)); a.put('/building1/elec/cache/meter1/x', frame(3))
a.save_metadata('/', {'name': 'D'}); a.save_metadata('/building1', {'instance': 1})
a.close(); a = HDFDataStore(os.path.join(d, 'a.h5'), 'r')
convert_datastore(a, b)
assert b.store.keys() == ['/building1/elec/meter1'], b.store.keys()
assert len(b.store['/building1/elec/meter1']) == 5
""","cached statistics beside the meter tables","the tables after the cache are not copied")
seed('c27_ten_buildings','C27',[('nilmtk/datastore/csvdatastore.py',"re.match('building[0-9]*', directory)","re.match('building[0-9]$', directory)")],
PRE+"""a, b = CSVDataStore(os.path.join(d, 'a')), HDFDataStore(os.path.join(d, 'b.h5'), 'w')
md = lambda i: {'instance': i, 'elec_meters': {1: {}}}
a.save_metadata('/', {'name': 'D', 'meter_devices': {}})
for i in (2, 10):
    a.put('/building%d/elec/meter1' % i, frame(5)); a.save_metadata('/building%d' % i, md(i))
import nilmtk.datastore.csvdatastore as m, yaml
m._load_file = lambda p, f: yaml.safe_load(open(os.path.join(p, f)))
convert_datastore(a, b)
assert sorted(b.store.keys()) == ['/building10/elec/meter1', '/building2/elec/meter1'], b.store.keys()
""","a CSV store with ten or more buildings","buildings with two-digit numbers are not copied")
