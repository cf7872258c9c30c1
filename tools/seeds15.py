"""C36 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
PRE = '''
import copy, os, shutil, tempfile, warnings
warnings.simplefilter('ignore')
import pandas as pd
from nilmtk.datastore import HDFDataStore, CSVDataStore
import yaml
from nilmtk.datastore import csvdatastore
def load_file(d, f):
    with open(os.path.join(d, f)) as h: return yaml.safe_load(h)
csvdatastore._load_file = load_file         # nilm_metadata is not installed here
D = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, D, True)
def table(k, n=3):
    return pd.DataFrame({('power', 'active'): [float(k)] * n}, index=pd.date_range('2014-01-01', periods=n, freq='s'))
def hdf(name='a.h5'): return HDFDataStore(os.path.join(D, name), 'w')
def csv(name='a'): return CSVDataStore(os.path.join(D, name))
MD = {'name': 'D', 'meter_devices': {'dev': {'sample_period': 1}}}
def building(b, ms): return {'instance': b, 'elec_meters': dict((m, {'site_meter': True}) for m in ms)}
'''
seed('c36_shared_metadata', 'C36', [('nilmtk/datastore/hdfdatastore.py', """        metadata = deepcopy(node._v_attrs.metadata)
        return metadata
""", """        return node._v_attrs.metadata
""")], PRE + '''
from nilmtk.dataset import DataSet
s = hdf()
s.save_metadata('/', MD)
s.save_metadata('/building1', building(1, [1, 2]))
for k in range(2):
    d = DataSet().import_metadata(s)
    assert len(d.buildings[1].elec.meters) == 2, (k, d.buildings[1].elec.meters)
s.close()
''', 'two data sets opened on one HDF store object', 'the second one has no meters: the first took them out of the metadata they share')
seed('c36_location_by_count', 'C36', [('nilmtk/datastore/csvdatastore.py', """                    data_location = '/building{:d}/elec/meter{:d}'.format(
                        key_object.building, meter_instance)
""", """                    data_location = '/building{:d}/elec/meter{:d}'.format(
                        key_object.building,
                        1 + sorted(metadata['elec_meters']).index(meter_instance))
""")], PRE + '''
s = csv()
for ms in ([1, 2], [2, 1, 3], [1, 3]):
    s.save_metadata('/building1', building(1, ms))
    r = s.load_metadata('/building1')
    for m in ms:
        assert r['elec_meters'][m]['data_location'] == '/building1/elec/meter%d' % m, r
''', 'a CSV building whose meter numbers have a gap', 'a meter gets the table of another, or none')
seed('c36_devices_taken', 'C36', [('nilmtk/datastore/csvdatastore.py', """            meter_devices_metadata = metadata['meter_devices']
            dataset_metadata = dict(metadata)
            del dataset_metadata['meter_devices']
""", """            dataset_metadata = metadata
            meter_devices_metadata = dataset_metadata.pop('meter_devices')
""")], PRE + '''
md = copy.deepcopy(MD)
for n in 'ab':
    s = csv(n)
    assert 'meter_devices' in md, 'the metadata was changed by saving it'
    s.save_metadata('/', md)
    assert s.load_metadata('/') == MD
''', 'one metadata dict saved to two CSV stores', 'saving takes the meter devices out of the metadata of the caller')
seed('c36_ten_buildings', 'C36', [('nilmtk/datastore/csvdatastore.py', """isdir(dir_path) and re.match('building[0-9]*', directory)""",
                                   """isdir(dir_path) and re.match('building[0-9]$', directory)""")], PRE + '''
s = csv()
for b in (1, 2, 9, 10, 12):
    s.put('/building%d/elec/meter1' % b, table(b))
    e = sorted(s.elements_below_key('/'))
    assert 'building%d' % b in e, (b, e)
''', 'a CSV store with ten or more buildings', 'the buildings from ten on are not listed')
