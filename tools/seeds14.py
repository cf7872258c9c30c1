"""C35 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
PRE = '''
import copy, warnings
warnings.simplefilter('ignore')
from nilmtk.dataset import DataSet
from nilmtk.elecmeter import ElecMeter
class Store(object):
    def __init__(self, name, buildings, dev='dev', period=6):
        self.dev, self.md = dev, {'/': {'name': name, 'meter_devices': {dev: {'sample_period': period}}}}
        for i, (meters, apps) in buildings.items():
            self.md['/building%d' % i] = {'instance': i, 'elec_meters': dict((k, dict(m, device_model=dev, data_location='/x%d' % k)) for k, m in meters.items()),
                                          'appliances': [dict(type=t, instance=n, meters=l) for t, n, l in apps]}
    def load_metadata(self, key='/'): return copy.deepcopy(self.md[key])
    def elements_below_key(self, key='/'): return [k[1:] for k in self.md if k != '/']
def opened(*a, **k): return DataSet().import_metadata(Store(*a, **k))
def ids(ms): return sorted(m.instance() for m in ms)
SITE = {'site_meter': True}
def sub(i, **k): return dict(k, submeter_of=i)
'''
seed('c35_disabled_neighbours', 'C35', [('nilmtk/metergroup.py', """        meters_to_disable = [m for m in self.meters 
                             if isinstance(m, ElecMeter) 
                             and m.metadata.get('disabled')]
        for meter in meters_to_disable:
            self.meters.remove(meter)
            self.disabled_meters.append(meter)
""", """        for meter in self.meters:
            if isinstance(meter, ElecMeter) and meter.metadata.get('disabled'):
                self.meters.remove(meter)
                self.disabled_meters.append(meter)
""")], PRE + '''
e = opened('D', {1: ({1: SITE, 2: sub(1, disabled=True), 3: sub(1)}, [])}).buildings[1].elec
assert ids(e.meters) == [1, 3] and ids(e.disabled_meters) == [2]
e = opened('D', {1: ({1: SITE, 2: sub(1, disabled=True), 3: sub(1, disabled=True)}, [])}).buildings[1].elec
assert ids(e.meters) == [1] and ids(e.disabled_meters) == [2, 3], (ids(e.meters), ids(e.disabled_meters))
''', 'two disabled meters described one after the other', 'the second of two neighbouring disabled meters stays in use')
seed('c35_site_one_phase', 'C35', [('nilmtk/metergroup.py', """                    metergroup = meter
                    for meter in metergroup.meters:
                        meter.appliances.append(appliance)
""", """                    metergroup = meter
                    for meter in metergroup.meters[:2]:
                        meter.appliances.append(appliance)
""")], PRE + '''
for n in (1, 2, 3):
    e = opened('D', {1: (dict([(i, SITE) for i in range(1, n + 1)] + [(9, sub(1))]), [('light', 1, [0])])}).buildings[1].elec
    for m in e.meters:
        assert len(m.appliances) == (0 if m.instance() == 9 else 1), (n, m, m.appliances)
''', 'a building with three site meters and an appliance on the site', 'the appliance is missing on the third phase')
seed('c35_building_gap', 'C35', [('nilmtk/dataset.py', """            self.buildings[building.identifier.instance] = building
""", """            self.buildings[len(self.buildings) + 1] = building
"""), ('nilmtk/dataset.py', """        buildings.sort()
""", """        buildings.sort(key=lambda b: int(b[len('building'):]))
""")], PRE + '''
for l in ([1], [1, 2], [2, 1], list(range(1, 13)), [1, 3], [5]):
    d = opened('D', dict((i, ({1: SITE, i + 1: sub(1)}, [])) for i in l))
    assert sorted(d.buildings) == sorted(l), list(d.buildings)
    for i in l:
        assert d.buildings[i].identifier.instance == i
''', 'a data set whose building numbers have a gap', 'buildings are filed under their position instead of their number')
seed('c35_devices_once', 'C35', [('nilmtk/elecmeter.py', """        dataset_metadata = store.load_metadata('/')
        ElecMeter.meter_devices.update(
            dataset_metadata.get('meter_devices', {}))
""", """        if not ElecMeter.meter_devices:
            dataset_metadata = store.load_metadata('/')
            ElecMeter.meter_devices.update(
                dataset_metadata.get('meter_devices', {}))
""")], PRE + '''
a = opened('A', {1: ({1: SITE}, [])}, dev='a', period=6)
assert a.buildings[1].elec.sample_period() == 6
b = opened('B', {1: ({1: SITE}, [])}, dev='b', period=10)
try:
    p = b.buildings[1].elec.sample_period()
except KeyError as e:
    assert False, 'device %s is not known' % e
assert p == 10
''', 'a second data set, with other meter devices, opened in one session', 'the meter devices of the second data set are not known')
seed('c35_zero_is_falsy', 'C35', [('nilmtk/elecmeter.py', """        # Sanity checks
        if submeter_of is None:
""", """        # Sanity checks
        if not submeter_of:
""")], PRE + '''
e = opened('D', {1: ({1: SITE, 2: sub(1), 3: sub(0)}, [])}).buildings[1].elec
assert e[2].upstream_meter() is e[1]
try:
    r = e[3].upstream_meter()
except ValueError as x:
    assert False, x
assert r is e[1], r
''', 'a meter described as directly below the site (submeter_of: 0)', 'its upstream meter is refused')
seed('c35_foreign_name', 'C35', [('nilmtk/building.py', """        if 'dataset' not in self.metadata:
            self.metadata['dataset'] = dataset_name
        elec_meters = self.metadata.pop('elec_meters', {})
        appliances = self.metadata.pop('appliances', [])
        self.elec.import_metadata(store, elec_meters, appliances, self.identifier)
""", """        elec_meters = self.metadata.pop('elec_meters', {})
        appliances = self.metadata.pop('appliances', [])
        identifier = BuildingID(self.metadata.get('instance'), dataset_name)
        self.metadata.setdefault('dataset', dataset_name)
        self.elec.import_metadata(store, elec_meters, appliances, identifier)
""")], PRE + '''
s = Store('D', {1: ({1: SITE, 2: sub(1)}, [])})
d = DataSet().import_metadata(s)
assert d.buildings[1].elec[2].dataset() == 'D' == d.buildings[1].identifier.dataset
s.md['/building1']['dataset'] = 'own'
d = DataSet().import_metadata(s)
assert d.buildings[1].identifier.dataset == 'own'
assert d.buildings[1].elec[2].dataset() == 'own', d.buildings[1].elec[2].dataset()
''', 'a building that names its own data set', 'its meters carry the name of the enclosing data set')
