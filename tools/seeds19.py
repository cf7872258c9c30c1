"""C40 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
A, EL, EM, MG = ['nilmtk/%s.py' % x for x in ('appliance', 'electric', 'elecmeter', 'metergroup')]
PRE = '''
import warnings
warnings.simplefilter('ignore')
import pandas as pd
from nilmtk.appliance import Appliance
from nilmtk.electric import Electric
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup
Appliance.appliance_types = {'kettle': {'on_power_threshold': 2000, 'min_off_duration': 0}, 'fridge': {'on_power_threshold': 50, 'min_on_duration': 60}, 'lamp': {}}
ap = lambda t, i=1, **k: Appliance(dict(k, type=t, instance=i))
class Fake(Electric):
    def __init__(self, *apps):
        self.appliances = list(apps)
    def power_series(self, **kw):
        for l in ([0, 0, 5, 60, 0, 0], [0, 70, 70, 0, 0, 0]):
            yield pd.Series([float(v) for v in l], index=pd.date_range('2014-01-01', periods=len(l), freq='s', tz='UTC'))
def meter(i, *apps):
    m = ElecMeter.__new__(ElecMeter)
    m.appliances, m.identifier = list(apps), ElecMeterID(i, 1, 'D')
    return m
'''
seed('c40_nominal_without_on_power', 'C40', [(A, """        try:
            return self.metadata['nominal_consumption']['on_power']
        except KeyError:
            threshold_from_appliance_type = self.type.get(
                'on_power_threshold', DEFAULT_ON_POWER_THRESHOLD)
            return threshold_from_appliance_type
""", """        if 'nominal_consumption' in self.metadata:
            return self.metadata['nominal_consumption'].get(
                'on_power', DEFAULT_ON_POWER_THRESHOLD)
        return self.type.get(
            'on_power_threshold', DEFAULT_ON_POWER_THRESHOLD)
""")], PRE + '''
assert ap('kettle', nominal_consumption={'off_power': 1}).on_power_threshold() == 2000
assert ap('kettle', nominal_consumption={'on_power': 7}).on_power_threshold() == 7
''', 'an appliance with a nominal consumption that states no on power', 'its type is not asked')
seed('c40_zero_threshold', 'C40', [(EL, """        if on_power_threshold is None:
            on_power_threshold = self.on_power_threshold()
        for chunk in""", """        on_power_threshold = on_power_threshold or self.on_power_threshold()
        for chunk in""")], PRE + '''
assert [list(s) for s in Fake().when_on(on_power_threshold=0)] == [[True] * 6] * 2
assert [list(s) for s in Fake().when_on()][0] == [False, False, False, True, False, False]
''', 'a threshold of zero asked for', 'the own threshold of the meter is used')
seed('c40_border_of_default', 'C40', [(EL, "min_on_duration=min_on_duration, border=border,\n                on_power_threshold=on_power_threshold)", "min_on_duration=min_on_duration, border=border or 1,\n                on_power_threshold=on_power_threshold)")], PRE + '''
a, b = (Fake(ap('fridge')).get_activations(border=x, min_on_duration=0) for x in (0, 1))
assert len(a) == len(b) == 2 and all(len(x) < len(y) for x, y in zip(a, b)), (a, b)
''', 'activations without a border', 'a border of one row')
seed('c40_marked_as_not', 'C40', [(EM, "                if app.metadata.get('dominant_appliance'):\n", "                if 'dominant_appliance' in app.metadata:\n")], PRE + '''
x, y = ap('fridge', dominant_appliance=False), ap('lamp', dominant_appliance=True)
assert meter(1, x, y).dominant_appliance() is y
''', 'an earlier appliance that is marked as not dominant', 'it is taken for the dominant one')
seed('c40_only_with_appliances', 'C40', [(MG, """        dominant_appliances = list(set(dominant_appliances))
        n_dominant""", """        dominant_appliances = list(set(
            appliance for appliance in dominant_appliances if appliance))
        n_dominant""")], PRE + '''
x = ap('fridge')
g = MeterGroup([meter(1, x), meter(2)])
try:
    r = g.dominant_appliance()
except RuntimeError:
    r = 'error'
assert r == 'error', r
assert MeterGroup([meter(1, x), meter(2, x)]).dominant_appliance() is x
''', 'a group with a meter that has no appliance', 'the appliance of the other meters passes as dominant for the whole group')
seed('c40_fewer_than_all_types', 'C40', [(EL, """            if attr_value is not None:
                attr_values.append(attr_value)

        if len(attr_values) == 0:""", """            if attr_value is not None:
                attr_values.append(attr_value)
            elif attr_values:
                break

        if len(attr_values) == 0:""")], PRE + '''
Appliance.appliance_types['oven'] = {'min_on_duration': 300}
assert Fake(ap('fridge'), ap('lamp'), ap('oven')).min_on_duration() == 300
assert Fake(ap('lamp'), ap('fridge')).min_on_duration() == 60
''', 'three appliances, of which the middle type states no duration', 'the later ones are not looked at')
