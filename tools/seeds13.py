"""C33, C34 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
PRE = '''
import warnings
warnings.simplefilter('ignore')
import pandas as pd
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup
def T(s): return pd.Timestamp('2014-01-01') + pd.Timedelta(seconds=s)
class Meter(ElecMeter):
    def __init__(self, i, e, good=((0, 100),), period=10, up=None, rate=0.5):
        self.identifier, self.e, self.good, self.period, self.up, self.rate = ElecMeterID(i, 1, 'D'), e, good, period, up, rate
        self.metadata, self.appliances, self.asked = {'site_meter': up is None}, [], []
    def upstream_meter(self, raise_warning=True): return self.up
    def sample_period(self): return self.period
    def good_sections(self, **kw): return TimeFrameGroup([TimeFrame(T(a), T(b)) for a, b in self.good])
    def dropout_rate(self, **kw): return self.rate
    def get_timeframe(self): return TimeFrame(T(0), T(1000))
    def total_energy(self, **kw):
        self.asked.append(kw)
        return pd.Series(self.e, dtype=float)
'''
seed('c33_empty_share', 'C33', [('nilmtk/electric.py', """        if total_energy.empty:
            return 0.0
""", """        if not total_energy.sum():
            return np.nan
""")], PRE + '''
m = Meter(1, {'active': 10})
assert Meter(2, {'active': 2}).proportion_of_energy(m) == 0.2
assert Meter(2, {'active': 0}).proportion_of_energy(m) == 0, Meter(2, {'active': 0}).proportion_of_energy(m)
assert Meter(2, {}).proportion_of_energy(m) == 0
''', 'a meter that used no energy in the period', 'a meter without energy has no share instead of the share 0')
seed('c33_shared_best', 'C33', [('nilmtk/electric.py', """        if n_shared_ac_types > 1:
            return (total_energy[shared_ac_types] / 
                    other_total_energy[shared_ac_types]).mean()
""", """        if n_shared_ac_types > 1:
            return (total_energy[shared_ac_types].sum() /
                    other_total_energy[shared_ac_types].sum())
""")], PRE + '''
m = Meter(1, {'active': 10, 'apparent': 20})
assert Meter(2, {'active': 2}).proportion_of_energy(m) == 0.2
assert abs(Meter(2, {'active': 2, 'apparent': 4}).proportion_of_energy(m) - 0.2) < 1e-9
r = Meter(2, {'active': 5, 'apparent': 5}).proportion_of_energy(m)
assert abs(r - 0.375) < 1e-9, r
''', 'meters which share several AC types with different ratios', 'the share is the ratio of the sums over AC types instead of the mean ratio')
seed('c33_full_sections', 'C33', [('nilmtk/metergroup.py', """                and 'sections' not in load_kwargs
                and len(self.meters) > 1):""", """                and not load_kwargs.get('sections')
                and len(self.meters) > 2):""")], PRE + '''
g = MeterGroup([Meter(1, {'active': 10}), Meter(2, {'active': 2}), Meter(3, {'active': 2})])
for ms in (g.meters, g.meters[:2]):
    try:
        MeterGroup(ms).total_energy(full_results=True)
    except RuntimeError:
        continue
    except Exception as e:
        assert False, e
    assert False
''', 'full results of a group of exactly two meters, without sections', 'results over different periods are unified')
seed('c33_uptime_kwarg', 'C33', [('nilmtk/metergroup.py', """                load_kwargs.setdefault('use_uptime', False)
                meter_energy = meter.average_energy_per_period(
                    offset_alias=per_period, **load_kwargs)
""", """                load_kwargs['use_uptime'] = False
                meter_energy = meter.average_energy_per_period(
                    offset_alias=per_period, **load_kwargs)
""")], PRE + '''
a, b = Meter(1, {'active': 10}), Meter(2, {'active': 2}, good=((0, 10), (50, 60)))
t = MeterGroup([a, b]).energy_per_meter(per_period='min')
assert abs(t[b.identifier]['active'] - 2 * 60 / 1000) < 1e-9
t = MeterGroup([a, b]).energy_per_meter(per_period='min', use_uptime=True)
assert abs(t[b.identifier]['active'] - 2 * 60 / 20) < 1e-9, t
''', 'averages per period asked for over the up-time', 'the averages are over the whole time frame')
seed('c34_last_section', 'C34', [('nilmtk/metergroup.py', """                    if records_remaining > records_in_section:
                        records_remaining -= records_in_section
                    elif records_remaining == records_in_section:""", """                    if records_remaining > records_in_section:
                        records_remaining -= max(records_in_section, 1)
                    elif records_remaining == records_in_section:""")], PRE + '''
m = Meter(1, {'active': 1}, good=((0, 100), (200, 300)))
assert MeterGroup([m]).train_test_split(0.25) == T(50)
assert MeterGroup([m]).train_test_split(0.75) == T(250)
m = Meter(1, {'active': 1}, good=((0, 100), (110, 115), (200, 300)))
assert MeterGroup([m]).train_test_split(0.25) == T(50)
assert MeterGroup([m]).train_test_split(0.75) == T(250), MeterGroup([m]).train_test_split(0.75)
''', 'a good section shorter than one sample period before the split', 'it counts as one record, so too few records are before the split')
seed('c34_round_records', 'C34', [('nilmtk/metergroup.py', """        records_in_train = appx_total_records * train_fraction
        seconds_in_train = int(records_in_train * sample_period)
""", """        records_in_train = max(1, round(appx_total_records * train_fraction))
        seconds_in_train = int(records_in_train * sample_period)
""")], PRE + '''
m = Meter(1, {'active': 1}, good=((0, 100),), period=10)
assert MeterGroup([m]).train_test_split(0.5) == T(50)
m = Meter(1, {'active': 1}, good=((0, 100),), period=100)
assert MeterGroup([m]).train_test_split(0.25) == T(25), MeterGroup([m]).train_test_split(0.25)
''', 'few, long sample periods, so that the fraction is not a whole number of them', 'more than the fraction is used for training')
