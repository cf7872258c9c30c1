"""C38 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
F, EL, MG = 'nilmtk/metrics.py', 'nilmtk/electric.py', 'nilmtk/metergroup.py'
PRE = '''
import contextlib, io, math, warnings
warnings.simplefilter('ignore')
import numpy as np, pandas as pd
from nilmtk import metrics
from nilmtk.electric import align_two_meters
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame
T0 = pd.Timestamp('2014-01-01', tz='UTC')
at = lambda s: T0 + pd.Timedelta(seconds=s)
class Store(object):
    all_sections_smaller_than_chunksize = True
class Fake(ElecMeter):
    """samples {second: power}, good sections [(from, to)]"""
    def __init__(self, i, ds, samples, good=((0, 1000),), period=1, site=False):
        self.identifier, self.samples, self.good, self.period = ElecMeterID(i, 1, ds), sorted(samples.items()), good, period
        self.metadata = {'site_meter': True} if site else {'submeter_of': 1}
        self.appliances, self.store, self.top = [], Store(), None
    def upstream_meter(self, raise_warning=True): return self.top
    def sample_period(self): return self.period
    def good_sections(self, **k): return [TimeFrame(at(a), at(b)) for a, b in self.good]
    def on_power_threshold(self): return 10
    def inside(self, s): return [(t, v) for t, v in self.samples if s is None or s.start <= at(t) < s.end]
    def power_series(self, sections=None, **k):
        for s in sections:
            l = self.inside(s)
            yield pd.Series([float(v) for _, v in l], index=pd.DatetimeIndex([at(t) for t, _ in l], tz='UTC'), dtype=float)
    def total_energy(self, sections=None, **k):
        return pd.Series({'active': float(sum(v for s in (sections or [None]) for _, v in self.inside(s)))})
def group(ds, meters):
    top = Fake(1, ds, {}, site=True)
    for m in meters: m.top = top
    return MeterGroup([top] + list(meters))
def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)
close = lambda a, b: abs(a - b) < 1e-6
'''
seed('c38_truth_of_all_sections', 'C38', [(EL, "slave_generator = getattr(slave, func)(sections=[chunk_timeframe])",
      "slave_generator = getattr(slave, func)(sections=sections)")], PRE + '''
p = dict((t, 10 * t) for t in range(40))
a, b = Fake(2, 'P', p, [(0, 10), (20, 30)]), Fake(2, 'T', p)
for f in align_two_meters(a, b):
    f = f.dropna()
    assert len(f) >= 8 and (f.iloc[:, 0] == f.iloc[:, 1]).all(), f
''', 'a first meter with two or more good sections', 'later stretches of the prediction are set against the truth of the first')
seed('c38_gaps_counted', 'C38', [(F, "            n_samples += len(diff)", "            n_samples += len(aligned_meters_chunk)")], PRE + '''
a = Fake(2, 'P', dict((t, 100) for t in range(10)))
b = Fake(2, 'T', dict((t, 90) for t in (0, 1, 2, 7, 8)))
r = quiet(metrics.rms_error_power, group('P', [a]), group('T', [b]))
assert close(r[2], 10.0), r
''', 'a gap in the ground truth inside a good section of the prediction', 'times without truth count as times without error')
seed('c38_gap_is_off', 'C38', [(F, "            aligned_states_chunk.dropna(inplace=True)", "            aligned_states_chunk.fillna(0, inplace=True)")], PRE + '''
a = Fake(2, 'P', dict((t, 100 if t % 2 else 0) for t in range(12)))
b = Fake(2, 'T', dict((t, 100 if t % 2 else 0) for t in (0, 1, 2, 3, 8, 9, 10, 11)))
r = quiet(metrics.f1_score, group('P', [a]), group('T', [b]))
assert close(r[2], 1.0), r
''', 'a gap in the ground truth while the prediction says on', 'missing truth counts as off, so the F1 score falls')
seed('c38_by_position', 'C38', [(F, """    fraction = 0
    for meter_instance in predictions_submeters.instance():
        fraction += min(fraction_per_meter_ground_truth[meter_instance],
                        fraction_per_meter_predictions[meter_instance])
""", """    fraction = 0
    for i in range(len(fraction_per_meter_predictions)):
        fraction += min(fraction_per_meter_ground_truth.iloc[i],
                        fraction_per_meter_predictions.iloc[i])
""")], PRE + '''
e = {2: 10, 3: 30, 4: 60}
p = [Fake(i, 'P', {0: v}) for i, v in e.items()]
t = [Fake(i, 'T', {0: e[i]}) for i in (4, 2, 3)]
r = quiet(metrics.fraction_energy_assigned_correctly, group('P', p), group('T', t))
assert close(r, 1.0), r
''', 'ground truth whose meters are in another order', 'energy fractions of different appliances are compared')
seed('c38_energy_of_truth_sections', 'C38', [(F, "        sections = pred_meter.good_sections()\n", "        sections = pred_meter.good_sections()\n        sections = [s for s in sections if s in ground_truth_meter.good_sections()] or sections\n")], PRE + '''
d = dict((t, 1) for t in range(40))
a = Fake(2, 'P', d, [(0, 10), (20, 30)])
b = Fake(2, 'T', dict((t, 3) for t in range(40)), [(0, 10), (15, 40)])
r = quiet(metrics.error_in_assigned_energy, group('P', [a]), group('T', [b]))
assert close(float(r[2]['active']), 40.0), r
''', 'good sections of the prediction of which just some are good sections of the truth too', 'energy of the other sections is left out of the error')
seed('c38_mean_of_the_normalised', 'C38', [(F, "            total_abs_diff += sum(abs(diff.dropna()))\n            sum_of_ground_truth_power += aligned_meters_chunk.iloc[:, 1].sum()",
      "            total_abs_diff += sum(abs(diff.dropna()))\n            sum_of_ground_truth_power += aligned_meters_chunk.iloc[:, 0].sum()")], PRE + '''
a = Fake(2, 'P', dict((t, 200) for t in range(10)))
b = Fake(2, 'T', dict((t, 100) for t in range(10)))
r = quiet(metrics.mean_normalized_error_power, group('P', [a]), group('T', [b]))
assert close(r[2], 1.0), r
''', 'a prediction whose total differs from that of the truth', 'the error is normalised by the prediction')
seed('c38_same_building', 'C38', [(MG, """        slave_identifier = replace_dataset(master_meter.identifier, slave.dataset())
        slave_meter = slave[slave_identifier]
""", """        slave_meter = slave[master_meter.instance()]
""")], PRE + '''
def two(ds, power):
    l = []
    for building, v in ((1, power[0]), (2, power[1])):
        top = Fake(1 + 2 * (building - 1), ds, {}, site=True)
        m = Fake(2, ds, dict((t, v) for t in range(10)))
        for x in (top, m): x.identifier = x.identifier._replace(building=building)
        m.top = top
        l += [top, m]
    return MeterGroup(l)
from nilmtk.metergroup import iterate_through_submeters_of_two_metergroups as it
for a, b in it(two('P', (10, 20)), two('T', (10, 20))):
    assert a.building() == b.building() and a.instance() == b.instance(), (a.identifier, b.identifier)
''', 'groups with meters of two buildings', 'meters of one building are compared with those of another, or not found')
