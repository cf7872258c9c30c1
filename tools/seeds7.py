import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
MG = 'nilmtk/metergroup.py'
PRE = """import pandas as pd, numpy as np
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup, combine_chunks_from_generators
from nilmtk.timeframe import TimeFrame
t = pd.Timestamp('2013-01-01'); s = lambda x: t + pd.Timedelta(seconds=x)
def meter(i, b=1, **md): return ElecMeter(metadata=md, meter_id=ElecMeterID(i, b, 'D'))
class Src(object):
    identifier = 'm'
    def __init__(self, vals, a, b):
        self.df = pd.DataFrame({('power', 'active'): vals}, index=[s(i) for i in range(a, b)])
        self.df.columns = pd.MultiIndex.from_tuples([('power', 'active')])
        self.df.timeframe = TimeFrame(s(a), s(b))
    def load(self, **kw):
        yield self.df
"""
seed('c21_two_buildings','C21',[(MG,"                            group.building() == key.building and\n","")],
PRE+"""a, b = MeterGroup([meter(1), meter(2)]), MeterGroup([meter(1, 2), meter(2, 2)])
g = MeterGroup([a, b])
assert g[ElecMeterID((1, 2), 1, 'D')] is a
assert g[ElecMeterID((2, 1), 2, 'D')] is b
""","nested groups with the same instances in two buildings","the group of another building is returned")
seed('c21_swap_adjacent','C21',[(MG,"""        for meter in alternative_mains:
            self.meters.append(meter)
            self.disabled_meters.remove(meter)""","""        for meter in self.disabled_meters:
            if meter in alternative_mains:
                self.meters.append(meter)
                self.disabled_meters.remove(meter)""")],
PRE+"""one, two, x = meter(1, site_meter=True), meter(2, site_meter=True), meter(3)
g = MeterGroup([x], [one, two])
g.use_alternative_mains()
assert [m.instance() for m in g.meters] == [3, 1, 2], g
assert g.disabled_meters == []
""","two alternative mains next to each other","only every other alternative mains is enabled")
seed('c23_earlier_start','C23',[(MG,"""        if timeframe is None:
            timeframe = chunk_from_next_meter.timeframe
        else:
            timeframe = timeframe.union""","""        if timeframe is None:
            timeframe = chunk_from_next_meter.timeframe
        elif chunk_from_next_meter.timeframe.end > timeframe.end:
            timeframe = timeframe.union""")],
PRE+"""idx = pd.DatetimeIndex([s(i) for i in range(10)])
cols = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
df = combine_chunks_from_generators(idx, cols, [Src([1., 2.], 4, 6), Src([1., 2., 3., 4.], 1, 5)], {})
assert df.timeframe == TimeFrame(s(1), s(6)), df.timeframe
assert list(df.iloc[1:6, 0]) == [1, 2, 3, 5, 2]
""","a later meter whose samples begin earlier and end no later","the time frame of the sum does not reach back to the first sample")
seed('c23_nan_hides','C23',[(MG,"where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)","where_both_are_nan = np.isnan(aligned) if i else np.isnan(cumulator_col) & np.isnan(aligned)")],
PRE+"""idx = pd.DatetimeIndex([s(i) for i in range(3)])
cols = pd.MultiIndex.from_tuples([('power', 'active'), ('power', 'reactive')], names=['physical_quantity', 'type'])
a, b = Src([1., 2., 3.], 0, 3), Src([4., np.nan, 5.], 0, 3)
for x in (a, b):
    x.df[('power', 'reactive')] = x.df[('power', 'active')].values
df = combine_chunks_from_generators(idx, cols, [a, b], {})
assert list(df.iloc[:, 0]) == [5, 2, 8] and list(df.iloc[:, 1]) == [5, 2, 8], df
""","a value missing in a later meter, in the second column","the value of the other meters is lost")
