import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
PRE = """import pandas as pd, numpy as np
t = pd.Timestamp('2013-01-01'); s = lambda x: t + pd.Timedelta(seconds=x)
"""
seed('c09_last_gap_inclusive','C09',[('nilmtk/stats/goodsections.py',"        if not look_ahead_valid or look_ahead_gap > max_sample_period:","        if not look_ahead_valid or look_ahead_gap >= max_sample_period:")],
PRE+"""from nilmtk.stats.goodsections import get_good_sections
df = pd.DataFrame({'a': [1., 2., 3.]}, index=[s(0), s(10), s(20)])
la = pd.DataFrame({'a': [1.]}, index=[s(30)])
r = get_good_sections(df, 10, la)
assert len(r) == 1 and r[0].end is None, r
""","a look-ahead sample exactly the maximum sample period after the last sample","a run that goes on in the next block is closed")
seed('c10_whole_chunk','C10',[('nilmtk/stats/goodsections.py',"                good_sections[-1].end is None)","                good_sections[-1].end is None and\n                good_sections[-1].start is not None)")],
PRE+"""from nilmtk.timeframe import TimeFrame
from nilmtk.stats.goodsections import GoodSections
class Up(object):
    pass
g = GoodSections.__new__(GoodSections)
g.__dict__.update(upstream=Up(), generator=None)
g.reset()
df = pd.DataFrame({'a': np.arange(10.)}, index=[s(10 * i) for i in range(10)])
md = {'device': {'max_sample_period': 10}}
from nilmtk.stats.goodsectionsresults import GoodSectionsResults
g.results = GoodSectionsResults(10)
for a, b in ((0, 3), (3, 6), (6, 10)):
    c = df.iloc[a:b].copy()
    c.__dict__['timeframe'] = TimeFrame(s(10 * a), s(10 * b) if b < 10 else s(90))
    c.__dict__['look_ahead'] = df.iloc[b:]
    g._process_chunk(c, md)
r = g.results.combined()
assert [(x.start, x.end) for x in r] == [(s(0), s(90))], r
""","a section that spans a whole middle chunk","the section is broken at the end of that chunk")
seed('c11_contained_period','C11',[('nilmtk/results.py',"            tf.check_for_overlap(timeframe)","            if index >= timeframe.start or series['end'] <= timeframe.end:\n                tf.check_for_overlap(timeframe)")],
PRE+"""from nilmtk.timeframe import TimeFrame
from nilmtk.stats.totalenergyresults import TotalEnergyResults
r = TotalEnergyResults()
r.append(TimeFrame(s(0), s(100)), {'active': 1.})
try:
    r.append(TimeFrame(s(10), s(20)), {'active': 2.})
except ValueError:
    pass
else:
    raise SystemExit('overlapping period accepted')
""","a new period strictly inside a stored one","overlapping periods are stored and counted twice")
seed('c12_missing_between','C12',[('nilmtk/stats/totalenergy.py',"    series = series.dropna()\n","")],
PRE+"""from nilmtk.stats.totalenergy import get_total_energy
df = pd.DataFrame({('power', 'active'): [1000., np.nan, 1000., 500.]}, index=[s(0), s(10), s(20), s(30)])
e = get_total_energy(df, 60)['active']
assert abs(e - (1000. * 20 + 1000. * 10) / 3600000.) < 1e-12, e
""","a missing sample between two valid ones","the energy of the interval across a missing sample is dropped")
seed('c13_weights','C13',[('nilmtk/stats/dropoutrateresults.py',"        tot_samples = self._data['n_samples'].sum()","        tot_samples = self._data['n_samples'][self._data['dropout_rate'] > 0].sum() or self._data['n_samples'].sum()")],
PRE+"""from nilmtk.timeframe import TimeFrame
from nilmtk.stats.dropoutrateresults import DropoutRateResults
r = DropoutRateResults()
r.append(TimeFrame(s(0), s(100)), {'dropout_rate': 0.0, 'n_samples': 100})
r.append(TimeFrame(s(100), s(200)), {'dropout_rate': 0.5, 'n_samples': 50})
assert abs(r.combined() - 0.5 * 50 / 150) < 1e-12, r.combined()
""","a period without dropout among others with dropout","the weighted mean ignores periods without dropout")
