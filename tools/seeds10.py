import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
PRE="""import tempfile, os, shutil, warnings
warnings.simplefilter('ignore')
import pandas as pd
import nilmtk
from nilmtk.datastore import HDFDataStore
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.timeframe import TimeFrame
D = tempfile.mkdtemp(prefix='demo_')
def T(s): return pd.Timestamp('2014-01-01', tz='Europe/London') + pd.Timedelta(seconds=s)
def F(a, b): return TimeFrame(T(a), T(b))
def store(times):
    df = pd.DataFrame([[float(i % 3)] for i, t in enumerate(times)], index=pd.DatetimeIndex([T(t) for t in times]))
    df.columns = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
    st = HDFDataStore(os.path.join(D, 'data.h5'), 'w'); st.put('/building1/elec/meter1', df); return st
def meter(st):
    ElecMeter.meter_devices['dev'] = dict(sample_period=1, max_sample_period=3, measurements=[dict(physical_quantity='power', type='active', upper_limit=100)])
    return ElecMeter(st, dict(device_model='dev', data_location='/building1/elec/meter1'), ElecMeterID(1, 1, 'D'))
N = [0]
def cache():
    N[0] += 1
    return HDFDataStore(os.path.join(D, 'cache%d.h5' % N[0]), 'w')
def check(queries, ask, same):
    m = meter(st); shared = cache()
    for q in queries:
        m.cache = cache(); want = ask(m, q)
        m.cache = shared; got = ask(m, q)
        assert same(got, want), (q, got, want)
"""
seed('c25_same_start','C25',[('nilmtk/stats/goodsectionsresults.py',"""            grouped_by_end = df_grouped_by_index.groupby('end')
            for tf_end, sections_df in grouped_by_end:
                end = tz_localize_naive(tf_end, tz)
""","""            # all rows of a section have the same end
            for tf_end in df_grouped_by_index['end'].unique():
                sections_df = df_grouped_by_index
                end = tz_localize_naive(tf_end, tz)
""")],PRE+"""
try:
    st = store([0, 1, 2, 3, 10, 11, 12, 13, 14, 20, 21, 22])
    ask = lambda m, q: m.good_sections(sections=[F(*q)])
    same = lambda a, b: [(x.start, x.end) for x in a] == [(x.start, x.end) for x in b]
    check([(0, 12), (0, 22), (0, 22), (0, 12)], ask, same)
finally:
    shutil.rmtree(D)
""","two sections with the same start and different ends in the cache of good sections","a section is served the good sections of all cached sections with its start")
seed('c25_range_lookup','C25',[('nilmtk/results.py',"rows_matching_start = cached_stat.loc[section.start]","rows_matching_start = cached_stat.loc[section.start:section.end]")],PRE+"""
try:
    st = store(range(30))
    ask = lambda m, q: m.total_energy(sections=[F(*q)])['active']
    check([(3, 20), (0, 20), (3, 20), (0, 20)], ask, lambda a, b: abs(a - b) < 1e-12)
finally:
    shutil.rmtree(D)
""","a cached section that begins inside the section asked for, and ends with it","the row of another section is taken, and overlaps the result that is then computed")
