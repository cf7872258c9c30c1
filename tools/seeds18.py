"""C39 planted changes, and one of C33."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
F = 'nilmtk/metergroup.py'
PRE = '''
import contextlib, io, warnings
warnings.simplefilter('ignore')
import pandas as pd
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup, MeterGroupID
T0 = pd.Timestamp('2014-01-01', tz='UTC')
at = lambda s: T0 + pd.Timedelta(seconds=s)
class Store(object):
    all_sections_smaller_than_chunksize = True
class Fake(ElecMeter):
    def __init__(self, i, chunks=(), energy=1., site=False, types=None, top=None):
        self.identifier, self.chunks, self.energy, self.types = ElecMeterID(i, 1, 'D'), chunks, energy, types or {'active': energy}
        self.metadata = {'site_meter': True} if site else {'submeter_of': 1}
        self.appliances, self.store, self.top = [], Store(), top
    def upstream_meter(self, raise_warning=True): return self.top
    def sample_period(self): return 1
    def available_ac_types(self, q): return list(self.types)
    def load(self, **kw):
        if kw.get('sections'): kw['sections'].pop()
        for l in self.chunks:
            yield pd.DataFrame({('power', 'active'): [float(v) for _, v in l]}, index=pd.DatetimeIndex([at(t) for t, _ in l], tz='UTC'))
    def entropy(self): return 100. - self.energy
    def total_energy(self, ac_type=None, **kw):
        t = list(self.types)[0] if ac_type == 'best' else ac_type
        return pd.Series({t: float(self.types[t])} if t else self.types)
    def diff(self, o): return abs(self.identifier.instance - o.identifier.instance)
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
ids = lambda l: [m.identifier.instance for m in l]
'''
seed('c39_shortest_meter', 'C39', [(F, """                except StopIteration:
                    continue

""", """                except StopIteration:
                    chunks = []
                    break

""")], PRE + '''
g = MeterGroup([Fake(1, [[(0, 1), (1, 2)], [(10, 3)], [(20, 4)]]), Fake(2, [[(0, 5), (1, 6)]])])
d = quiet(g.dataframe_of_meters)
assert d.iloc[:, 0].dropna().tolist() == [1, 2, 3, 4], d
''', 'meters with different numbers of chunks', 'the table ends with the meter that ends first')
seed('c39_identifiers_of_all', 'C39', [(F, """                if not chunk_from_next_meter.empty:
                    ids.append(meter_id)
                    chunks.append(chunk_from_next_meter.sum(axis=1))
""", """                if not chunk_from_next_meter.empty:
                    ids.append(identifiers[len(chunks)])
                    chunks.append(chunk_from_next_meter.sum(axis=1))
""")], PRE + '''
g = MeterGroup([Fake(1, [[(0, 1)], [], [(20, 4)]]), Fake(2, [[(0, 5)], [(10, 6)], [(20, 7)]])])
d = quiet(g.dataframe_of_meters)
assert d.iloc[:, 0].dropna().tolist() == [1, 4] and d.iloc[:, 1].dropna().tolist() == [5, 6, 7], d
''', 'a chunk of an earlier meter that is empty while that of a later one is not', 'power goes under the identifier of another meter')
seed('c39_shared_arguments', 'C39', [(F, "            kwargs_copy = deepcopy(kwargs)\n            generator = meter.load(**kwargs_copy)", "            kwargs_copy = dict(kwargs)\n            generator = meter.load(**kwargs_copy)")], PRE + '''
class M(Fake):
    def load(self, **kw):
        s = kw['sections'][0]
        for d in Fake.load(self, **kw):
            yield d[d.index < at(s)]
g = MeterGroup([M(1, [[(0, 1), (1, 2)]]), M(2, [[(0, 5), (1, 6)]])])
d = quiet(g.dataframe_of_meters, sections=[1])
assert d.shape == (1, 2), d
''', 'a meter that uses up its list of sections while loading', 'later meters are loaded with fewer sections')
seed('c39_remainder_from_k', 'C39', [(F, "            remainder_ids = list(top_k_series[k:].index)\n", "            remainder_ids = list(top_k_series[len(top_k_metergroup.meters) - len(top_k_series):].index)\n")], PRE + '''
l = [Fake(i, energy=e) for i, e in ((1, 10.), (2, 30.), (3, 20.))]
g = MeterGroup(l)
r = quiet(g.select_top_k, 3, group_remainder=True)
assert ids(r.meters[:3]) == [2, 3, 1] and r.meters[3].meters == [], r
''', 'as many meters as asked for (or more), with the remainder as a group', 'the group of the others holds the top meters again')
seed('c39_first_of_equal_groups', 'C39', [(F, """            if meter_id in already_processed:
                continue

            already_processed.add(meter_id)
""", """            if meter_id in already_processed:
                continue

            already_processed.update(getattr(meter_id, 'meters', (meter_id,)))
""")], PRE + '''
l = [Fake(i) for i in (1, 2, 3)]
g = MeterGroup(l + [MeterGroup(l[:2])])
a, b, c = [m.identifier for m in l]
r = g.from_list([MeterGroupID(meters=(a, b)), b, c, b])
assert len(r.meters) == 3 and r.meters[0] is g.meters[3] and r.meters[1] is l[1] and r.meters[2] is l[2], r
''', 'a nested group and one of its meters in the same list', 'the meter is left out')
seed('c39_mirror', 'C39', [(F, """                if i > j:
                    result[id_i][id_j] = result[id_j][id_i]
""", """                if i >= j and j:
                    result[id_i][id_j] = result[id_j][id_i]
""")], PRE + '''
d = MeterGroup([Fake(i) for i in (1, 2, 4)]).pairwise('diff')
assert d.values.astype(float).tolist() == [[0, 1, 3], [1, 0, 2], [3, 2, 0]], d
''', 'two or more meters', 'the pairs of a meter with itself are missing')
seed('c33_remainder_of_best', 'C33', [(F, "        kwargs['ac_type'] = mains_ac_type\n", "        kwargs.setdefault('ac_type', mains_ac_type)\n")], PRE + '''
top = Fake(9, types={'active': 100., 'apparent': 140.}, site=True)
g = MeterGroup([Fake(i, types={'apparent': 20.}) for i in (1, 2, 3)])
r = quiet(g.energy_per_meter, mains=top)
assert abs(r['Remainder'] - 80.) < 1e-6, r
''', 'mains that measure several AC types while the meters measure another one than the best', 'apparent energy is taken from active energy')
seed('c25_clears_the_cache_of_ten', 'C25', [('nilmtk/elecmeter.py', """        try:
            self.cache.remove(key_for_cache)
        except KeyError:
            if verbose:
""", """        try:
            for key in [k.strip('/') for k in self.cache.store.keys()]:
                if key.startswith(key_for_cache.rstrip('/')):
                    self.cache.remove(key)
        except KeyError:
            if verbose:
""")], '''
import contextlib, io, os, shutil, tempfile
import pandas as pd
import nilmtk
from nilmtk.datastore import HDFDataStore
from nilmtk.elecmeter import ElecMeter, ElecMeterID
d = tempfile.mkdtemp()
try:
    cache = HDFDataStore(os.path.join(d, 'c.h5'), 'w')
    l = []
    for i in (1, 10):
        m = ElecMeter(meter_id=ElecMeterID(i, 1, 'D'))
        m.cache = cache
        cache.put(m.key_for_cached_stat('total_energy'), pd.DataFrame({'active': [1.]}, index=pd.DatetimeIndex(['2014-01-01'])))
        l.append(m)
    with contextlib.redirect_stdout(io.StringIO()):
        l[0].clear_cache()
    assert len(l[0].get_cached_stat(l[0].key_for_cached_stat('total_energy'))) == 0
    assert len(l[1].get_cached_stat(l[1].key_for_cached_stat('total_energy'))) == 1, 'the cache of another meter was cleared'
    cache.close()
finally:
    shutil.rmtree(d)
''', 'meters 1 and 10 of a building, both with cached statistics', 'clearing the cache of meter 1 clears that of meter 10')
