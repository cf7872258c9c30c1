import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
PRE = """import pandas as pd, numpy as np
t = pd.Timestamp('2013-01-01'); s = lambda x: t + pd.Timedelta(seconds=x)
"""
seed('c17_stale_combos','C17',[('nilmtk/disaggregate/combinatorial_optimisation.py',"        if (self.state_combinations is None or\n                self.state_combinations.shape[1] != len(self.model)):","        if (self.state_combinations is None or\n                self.state_combinations.shape[1] < len(self.model) - 1):")],
PRE+"""from nilmtk.disaggregate import CO
c = CO({})
c.model.append({'states': np.array([0, 100]), 'appliance_name': 'a'})
df = pd.DataFrame({'p': [0., 150.]}, index=[s(0), s(6)])
c.disaggregate_chunk([df])
c.model.append({'states': np.array([0, 50]), 'appliance_name': 'b'})
r = c.disaggregate_chunk([df])[0]
assert list(r['a']) == [0, 100] and list(r['b']) == [0, 50], r
""","disaggregating, training one more appliance, disaggregating again","the combinations do not cover the new appliance")
seed('c17_residual_sorted','C17',[('nilmtk/utils.py',"    residuals = test_array - known_array[indices]","    residuals = test_array - known_array_sorted[indices]")],
PRE+"""from nilmtk.utils import find_nearest
i, r = find_nearest(np.array([10., 0., 5.]), np.array([11., 4.]))
assert list(r) == [1., -1.], r
""","known values that are not sorted","the residual is not the distance to the matched value")
seed('c22_f1_tie','C22',[('nilmtk/losses.py',"pred_temp = np.where(pred_temp<threshold,0,1)","pred_temp = np.where(pred_temp<=threshold,0,1)")],
PRE+"""from nilmtk.losses import f1score
r = f1score(np.array([10., 0., 20.]), np.array([10., 0., 20.]))
assert r == 1.0, r
""","a prediction of exactly 10 W","a perfect prediction does not score 1")
seed('c26_forget','C26',[('nilmtk/disaggregate/mean.py',"            app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})\n","            app_dict = dict(self.model.get(app_name, {}), sum=0) if self.chunk_wise_training and len(power) > 1 else self.model.get(app_name, {'sum': 0,'n_elem': 0})\n            app_dict.setdefault('n_elem', 0)\n")],
PRE+"""from nilmtk.disaggregate import Mean
m = Mean({})
f = lambda l, o: pd.DataFrame({'p': l}, index=[s(o + i) for i in range(len(l))])
m.partial_fit([], [('a', [f([100., 100.], 0)])])
m.partial_fit([], [('a', [f([200.], 10), f([200.], 20)])])
r = m.disaggregate_chunk([f([1.], 0)])[0]
assert abs(r['a'].iloc[0] - 150) < 1e-6, r
""","a later training batch made of several parts","the power of earlier batches is forgotten while their samples still count")
seed('c24_gap_inclusive','C24',[('nilmtk/electric.py',"            off_durations >= min_off_duration)[0]","            off_durations > min_off_duration)[0]")],
PRE+"""from nilmtk.electric import get_activations
v = [0, 10, 0, 0, 10, 0, 0]
r = get_activations(pd.Series([float(x) for x in v], index=[s(i) for i in range(7)]), min_off_duration=2, border=0)
assert len(r) == 2, r
""","an off-gap of exactly the minimum duration","two activations are joined")
seed('c24_nan_after_end','C24',[('nilmtk/electric.py',"        if not activation.isnull().values.any():","        if not activation.iloc[border:].isnull().values.any():")],
PRE+"""from nilmtk.electric import get_activations
v = [0, float('nan'), 0, 10, 0, 0, 0]
r = get_activations(pd.Series([float(x) for x in v], index=[s(i) for i in range(7)]), border=1)
assert len(r) == 0, r
""","a missing value in the leading border","an activation with a missing value is reported")
