import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
PRE = """import pandas as pd, numpy as np
t = pd.Timestamp('2013-01-01'); s = lambda x: t + pd.Timedelta(seconds=x)
"""
seed('c19_clean_one','C19',[('nilmtk/disaggregate/hart_85.py',"                self.transition_list.popmiddle(idx)\n                self.clean_buffer()\n                break","                self.transition_list.popmiddle(idx)\n                if idx:\n                    self.clean_buffer()\n                break")],
PRE+"""from nilmtk.disaggregate.hart_85 import PairBuffer
b = PairBuffer([('power', 'active')], 3, 20, 0.035, 1000, 2)
for i, v in enumerate([50., 100., -100.]):
    b.add_transition((s(i), v))
b.pair_transitions()
b.clean_buffer()
assert [e[1] for e in b.transition_list] == [50.], list(b.transition_list)
for i, v in enumerate([-50., 70., 80.]):
    b.add_transition((s(i + 3), v))
    b.pair_transitions()
    b.clean_buffer()
    assert [e[1] for e in b.transition_list] == [[], [70.], [70., 80.]][i], list(b.transition_list)
""","a matched pair whose first entry is the oldest of the buffer","a matched entry stays in the buffer and takes the place of others")
seed('c19_reactive_tol','C19',[('nilmtk/disaggregate/hart_85.py',"                                    if (max(np.fabs([val[ix], compval[ix]])) < self._large_transition)","                                    if (max(np.fabs([val[1], compval[1]])) < self._large_transition)")],
PRE+"""from nilmtk.disaggregate.hart_85 import PairBuffer
b = PairBuffer([('power', 'active'), ('power', 'reactive')], 20, 20, 0.035, 1000, 3)
b.add_transition((s(0), 2000., 100.))
b.add_transition((s(9), -2010., -85.))
b.pair_transitions()
assert len(b.matched_pairs) == 1, b.matched_pairs
""","two-dimensional transitions with a large active and a small reactive part","reactive power is held to the tolerance of a large transition")
seed('c20_ramp_mean','C20',[('nilmtk/feature_detectors/steady_states.py',"        if instantaneous_change:\n            N = 0","        if instantaneous_change and not ongoing_change:\n            N = 0")],
PRE+"""from nilmtk.feature_detectors.steady_states import find_steady_states
v = [0., 0., 300., 900., 900., 900., 0., 0.]
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    ss, tr = find_steady_states(pd.DataFrame({'p': v}, index=[s(i) for i in range(len(v))]))
assert tr.iloc[0, 0] == 900., tr
""","a change that takes more than one sample","samples of the ramp count in the steady power")
seed('c20_small_edge','C20',[('nilmtk/feature_detectors/steady_states.py',"                steady_states.append(estimated_steady_power)\n\n            # 3B\n            last_steady_power = estimated_steady_power","                steady_states.append(estimated_steady_power)\n\n                # 3B\n                last_steady_power = estimated_steady_power")],
PRE+"""from nilmtk.feature_detectors.steady_states import find_steady_states
v = [0., 0., 50., 50., 50., 110., 110., 110., 0., 0.]
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    ss, tr = find_steady_states(pd.DataFrame({'p': v}, index=[s(i) for i in range(len(v))]))
assert list(tr.iloc[:, 0]) == [-110.], tr
""","an edge below the noise level before another one","the next edge is measured from an older level")
