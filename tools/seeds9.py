import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
FX='nilmtk/disaggregate/fhmm_exact.py'
seed('c18_inverse_covars','C18',[(FX,"new_covars[i] = covars[mapping[i]]","new_covars[mapping[i]] = covars[i]")],
"""import numpy as np
from nilmtk.disaggregate.fhmm_exact import sort_learnt_parameters
means = np.array([[200.], [10.], [50.]]); covars = np.array([2., 1., 5.]).reshape(3, 1, 1)
s, m, c, t = sort_learnt_parameters(np.array([.2, .1, .7]), means, covars, np.eye(3))
assert list(m[:, 0]) == [10., 50., 200.] and list(c[:, 0, 0]) == [1., 5., 2.], (m, c)
s, m, c, t = sort_learnt_parameters(np.array([.2, .8]), means[:2], covars[:2], np.eye(2))
assert list(c[:, 0, 0]) == [1., 2.]
""","three or more states whose sorting order is not its own inverse","covariances belong to other states than the means")
seed('c18_sorted_names','C18',[(FX,"""                  for appliance in model]

    pi_combined""","""                  for appliance in sorted(model)]

    pi_combined""")],
"""import numpy as np
from collections import OrderedDict
from hmmlearn import hmm
from nilmtk.disaggregate.fhmm_exact import create_combined_hmm, decode_hmm
ms = OrderedDict()
for name, mu in (('tv', [0., 60.]), ('kettle', [0., 2000.])):
    h = hmm.GaussianHMM(2, 'full')
    h.startprob_ = np.array([.9, .1]); h.transmat_ = np.array([[.9, .1], [.5, .5]])
    h.means_ = np.array(mu).reshape(-1, 1); h.covars_ = np.ones((2, 1, 1)); ms[name] = h
c = create_combined_hmm(ms)
st, pw = decode_hmm(4, OrderedDict((k, h.means_.flatten().tolist()) for k, h in ms.items()), ms.keys(), [0, 1, 2, 3])
for s in range(4):
    assert c.means_[s, 0] == pw['tv'][s] + pw['kettle'][s], (s, c.means_.ravel(), pw)
""","appliances that are not in alphabetical order","the mean of a joint state is that of another joint state")
