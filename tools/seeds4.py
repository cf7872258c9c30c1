import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from seedlib import seed
PRE = """import pandas as pd, numpy as np
t = pd.Timestamp('2013-01-01'); s = lambda x: t + pd.Timedelta(seconds=x)
"""
seed('c14_mains_order','C14',[('nilmtk/measurement.py',"[ac_type for ac_type in AC_TYPES\n                               if ac_type in mains_ac_types]","[ac_type for ac_type in mains_ac_types\n                               if ac_type in AC_TYPES]")],
"""from nilmtk.measurement import select_best_ac_type
r = select_best_ac_type(['reactive', 'active'], ['reactive', 'active'])
assert r == 'active', r
""","mains that list a less preferred AC type first","the preferred AC type is not selected")
seed('c15_trailing_slash','C15',[('nilmtk/datastore/key.py',"string.strip('/').split('/')","string.lstrip('/').split('/')")],
"""from nilmtk.datastore.key import Key
k = Key('/building2/elec/meter3/')
assert (k.building, k.meter) == (2, 3), k.__dict__
""","a key with a trailing slash","the meter of the key is lost")
seed('c16_falsy_state','C16',[('nilmtk/node.py',"elif value != 'ANY VALUE' and cond_value != value:","elif value != 'ANY VALUE' and cond_value and cond_value != value:")],
"""from nilmtk.node import find_unsatisfied_requirements
r = find_unsatisfied_requirements({'a': {'b': 0}}, {'a': {'b': 3}})
assert len(r) == 1, r
""","a required value that is present but zero or empty","the unmet requirement is not reported")
