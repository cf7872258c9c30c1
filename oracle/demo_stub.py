"""Makes `import nilmtk` work from the current directory: nilm_metadata is not
installed, so the few names nilmtk imports from it are stood in for."""
import atexit
import os
import shutil
import sys
import tempfile
import types
import warnings
import logging

warnings.simplefilter('ignore')
SCRATCH = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, SCRATCH, True)
tempfile.tempdir = SCRATCH
os.environ['MPLCONFIGDIR'] = SCRATCH
sys.path.insert(0, os.getcwd())


def _update(d, u):
    for k, v in u.items():
        if isinstance(v, dict):
            d[k] = _update(d.get(k, {}), v)
        elif isinstance(v, list) and isinstance(d.get(k), list):
            d[k] = d[k] + v
        else:
            d[k] = v
    return d


def _load_file(directory, name):
    import json
    p = os.path.join(directory, name)
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)


m = types.ModuleType('nilm_metadata')
m.recursively_update_dict = _update
m.get_appliance_types = lambda: {n: {'categories': {}} for n in ('fridge', 'kettle', 'light', 'unknown')}
c = types.ModuleType('nilm_metadata.convert_yaml_to_hdf5')
c._load_file = _load_file
c.convert_yaml_to_hdf5 = c.save_yaml_to_datastore = m.save_yaml_to_datastore = lambda *a, **k: None
m.convert_yaml_to_hdf5 = c
sys.modules['nilm_metadata'] = m
sys.modules['nilm_metadata.convert_yaml_to_hdf5'] = c
import nilmtk
logging.disable(logging.CRITICAL)
