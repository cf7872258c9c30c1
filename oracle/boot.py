"""Imports the real nilmtk from /repo (or VERIF_REPO) under /opt/venv.

nilm_metadata is not installed in this sandbox; a stand-in with the few names
nilmtk imports is put in sys.modules (it carries no checked behaviour)."""
import os
import sys
import types
import warnings
import tempfile
import atexit
import shutil
import gc

gc.collect = lambda *a: 0        # nilmtk collects several times per call; irrelevant here

REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = tempfile.mkdtemp(prefix='verif_oracle_')
atexit.register(shutil.rmtree, SCRATCH, True)
tempfile.tempdir = SCRATCH
os.environ['TMPDIR'] = SCRATCH
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['MPLCONFIGDIR'] = SCRATCH
os.environ['TZ'] = 'UTC'
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def _stub_metadata():
    def recursively_update_dict(d, u):
        for k, v in u.items():
            if isinstance(v, dict):
                d[k] = recursively_update_dict(d.get(k, {}), v)
            elif isinstance(v, list) and isinstance(d.get(k), list):
                d[k] = d[k] + v
            else:
                d[k] = v
        return d

    def get_appliance_types():
        def t(*cats):
            return {'categories': {'traditional': cats[0] if cats else 'misc', 'size': 'small',
                                   'electrical': list(cats[1:])}}
        return {n: t('cold' if n in ('fridge', 'freezer', 'fridge freezer') else 'misc')
                for n in ('fridge', 'kettle', 'freezer', 'fridge freezer', 'light', 'lamp',
                          'television', 'toaster', 'microwave', 'dish washer', 'washing machine',
                          'unknown', 'computer', 'heater', 'oven')}
    m = types.ModuleType('nilm_metadata')
    m.recursively_update_dict = recursively_update_dict
    m.get_appliance_types = get_appliance_types
    c = types.ModuleType('nilm_metadata.convert_yaml_to_hdf5')
    import yaml

    def _load_file(directory, fname):
        p = os.path.join(directory, fname)
        if os.path.exists(p):
            with open(p) as f:
                return yaml.safe_load(f)
        return None

    def save_yaml_to_datastore(d, store):
        md = _load_file(d, 'dataset.yaml')
        if md is not None:
            store.save_metadata('/', md)
    c._load_file = _load_file
    c.convert_yaml_to_hdf5 = lambda *a, **k: None
    c.save_yaml_to_datastore = save_yaml_to_datastore
    m.convert_yaml_to_hdf5 = c
    m.save_yaml_to_datastore = save_yaml_to_datastore
    sys.modules['nilm_metadata'] = m
    sys.modules['nilm_metadata.convert_yaml_to_hdf5'] = c


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if 'nilmtk' not in sys.modules:
        _stub_metadata()
        import nilmtk
        assert os.path.realpath(nilmtk.__file__).startswith(os.path.realpath(REPO)), nilmtk.__file__
    import logging
    logging.disable(logging.CRITICAL)
    return sys.modules['nilmtk']
