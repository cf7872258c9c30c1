"""C37 planted changes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
F = 'nilmtk/api.py'
PRE = '''
import contextlib, io, warnings
warnings.simplefilter('ignore')
import matplotlib
matplotlib.use('Agg')
import numpy as np, pandas as pd
from nilmtk import api as A
A.clear_output = lambda *a, **k: None
NAN = float('nan')
BUILDINGS = {}          # number -> name (None: mains) -> values, one per second
class Meter(object):
    def __init__(self, ds, l): self.ds, self.l = ds, l
    def load(self, chunksize=None, **kw):
        t = pd.DataFrame({('power', 'active'): np.array(self.l, dtype=float)}, index=pd.date_range('2014-01-01', periods=len(self.l), freq='s'))
        t = t[[v != 'gone' for v in self.l]]
        s, e = self.ds.window
        t = t[(t.index >= pd.Timestamp(s)) & (t.index < pd.Timestamp(e))]
        n = chunksize or max(len(t), 1)
        return iter([t.iloc[i:i + n] for i in range(0, max(len(t), 1), n)])
class Elec(object):
    def __init__(self, ds, b): self.ds, self.b = ds, b
    def mains(self): return Meter(self.ds, self.b[None])
    def __getitem__(self, n): return Meter(self.ds, self.b[n])
class Data(object):
    def __init__(self, path):
        self.metadata = {'timezone': 'UTC'}
        self.buildings = dict((k, type('B', (), {'elec': Elec(self, b)})) for k, b in BUILDINGS.items())
    def set_window(self, start=None, end=None): self.window = start, end
A.DataSet = Data
class Model(object):
    chunk_wise_training = True
    pad = []
    def __init__(self, name='m', **k):
        self.MODEL_NAME, self.fits = name, []
        self.__dict__.update(k)
    def partial_fit(self, mains, apps, *a):
        self.fits.append(([m.values[:, 0].tolist() for m in mains], dict((n, [t.values[:, 0].tolist() if len(t) else [] for t in l]) for n, l in apps), a))
    def disaggregate_chunk(self, mains):
        self.apps = sorted(n for n in BUILDINGS[1] if n)
        return [pd.DataFrame(dict((n, np.append(m.values[:, 0] / 2, self.pad)) for n in self.apps)) for m in mains]
def run(models, metrics=('mae',), test=(1,), apps=None, train=(1,), **k):
    w = {'start_time': '2014-01-01', 'end_time': '2014-01-02'}
    sets = lambda bs: {'datasets': {'d': {'path': 'p', 'buildings': dict((b, w) for b in bs)}}}
    p = dict(power={'mains': ['active'], 'appliance': ['active']}, sample_rate=1, appliances=apps or sorted(n for n in BUILDINGS[1] if n),
             methods=dict((m.MODEL_NAME, m) for m in models), train=sets(train), test=dict(sets(test), metrics=list(metrics)))
    p.update(k)
    with contextlib.redirect_stdout(io.StringIO()):
        return A.API(p)
'''
seed('c37_padding_in_front', 'C37', [(F, "app_series_values = app_series_values[:len(gt_overall[app_name])]",
      "app_series_values = app_series_values[-len(gt_overall[app_name]):]")], PRE + '''
BUILDINGS[1] = {None: [2., 4., 6., 8.], 'fridge': [1., 2., 3., 4.]}
a = run([Model(), Model('padded', pad=[99., 99.])])
e = a.errors[0]
assert abs(e['m']['fridge']) < 1e-6 and abs(e['padded']['fridge']) < 1e-6, e
''', 'a model that pads its predictions at the end (as the neural networks do)', 'the padding is scored and the first predictions are dropped')
seed('c37_key_of_unsupported', 'C37', [(F, """                try:
                    loss_function = globals()[metric]                
""", """                self.errors_keys.append(self.storing_key + "_" + metric)
                try:
                    loss_function = globals()[metric]                
"""), (F, """                self.errors.append(computed_metric)
                self.errors_keys.append(self.storing_key + "_" + metric)
""", """                self.errors.append(computed_metric)
""")], PRE + '''
BUILDINGS[1] = {None: [2., 4., 6., 8.], 'fridge': [1., 2., 3., 5.]}
a = run([Model()], metrics=['no_such_loss', 'mae', 'rmse'])
assert a.errors_keys == ['d_1_mae', 'd_1_rmse'] and len(a.errors) == 2, (a.errors_keys, a.errors)
''', 'a metric that is not supported, before one that is', 'the errors and their names no longer line up')
seed('c37_same_length_same_times', 'C37', [(F, """            ix = ix.intersection(app_df.index)
""", """            if len(app_df) != len(ix):
                ix = ix.intersection(app_df.index)
"""), (F, """            new_appliances_list.append(app_df.loc[ix])
""", """            new_appliances_list.append(app_df.reindex(ix))
""")], PRE + '''
BUILDINGS[1] = {None: [2., 4., NAN, 8., 9.], 'fridge': [1., NAN, 3., 4., 5.]}
m = Model()
run([m])
assert m.fits == [([[2., 8., 9.]], {'fridge': [[1., 4., 5.]]}, ())], m.fits
''', 'mains and an appliance with as many missing values, at different times', 'samples without a value are trained on')
seed('c37_epochs_of_the_model_before', 'C37', [(F, """                    else:
                        # If it doesn't have the attribute n_epochs, this is executed. Ex: Mean, Zero
                        n_epochs = 1
""", ""), (F, """        for model_name, clf in self.classifiers:
            # If the model is a neural net""", """        n_epochs = 1
        for model_name, clf in self.classifiers:
            # If the model is a neural net""")], PRE + '''
BUILDINGS[1] = {None: [2., 4., 6., 8.], 'fridge': [1., 2., 3., 5.]}
a, b, c = Model('a'), Model('b', n_epochs=3), Model('c')
run([a, b, c], chunk_size=2)
assert [len(m.fits) for m in (a, b, c)] == [2, 6, 2], [len(m.fits) for m in (a, b, c)]
''', 'a model without n_epochs after one with several, trained by chunks', 'a model is trained as often as the one before')
seed('c37_sum_before_gaps', 'C37', [(F, """                if self.DROP_ALL_NANS:
                    train_df, appliance_readings = self.dropna(train_df, appliance_readings)

                if self.artificial_aggregate:
                    print ("Creating an Artificial Aggregate")
                    train_df = self.create_artificial_aggregate(appliance_readings)
""", """                if self.artificial_aggregate:
                    print ("Creating an Artificial Aggregate")
                    train_df = self.create_artificial_aggregate(appliance_readings)

                if self.DROP_ALL_NANS:
                    train_df, appliance_readings = self.dropna(train_df, appliance_readings)
""")], PRE + '''
BUILDINGS[1] = {None: [9., NAN, 9., 9.], 'fridge': [1., 2., 3., 4.], 'kettle': [5., 6., NAN, 8.]}
m = Model()
run([m], artificial_aggregate=True)
assert m.fits == [([[6., 12.]], {'fridge': [[1., 4.]], 'kettle': [[5., 8.]]}, ())], m.fits
''', 'an artificial aggregate, and mains with a gap where the appliances have values', 'trained on times at which the mains have no value')
seed('c37_exhausted_appliance', 'C37', [(F, """                        except StopIteration:
                            appliance_df = pd.DataFrame()
                        appliance_readings.append(appliance_df)

                    if self.DROP_ALL_NANS:
                        train_df""", """                        except StopIteration:
                            continue
                        appliance_readings.append(appliance_df)

                    if self.DROP_ALL_NANS:
                        train_df""")], PRE + '''
BUILDINGS[1] = {None: [9., 8., 7., 6.], 'fridge': [1., 2.], 'kettle': [5., 6., 7., 8.]}
m = Model()
run([m], chunk_size=2)
assert [sorted(f[1]) for f in m.fits] == [['fridge', 'kettle']] * 2, m.fits
assert [f[1]['fridge'] for f in m.fits] == [[[1., 2.]], [[]]], m.fits
''', 'training by chunks, an appliance whose data ends before that of the others', "the other appliances' readings go to the wrong appliances")
seed('c37_truth_of_first_building', 'C37', [(F, """                concatenated_df_app = pd.concat(data,axis=1)
                index = concatenated_df_app.index
""", """                if meter in gt:
                    continue
                concatenated_df_app = pd.concat(data,axis=1)
                index = concatenated_df_app.index
""")], PRE + '''
BUILDINGS[1] = {None: [2., 4., 6., 8.], 'fridge': [1., 2., 3., 4.]}
BUILDINGS[2] = {None: [20., 40., 60., 80.], 'fridge': [10., 20., 30., 40.]}
a = run([Model()], test=[1, 2])
assert [float(e['m']['fridge']) for e in a.errors] == [0., 0.], a.errors
''', 'joint tests on more than one building (the list of readings grows from building to building)', 'the later buildings are scored against the first one')
