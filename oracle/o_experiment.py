"""C37 experiments train and score every model on the samples that were asked for."""
import contextlib
import copy
import io
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, T
boot.load()
from nilmtk import api as A
A.clear_output = lambda *a, **k: None

NAMES = ['fridge', 'kettle', 'light', 'oven']
METRICS = ['mae', 'rmse', 'f1score', 'nep', 'nde', 'relative_error', 'no_such_metric']
COL = ('power', 'active')
FRAMES = {}


# ---- the data sets: tables of power by building; the experiments see them through the interface of DataSet

class World(object):
    def __init__(self, data):
        self.data, self.loads = data, []

    def open(self, path):
        return Data(self, path)


class Data(object):
    def __init__(self, world, path):
        self.world, self.path = world, path
        self.window = (None, None)
        self.metadata = {'timezone': 'UTC', 'name': path}
        self.buildings = {b: Building(self, b) for b in world.data[path]}

    def set_window(self, start=None, end=None):
        self.window = tuple(None if x is None else pd.Timestamp(x) for x in (start, end))


class Building(object):
    def __init__(self, ds, b):
        self.elec = Elec(ds, b)


class Elec(object):
    def __init__(self, ds, b):
        self.ds, self.b = ds, b

    def mains(self):
        return Meter(self.ds, self.b, None)

    def __getitem__(self, key):
        return Meter(self.ds, self.b, key)


class Meter(object):
    def __init__(self, ds, b, app):
        self.ds, self.b, self.app = ds, b, app

    def load(self, chunksize=None, **kw):
        self.ds.world.loads.append((self.app is None, chunksize, kw))

        def chunks():
            start, end = self.ds.window
            f = frame(self.ds.world.data[self.ds.path][self.b], self.app, start, end)
            n = chunksize or max(len(f), 1)
            for i in range(0, max(len(f), 1), n):
                yield f.iloc[i:i + n].copy()
        return chunks()


def frame(b, app, start, end):
    """the rows of a meter within a window"""
    key = (id(b), app)
    if key not in FRAMES:
        FRAMES[key] = table(b, app)
    f = FRAMES[key]
    if start is None and end is None:
        return f.copy()
    ok = np.ones(len(f), dtype=bool)
    if start is not None:
        ok &= np.asarray(f.index >= start)
    if end is not None:
        ok &= np.asarray(f.index < end)
    return f[ok]


def table(b, app):
    rows = b['mains'] if app is None else b['apps'][app]
    col = COL if app is None else tuple(b['cols'][app])
    f = pd.DataFrame({col: [np.nan if v is None else float(v) for _, v in rows]},
                     index=pd.DatetimeIndex([T(t) for t, _ in rows]), dtype='float32')
    f.columns = pd.MultiIndex.from_tuples([col], names=['physical_quantity', 'type'])
    return f


class Model(object):
    def __init__(self, spec, k):
        self.spec, self.k, self.fits, self.asked = spec, k, [], []
        self.MODEL_NAME = spec['name']
        self.chunk_wise_training = spec['cw']
        if spec['epochs'] is not None:
            self.n_epochs = spec['epochs']
        if spec['load'] != 'absent':
            self.load_model_path = spec['load']

    def partial_fit(self, mains, appliances, *a, **k):
        self.fits.append((copy.deepcopy(mains), copy.deepcopy(appliances), list(a) + list(k.values())))

    def disaggregate_chunk(self, mains):
        self.asked.append(copy.deepcopy(mains))
        return [self.predict(m) for m in mains]

    def predict(self, m):
        v = np.nan_to_num(m.values[:, 0].astype(float)) if m.shape[1] else np.zeros(len(m))
        v = np.append(v, [77.0] * self.spec['pad'])
        out = pd.DataFrame({app: value(v, NAMES.index(app), self.k) for app in self.spec['order']})
        if not self.spec['pad'] and not self.spec['noindex']:
            out.index = m.index
        return out


def value(v, i, k):
    return v * (i + 1) / 4.0 + k


# ---- what has to come out

def prepared(b, apps, start, end, chunk, drop, agg):
    """[(mains, [appliance frames])], one per chunk; mains that are added up need no common column names"""
    m = frame(b, None, start, end)
    l = [frame(b, a, start, end) for a in apps]
    n = chunk or max(len(m), 1)
    out = []
    for j, i in enumerate(range(0, max(len(m), 1), n)):
        if chunk:
            mm, ll = m.iloc[i:i + n], [x.iloc[i:i + n] for x in l]
        else:
            mm, ll = m, l
        if drop:
            full = [set(t for t, v in zip(x.index, x.values[:, 0]) if v == v) for x in [mm] + ll]
            ix = [t for t in mm.index if all(t in x for x in full)]
            mm, ll = mm.loc[ix], [x.loc[ix] for x in ll]
        if agg:
            total = sum(x.iloc[:, 0].values.astype(float) for x in ll)
            mm = pd.DataFrame({'sum': total}, index=ll[0].index)
        out.append((mm, ll))
    return out


def same(got, exp, what, names=True):
    must(isinstance(got, pd.DataFrame), '%s is %r' % (what, type(got)))
    g = got.iloc[:, 0] if got.shape[1] else pd.Series([], dtype=float)
    must(len(g) == len(exp) and list(g.index) == list(exp.index), '%s has the times %s, expected %s'
         % (what, list(map(str, g.index)), list(map(str, exp.index))))
    must(len(exp) == 0 or got.shape[1] == 1, '%s has the columns %s' % (what, list(got.columns)))
    must(np.allclose(g.values.astype(float), exp.iloc[:, 0].values.astype(float), rtol=1e-5, equal_nan=True),
         '%s has the values %s, expected %s' % (what, g.values, exp.iloc[:, 0].values))


def gen_building(g, rows_equal, n):
    ts = list(range(n))

    def table(p_row, p_val):
        return [[t, (g.choice([0, 5, 9, 10, 11, 40, 100]) if g.flag(p_val) else None)] for t in ts if g.flag(p_row)]
    p, q = (1, 1) if rows_equal else (0.9, 0.85)
    return dict(mains=[[t, v if v is None else v + 100] for t, v in table(p, q)], apps=dict((a, table(p, q)) for a in NAMES),
                cols=dict((a, ['power', g.choice(['active', 'active', 'apparent'])]) for a in NAMES))


def gen_part(g, data, n):
    out, paths = [], list(data)
    for k, path in enumerate(g.r.sample(paths, g.r.randint(1, len(paths)))):
        bs = g.r.sample(list(data[path]), g.r.randint(1, len(data[path])))
        out.append(dict(name='set%d' % k if g.flag(0.3) else path, path=path, buildings=[
            dict(id=b, start=g.choice([None, None, 0, 1, 2]), end=g.choice([None, None, n, n - 1, n - 2])) for b in bs]))
    if len(set(d['name'] for d in out)) != len(out):
        for d in out:
            d['name'] = d['path']
    return out


@prop('C37')
class Experiment(object):
    @staticmethod
    def gen(g):
        n = g.size(3, 9, 40)
        drop = g.flag(0.8)
        data = dict((p, dict((b, gen_building(g, not drop, n)) for b in g.r.sample([1, 2, 3, 10], g.choice([1, 1, 2, 2, 3]))))
                    for p in ['redd.h5', 'ukdale.h5'][:g.r.randint(1, 2)])
        apps = g.r.sample(NAMES, g.r.randint(1, 3))
        methods = []
        for k, name in enumerate(g.r.sample(['Mean', 'CO', 'Net', 'FHMM'], min(4, g.size(1, 3)))):
            methods.append(dict(name=name, cw=g.flag(0.6), epochs=g.choice([None, None, 1, 2, 3]),
                                load=g.choice(['absent', None, None, '', 'models/x']) if g.flag(0.5) else 'absent',
                                order=g.r.sample(apps, len(apps)), pad=g.choice([0, 0, 0, 1, 3]), noindex=g.flag(0.3)))
        chunk = g.choice([None, None, None, 2, 3, max(n - 2, 1), n])
        return dict(data=data, apps=apps, train=gen_part(g, data, n), test=gen_part(g, data, n), methods=methods,
                    chunk=chunk, drop=drop, agg=g.flag(0.4), metrics=g.r.sample(METRICS, g.r.randint(0, 3)),
                    rate=g.choice([1, 6, 60]), ac=[g.choice(['active', 'best']), g.choice([['active', 'apparent'], 'best'])],
                    site=g.flag(0.04) and not chunk)

    @staticmethod
    def check(case):
        apps, chunk, drop, agg, site = case['apps'], case['chunk'], case['drop'], case['agg'], case.get('site', False)
        data = dict((p, dict((int(b), x) for b, x in bs.items())) for p, bs in case['data'].items())
        valid(case, data)
        what = str(case)
        FRAMES.clear()
        memo = {}
        models = [Model(s, k) for k, s in enumerate(case['methods'])]

        def part(l):
            return dict((d['name'], {'path': d['path'], 'buildings': dict(
                (b['id'], {'start_time': None if b['start'] is None else str(T(b['start'])),
                           'end_time': None if b['end'] is None else str(T(b['end']))}) for b in d['buildings'])}) for d in l)
        params = dict(power={'mains': case['ac'][0], 'appliance': case['ac'][1]}, appliances=list(apps),
                      sample_rate=case['rate'], artificial_aggregate=agg, DROP_ALL_NANS=drop, site_only=site,
                      methods=dict((m.MODEL_NAME, m) for m in models), train={'datasets': part(case['train'])},
                      test={'datasets': part(case['test']), 'metrics': list(case['metrics'])})
        if chunk:
            params['chunk_size'] = chunk
        world = World(data)
        A.DataSet = world.open
        with contextlib.redirect_stdout(io.StringIO()):
            e = A.API(params)
        if site:
            A.plt.close('all')
        for mains, size, kw in world.loads:
            must(kw.get('physical_quantity') == 'power' and kw.get('ac_type') == case['ac'][0 if mains else 1] and
                 kw.get('sample_period') == case['rate'], 'load of %s with %s: %s'
                 % ('mains' if mains else 'an appliance', kw, what))

        def sections(l, size):
            if (id(l), size) in memo:
                return memo[id(l), size]
            out = memo[id(l), size] = []
            for d in l:
                for b in d['buildings']:
                    start, end = (None if x is None else T(x) for x in (b['start'], b['end']))
                    out.append(('%s_%s' % (d['name'], b['id']),
                                prepared(data[d['path']][b['id']], apps, start, end, size, drop, agg)))
            return out
        for m in models:
            check_training(m, case, sections, what)
        check_testing(e, models, case, sections(case['test'], chunk), what)


def valid(case, data):
    apps, chunk = case['apps'], case['chunk']
    names = [m['name'] for m in case['methods']]
    if not names or not apps or len(set(apps)) != len(apps) or any(a not in NAMES for a in apps) or len(set(names)) != len(names) or \
            chunk is not None and (not isinstance(chunk, int) or chunk < 1):
        raise Invalid()
    for m in case['methods']:
        if sorted(m['order']) != sorted(apps) or m['pad'] < 0 or m['epochs'] is not None and m['epochs'] < 1:
            raise Invalid()
    if not case['drop']:
        for bs in data.values():
            for b in bs.values():
                ts = [[t for t, _ in r] for r in [b['mains']] + [b['apps'][a] for a in NAMES]]
                if any(t != ts[0] for t in ts) or any(v is None for r in [b['mains']] + list(b['apps'].values()) for _, v in r):
                    raise Invalid()
    for bs in data.values():
        for b in bs.values():
            for r in [b['mains']] + [b['apps'][a] for a in NAMES]:
                ts = [t for t, _ in r]
                if sorted(set(ts)) != ts:
                    raise Invalid()
    for l in (case['train'], case['test']):
        if len(set(d['name'] for d in l)) != len(l):
            raise Invalid()
        for d in l:
            ids = [b['id'] for b in d['buildings']]
            if d['path'] not in data or len(set(ids)) != len(ids) or any(i not in data[d['path']] for i in ids):
                raise Invalid()
            for b in d['buildings']:
                if b['start'] is not None and b['end'] is not None and b['end'] <= b['start']:
                    raise Invalid()


def check_training(m, case, sections, what):
    s, apps, chunk = m.spec, case['apps'], case['chunk']
    w = 'model %s of %s' % (s['name'], what)
    if s['load'] not in ('absent', None, ''):
        must(not m.fits, 'pretrained ' + w + ' was trained')
        return
    if chunk and s['cw']:
        exp = [([mm], [(a, [x]) for a, x in zip(apps, ll)], [i]) for i in range(s['epochs'] or 1)
               for _, chunks in sections(case['train'], chunk) for mm, ll in chunks]
    else:
        parts = [chunks[0] for _, chunks in sections(case['train'], None)]
        exp = [([mm for mm, _ in parts], [(a, [ll[k] for _, ll in parts]) for k, a in enumerate(apps)], [])]
    must(len(m.fits) == len(exp), '%d trainings, expected %d, of %s' % (len(m.fits), len(exp), w))
    for i, ((gm, ga, gx), (em, ea, ex)) in enumerate(zip(m.fits, exp)):
        wi = 'training %d of %s' % (i, w)
        must(len(gm) == len(em), '%d mains, expected %d, in %s' % (len(gm), len(em), wi))
        for x, y in zip(gm, em):
            same(x, y, 'mains of ' + wi)
        must([n for n, _ in ga] == [n for n, _ in ea], 'appliances %s in %s' % ([n for n, _ in ga], wi))
        for (n, gl), (_, el) in zip(ga, ea):
            must(len(gl) == len(el), '%d tables of %s, expected %d, in %s' % (len(gl), n, len(el), wi))
            for x, y in zip(gl, el):
                same(x, y, n + ' of ' + wi)
        must(not ex or gx == ex, 'epoch %s, expected %s, in %s' % (gx, ex, wi))


def check_testing(e, models, case, tests, what):
    apps, site = case['apps'], case.get('site', False)
    flat = [(key + ('_%d' % k if case['chunk'] else ''), mm, ll) for key, chunks in tests for k, (mm, ll) in enumerate(chunks)]
    if site:
        for m in models:
            must(len(m.asked) == len(flat), '%d predictions of %s: %s' % (len(m.asked), m.MODEL_NAME, what))
        must(not e.errors, 'errors without ground truth: ' + what)
        return
    errors = []
    for m in models:
        must(len(m.asked) == len(flat), '%d predictions of %s, expected %d: %s' % (len(m.asked), m.MODEL_NAME, len(flat), what))
        for i, (mains, (key, mm, ll)) in enumerate(zip(m.asked, flat)):
            must(len(mains) == 1, '%d test mains for %s: %s' % (len(mains), key, what))
            same(mains[0], mm, 'test mains of %s for %s in %s' % (key, m.MODEL_NAME, what))
    gt = pred = None
    for key, mm, ll in flat:
        gt = dict((a, x.iloc[:, 0].values.astype('float32')) for a, x in zip(apps, ll))
        v = np.nan_to_num(mm.values[:, 0].astype(float)) if mm.shape[1] else np.zeros(0)
        pred = dict((m.MODEL_NAME, dict((a, value(v, NAMES.index(a), m.k).astype('float32')) for a in apps)) for m in models)
        if len(ll[0]) == 0:
            continue
        for metric in case['metrics']:
            if metric == 'no_such_metric':
                continue
            f = getattr(A, metric)
            errors.append((key + '_' + metric, dict((m.MODEL_NAME, dict(
                (a, float(f(pd.Series(gt[a]), pd.Series(pred[m.MODEL_NAME][a])))) for a in apps)) for m in models)))
    must(list(e.errors_keys) == [k for k, _ in errors], 'errors for %s, expected %s: %s'
         % (list(e.errors_keys), [k for k, _ in errors], what))
    must(len(e.errors) == len(errors), '%d errors, %d keys: %s' % (len(e.errors), len(errors), what))
    for got, (key, exp) in zip(e.errors, errors):
        must(sorted(got.columns) == sorted(exp) and (not exp or sorted(got.index) == sorted(apps)),
             'errors of %s are for %s, %s: %s' % (key, list(got.columns), list(got.index), what))
        for name in exp:
            for a in apps:
                x, y = float(got[name][a]), exp[name][a]
                must(x == y or x != x and y != y or abs(x - y) <= 1e-4 * max(1, abs(y)),
                     'error %s of %s for %s is %r, expected %r: %s' % (key, name, a, x, y, what))
    if gt is None or not models:
        return
    ll = flat[-1][2]
    must(sorted(e.gt_overall.columns) == sorted(apps) and list(e.gt_overall.index) == list(ll[0].index),
         'ground truth has %s at %s: %s' % (list(e.gt_overall.columns), list(e.gt_overall.index), what))
    must(list(e.pred_overall) == [m.MODEL_NAME for m in models], 'predictions of %s: %s' % (list(e.pred_overall), what))
    for a in apps:
        must(np.allclose(e.gt_overall[a].values, gt[a], equal_nan=True), 'ground truth of %s: %s' % (a, what))
        for n, p in e.pred_overall.items():
            must(list(p.index) == list(ll[0].index), 'prediction of %s is for the times %s: %s' % (n, list(p.index), what))
            must(np.allclose(p[a].values, pred[n][a], rtol=1e-4), 'prediction of %s for %s is %s, expected %s: %s'
                 % (n, a, p[a].values, pred[n][a], what))
