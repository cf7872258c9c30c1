"""C17 / C22 / C26: disaggregators and error metrics."""
import contextlib
import io
import itertools
import math
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE
boot.load()
from nilmtk import losses as L
from nilmtk.utils import find_nearest
from nilmtk.disaggregate import CO, Mean


def close(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@prop('C22')
class Losses(object):
    @staticmethod
    def gen(g):
        n = g.size(1, 8, 60)
        def val():
            k = g.r.random()
            h = g.hint(0.1)
            if h is not None:
                return float(h)
            if k < 0.25:
                return float(g.choice([0, 0, 9, 10, 11, 10.5, 9.99]))
            if k < 0.3:
                return -float(g.r.randint(2, 40))
            return round(g.r.random() * g.choice([5, 30, 3000]), 3)
        gt = [val() for _ in range(n)]
        p = [x if g.flag(0.25) else val() for x in gt]
        if g.flag(0.1):
            p = list(gt)
        return dict(gt=gt, pred=p, kind=g.choice(['array', 'series', 'series', 'int']))

    @staticmethod
    def check(case):
        gt, p = [float(x) for x in case['gt']], [float(x) for x in case['pred']]
        n = len(gt)
        if n < 1 or n != len(p):
            raise Invalid()
        kind = case.get('kind') or 'series'
        if kind == 'int':
            gt, p = [float(int(x)) for x in gt], [float(int(x)) for x in p]
        if kind == 'array':
            G, P = np.array(gt), np.array(p)
        else:
            ix = pd.date_range(BASE, periods=n, freq='6s')
            dt = 'int64' if kind == 'int' else 'float64'
            G, P = pd.Series(gt, ix, dtype=dt), pd.Series(p, ix, dtype=dt)
        err = [abs(a - b) for a, b in zip(gt, p)]
        sq = sum(e * e for e in err)
        what = 'truth %s prediction %s' % (gt[:12], p[:12])

        def same(name, f, want, tol=1e-9):
            G0, P0 = G.copy(), P.copy()
            got = f(G, P)
            must((np.asarray(G0) == np.asarray(G)).all() and (np.asarray(P0) == np.asarray(P)).all(),
                 '%s changed its input: %s' % (name, what))
            must(close(float(got), want, tol), '%s is %r, expected %r: %s' % (name, float(got), want, what))
        same('mae', L.mae, sum(err) / n)
        same('rmse', L.rmse, math.sqrt(sq / n))
        if all(x != -1 for x in p):
            same('relative_error', L.relative_error, sum(e / (1 + x) for e, x in zip(err, p)) / n, 1e-7)
        if any(gt):
            same('nde', L.nde, math.sqrt(sq / sum(x * x for x in gt)))
        if abs(sum(gt)) > 1e-6 * sum(abs(x) for x in gt):
            same('nep', L.nep, sum(err) / sum(gt), 1e-7)
        m = sum(gt) / n
        tot = sum((x - m) ** 2 for x in gt)
        if n > 1 and tot > 1e-9 * sum(x * x for x in gt):
            same('r2score', L.r2score, 1 - sq / tot, 1e-6)
        a, b = [x >= 10 for x in gt], [x >= 10 for x in p]
        tp = sum(x and y for x, y in zip(a, b))
        fp = sum(y and not x for x, y in zip(a, b))
        fn = sum(x and not y for x, y in zip(a, b))
        same('f1score', L.f1score, 2 * tp / (2 * tp + fp + fn) if tp + fp + fn else 0.0)


def batch(g, nan=True):
    n = g.size(1, 6, 30)
    return [None if nan and g.flag(0.15) else g.choice([0.0, 1.0, 0.4, 100.0, round(g.r.random() * 300, 2),
                                                        float(g.r.randint(0, 2000))]) for _ in range(n)]


def frame(vals, t0=0, series=False):
    ix = pd.date_range(BASE + pd.Timedelta(seconds=t0), periods=len(vals), freq='6s')
    v = [np.nan if x is None else float(x) for x in vals]
    if series:
        return pd.Series(v, ix, dtype='float64', name=('power', 'active'))
    return pd.DataFrame({('power', 'active'): v}, index=ix, dtype='float64')


@prop('C26')
class MeanModel(object):
    @staticmethod
    def gen(g):
        apps = ['fridge', 'kettle', 'light', 'tv'][:g.r.randint(1, 4)]
        rounds = []
        for _ in range(g.choice([1, 1, 2, 3])):
            names = [a for a in apps if g.flag(0.85)]
            g.r.shuffle(names)
            rounds.append([[a, [batch(g) for _ in range(g.choice([1, 1, 2, 3]))]] for a in names])
        return dict(rounds=rounds, tests=[batch(g, False) for _ in range(g.choice([1, 1, 2, 3]))],
                    series=g.flag(0.3), save=g.flag(0.3), between=g.flag(0.4))

    @staticmethod
    def check(case):
        series = case.get('series', False)
        d = tempfile.mkdtemp() if case.get('save') else None
        try:
            m = Mean({} if d is None else {'save-model-path': d})
            tot, cnt = {}, {}
            tests = [frame(b, 600 * i) for i, b in enumerate(case['tests'])]

            def predictions(m, when):
                if any(not cnt[a] for a in cnt):
                    return
                ok = {a: tot[a] / cnt[a] for a in cnt}
                out = quiet(m.disaggregate_chunk, tests)
                must(len(out) == len(tests), '%s: %d predictions for %d mains chunks' % (when, len(out), len(tests)))
                for df, t in zip(out, tests):
                    if not ok:
                        continue
                    must(sorted(df.columns) == sorted(ok), '%s: columns %s, expected %s' % (when, list(df.columns), sorted(ok)))
                    must(len(df) == len(t) and list(df.index) == list(t.index), '%s: rows do not match the mains' % when)
                    for a in ok:
                        v = df[a].values
                        must(all(close(float(x), ok[a], 1e-9) for x in v),
                             '%s: %s predicted %s, mean of training power %s (total %s over %s samples); batches %s'
                             % (when, a, list(v[:3]), ok[a], tot[a], cnt[a], case['rounds']))
            for r in case['rounds']:
                train = []
                for a, bs in r:
                    vals = [x for b in bs for x in b if x is not None]
                    tot[a] = tot.get(a, 0) + int(math.fsum(vals) + 1e-12)
                    if abs(math.fsum(vals) - round(math.fsum(vals))) < 1e-6 and any(x != int(x) for x in vals):
                        raise Invalid('total within rounding error of a whole number')
                    cnt[a] = cnt.get(a, 0) + len(vals)
                    train.append((a, [frame(b, 600 * i, series) for i, b in enumerate(bs)]))
                quiet(m.partial_fit, [frame([1.0])], train)
                if case.get('between'):
                    predictions(m, 'after a training round')
            predictions(m, 'after training')
            if d is not None:
                m2 = quiet(Mean, {'pretrained-model-path': d})
                predictions(m2, 'after loading the saved model')
        finally:
            if d:
                shutil.rmtree(d, ignore_errors=True)


@prop('C17')
class Nearest(object):
    @staticmethod
    def gen(g):
        def val():
            k = g.r.random()
            h = g.hint(0.1)
            if h is not None:
                return float(h)
            if k < 0.6:
                return float(g.r.randint(-3, 12))
            return g.r.randint(-12, 50) / 4.0
        known = [val() for _ in range(g.size(1, 7, 30))]
        test = [val() for _ in range(g.size(0, 6, 20))]
        return dict(known=known, test=test, two=g.flag())

    @staticmethod
    def check(case):
        k = np.array(case['known'], dtype='float64')
        t = np.array(case['test'], dtype='float64')
        if not len(k):
            raise Invalid()
        if case.get('two'):
            t = t.reshape(-1, 1)
        k0, t0 = k.copy(), t.copy()
        i, r = find_nearest(k, t)
        what = 'known %s test %s' % (list(k), list(t.ravel()))
        must(i.shape == t.shape and r.shape == t.shape, 'shape %s %s: %s' % (i.shape, r.shape, what))
        must((k0 == k).all() and (t0 == t).all(), 'inputs changed: %s' % what)
        for a, b, x in zip(i.ravel(), r.ravel(), t.ravel()):
            must(0 <= a < len(k), 'index %s: %s' % (a, what))
            must(abs(k[a] - x) <= min(abs(v - x) for v in k) + 1e-12,
                 'sample %s matched to %s (index %s): %s' % (x, k[a], a, what))
            must(b == x - k[a], 'residual %s of sample %s matched to %s: %s' % (b, x, k[a], what))


@prop('C17')
class Combinatorial(object):
    @staticmethod
    def gen(g):
        apps = []
        for i in range(g.choice([1, 2, 2, 3, 4])):
            apps.append(['app%d' % i, sorted(set([0] * g.flag(0.9) + [g.choice([50, 100, 100, 150, g.r.randint(1, 2000)])
                                                 for _ in range(g.r.randint(1, 3))]))])
        if g.flag(0.3):
            for a in apps:
                g.r.shuffle(a[1])
        cut = g.r.randint(1, len(apps))
        tests = [[float(g.choice([0, 50, 100, 125, 200, g.r.randint(0, 4000), g.r.randint(0, 8000) / 4.0]))
                  for _ in range(g.size(1, 6, 25))] for _ in range(g.choice([1, 1, 2, 3]))]
        return dict(apps=apps, cut=cut, tests=tests)

    @staticmethod
    def check(case):
        m = quiet(CO, {})
        tests = [frame(b, 600 * i) for i, b in enumerate(case['tests'])]
        stages = [case['cut']] + ([len(case['apps'])] if case['cut'] < len(case['apps']) else [])
        done = 0
        for upto in stages:
            for a, st in case['apps'][done:upto]:
                if not st:
                    raise Invalid()
                m.model.append({'states': np.array(st), 'appliance_name': a})
            done = upto
            apps = case['apps'][:upto]
            out = quiet(m.disaggregate_chunk, tests)
            must(len(out) == len(tests), '%d predictions for %d chunks' % (len(out), len(tests)))
            totals = [sum(c) for c in itertools.product(*[a[1] for a in apps])]
            for df, t in zip(out, tests):
                what = 'model %s mains %s' % (apps, list(t.iloc[:, 0]))
                must(sorted(df.columns) == sorted(a[0] for a in apps), 'columns %s: %s' % (list(df.columns), what))
                must(list(df.index) == list(t.index), 'rows differ from the mains: %s' % what)
                for j, x in enumerate(t.iloc[:, 0]):
                    pr = {a: float(df[a].iloc[j]) for a, _ in apps}
                    for a, st in apps:
                        must(pr[a] in [float(s) for s in st], 'sample %d: %s gets %s, not one of its states: %s' % (j, a, pr[a], what))
                    d = abs(sum(pr.values()) - x)
                    must(d <= min(abs(s - x) for s in totals) + 1e-6,
                         'sample %d (%s): states %s are %s away, best is %s: %s' % (j, x, pr, d, min(abs(s - x) for s in totals), what))


@prop('C17')
class Parts(object):
    every = 40

    @staticmethod
    def gen(g):
        lo = float(g.choice([50, 60, 100]))
        return dict(levels=[lo, lo * g.choice([3, 5, 10])], sizes=[g.r.randint(21, 60), g.r.randint(21, 60)], off=g.r.randint(0, 30),
                    swap=g.flag(), many=g.choice([1, 1, 2, 13]))

    @staticmethod
    def check(case):
        a, b = case['levels']
        if a < 20 or b < 2 * a or min(case['sizes']) < 21 or max(case['sizes']) > 900 or case['off'] < 0 or case['many'] < 1:
            raise Invalid()
        parts = [frame([v] * n + [0.0] * case['off'], 6000 * i) for i, (v, n) in enumerate(zip((a, b), case['sizes']))]
        m = quiet(CO, {})
        quiet(m.partial_fit, [frame([0.0])], [('app%d' % i, parts[::-1] if case['swap'] else parts) for i in range(case['many'])])
        want = [[0, int(a), int(b)]]
        if case['many'] > 12:
            want.append(None)           # fewer states per appliance
        for x in m.model:
            got = sorted(int(v) for v in x['states'])
            must(got in want or None in want and len(got) <= 2,
                 'training on parts at %s and %s W (and off) learnt the states %s' % (a, b, got))


@prop('C17')
class Training(object):
    every = 40

    @staticmethod
    def gen(g):
        apps = []
        for i in range(g.choice([1, 2, 3])):
            on = float(g.choice([60, 100, 250, 2000]))
            apps.append(['app%d' % i, [0.0 if g.flag(0.5) else on + g.r.randint(-2, 2) for _ in range(g.r.randint(30, 60))]])
        return dict(apps=apps, again=g.flag(), test=[float(g.r.randint(0, 2400)) for _ in range(4)])

    @staticmethod
    def check(case):
        m = quiet(CO, {})
        t = [frame(case['test'])]
        parts = [case['apps'][:1], case['apps'][1:]] if case['again'] and len(case['apps']) > 1 else [case['apps']]
        before = None
        for part in parts:
            quiet(m.partial_fit, [frame([0.0])], [(a, [frame(v)]) for a, v in part])
            if before is not None:
                must([(x['appliance_name'], list(x['states'])) for x in m.model[:len(before)]] == before,
                     'training on new appliances changed the earlier models')
            before = [(x['appliance_name'], list(x['states'])) for x in m.model]
            out = quiet(m.disaggregate_chunk, t)
            combos = [sum(c) for c in itertools.product(*[s for _, s in before])]
            must(sorted(out[0].columns) == sorted(a for a, _ in before), 'columns %s' % list(out[0].columns))
            for j, x in enumerate(case['test']):
                d = abs(sum(float(out[0][a].iloc[j]) for a, _ in before) - x)
                must(d <= min(abs(s - x) for s in combos) + 1e-3, 'sample %s: %s away, best %s; model %s'
                     % (x, d, min(abs(s - x) for s in combos), before))
                for a, s in before:
                    must(float(out[0][a].iloc[j]) in [float(v) for v in s], '%s not in states %s' % (float(out[0][a].iloc[j]), s))
        must([a for a, _ in before] == [a for a, _ in case['apps']], 'one model per appliance: %s' % before)
