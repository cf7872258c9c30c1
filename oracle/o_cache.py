"""C25 cached statistics, against the same query without a cache."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, T
boot.load()
import nilmtk
from nilmtk.datastore import HDFDataStore
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.timeframe import TimeFrame

COLS = [('power', 'active'), ('power', 'reactive'), ('energy', 'active')]
DEV = dict(sample_period=1, max_sample_period=3)
DATA, DIR = {}, []


def scratch():
    if not DIR or not os.path.isdir(DIR[0]):
        DIR[:] = [tempfile.mkdtemp(prefix='cache_')]
    return DIR[0]


def data_store(m, tz):
    k = str((m['times'], m['cols'], m['lvl'], tz))
    if k not in DATA:
        ix = pd.DatetimeIndex([T(t, tz) for t in m['times']])
        cols = [COLS[c] for c in m['cols']]
        df = pd.DataFrame([[float(t % 5 + m['lvl'] + 10 * c) for c in m['cols']] for t in m['times']], index=ix)
        df.columns = pd.MultiIndex.from_tuples(cols, names=['physical_quantity', 'type'])
        p = os.path.join(scratch(), 'd%d.h5' % len(DATA))
        st = HDFDataStore(p, 'w')
        st.put('/building1/elec/meter1', df)
        DATA[k] = (st, p)
    return DATA[k][0]


CACHES = []


def drop_old_data():
    if len(DATA) > 30:
        for st, p in DATA.values():
            st.close()
            os.remove(p)
        DATA.clear()


def new_cache():
    p = tempfile.mktemp(suffix='.h5', dir=scratch())
    s = HDFDataStore(p, 'w')
    CACHES.append((s, p))
    return s


class NoCache(object):
    """a cache that is empty and stays so"""

    def __getitem__(self, key):
        raise KeyError(key)

    def append(self, key, value):
        pass

    put = append

    def remove(self, key):
        raise KeyError(key)


def drop_caches():
    for s, p in CACHES:
        s.close()
        os.remove(p)
    CACHES.clear()


def ask(meter, q, tz, chunk):
    kw = {}
    if q.get('sections') is not None:
        kw['sections'] = [TimeFrame(T(a, tz), T(b, tz)) for a, b in q['sections']]
    if q.get('ac'):
        kw['ac_type'] = q['ac']
    if chunk:
        kw['chunksize'] = chunk
    if q['stat'] == 'energy':
        return meter.total_energy(**kw)
    if q['stat'] == 'good':
        return meter.good_sections(**kw)
    return meter.dropout_rate(ignore_gaps=q['stat'] == 'dropout_good', **kw)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f(), None
        except Exception as e:
            import traceback
            return None, traceback.format_exc()


def same(a, b):
    if isinstance(b, pd.Series):
        # an AC type of which there is no sample counts as zero
        return isinstance(a, pd.Series) and all(same(a.get(i, 0.0), b.get(i, 0.0)) for i in set(a.index) | set(b.index))
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(x.start == y.start and x.end == y.end for x, y in zip(a, b))
    if isinstance(b, (float, int, np.number)):
        return isinstance(a, (float, int, np.number)) and ((a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b)))
    return a is None and b is None


def show(x):
    return repr(x).replace('\n', ' ')


@prop('C25')
class History(object):
    @staticmethod
    def gen(g):
        def meter():
            ts, t = [], g.choice([0, 0, 3])
            for _ in range(g.size(2, 14, 30)):
                ts.append(t)
                t += g.choice([1, 1, 1, 2, 3, 4, 8])
            return dict(times=ts, cols=sorted(g.r.sample([0, 1, 2], g.r.randint(1, 3))), lvl=g.r.randint(0, 3),
                        dataset=g.choice(['D', 'D', 'E']), instance=g.choice([1, 1, 10, 2]))
        ms = [meter() for _ in range(g.choice([1, 1, 2]))]
        last = max(m['times'][-1] for m in ms)
        pool = sorted({g.r.randint(-1, last + 2) for _ in range(4)} | {0, last})
        qs = []
        if g.flag(0.5):
            # one statistic of one meter, few bounds
            stat, m, ac = g.choice(['energy', 'dropout', 'good', 'good']), g.r.randrange(len(ms)), g.choice([None, None, 'active'])
            pool = sorted(g.r.sample(pool, min(3, len(pool))))
            cuts = [[a, b] for i, a in enumerate(pool) for b in pool[i + 1:]]
            secs = [[c] for c in cuts] + [cuts[:1] + cuts[-1:]] * (len(cuts) == 3) + [None]
            return dict(meters=ms, queries=[dict(m=m, stat=stat, sections=g.choice(secs), ac=ac) for _ in range(g.r.randint(2, 5))],
                        tz=g.choice([None, 'Europe/London']), chunk=g.choice([None, None, None, 3, 7]))
        for _ in range(g.size(2, 4, 8)):
            cut = sorted(g.r.sample(pool, min(len(pool), g.choice([2, 2, 3, 4]))))
            secs = g.choice([None, [[a, b] for a, b in zip(cut, cut[1:]) if g.flag(0.8)]])
            qs.append(dict(m=g.r.randrange(len(ms)), stat=g.choice(['energy', 'energy', 'dropout', 'good', 'dropout_good']),
                           sections=secs, ac=g.choice([None, None, 'active', 'reactive', ['active', 'reactive']]),
                           ))
        return dict(meters=ms, queries=qs, tz=g.choice([None, 'Europe/London']), chunk=g.choice([None, None, None, 3, 7, 20]))

    @staticmethod
    def check(case):
        tz, ms = case.get('tz'), case['meters']
        for m in ms:
            if len(m['times']) < 2 or any(b <= a for a, b in zip(m['times'], m['times'][1:])) or not m['cols'] or \
                    len(set(m['cols'])) != len(m['cols']):
                raise Invalid()
        if len({(m['dataset'], m['instance']) for m in ms}) != len(ms):
            raise Invalid()
        ElecMeter.meter_devices.clear()
        ElecMeter.meter_devices['dev'] = dict(DEV)
        nilmtk.global_meter_group.meters.clear()
        what = str(case)
        drop_old_data()
        try:
            shared = new_cache()
            meters = []
            for m in ms:
                ElecMeter.meter_devices['dev' + str(m['cols'])] = dict(DEV, measurements=[
                    dict(physical_quantity=COLS[c][0], type=COLS[c][1], upper_limit=1000) for c in m['cols']])
                e = ElecMeter(data_store(m, tz), dict(device_model='dev' + str(m['cols']), data_location='/building1/elec/meter1'),
                              ElecMeterID(m['instance'], 1, m['dataset']))
                meters.append(e)
            done, owner = 0, {}
            for i, q in enumerate(case['queries']):
                if any(b <= a for a, b in q.get('sections') or []) or not 0 <= q['m'] < len(ms):
                    raise Invalid()
                e = meters[q['m']]
                e.cache = NoCache()
                exp, err = quiet(lambda: ask(e, q, tz, case.get('chunk')))
                if err:
                    # not answerable: an AC type that is not measured, or no samples to have a rate
                    must('MeasurementError' in err and q.get('ac') or "KeyError: 'n_samples'" in err and 'dropout' in q['stat'],
                         'query %d cannot be answered: %s %s' % (i, err, what))
                    continue
                e.cache = shared
                got, err = quiet(lambda: ask(e, q, tz, case.get('chunk')))
                must(err is None, 'query %d raises with the cache, but not without: %s %s' % (i, err, what))
                must(same(got, exp), 'query %d gives %s with the cache, %s without: %s' % (i, show(got), show(exp), what))
                for key in shared.store.keys():
                    owner.setdefault(key, q['m'])
                done += 1
            if not done:
                raise Invalid()
            x = case['queries'][-1]['m']
            meters[x].cache = shared
            for _ in range(2):
                _, err = quiet(meters[x].clear_cache)
                must(err is None, 'clearing the cache raises: %s %s' % (err, what))
                left = sorted(shared.store.keys())
                must(left == sorted(k for k in owner if owner[k] != x), 'cleared the cache of meter %d, left are %r of %r: %s' % (x, left, owner, what))
        finally:
            drop_caches()
