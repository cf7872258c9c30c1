"""C27 converting a data store: every table and all metadata of the input are in the output."""
import copy
import os
import shutil
import tempfile
import pandas as pd
import numpy as np
import boot
from common import prop, must, Invalid, T
boot.load()
from nilmtk.datastore import HDFDataStore, CSVDataStore
from nilmtk.datastore.datastore import convert_datastore

COLS = [('power', 'active'), ('power', 'reactive'), ('voltage', 'x')]


def frame(m, tz):
    ix = pd.DatetimeIndex([T(t, tz) for t in m['times']])
    df = pd.DataFrame([[float(t % 7 + m['lvl'] + 10 * c) for c in m['cols']] for t in m['times']], index=ix)
    df.columns = pd.MultiIndex.from_tuples([COLS[c] for c in m['cols']], names=['physical_quantity', 'type'])
    return df


class Pieces(object):
    """the input store, asked for small pieces"""

    def __init__(self, store, n):
        self.store, self.n = store, n

    def __getattr__(self, k):
        return getattr(self.store, k)

    def load(self, key, **kw):
        kw.setdefault('chunksize', self.n)
        return self.store.load(key, **kw)


def same(a, b):
    return len(a) == len(b) and list(a.index) == list(b.index) and \
        [tuple(c) for c in a.columns] == [tuple(c) for c in b.columns] and \
        np.array_equal(a.values.astype(float), b.values.astype(float), equal_nan=True)


def csv_tables(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith('.csv'):
                k = os.path.join('/', os.path.relpath(os.path.join(r, f), d))[:-4]
                x = pd.read_csv(os.path.join(r, f), index_col=0, header=[0, 1], parse_dates=True)
                out[k] = x
    return out


@prop('C27')
class Convert(object):
    every = 2

    @staticmethod
    def gen(g):
        def meter():
            ts, t = [], g.choice([0, 5])
            for _ in range(g.size(2, 8, 20)):
                ts.append(t)
                t += g.choice([1, 1, 2, 5])
            return dict(times=ts, cols=sorted(g.r.sample([0, 1, 2], g.r.randint(1, 3))), lvl=g.r.randint(0, 3))
        bs = {}
        for b in g.r.sample([1, 2, 3, 10, 11, 12], g.r.randint(0, 3)):
            bs[str(b)] = {str(m): meter() for m in g.r.sample([1, 2, 3, 10, 11, 20], g.r.randint(1, 4))}
        return dict(buildings=bs, way=g.choice(['hh', 'hh', 'hc', 'ch', 'cc']), tz=g.choice([None, 'UTC', 'Europe/London']),
                    piece=g.choice([None, 1, 2, 3, 5]), cache=g.flag(0.4), reopen=g.flag(), note=g.choice(['x', '', None, 3]),
                    utility=g.choice(['elec', 'elec', 'water']))

    @staticmethod
    def check(case):
        tz, way = case.get('tz'), case['way']
        bs = {int(b): {int(m): x for m, x in ms.items()} for b, ms in case['buildings'].items()}
        for ms in bs.values():
            if not ms:
                raise Invalid()
            for m in ms.values():
                if len(m['times']) < 2 or any(b <= a for a, b in zip(m['times'], m['times'][1:])) or not m['cols'] or \
                        len(set(m['cols'])) != len(m['cols']):
                    raise Invalid()
        if any(b < 1 for b in bs) or any(m < 1 for ms in bs.values() for m in ms):
            raise Invalid()
        if way != 'hh':
            tz = None           # CSV files written by pandas: see C08
        util = case.get('utility', 'elec') if way == 'hh' else 'elec'
        what = str(case)
        d = tempfile.mkdtemp(prefix='conv_')
        opened = []
        try:
            def store(kind, name):
                s = HDFDataStore(os.path.join(d, name + '.h5'), 'w') if kind == 'h' else CSVDataStore(os.path.join(d, name))
                opened.append(s)
                return s
            src, dst = store(way[0], 'a'), store(way[1], 'b')
            meta = {'/': {'name': 'D', 'note': case.get('note'), 'meter_devices': {'m': {'sample_period': 1}}}}
            src.save_metadata('/', copy.deepcopy(meta['/']))
            tables = {}
            for b, ms in bs.items():
                for m, x in ms.items():
                    k = '/building%d/%s/meter%d' % (b, util, m)
                    tables[k] = frame(x, tz)
                    src.put(k, tables[k])
                if case.get('cache') and way[0] == 'h':
                    src.put('/building%d/%s/cache/meter1/total_energy' % (b, util), tables[k])
                meta['/building%d' % b] = {'instance': b, 'rooms': ['a'], 'elec_meters': {
                    m: {'site_meter': m == 1, 'data_location': '/building%d/elec/meter%d' % (b, m)} for m in ms}}
                src.save_metadata('/building%d' % b, copy.deepcopy(meta['/building%d' % b]))
            if way[0] == 'h' and case.get('reopen'):
                src.close()
                src = HDFDataStore(os.path.join(d, 'a.h5'), 'r')
                opened.append(src)
            n = case.get('piece')
            if n and way[0] == 'c' and (n < 2 or any(len(x) % n == 1 for x in tables.values())):
                n = None        # a block of a single row: a known finding of C08
            convert_datastore(Pieces(src, n) if n else src, dst)
            for k, md in meta.items():
                must(src.load_metadata(k) == md, 'the metadata of %s of the input changed: %s' % (k, what))
                must(dst.load_metadata(k) == md, 'the metadata of %s is %r: %s' % (k, dst.load_metadata(k), what))
            if way[1] == 'h':
                got = {k: dst.store[k] for k in dst.store.keys()}
            else:
                got = csv_tables(os.path.join(d, 'b'))
            must(sorted(got) == sorted(tables), 'tables %s, expected %s: %s' % (sorted(got), sorted(tables), what))
            for k, df in tables.items():
                must(same(got[k], df), 'table %s holds %s, expected %s: %s' % (k, got[k].to_dict('split'), df.to_dict('split'), what))
            if way[0] == 'h':
                for k, df in tables.items():
                    must(same(src.store[k], df), 'the input table %s changed: %s' % (k, what))
        finally:
            for s in opened:
                s.close()
            shutil.rmtree(d, True)
