"""C07 / C08: loading from HDF and CSV stores, against the table held in memory."""
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, T, secs, ns
boot.load()
from nilmtk.datastore import HDFDataStore, CSVDataStore
from nilmtk.timeframe import TimeFrame

KEY = '/building1/elec/meter1'
COLS = [('power', 'active'), ('power', 'reactive'), ('voltage', 'x')]


def make(case):
    tz = case.get('tz')
    ts = [secs(t) for t in case['times']]
    ts = [round(t * 1e3) / 1e3 for t in ts]
    if any(ns(b) <= ns(a) for a, b in zip(ts, ts[1:])):
        raise Invalid()
    nc = case.get('ncol', 1)
    ix = pd.DatetimeIndex([T(t, tz) for t in ts], name=case.get('iname', 'i'))
    if len(ts) == 0:
        ix = pd.DatetimeIndex([], tz=tz, name=case.get('iname', 'i'))
    d = {COLS[k]: [1000.0 * k + i + 0.5 for i in range(len(ts))] for k in range(nc)}
    df = pd.DataFrame(d, index=ix)
    df.columns = pd.MultiIndex.from_tuples(COLS[:nc], names=['physical_quantity', 'type'])
    return df, ts


def mk_tf(d, tz):
    if d is None:
        return None
    s, e = (None if x is None else round(secs(x) * 1e3) / 1e3 for x in d[:2])
    if s is not None and e is not None and ns(e) <= ns(s):
        raise Invalid()
    t = TimeFrame(T(s, tz), T(e, tz))
    t.include_end = bool(d[2])
    return t


def inside(df, tf):
    m = np.ones(len(df), bool)
    if tf.empty:
        return m & False
    if tf.start is not None:
        m &= np.asarray(df.index >= tf.start)
    if tf.end is not None:
        m &= np.asarray(df.index <= tf.end) if tf.include_end else np.asarray(df.index < tf.end)
    return m


def common_span(a, b):
    """independent intersection: [start, end, incl] or None when empty"""
    ss = [x for x in (a.start, b.start) if x is not None]
    ee = [x for x in (a.end, b.end) if x is not None]
    s = max(ss) if ss else None
    e = min(ee) if ee else None
    if s is not None and e is not None and s >= e:
        return None
    inc = False
    if e is not None:
        inc = b.include_end if b.end == e else a.include_end
    t = TimeFrame(s, e)
    t.include_end = inc
    return t


def gen_times(g, n):
    out, t = [], g.choice([0, 0, 5, 3600])
    for _ in range(n):
        out.append(t)
        t = t + g.choice([1, 1, 1, 2, 5, 10, 0.5])
    return out


def gen_bound(g, ts):
    k = g.r.random()
    if not ts or k < 0.1:
        return g.r.randint(-5, 30)
    t = g.choice(ts)
    if k < 0.6:
        return t
    return t + g.choice([-0.25, 0.25, 1, -1, 3])


def gen_tf(g, ts, p_open=0.25):
    a, b = gen_bound(g, ts), gen_bound(g, ts)
    if b < a:
        a, b = b, a
    if a == b:
        b = a + g.choice([0.25, 1, 2])
    return [None if g.flag(p_open) else a, None if g.flag(p_open) else b, g.flag(0.3)]


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='st_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, True)


def same_frame(a, b, cols=True):
    if len(a) == len(b) == 0 and not cols:
        return True
    return (len(a) == len(b) and list(a.index) == list(b.index)
            and (not cols or [tuple(c) for c in a.columns] == [tuple(c) for c in b.columns])
            and np.array_equal(np.asarray(a.values, float), np.asarray(b.values, float), equal_nan=True))


HDF = {}


def hdf_store(df, cut=None):
    """one file per table content within a run; cut: written in two pieces over an earlier table"""
    k = (tuple(df.index.asi8), str(df.index.tz), df.shape[1], cut)
    if k not in HDF:
        if len(HDF) > 40:
            for st, d in HDF.values():
                st.close()
                shutil.rmtree(d, True)
            HDF.clear()
        d = tempfile.mkdtemp(prefix='hdf_')
        st = HDFDataStore(os.path.join(d, 's.h5'), 'w')
        if cut is None:
            st.put(KEY, df)
        else:
            st.put(KEY + '1', df * 3)
            st.put(KEY, df * 2)
            st.put(KEY, df.iloc[:cut])
            st.append(KEY, df.iloc[cut:])
            if st.store.get(KEY + '1').equals(df * 3):
                st.remove(KEY + '1')
        must([k for k in st.store.keys() if k.startswith(KEY.rstrip('/'))] == [KEY], 'tables %s after put, append and remove' % st.store.keys())
        HDF[k] = (st, d)
    return HDF[k][0]


@prop('C07')
class C07(object):
    @staticmethod
    def gen(g):
        n = g.size(0, 12, 40)
        r = g.r.randint(0, 30)          # a few tables, many queries
        import random
        g2 = type(g)('tab%d' % r)
        ts = gen_times(g2, n)
        sec = None if g.flag(0.15) else [gen_tf(g, ts) for _ in range(g.choice([1, 1, 1, 2, 3]))]
        return dict(times=ts, ncol=g.choice([1, 2, 3]), tz=g2.choice([None, 'UTC', 'Europe/London']),
                    window=None if g.flag(0.5) else gen_tf(g, ts), sections=sec,
                    chunk=g.choice([1, 1, 2, 2, 3, 4, 5, 7, 100]), la=g.choice([0, 0, 1, 2, 5]),
                    cols=g.choice([None, None, 0, 1]), key=g.choice([KEY, KEY[1:], KEY + '/']), iname='index',
                    cut=g2.choice([None] * 7 + [1, 2, n // 2]))

    @staticmethod
    def fixed():
        out = []
        for n in (2, 3, 4, 5, 6):
            for chunk in (1, 2, 3, 4):
                out.append(dict(times=list(range(n)), ncol=1, tz=None, window=None, sections=None, chunk=chunk,
                                la=1, cols=None, key=KEY))
                out.append(dict(times=list(range(n)), ncol=1, tz=None, window=None, sections=[[0, n - 1, True]],
                                chunk=chunk, la=0, cols=None, key=KEY))
        return out

    @staticmethod
    def check(case):
        df, ts = make(dict(case, iname='index'))
        if len(df) == 0:
            raise Invalid()
        tz = case.get('tz')
        cut = case.get('cut')
        if cut is not None and not 0 < cut < len(df):
            cut = None
        st = hdf_store(df, cut)
        st.window = mk_tf(case['window'], tz) or TimeFrame()
        secs_ = None if case['sections'] is None else [mk_tf(s, tz) for s in case['sections']]
        cols = None
        want_cols = list(df.columns)
        if case['cols'] is not None:
            if case['cols'] >= case['ncol']:
                raise Invalid()
            cols = want_cols = [COLS[case['cols']]]
        cs, la = int(case['chunk']), int(case['la'])
        if cs < 1:
            raise Invalid()
        got = list(st.load(case['key'], columns=cols, sections=secs_, n_look_ahead_rows=la, chunksize=cs))
        i = 0
        what = 'rows %s window %s sections %s chunksize %d' % (ts, case['window'], case['sections'], cs)
        for s in (secs_ if secs_ is not None else [TimeFrame()]):
            w = common_span(st.window, s)
            m = inside(df, w) if w is not None else np.zeros(len(df), bool)
            rows = df[m][want_cols]
            if len(rows) == 0:
                must(i < len(got) and len(got[i]) == 0, '%s: a section without rows must give one empty frame' % what)
                i += 1
                continue
            if len(rows) == 1:
                if i < len(got) and len(got[i]) == 0 and w.start is None and w.end is None:
                    i += 1
                    continue
                # may give nothing, or that row
                if i < len(got) and len(got[i]) == 1 and same_frame(got[i], rows):
                    i += 1
                continue
            chunks, pos = [], 0
            while pos < len(rows) - 1 or not chunks:
                must(i < len(got), '%s: rows missing after %d of %d rows' % (what, pos + 1, len(rows)))
                c = got[i]
                i += 1
                chunks.append(c)
                must(0 < len(c) <= cs + 1, '%s: a chunk has %d rows' % (what, len(c)))
                exp = rows.iloc[pos:pos + len(c)]
                must(same_frame(c, exp), '%s: a chunk holds %s, expected %s' % (what, list(c.index), list(exp.index)))
                last = pos + len(c) - 1
                if la:
                    k = np.flatnonzero(m)[0] + last + 1
                    e = df[want_cols].iloc[k:k + la]
                    lo = getattr(c, 'look_ahead', None)
                    must(lo is not None and same_frame(lo, e, cols=len(e) > 0),
                         '%s: look-ahead is %s, expected %s'
                         % (what, None if lo is None else list(lo.index), list(e.index)))
                must(last > pos, '%s: a chunk adds no row' % what) if len(rows) > 1 else None
                pos = last
            tfs = [c.timeframe for c in chunks]
            must(not any(t.empty for t in tfs), '%s: empty time frame' % what)
            for a, b in zip(tfs, tfs[1:]):
                must(a.end == b.start, '%s: time frames of consecutive chunks do not abut: %s %s' % (what, a, b))
            for t, c in zip(tfs, chunks):
                must(t.start <= c.index[0] and t.end >= c.index[-1], '%s: rows outside the chunk time frame' % what)
            must(w.start is None or tfs[0].start >= w.start, '%s: time frame before the section' % what)
            must(w.end is None or tfs[-1].end <= w.end, '%s: time frame after the section' % what)
            es = w.start if w.start is not None else rows.index[0]
            ee = w.end if w.end is not None else rows.index[-1]
            must(tfs[0].start == es and tfs[-1].end == ee, '%s: the chunks span %s..%s, expected %s..%s'
                 % (what, tfs[0].start, tfs[-1].end, es, ee))
        must(i == len(got), '%s: %d extra chunks' % (what, len(got) - i))
        if len(df) > 1:
            tf = st.get_timeframe(KEY)
            w = common_span(st.window, TimeFrame(df.index[0], df.index[-1]))
            if w is None:
                must(tf.empty, 'get_timeframe outside the window is %s' % tf)
            else:
                must(not tf.empty and tf.start == w.start and tf.end == w.end, 'get_timeframe is %s, expected %s..%s'
                     % (tf, w.start, w.end))


def time_form(df):
    """length of the timestamp text in the CSV form of df"""
    return len(df.iloc[:, :1].to_csv(header=False).split(',')[0])


@prop('C08')
class C08(object):
    @staticmethod
    def gen(g):
        n = g.size(1, 10, 40)
        ts = gen_times(g, n)
        sec = None if g.flag(0.2) else [gen_tf(g, ts)[:2] + [False] for _ in range(g.choice([1, 1, 2]))]
        w = None if g.flag(0.5) else gen_tf(g, ts)[:2] + [False]
        return dict(times=ts, ncol=g.choice([1, 2, 3]), tz=None, window=w, sections=sec,
                    chunk=g.choice([1, 2, 2, 3, 3, 4, 5, 7, 100]), la=g.choice([0, 1, 2, 5]),
                    cols=g.choice([None, None, 0, 1]), key=g.choice([KEY, KEY[1:]]),
                    iname=g.choice([None, 'index']), cut=g.r.randint(0, n), other=g.flag(0.3))

    @staticmethod
    def check(case):
        df, ts = make(case)
        if len(df) == 0:
            raise Invalid()
        tz = None
        cs, la = int(case['chunk']), int(case['la'])
        cut = min(int(case.get('cut', 0)), len(df))
        if cs < 1:
            raise Invalid()
        what = 'rows %s window %s sections %s chunksize %d' % (ts, case['window'], case['sections'], cs)
        with Scratch() as d:
            st = CSVDataStore(os.path.join(d, 'csv'))
            if case.get('other'):
                st.put('/building1/elec/meter2', df * 2)
            if 0 < cut < len(df) and time_form(df.iloc[:cut]) != time_form(df.iloc[cut:]):
                raise Invalid()         # known finding: timestamps printed in two forms in one file
            if 0 < cut < len(df):
                st.put(KEY, df.iloc[:cut])
                st.append(KEY, df.iloc[cut:])
            elif cut == 0:
                st.append(KEY, df)
            else:
                st.put(KEY, df * 0 + 7)
                st.put(KEY, df)
            st.window = mk_tf(case['window'], tz) or TimeFrame()
            secs_ = None if case['sections'] is None else [mk_tf(s, tz) for s in case['sections']]
            cols, want_cols = None, list(df.columns)
            if case['cols'] is not None:
                if case['cols'] >= case['ncol']:
                    raise Invalid()
                cols = want_cols = [COLS[case['cols']]]
            exp, one_row = [], False
            for s in (secs_ if secs_ is not None else [TimeFrame()]):
                w = common_span(st.window, s)
                m = inside(df, w) if w is not None else np.zeros(len(df), bool)
                k = np.flatnonzero(m)
                # the file is read in blocks of chunksize rows
                blocks = {}
                for r in k:
                    blocks.setdefault(r // cs, []).append(r)
                exp.append((s, k, blocks))
            known = any(len(b) == 1 for _, _, bl in exp for b in bl.values())
            got = []
            try:
                for c in st.load(case['key'], columns=cols, sections=secs_, n_look_ahead_rows=la, chunksize=cs):
                    got.append(c)
            except ValueError as e:
                # known finding: a block with exactly one matching row
                if not (known and 'date must be' in str(e)):
                    raise
                if not known:
                    raise
                raise Invalid()
            i = 0
            for s, k, blocks in exp:
                pos = 0
                while pos < len(k):
                    must(i < len(got), '%s: rows missing after %d of %d rows' % (what, pos, len(k)))
                    c = got[i]
                    i += 1
                    must(0 < len(c) <= cs, '%s: a chunk has %d rows' % (what, len(c)))
                    e = df[want_cols].iloc[k[pos:pos + len(c)]]
                    must(same_frame(c, e), '%s: a chunk holds %s, expected %s' % (what, list(c.index), list(e.index)))
                    pos += len(c)
                    if la:
                        f = df.iloc[k[pos - 1] + 1:k[pos - 1] + 1 + la]
                        lo = getattr(c, 'look_ahead', None)
                        must(lo is not None and same_frame(lo, f, cols=False),
                             '%s: look-ahead after %s is %s, expected %s'
                             % (what, c.index[-1], None if lo is None else list(lo.index), list(f.index)))
                    if len(c) > 1:
                        must(c.timeframe.start == c.index[0] and c.timeframe.end == c.index[-1],
                             '%s: time frame %s' % (what, c.timeframe))
            must(i == len(got), '%s: %d extra chunks' % (what, len(got) - i))
            if len(df) > 1:
                tf = st.get_timeframe(KEY)
                w = common_span(st.window, TimeFrame(df.index[0], df.index[-1]))
                must(tf.empty if w is None else (not tf.empty and tf.start == w.start and tf.end == w.end),
                     'get_timeframe is %s' % tf)
            if case.get('other'):
                must(sorted(os.listdir(os.path.join(d, 'csv', 'building1', 'elec'))) == ['meter1.csv', 'meter2.csv'],
                     'files in the store')
