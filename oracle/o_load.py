"""C31 loading a meter (columns, preprocessing, resampling); C32 power series."""
import math
import warnings
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, T
boot.load()
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.electric import Electric
from nilmtk.node import Node
from nilmtk.timeframe import TimeFrame

STARTS = {'': '2013-01-01 00:00:00', 'Europe/London': '2014-10-26 00:59:00', 'America/Havana': '2014-11-02 04:10:00',
          'US/Eastern': '2014-03-09 06:50:00', 'America/Sao_Paulo': '2014-10-19 04:00:00'}


def at(tz, s):
    t = pd.Timestamp(STARTS[tz or '']) + pd.Timedelta(seconds=s)
    return t.tz_localize('UTC').tz_convert(tz) if tz else t


def raw(t):
    return t.tz_convert('UTC').tz_localize(None) if t.tzinfo else t


COLS = [('power', 'active'), ('power', 'reactive')]


class Fn(Node):
    def __init__(self, k, log):
        self.k, self.log = k, log
        Node.__init__(self)

    def process(self):
        for chunk in self.upstream.process():
            self.log.append(self.k)
            new = chunk * 2 if self.k == 'double' else chunk + 1
            new.timeframe = chunk.timeframe
            if hasattr(chunk, 'look_ahead'):
                new.look_ahead = chunk.look_ahead
            yield new


class Store(object):
    def __init__(self, case, which):
        self.case, self.which, self.asked = case, which, []

    def load(self, **kw):
        self.asked.append(kw)
        c = self.case
        for i, rows in enumerate(c['chunks']):
            df = pd.DataFrame([[np.nan if x is None else float(x) + self.which for x in v] for _, v in rows],
                              index=pd.DatetimeIndex([at(c['tz'], t) for t, _ in rows], tz=c['tz']),
                              columns=pd.MultiIndex.from_tuples(COLS, names=['physical_quantity', 'type']), dtype=float)
            df = df[kw['columns']]
            df.timeframe = TimeFrame(at(c['tz'], 100 * i), at(c['tz'], 100 * i + 50))
            if c['la']:
                df.look_ahead = df.iloc[:0]
            yield df


def expected(case, rows, which, cols, nodes, on, period, how, fill, limit):
    """-> [(time in UTC, [values])]"""
    out, seen = [], set()
    for t, v in rows:
        v = [np.nan if x is None else float(x) + which for x in v]
        for k in nodes:
            v = [x * 2 if k == 'double' else x + 1 for x in v]
        v = [v[COLS.index(c)] for c in cols]
        out.append((raw(at(case['tz'], t)), v))
    if not on or not rows:
        return out
    first = []
    for t, v in out:
        if t not in seen:
            seen.add(t)
            first.append((t, v))
    base = pd.Timestamp('2000-01-01')
    bins = {}
    for t, v in first:
        bins.setdefault(int((t - base).total_seconds() // period), []).append(v)
    lo, hi = min(bins), max(bins)
    grid = []
    for b in range(lo, hi + 1):
        row = []
        for j in range(len(cols)):
            vs = [v[j] for v in bins.get(b, []) if v[j] == v[j]]
            row.append((sum(vs) / len(vs) if how == 'mean' else max(vs)) if vs else np.nan)
        grid.append(row)
    for j in range(len(cols)):
        seq = range(len(grid)) if fill == 'ffill' else range(len(grid) - 1, -1, -1)
        last, left = np.nan, 0
        for i in seq:
            if grid[i][j] == grid[i][j]:
                last, left = grid[i][j], limit
            elif left > 0:
                grid[i][j] = last
                left -= 1
    return [(base + pd.Timedelta(seconds=b * period), r) for b, r in zip(range(lo, hi + 1), grid)]


@prop('C31')
class Load(object):
    @staticmethod
    def gen(g):
        chunks = []
        t = g.r.randint(0, 5)
        for _ in range(g.size(0, 3, 5)):
            rows = []
            for _ in range(g.size(0, 6, 25)):
                rows.append([t, [None if g.flag(0.15) else g.choice([0, 1, 2.5, 100, 230]) for _ in COLS]])
                t += g.choice([0, 1, 1, 2, 3, 6, 6, 7, 12, 20, 61]) if g.flag(0.9) else 0
            chunks.append(rows)
        P = g.choice([1, 2, 6, 6])
        ms = [dict(period=P, mx=P * g.choice([1, 2, 3, 10])), dict(period=g.choice([1, 6]), mx=g.choice([6, 30, 60]))]
        args = {}
        if g.flag(0.6):
            args['sample_period'] = g.choice([None, 1, 2, 3, 5, 6, 6, 10, 30, 60, 5.6])
        if g.flag(0.4):
            args['resample'] = g.flag(0.7)
        if g.flag(0.5):
            args['resample_kwargs'] = g.choice([{}, {}, {'limit': g.r.randint(1, 4)}, {'how': 'max'}, {'fill_method': 'bfill'}])
        if g.flag(0.6):
            args['ac_type'] = g.choice(['best', 'active', 'reactive'])
        if g.flag(0.3):
            args['physical_quantity'] = 'power'
        return dict(chunks=chunks, meters=ms, args=args, nodes=[g.choice(['double', 'plus']) for _ in range(g.choice([0, 0, 1, 2, 3]))],
                    give=g.flag(0.8), tz=g.choice([None, None, 'Europe/London', 'America/Havana', 'US/Eastern', 'America/Sao_Paulo']),
                    la=g.flag(0.3), reuse=g.flag(0.4), which=g.choice([[0], [0, 1], [0, 1], [1, 0], [0, 0]]))

    @staticmethod
    def check(case):
        times = [t for r in case['chunks'] for t, _ in r]
        args = dict(case['args'])
        sp = args.get('sample_period')
        if sorted(times) != times or any(m['period'] < 1 or m['mx'] < m['period'] or 60 % m['period'] for m in case['meters']) or \
                (sp is not None and (sp < 1 or 60 % int(round(sp)))) or case['tz'] not in STARTS and case['tz'] is not None or \
                any(len(v) != 2 for r in case['chunks'] for _, v in r) or not set(case['which']) <= {0, 1} or \
                any(k not in ('double', 'plus') for k in case['nodes']):
            raise Invalid()
        rk = args.get('resample_kwargs')
        if 'resample_kwargs' in args:
            if rk is None or not set(rk) <= {'limit', 'how', 'fill_method'} or rk.get('how', 'max') != 'max' or \
                    rk.get('fill_method', 'bfill') != 'bfill' or rk.get('limit', 1) < 1:
                raise Invalid()
            rk = args['resample_kwargs'] = dict(rk)
        if args.get('resample', True) not in (True, False) or args.get('ac_type') not in (None, 'best', 'active', 'reactive'):
            raise Invalid()
        log = []
        nodes = [Fn(k, log) for k in case['nodes']]
        pre = None
        if nodes or case['give']:
            pre = args['preprocessing'] = list(nodes)
        rk0 = dict(rk or {})
        what = str(case)
        gens = []
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for w in case['which']:
                m = case['meters'][w]
                dev = 'dev%d' % w
                ElecMeter.meter_devices[dev] = dict(sample_period=m['period'], max_sample_period=m['mx'], measurements=[
                    dict(physical_quantity=q, type=t) for q, t in COLS])
                st = Store(case, w)
                em = ElecMeter(st, dict(device_model=dev, data_location='/building1/elec/meter%d' % (w + 1)), ElecMeterID(w + 1, 1, 'D'))
                if nodes and not case['reuse']:     # nodes belong to one pipeline at a time
                    args['preprocessing'] = pre = [Fn(k, log) for k in case['nodes']]
                data = em.load(sections='S', **args)
                gens.append((w, m, st, iter(list(data)) if case['reuse'] else data, em))
                must(pre is None or len(pre) == len(case['nodes']), 'the list of nodes was changed: ' + what)
            out = [[] for _ in gens]
            live = list(range(len(gens)))
            while live:                         # draw from all meters in turn
                for i in list(live):
                    try:
                        out[i].append(next(gens[i][3]))
                    except StopIteration:
                        live.remove(i)
        must((rk or {}) == rk0, 'resample_kwargs were changed to %s: %s' % (rk, what))
        on = args['resample'] if 'resample' in args else sp is not None
        cols = COLS if not args.get('ac_type') else [('power', 'active')] if args['ac_type'] != 'reactive' else [COLS[1]]
        for (w, m, st, _, em), chunks in zip(gens, out):
            must(len(st.asked) == 1 and set(st.asked[0]) == {'key', 'columns', 'sections'} and st.asked[0]['sections'] == 'S'
                 and st.asked[0]['key'] == em.key and set(st.asked[0]['columns']) == set(cols),
                 'the store was asked for %s: %s' % (st.asked, what))
            order = list(st.asked[0]['columns'])
            must(len(chunks) == len(case['chunks']), '%d chunks: %s' % (len(chunks), what))
            period = sp if sp is not None else m['period']
            limit = rk0.get('limit', int(math.ceil(m['mx'] / period)))
            for i, (df, rows) in enumerate(zip(chunks, case['chunks'])):
                want = expected(case, rows, w, order, case['nodes'], on, int(round(period)), rk0.get('how', 'mean'),
                                rk0.get('fill_method', 'ffill'), limit)
                must(list(df.columns) == order and len(df) == len(want), 'chunk %d has %d rows, expected %d: %s\n%s'
                     % (i, len(df), len(want), what, df))
                for (t, v), (u, x) in zip(zip(df.index, df.values), want):
                    must(raw(t) == u and all(p == q or (p != p and q != q) or abs(p - q) < 1e-6 for p, q in zip(v, x)),
                         'chunk %d has %s at %s, expected %s at %s: %s' % (i, v, t, x, u, what))
                must(str(df.index.tz) == str(case['tz']), 'time zone %s: %s' % (df.index.tz, what))
                must(df.timeframe.start == at(case['tz'], 100 * i) and df.timeframe.end == at(case['tz'], 100 * i + 50),
                     'time frame %s of chunk %d: %s' % (df.timeframe, i, what))
                must(hasattr(df, 'look_ahead') == case['la'], 'look ahead: ' + what)


class Loaded(Electric):
    def __init__(self, chunks):
        self.chunks, self.asked = chunks, []

    def load(self, **kw):
        self.asked.append(kw)
        for c in self.chunks:
            yield c


@prop('C32')
class Series(object):
    @staticmethod
    def gen(g):
        acs = g.choice([['active'], ['active', 'apparent'], ['reactive', 'active', 'apparent']])
        t, chunks = 0, []
        for _ in range(g.size(0, 4, 8)):
            n = g.choice([0, 1, 1, 2, 3, 5])
            share = g.flag(0.5)
            chunks.append(dict(n=n, share=share))
        total = sum(c['n'] for c in chunks)
        return dict(acs=acs, chunks=chunks, vals=[[None if g.flag(0.15) else g.choice([0, 1, 2.5, 100]) for _ in acs]
                                                  for _ in range(total)], ac=g.choice([None, 'active', acs]), la=g.flag(0.3),
                    q=g.choice(['power', 'power', 'energy']), other=g.flag(0.3))

    @staticmethod
    def check(case):
        acs, q = case['acs'], case['q']
        if len(set(acs)) != len(acs) or not acs or any(c['n'] < 0 for c in case['chunks']) or \
                len(case['vals']) != sum(c['n'] for c in case['chunks']) or any(len(v) != len(acs) for v in case['vals']):
            raise Invalid()
        rows = [(T(3 * i), [np.nan if x is None else float(x) for x in v]) for i, v in enumerate(case['vals'])]
        cols = [(q, a) for a in acs]
        if case['other']:
            cols.append(('voltage', ''))
        frames, k, owned = [], 0, []
        for i, ch in enumerate(case['chunks']):
            lo = k - 1 if ch['share'] and k > 0 else k
            k += ch['n']
            part = rows[lo:k]
            df = pd.DataFrame([v + [230.0] * case['other'] for _, v in part], index=pd.DatetimeIndex([t for t, _ in part]),
                              columns=pd.MultiIndex.from_tuples(cols, names=['physical_quantity', 'type']), dtype=float)
            df.timeframe = TimeFrame(T(100 * i), T(100 * i + 50))
            if case['la']:
                df.look_ahead = df.iloc[:0]
            frames.append(df)
            owned.append(part)
        what = str(case)
        m = Loaded(frames)
        kw = {'x': 1}
        if case['ac']:
            kw['ac_type'] = case['ac']
        want = {'x': 1, 'physical_quantity': q, 'ac_type': case['ac'] or 'best'}
        if q != 'power':
            want = dict(kw, physical_quantity=q)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = list(m.power_series(**kw)) if q == 'power' else list(m.load_series(physical_quantity=q, **kw))
        must(m.asked == [want], 'loaded with %s: %s' % (m.asked, what))
        must(len(out) == len(frames), '%d series: %s' % (len(out), what))
        same = lambda p, r: p == r or (p != p and r != r)
        for s, part, df in zip(out, owned, frames):
            must(len(s) == len(part), 'a series of %d rows: %s' % (len(s), what))
            if not part:
                continue
            must(all(t == u and same(x, sum(v)) for (t, x), (u, v) in zip(s.items(), part)), 'series %s: %s' % (s, what))
            must(s.name == (q, '+'.join(acs)), 'name %s: %s' % (s.name, what))
            must(s.timeframe == df.timeframe and (s.look_ahead is not None) == case['la'], 'frame or look ahead: ' + what)
        if q != 'power':
            return
        m = Loaded(frames)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = m.power_series_all_data(**kw)
        must(m.asked == [want], 'loaded with %s: %s' % (m.asked, what))
        if not rows:
            must(d is None, 'data without rows: ' + what)
            return
        must(d is not None and len(d) == len(rows) and all(t == u and same(x, sum(v)) for (t, x), (u, v) in zip(d.items(), rows)),
             'all data is %s: %s' % (d, what))
