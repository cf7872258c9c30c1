"""C23 combining the meters of a group; C21 selecting, looking up and splitting meters."""
import contextlib
import io
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE, T
boot.load()
from nilmtk.timeframe import TimeFrame
from nilmtk import metergroup as MG

AVERAGED = ['voltage', 'pf', 'frequency', 'power factor', 'phase angle', 'phase_angle']
COLS = [('power', 'active'), ('power', 'reactive'), ('power', 'apparent'), ('voltage', ''), ('current', ''),
        ('frequency', ''), ('energy', 'active'), ('pf', ''), ('power factor', ''), ('phase_angle', '')]


class Meter(object):
    def __init__(self, chunks, name):
        self.chunks, self.identifier, self.kw = chunks, name, []

    def load(self, **kw):
        self.kw.append(kw)
        kw['sections'].append('used')       # a meter may use up its own arguments
        return iter(list(self.chunks))


def tup(c):
    c = tuple(c)
    if len(c) != 2:
        raise Invalid()
    return c


@prop('C23')
class Combine(object):
    @staticmethod
    def gen(g):
        n = g.size(0, 6, 30)
        cols = g.r.sample(COLS, g.r.randint(1, 4))
        meters = []
        for m in range(g.size(0, 4, 8)):
            k = g.r.random()
            if k < 0.1:
                meters.append(None)         # nothing to load
                continue
            mc = [c for c in cols if g.flag(0.8)] + ([g.choice(COLS)] if g.flag(0.2) else [])
            mc = list(dict.fromkeys(mc)) or [cols[0]]
            off = g.choice([0, 0, 0, -1, 1, 2])
            rows = [t + off for t in range(n) if g.flag(0.85)]
            vals = [[None if g.flag(0.2) else g.choice([0, 1, 2.5, 100, 230, -3]) for _ in mc] for _ in rows]
            a = g.r.randint(-3, 3)
            meters.append(dict(cols=mc, rows=rows, vals=vals, tf=[a, a + g.choice([0, 1, 5, 5])],
                               more=g.flag(0.2)))
        return dict(n=n, cols=cols, meters=meters, tz=g.choice([None, None, 'Europe/London', 'UTC']))

    @staticmethod
    def check(case):
        n, tz = case['n'], case.get('tz')
        cols = [tup(c) for c in case['cols']]
        if len(set(cols)) != len(cols) or not cols or n < 0:
            raise Invalid()
        index = pd.DatetimeIndex([T(i, tz) for i in range(n)])
        columns = pd.MultiIndex.from_tuples(cols, names=['physical_quantity', 'type'])
        total = {c: [[] for _ in range(n)] for c in cols}
        frames, meters = [], []
        for k, m in enumerate(case['meters']):
            if m is None:
                meters.append(Meter([], 'm%d' % k))
                continue
            mc = [tup(c) for c in m['cols']]
            rows, vals = m['rows'], m['vals']
            if len(set(mc)) != len(mc) or not mc or len(set(rows)) != len(rows) or len(vals) != len(rows) or \
                    any(len(v) != len(mc) for v in vals) or m['tf'][1] < m['tf'][0] or sorted(rows) != rows:
                raise Invalid()
            df = pd.DataFrame([[np.nan if x is None else float(x) for x in v] for v in vals],
                              index=pd.DatetimeIndex([T(i, tz) for i in rows]),
                              columns=pd.MultiIndex.from_tuples(mc, names=['physical_quantity', 'type']), dtype='float32')
            if m['tf'][0] < m['tf'][1]:
                df.timeframe = TimeFrame(T(m['tf'][0], tz), T(m['tf'][1], tz))
            else:                       # an empty one
                df.timeframe = TimeFrame(T(0), T(1)).intersection(TimeFrame(T(2), T(3)))
            more = pd.DataFrame([[1e6] * len(mc)] * n, index=index, columns=df.columns)
            more.timeframe = df.timeframe
            meters.append(Meter([df, more] if m.get('more') else [df], 'm%d' % k))
            if not rows or m['tf'][0] == m['tf'][1]:
                continue
            frames.append(m['tf'])
            for r, v in zip(rows, vals):
                for c, x in zip(mc, v):
                    if 0 <= r < n and c in total and x is not None:
                        total[c][r].append(float(x))
        kw = {'sections': ['s'], 'x': 1}
        with contextlib.redirect_stdout(io.StringIO()):
            out = MG.combine_chunks_from_generators(index, columns, meters, kw)
        what = str(case)
        must(kw == {'sections': ['s'], 'x': 1}, 'the arguments were changed: ' + what)
        must(all(len(m.kw) == 1 and m.kw[0] == {'sections': ['s', 'used'], 'x': 1} for m in meters),
             'each meter is loaded once with the arguments: ' + what)
        must(list(out.columns) == cols and list(out.index) == list(index), 'index or columns differ: ' + what)
        for c in cols:
            for i in range(n):
                got, l = out[c].iloc[i], total[c][i]
                if not l:
                    must(got != got, '%s at row %d is %s, but no meter has a value: %s' % (c, i, got, what))
                    continue
                exp = sum(l) / (len(l) if c[0] in AVERAGED else 1)
                must(abs(got - exp) <= 1e-3 * max(1, abs(exp)), '%s at row %d is %s, expected %s of %s: %s'
                     % (c, i, got, exp, l, what))
        tf = out.timeframe
        if not frames:
            must(tf is None or not tf, 'a time frame without data: ' + what)
            return
        lo, hi = min(f[0] for f in frames), max(f[1] for f in frames)
        must(tf.start == T(lo, tz) and tf.end == T(hi, tz), 'time frame %s, expected %s to %s: %s' % (tf, lo, hi, what))


class Source(object):
    """a meter by its contract: load() gives the samples of the section it is asked for, on the grid"""

    def __init__(self, name, spec, tz, base):
        self.identifier, self.spec, self.tz, self.base = name, spec, tz, base
        self.asked = []

    def sample_period(self):
        return self.spec['period']

    def get_timeframe(self):
        a, b = self.spec['tf']
        if a == b:
            return TimeFrame(T(0), T(1)).intersection(TimeFrame(T(2), T(3)))
        return TimeFrame(self.base + pd.Timedelta(seconds=a), self.base + pd.Timedelta(seconds=b))

    def _convert_physical_quantity_and_ac_type_to_cols(self, **kw):
        kw['columns'] = [tup(c) for c in self.spec['cols'] if tup(c)[0] == kw.get('physical_quantity', 'power')]
        return kw

    def value(self, t):
        k = int((t - self.base).total_seconds())
        return np.nan if self.spec['gap'] and k % self.spec['gap'] == 0 else float(k % 7 + self.spec['lvl'])

    def load(self, **kw):
        secs = kw['sections']
        self.asked.append((secs, kw))
        p = kw['sample_period']
        cols = self._convert_physical_quantity_and_ac_type_to_cols(**kw)['columns']
        a, b = self.spec['tf']
        for s in secs:
            lo, hi = max(s.start, self.base + pd.Timedelta(seconds=a)), min(s.end, self.base + pd.Timedelta(seconds=b))
            rows = [t for t in grid(lo, hi, p)] if lo < hi else []
            df = pd.DataFrame([[self.value(t)] * len(cols) for t in rows], index=pd.DatetimeIndex(rows),
                              columns=pd.MultiIndex.from_tuples(cols) if cols else None)
            df.timeframe = s
            yield df


def grid(a, b, p):
    """times of the grid of p seconds (counted from midnight) whose bins meet [a, b)"""
    if not a < b:
        return []
    t = a.normalize()
    t += pd.Timedelta(seconds=p) * ((a - t) // pd.Timedelta(seconds=p))
    out = []
    while t < b:
        out.append(t)
        t += pd.Timedelta(seconds=p)
    return out


@prop('C23')
class Load(object):
    every = 3

    @staticmethod
    def gen(g):
        ms = []
        for m in range(g.size(1, 3, 5)):
            a = g.r.randint(-20, 20)
            ms.append(dict(period=g.choice([1, 2, 5, 10, 60]), tf=[a, a + g.choice([0, 0, 5, 30, 100])],
                           cols=g.r.sample(COLS[:4], g.r.randint(1, 3)), gap=g.choice([0, 2, 3, 5]), lvl=g.r.randint(0, 9)))
        secs, a = [], g.r.randint(-10, 10)
        for _ in range(g.r.randint(0, 3)):
            b = a + g.choice([1, 10, 25, 60, 61, 120])
            secs.append([a, b])
            a = b + g.choice([0, 1, 30])
        return dict(meters=ms, sections=g.choice([None, secs, secs]), chunksize=g.choice([None, None, 1, 2, 5, 100]),
                    period=g.choice([None, None, 1, 5, 60]), tz=g.choice([None, 'UTC', 'Europe/London']),
                    base=g.choice(['2013-01-01 12:00', '2013-10-27 00:59:40', '2013-10-27 00:00', '2013-03-31 00:59:50',
                                   '2013-10-26 23:59:50']), pq=g.choice([None, None, 'voltage']))

    @staticmethod
    def check(case):
        tz = case.get('tz')
        base = pd.Timestamp(case['base'], tz='UTC')
        base = base.tz_convert(tz) if tz else base.tz_localize(None)
        ms = case['meters']
        if not ms or any(m['period'] <= 0 or m['tf'][1] < m['tf'][0] or not m['cols'] for m in ms):
            raise Invalid()
        meters = [Source('m%d' % k, m, tz, base) for k, m in enumerate(ms)]
        kw = {}
        full = [m['tf'] for m in ms if m['tf'][0] < m['tf'][1]]
        at = lambda x: base + pd.Timedelta(seconds=x)
        if case.get('sections') is not None:
            secs = case['sections']
            if any(b <= a for a, b in secs):
                raise Invalid()
            kw['sections'] = [TimeFrame(at(a), at(b)) for a, b in secs]
            secs = [[at(a), at(b)] for a, b in secs]
        else:
            secs = [[at(min(f[0] for f in full)), at(max(f[1] for f in full))]] if full else []
        for k in ('chunksize', 'period', 'pq'):
            if case.get(k) is not None:
                kw[dict(period='sample_period', pq='physical_quantity').get(k, k)] = case[k]
        p = case.get('period') or max(m['period'] for m in ms)
        pq = case.get('pq') or 'power'
        cols = sorted({tup(c) for m in ms for c in m['cols'] if tup(c)[0] == pq})
        if not cols or p <= 0:
            raise Invalid()
        what = str(case)
        with contextlib.redirect_stdout(io.StringIO()):
            grp = MG.MeterGroup(meters)
            out = list(grp.load(**kw))
            tf = grp.get_timeframe()
        if full:
            must(tf.start == at(min(f[0] for f in full)) and tf.end == at(max(f[1] for f in full)),
                 'the time frame of the group is %s: %s' % (tf, what))
        if not secs:
            must(len(out) == 1 and len(out[0]) == 0 and sorted(out[0].columns) == cols,
                 'without sections, one empty chunk is expected: ' + what)
            return
        pieces = []
        for a, b in secs:
            step = pd.Timedelta(seconds=p * case['chunksize']) if case.get('chunksize') else b - a
            while a < b:
                pieces.append((a, min(b, a + step)))
                a = pieces[-1][1]
        must(len(out) == len(pieces), '%d chunks, expected %d: %s' % (len(out), len(pieces), what))
        for m in meters:
            must(len(m.asked) == len(pieces) and all(
                len(s) == 1 and s[0].start == a and s[0].end == b and k['sample_period'] == p and
                'chunksize' not in k for (s, k), (a, b) in zip(m.asked, pieces)),
                'the sections asked of a meter are not those of the chunks: ' + what)
        for df, (a, b) in zip(out, pieces):
            exp = grid(a, b, p)
            must(list(df.index) == exp, 'index of chunk %s to %s is %s: %s' % (a, b, list(df.index)[:3], what))
            must(sorted(df.columns) == cols, 'columns %s: %s' % (list(df.columns), what))
            for c in cols:
                for t, got in zip(exp, df[c]):
                    l = [m.value(t) for m in meters if c in [tup(x) for x in m.spec['cols']] and
                         t in grid(max(a, at(m.spec['tf'][0])), min(b, at(m.spec['tf'][1])), p)]
                    l = [x for x in l if x == x]
                    e = sum(l) / (len(l) if c[0] in AVERAGED else 1) if l else None
                    must(got != got if e is None else abs(got - e) <= 1e-3, '%s at %s is %s, expected %s: %s'
                         % (c, t, got, e, what))


# ---------------------------------------------------------------- C21
import nilmtk
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.appliance import Appliance
from nilmtk.metergroup import MeterGroup, MeterGroupID

TYPES = {
    'fridge': dict(categories={'traditional': 'cold'}, synonyms=['cooler'], control=['timer', 'manual']),
    'kettle': dict(categories={'traditional': 'cooking', 'size': 'small'}, control=['manual']),
    'freezer': dict(categories={'traditional': 'cold'}, synonyms=[]),
}
DEVICES = {'dev1': dict(sample_period=6, tags=['a', 'b'], model='dev1'),
           'dev2': dict(sample_period=1, model='dev2', wireless=True)}


def flat(x):
    return [b for a in x for b in ([a] if isinstance(a, str) else a)]


def app_matches(md, key):
    """None: some key is not known for the appliance"""
    ok = True
    for k, v in key.items():
        t = TYPES.get(md.get('type'))
        if k in ('type', 'instance'):
            names = [md.get(k)] + ((t or {}).get('synonyms', []) if k == 'type' else [])
            if k == 'type' and t is None:
                return None
            ok &= v in names
        elif k in md:
            ok &= md[k] == v
        elif t is None:
            return None
        elif k == 'category':
            ok &= v in flat(t['categories'].values())
        elif k in t:
            x = t[k]
            ok &= (v in x) if isinstance(x, list) and not isinstance(v, list) else x == v
        else:
            return None
    return ok


def meter_matches(m, key, appliances=False):
    if 'group' in m:
        if appliances:
            return one_of([app_matches(a, key) for x in m['group'] for a in x['apps']])
        return one_of([meter_matches(x, key) for x in m['group']])
    if appliances:
        return one_of([app_matches(a, key) for a in m['apps']])
    ok = True
    d = DEVICES.get(m.get('device'), {})
    for k, v in key.items():
        if k in ('instance', 'building', 'dataset'):
            ok &= m[k] == v
        elif k in m['md']:
            ok &= m['md'][k] == v
        elif k in d:
            x = d[k]
            ok &= (v in x) if isinstance(x, list) and not isinstance(v, list) else x == v
        else:
            return None
    return ok


def one_of(l):
    if any(l):
        return True
    return None if l and all(x is None for x in l) else False


def build(m):
    if 'group' in m:
        return MeterGroup([build(x) for x in m['group']])
    md = dict(m['md'])
    if m.get('device'):
        md['device_model'] = m['device']
    if m.get('site'):
        md['site_meter'] = True
    e = ElecMeter(metadata=md, meter_id=ElecMeterID(m['instance'], m['building'], m['dataset']))
    e.appliances = [Appliance(dict(a)) for a in m['apps']]
    return e


def gen_meter(g, inst, b=None):
    return dict(instance=inst, building=b or g.choice([1, 1, 1, 2]), dataset=g.choice(['REDD', 'REDD', 'X']),
                device=g.choice([None, 'dev1', 'dev2', 'dev1']), site=g.flag(0.25),
                md={k: v for k, v in dict(room=g.choice(['kitchen', 'bath']), floor=g.r.randint(0, 1), index=3).items() if g.flag(0.6)},
                apps=[dict([('type', g.choice(['fridge', 'kettle', 'freezer', 'odd'])), ('instance', g.r.randint(1, 2))] +
                           [(k, v) for k, v in [('room', g.choice(['kitchen', 'bath'])), ('on', 5), ('count', 2)] if g.flag(0.5)])
                      for _ in range(g.choice([0, 1, 1, 2, 3]))])


def same_apps(ms, known=None):
    """an appliance (type, instance) has the same metadata wherever it is listed"""
    known = {} if known is None else known
    for m in ms:
        for x in m.get('group', [m]):
            x['apps'] = [known.setdefault((a['type'], a['instance']), a) for a in x['apps']]
            x['apps'] = [a for i, a in enumerate(x['apps']) if a not in x['apps'][:i]]
    return ms


def apps_ok(ms):
    known = {}
    return all(known.setdefault((a['type'], a['instance']), a) == a for m in ms for x in m.get('group', [m])
               for a in x['apps'])


def gen_meters(g, n=None):
    ms, b = [], g.choice([None, 1])
    for i in range(g.size(0, 4, 7) if n is None else n):
        if g.flag(0.2):
            grp = [gen_meter(g, 10 * (i + 1) + j, b) for j in range(g.r.randint(1, 3))]
            ms.append(dict(group=grp))
        else:
            ms.append(gen_meter(g, i + 1, b))
    if ms and g.flag(0.25):
        x = dict(g.choice(ms))
        if 'instance' in x:
            x['building'] = x['building'] + 1
            ms.append(x)
        else:
            ms.insert(g.r.randint(0, len(ms)), dict(group=[dict(y, building=y['building'] + 1) for y in x['group']]))
    return same_apps(ms)


CRITERIA = [('room', ['kitchen', 'bath', 'x']), ('floor', [0, 1]), ('building', [1, 2]), ('instance', [1, 2, 11]),
            ('dataset', ['REDD', 'X']), ('sample_period', [1, 6]), ('tags', ['a', 'b', 'z']), ('wireless', [True]),
            ('index', [3, 4]), ('none', [1])]
APP = [('type', ['fridge', 'cooler', 'kettle', 'freezer', 'zz']), ('instance', [1, 2]), ('room', ['kitchen', 'bath']),
       ('category', ['cold', 'cooking', 'small', 'x']), ('control', ['timer', 'manual']), ('on', [5, 6]), ('count', [1, 2]), ('nope', [1])]


def ident(m):
    if 'group' in m:
        return tuple(sorted(ident(x) for x in m['group']))
    return m['instance'], m['building'], m['dataset']


def got_ident(e):
    if isinstance(e, MeterGroup):
        return tuple(sorted(got_ident(x) for x in e.meters))
    return tuple(e.identifier)


def fresh():
    nilmtk.global_meter_group.meters.clear()
    Appliance.appliance_types = TYPES
    ElecMeter.meter_devices.clear()
    ElecMeter.meter_devices.update(DEVICES)


def quiet(f):
    import warnings
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f(), None
        except Exception as e:
            return None, e


@prop('C21')
class Select(object):
    @staticmethod
    def gen(g):
        pool, func = (APP, 'app') if g.flag() else (CRITERIA, 'meter')
        if g.flag(0.4):
            k, vs = g.choice(pool)
            crit = {k: [g.choice(vs) for _ in range(g.r.randint(1, 3))]}
        else:
            crit = {k: g.choice(vs) for k, vs in g.r.sample(pool, g.r.randint(1, 2))}
        return dict(meters=gen_meters(g), crit=crit, func=func)

    @staticmethod
    def check(case):
        fresh()
        ms, crit, app = case['meters'], case['crit'], case['func'] == 'app'
        if len(set(ident(m) for m in ms)) != len(ms) or not crit or not apps_ok(ms):
            raise Invalid()
        real, _ = quiet(lambda: [build(m) for m in ms])
        grp = MeterGroup(real)
        fn = grp.select_using_appliances if app else grp.select
        out, err = quiet(lambda: fn(**crit))
        what = str(case)
        (k, v), = list(crit.items())[:1]
        keys = [{k: x} for x in v] if len(crit) == 1 and isinstance(v, list) else [crit]
        hits = [[bool(meter_matches(m, key, app)) for m in ms] for key in keys]
        if not all(any(h) for h in hits):
            must(isinstance(err, KeyError), 'nothing matches, expected KeyError, got %r %r: %s' % (out, err, what))
            return
        exp = sorted(str(ident(m)) for i, m in enumerate(ms) if any(h[i] for h in hits))
        must(err is None, 'raised %r, expected %s: %s' % (err, exp, what))
        must(isinstance(out, MeterGroup) and all(any(x is y for y in real) for x in out.meters),
             'the result holds something else than meters of the group: ' + what)
        must(sorted(str(got_ident(x)) for x in out.meters) == exp, 'selected %s, expected %s: %s'
             % ([got_ident(x) for x in out.meters], exp, what))
        must(all(a is b for a, b in zip(grp.meters, real)) and len(grp.meters) == len(real), 'the group changed: ' + what)


@prop('C21')
class Sets(object):
    @staticmethod
    def gen(g):
        a = gen_meters(g)
        b = gen_meters(g, g.r.randint(0, 3))
        for x in a:
            if g.flag(0.3):
                b.append(x)
        g.r.shuffle(b)
        return dict(meters=a, other=b, disabled=[gen_meter(g, 50 + i, 1) for i in range(g.r.randint(0, 3))])

    @staticmethod
    def check(case):
        fresh()
        a, b = case['meters'], case['other']
        dis = case.get('disabled', [])
        if len(set(ident(m) for m in a)) != len(a) or len(set(ident(m) for m in b)) != len(b) or \
                {ident(m) for m in a} & {ident(m) for m in dis} or len(set(ident(m) for m in dis)) != len(dis):
            raise Invalid()
        what = str(case)
        (ra, rb, rd), err = quiet(lambda: ([build(m) for m in a], [build(m) for m in b], [build(m) for m in dis]))
        ga, gb = MeterGroup(ra, rd), MeterGroup(rb)
        u = ga.union(gb)
        must(sorted(str(got_ident(x)) for x in u.meters) == sorted(str(x) for x in {ident(m) for m in a + b}),
             'union holds %s: %s' % ([got_ident(x) for x in u.meters], what))
        must(len(ga.meters) == len(a) and len(gb.meters) == len(b), 'union changed a group: ' + what)
        _, e = quiet(lambda: ga.union([]))
        must(isinstance(e, TypeError), 'union with something else than a group: ' + what)
        rev = MeterGroup(list(reversed(ra)), [])
        must(rev == ga and hash(rev) == hash(ga), 'equal groups have different hashes: ' + what)
        must((ga == gb) == ({ident(m) for m in a} == {ident(m) for m in b}) and (ga != gb) == (not ga == gb),
             'equality of groups: ' + what)
        site = lambda m: any(x.get('site') for x in m['group']) if 'group' in m else bool(m.get('site'))
        subs = ga.submeters()
        must(sorted(str(got_ident(x)) for x in subs.meters) == sorted(str(ident(m)) for m in a if not site(m)),
             'submeters are %s: %s' % ([got_ident(x) for x in subs.meters], what))
        top = [m for m in a if site(m)]
        bs = {x['building'] for m in a for x in m.get('group', [m])}
        mains, e = quiet(ga.mains)
        if len(bs) > 1:
            must(isinstance(e, RuntimeError), 'mains of several buildings: ' + what)
        else:
            must(e is None, 'mains raised %r: %s' % (e, what))
            if not top:
                must(mains is None, 'mains without site meters: ' + what)
            elif len(top) == 1:
                must(got_ident(mains) == ident(top[0]) and any(mains is x for x in ra), 'mains is %r: %s' % (mains, what))
            else:
                must(isinstance(mains, MeterGroup) and [got_ident(x) for x in mains.meters] == [ident(m) for m in top],
                     'mains are %r: %s' % (mains, what))
        must(bool(ga.is_site_meter()) == bool(top), 'is_site_meter: ' + what)
        must([got_ident(x) for x in ga.all_meters()] == [ident(m) for m in a + dis], 'all_meters: ' + what)
        alt = [m for m in dis if site(m)]
        _, e = quiet(ga.use_alternative_mains)
        if not alt:
            must(isinstance(e, RuntimeError), 'no alternative mains: ' + what)
            ea, ed = a, dis
        else:
            must(e is None, 'use_alternative_mains raised %r: %s' % (e, what))
            ea = [m for m in a if not site(m)] + alt
            ed = [m for m in dis if not site(m)] + top
        must(sorted(str(got_ident(x)) for x in ga.meters) == sorted(str(ident(m)) for m in ea),
             'meters after the swap are %s: %s' % ([got_ident(x) for x in ga.meters], what))
        must(sorted(str(got_ident(x)) for x in ga.disabled_meters) == sorted(str(ident(m)) for m in ed),
             'disabled meters after the swap are %s: %s' % ([got_ident(x) for x in ga.disabled_meters], what))


@prop('C21')
class Lookup(object):
    @staticmethod
    def gen(g):
        ms = gen_meters(g)
        leaves = [x for m in ms for x in m.get('group', [m])]
        pick = lambda: g.choice(leaves) if leaves else dict(instance=1, building=1, dataset='REDD')
        groups = [m['group'] for m in ms if 'group' in m]
        kind = g.choice(['int', 'id', 'id0', 'group', 'list', 'tupid', 'app', 'dict', 'three', 'two', 'from_list', 'str', 'bad'])
        x = pick()
        gg = g.choice(groups) if groups and g.flag(0.8) else [pick()]
        gg = list(gg)
        g.r.shuffle(gg)
        if g.flag(0.15):
            gg = gg[:-1] or gg
        inst = x['instance'] if g.flag(0.85) else 99
        key = dict(kind=kind, id=[inst, x['building'], x['dataset']], group=[list(ident(y)) for y in gg],
                   app=g.choice(['fridge', 'kettle', 'freezer', 'cooler']), n=g.choice([1, 1, 2]),
                   room=g.choice(['kitchen', 'bath']),
                   many=[[list(ident(y)) for y in m['group']] if 'group' in m else list(ident(m))
                         for m in ms if g.flag(0.6)])
        return dict(meters=ms, key=key)

    @staticmethod
    def check(case):
        fresh()
        ms, key = case['meters'], case['key']
        if len(set(ident(m) for m in ms)) != len(ms) or not apps_ok(ms):
            raise Invalid()
        what = str(case)
        real, _ = quiet(lambda: [build(m) for m in ms])
        grp = MeterGroup(real)
        eid = ElecMeterID(*key['id'])
        gids = tuple(ElecMeterID(*x) for x in key['group'])
        kind = key['kind']
        byid = [i for i, m in enumerate(ms) if 'group' not in m and ident(m) == tuple(key['id'])]
        bygroup = [i for i, m in enumerate(ms) if 'group' in m and {ident(x) for x in m['group']} == set(map(tuple, key['group']))]
        NO = KeyError

        def one(l, err=KeyError):
            return [real[l[0]]] if l else NO
        if kind == 'int':
            k = eid.instance
            out, e = quiet(lambda: grp[k])
            exp = []
            for i, m in enumerate(ms):
                if 'group' in m:
                    s = [r for r, x in zip(real[i].meters, m['group']) if x['instance'] == k]
                    exp += s
                elif m['instance'] == k:
                    exp.append(real[i])
            if len(exp) > 1:
                must(e is not None, 'ambiguous instance, got %r: %s' % (out, what))
                return
            exp = exp or NO
        elif kind in ('id', 'three'):
            k = eid if kind == 'id' else tuple(eid)
            out, e = quiet(lambda: grp[k])
            exp = one(byid)
        elif kind == 'id0':
            out, e = quiet(lambda: grp[eid._replace(instance=0)])
            sel = [m for m in ms if meter_matches(m, dict(building=eid.building, dataset=eid.dataset))]
            if any(len({x['building'] for x in m.get('group', [m])}) > 1 for m in sel) or \
                    len({x['building'] for m in sel for x in m.get('group', [m])}) > 1:
                return
            site = [m for m in sel if any(x.get('site') for x in m.get('group', [m]))]
            if not sel:
                exp = NO
            else:
                must(e is None, '%r: %s' % (e, what))
                l = [] if out is None else [got_ident(x) for x in out.meters] if len(site) > 1 else [got_ident(out)]
                must(l == [ident(m) for m in site], 'mains are %r: %s' % (out, what))
                return
        elif kind == 'group':
            out, e = quiet(lambda: grp[MeterGroupID(meters=gids)])
            exp = one(bygroup)
        elif kind == 'list':
            out, e = quiet(lambda: grp[list(gids)])
            exp = one(bygroup)
        elif kind == 'tupid':
            b, d = {x[1] for x in key['group']}, {x[2] for x in key['group']}
            if len(b) > 1 or len(d) > 1:
                return
            k = ElecMeterID(tuple(x[0] for x in key['group']), min(b), min(d))
            out, e = quiet(lambda: grp[k])
            exp = one(bygroup)
        elif kind in ('app', 'dict', 'str'):
            k = {'type': key['app'], 'instance': key['n'] if kind != 'str' else 1}
            if kind == 'dict':
                k['room'] = key['room']
            out, e = quiet(lambda: grp[k] if kind == 'dict' else grp[(key['app'], key['n'])] if kind == 'app' else grp[key['app']])
            l = [r for r, m in zip(real, ms) if meter_matches(m, k, True)]
            if len(l) > 1:
                must(e is not None, 'ambiguous appliance, got %r: %s' % (out, what))
                return
            exp = l or NO
        elif kind == 'two':
            ids = [eid] + [ElecMeterID(*ident(m)) for m in ms if 'group' not in m][:1]
            if len(ids) < 2:
                return
            out, e = quiet(lambda: grp[tuple(ids)])
            if not byid:
                exp = NO
            else:
                must(e is None and isinstance(out, MeterGroup) and [got_ident(x) for x in out.meters] ==
                     [tuple(i) for i in ids], 'two ids give %r %r: %s' % (out, e, what))
                return
        elif kind == 'from_list':
            ids, exp = [], []
            for x in key['many']:
                if x and isinstance(x[0], list):
                    ids.append(MeterGroupID(meters=tuple(ElecMeterID(*y) for y in x)))
                    exp.append(tuple(sorted(tuple(y) for y in x)))
                else:
                    ids.append(ElecMeterID(*x))
                    exp.append(tuple(x))
            have = {ident(m) for m in ms}
            if any(x not in have for x in exp):
                return
            out, e = quiet(lambda: grp.from_list(ids + ids[:1]))
            must(e is None and [got_ident(x) for x in out.meters] == exp and
                 all(any(x is y for y in real) for x in out.meters), 'from_list gives %r %r, expected %s: %s'
                 % (out, e, exp, what))
            return
        else:
            for k in (1.5, None, True, (1, 2, 3, 4)):
                out, e = quiet(lambda: grp[k])
                must(isinstance(e, TypeError), 'key %r gives %r %r: %s' % (k, out, e, what))
            return
        if exp is NO:
            must(isinstance(e, KeyError), 'lookup finds %r %r, expected KeyError: %s' % (out, e, what))
        else:
            must(e is None and out is exp[0], 'lookup gives %r %r, expected %r: %s' % (out, e, exp[0], what))
