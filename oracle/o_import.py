"""C35 opening a data set builds the described buildings, meters and appliances."""
import copy
import boot
from common import prop, must, Invalid
nilmtk = boot.load()
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup
from nilmtk.dataset import DataSet

TYPES = ['fridge', 'kettle', 'light', 'washing machine', 'oven', 'television']


class Store(object):
    """the metadata of a data set; nothing else is asked for"""

    def __init__(self, spec):
        dev, period = device(spec['name'])
        self.md = {'/': {'meter_devices': {dev: {'sample_period': period, 'model': dev}}}}
        if spec['name'] is not None:
            self.md['/']['name'] = spec['name']
        for b in spec['buildings']:
            m = {'instance': b['instance'], 'note': 'n%d' % b['instance']}
            if b['own'] is not None:
                m['dataset'] = b['own']
            if b['meters'] or not b.get('leave'):
                m['elec_meters'] = dict((x['i'], meter_md(x, b, dev)) for x in b['meters'])
            if b['appliances'] or not b.get('leave'):
                m['appliances'] = [dict(type=a['type'], instance=a['n'], meters=list(a['meters']))
                                   for a in b['appliances']]
            self.md['/building%d' % b['instance']] = m

    def load_metadata(self, key='/'):
        return copy.deepcopy(self.md[key])

    def elements_below_key(self, key='/'):
        return [k[1:] for k in self.md if k != '/'][::-1]


def device(name):
    return {'D': ('d1', 6), 'E': ('d2', 10)}.get(name, ('d3', 1))


def meter_md(x, b, dev):
    md = {'device_model': dev, 'data_location': '/building%d/elec/meter%d' % (b['instance'], x['i']), 'tag': x['tag']}
    if x['up'] is None:
        md['site_meter'] = True
    else:
        md['submeter_of'] = x['up']
    if x['disabled'] is not None:
        md['disabled'] = x['disabled']
    return md


def gen_building(g, instance):
    n = g.size(0, 5, 12)
    ids = g.r.sample(range(1, n + 8), n)
    meters = []
    for k, i in enumerate(ids):
        up = None if k == 0 or g.flag(0.15) else g.choice([0] + ids[:k])
        meters.append(dict(i=i, up=up, tag=g.r.randint(0, 9),
                           disabled=True if g.flag(0.15) else g.choice([None, None, False])))
    g.r.shuffle(meters)
    free = [m['i'] for m in meters if not m['disabled']]
    g.r.shuffle(free)
    apps, count = [], {}

    def add(ms):
        t = g.choice(TYPES)
        count[t] = count.get(t, 0) + 1
        apps.append(dict(type=t, n=count[t], meters=ms))
    single = list(ids)
    while len(free) > 1 and g.flag(0.4):
        ms = [free.pop() for _ in range(g.r.randint(2, min(3, len(free))))]
        add(ms)
        single = [i for i in single if i not in ms]
    mains = [m for m in meters if m['up'] is None]
    for _ in range(g.size(0, 4, 10)):
        if g.flag(0.2) and mains and all(m['i'] in single for m in mains):
            add([0])
        elif single:
            add([g.choice(single)])
    g.r.shuffle(apps)
    return dict(instance=instance, own=g.choice([None, None, None, 'own']), meters=meters, appliances=apps,
                leave=g.flag(0.3))


@prop('C35')
class Open(object):
    @staticmethod
    def gen(g):
        sets = []
        for k in range(g.r.randint(1, 3)):
            if sets and g.flag(0.5):
                s = copy.deepcopy(g.choice(sets))       # the same data set opened again, perhaps changed
                if g.flag(0.5):
                    for b in s['buildings']:
                        for m in b['meters']:
                            m['tag'] = g.r.randint(0, 9)
            else:
                s = dict(name=g.choice(['D', 'D', 'E', None]),
                         buildings=[gen_building(g, i) for i in g.r.sample(range(1, 13), g.r.randint(0, 3))])
            sets.append(s)
        return dict(sets=sets)

    @staticmethod
    def check(case):
        sets = case['sets']
        for s in sets:
            check_spec(s)
        nilmtk.global_meter_group.meters.clear()
        ElecMeter.meter_devices.clear()
        opened = []
        for s in sets:
            store = Store(s)
            ds = DataSet()
            must(ds.import_metadata(store) is ds, 'import_metadata gives the data set')
            opened.append((s, store, ds))
        for s, store, ds in opened:
            check_set(s, store, ds, str(case))
        nilmtk.global_meter_group.meters.clear()


def check_spec(s):
    bi = [b['instance'] for b in s['buildings']]
    if len(set(bi)) != len(bi) or any(not isinstance(i, int) or i < 1 for i in bi):
        raise Invalid()
    for b in s['buildings']:
        ids = [m['i'] for m in b['meters']]
        if len(set(ids)) != len(ids) or any(i < 1 for i in ids):
            raise Invalid()
        up = dict((m['i'], m['up']) for m in b['meters'])
        mains = [i for i in ids if up[i] is None]
        for i in ids:
            if up[i] not in (None, 0) and (up[i] not in up or up[i] == i):
                raise Invalid()
        if ids and not mains:
            raise Invalid()
        names = [(a['type'], a['n']) for a in b['appliances']]
        multi = [i for a in b['appliances'] if len(a['meters']) > 1 for i in a['meters']]
        single = [i for a in b['appliances'] if len(a['meters']) == 1 for i in a['meters']]
        off = [m['i'] for m in b['meters'] if m['disabled']]
        if len(set(names)) != len(names) or any(a['type'] not in TYPES or not a['meters'] for a in b['appliances']) or \
                len(set(multi)) != len(multi) or set(multi) & (set(single) | set(off) | {0}) or \
                any(i not in ids for i in multi) or any(i not in ids and i != 0 for i in single):
            raise Invalid()
        if 0 in single and (not mains or set(multi) & set(mains)):
            raise Invalid()


def flat(meters):
    for m in meters:
        if isinstance(m, MeterGroup):
            for x in flat(m.meters):
                yield x
        else:
            yield m


def check_set(s, store, ds, what):
    must(ds.store is store, 'the store: ' + what)
    must(ds.metadata == store.md['/'], 'the metadata %s: %s' % (ds.metadata, what))
    must(sorted(ds.buildings) == sorted(b['instance'] for b in s['buildings']),
         'buildings %s: %s' % (list(ds.buildings), what))
    for b in s['buildings']:
        building = ds.buildings[b['instance']]
        name = b['own'] if b['own'] is not None else s['name']
        w = 'building %d of %s' % (b['instance'], what)
        must(building.identifier == (b['instance'], name), 'identifier %s of %s' % (building.identifier, w))
        must(building.metadata == {'instance': b['instance'], 'note': 'n%d' % b['instance'], 'dataset': name},
             'metadata %s of %s' % (building.metadata, w))
        check_elec(b, name, store, building.elec, w, device(s['name']))


def check_elec(b, name, store, elec, w, dev):
    spec = dict((m['i'], m) for m in b['meters'])
    multi = [a['meters'] for a in b['appliances'] if len(a['meters']) > 1]
    nested = [i for l in multi for i in l]
    off = [m['i'] for m in b['meters'] if m['disabled']]
    direct = [m['i'] for m in b['meters'] if m['i'] not in nested and m['i'] not in off]
    got = [m for m in elec.meters if isinstance(m, ElecMeter)]
    groups = [m for m in elec.meters if isinstance(m, MeterGroup)]
    must(len(got) + len(groups) == len(elec.meters), 'neither meter nor group in ' + w)
    must(sorted(m.instance() for m in got) == sorted(direct), 'meters %s, expected %s in %s'
         % ([m.instance() for m in got], direct, w))
    must(sorted(tuple(x.instance() for x in m.meters) for m in groups) == sorted(map(tuple, multi)),
         'groups %s, expected %s in %s' % ([[x.instance() for x in m.meters] for m in groups], multi, w))
    must(sorted(m.instance() for m in elec.disabled_meters) == sorted(off), 'disabled meters %s, expected %s in %s'
         % ([m.instance() for m in elec.disabled_meters], off, w))
    every = list(flat(elec.meters)) + list(elec.disabled_meters)
    by = dict((m.instance(), m) for m in every)
    sites = set(i for i in spec if spec[i]['up'] is None)
    for m in every:
        x = spec[m.instance()]
        must(m.identifier == ElecMeterID(x['i'], b['instance'], name), 'identifier %s in %s' % (m.identifier, w))
        must(m.store is store, 'meter %d has another store in %s' % (x['i'], w))
        must(m.metadata == meter_md(x, b, dev[0]), 'metadata %s of meter %d in %s' % (m.metadata, x['i'], w))
        must(m.sample_period() == dev[1], 'device of meter %d in %s' % (x['i'], w))
        exp = [(a['type'], a['n']) for a in b['appliances']
               if x['i'] in a['meters'] or (a['meters'] == [0] and x['i'] in sites)]
        found = [tuple(a.identifier) for a in m.appliances]
        must(sorted(found) == sorted(exp), 'meter %d has appliances %s, expected %s in %s' % (x['i'], found, exp, w))
        for a in m.appliances:
            must(a.metadata.get('building') == b['instance'] and a.metadata.get('dataset') == name,
                 'appliance %s says building %s of %s in %s' % (tuple(a.identifier), a.metadata.get('building'),
                                                               a.metadata.get('dataset'), w))
    for a in b['appliances']:           # one object per appliance, wherever it is attached
        objs = set(id(o) for m in every for o in m.appliances if tuple(o.identifier) == (a['type'], a['n']))
        must(len(objs) == 1, 'appliance %s is there %d times in %s' % (a, len(objs), w))
    # upstream: by the metadata, in the same opened data set
    for i, m in by.items():
        up = spec[i]['up']
        r = m.upstream_meter(raise_warning=False)
        if up is None:
            must(r is None, 'upstream meter of the site meter %d is %s in %s' % (i, r, w))
        elif up != 0:
            must(r is by[up], 'upstream meter of %d is %s (own data set: %s, its tag %s), expected meter %d in %s'
                 % (i, r, getattr(r, 'store', None) is store, getattr(r, 'metadata', {}).get('tag'), up, w))
        else:
            l = list(flat([r])) if r is not None else []
            must(sorted(x.instance() for x in l) == sorted(sites) and all(x is by[x.instance()] for x in l),
                 'upstream of %d (the site) is %s in %s' % (i, [(x.instance(), x is by.get(x.instance())) for x in l], w))
