"""C36 metadata and tables of a store: what was saved last under a key is what is there."""
import copy
import os
import shutil
import tempfile
import pandas as pd
import boot
from common import prop, must, Invalid, T
boot.load()
from nilmtk.datastore import HDFDataStore, CSVDataStore

COLS = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
KINDS = ['root', 'building', 'put', 'append', 'remove', 'reopen', 'below', 'read']


def table(first, n):
    return pd.DataFrame([[float(first + i)] for i in range(n)], index=pd.DatetimeIndex([T(first + i) for i in range(n)], name='i'),
                        columns=COLS)


@prop('C36')
class Saved(object):
    @staticmethod
    def gen(g):
        bs = g.r.sample([1, 2, 3, 10, 11, 12, 21, 100], g.r.randint(1, 3))
        ops = []
        for _ in range(g.size(1, 9, 25)):
            k, b = g.choice(KINDS), g.choice(bs)
            op = dict(op=k, b=b, m=g.choice([1, 2, 10, 11, 20]))
            if k == 'root':
                op['md'] = dict(name=g.choice(['D', 'E']), n=g.r.randint(0, 9),
                                meter_devices={'dev': {'sample_period': g.r.randint(1, 9), 'l': [1, {'x': 2}]}})
            if k == 'building':
                op['md'] = dict(instance=b, note=g.r.randint(0, 9), appliances=[dict(type='fridge', instance=1, meters=[1])])
                if g.flag(0.8):
                    op['meters'] = [[i, g.r.randint(0, 9)] for i in g.r.sample([1, 2, 10, 11], g.r.randint(0, 3))]
            if k in ('put', 'append'):
                op['n'] = g.r.randint(2, 4)
            ops.append(op)
        return dict(csv=g.flag(0.6), ops=ops)

    @staticmethod
    def check(case):
        d = tempfile.mkdtemp(prefix='sm_')
        try:
            run(case, d)
        finally:
            shutil.rmtree(d, True)


def key_of(b, m):
    return '/building%d/elec/meter%d' % (b, m)


def run(case, d):
    csv = case['csv']
    path = os.path.join(d, 'store' if csv else 's.h5')
    st = CSVDataStore(path) if csv else HDFDataStore(path, 'w')
    md, tabs, nodes, clock = {}, {}, set(), 0
    try:
        for i, op in enumerate(case['ops']):
            k, b = op['op'], op['b']
            if k not in KINDS or b < 1 or op['m'] < 1 or (k in ('put', 'append') and op['n'] < 2):
                raise Invalid()
            bkey, key = '/building%d' % b, key_of(b, op['m'])
            what = 'step %d of %s' % (i, case)
            if k in ('root', 'building'):
                m = copy.deepcopy(op['md'])
                if k == 'root' and 'meter_devices' not in m:
                    raise Invalid()
                if k == 'building' and 'meters' in op:
                    m['elec_meters'] = dict((x, dict(tag=y, data_location=key_of(b, x))) for x, y in op['meters'])
                where = '/' if k == 'root' else bkey
                given = copy.deepcopy(m)
                st.save_metadata(where, given)
                must(given == m, 'saving changed the metadata given to %s: %s' % (given, what))
                md[where] = m
                if k == 'building' and not csv:
                    nodes.add((b,))
            elif k in ('put', 'append'):
                t = table(clock, op['n'])
                clock += op['n']
                (st.put if k == 'put' else st.append)(key, t)
                tabs[key] = pd.concat([tabs[key], t]) if k == 'append' and key in tabs else t
                nodes.update([(b,), (b, 'elec'), (b, 'elec', op['m'])])
            elif k == 'remove':
                if key not in tabs:
                    continue
                st.remove(key)
                del tabs[key]
                nodes.discard((b, 'elec', op['m']))
            elif k == 'reopen':
                st.close()
                if csv:
                    st = CSVDataStore(path)
                elif i % 2:
                    st = HDFDataStore(path, 'a')
                else:
                    st.open()
            # everything that is there, after every step
            for w in sorted(md):
                got = st.load_metadata(w)
                must(got == md[w], 'metadata at %s is %s, expected %s: %s' % (w, got, md[w], what))
                spoil(got)
            for t in sorted(tabs):
                got = pd.concat(list(st.load(t)))
                must(list(got.index) == list(tabs[t].index) and got.values.tolist() == tabs[t].values.tolist(),
                     'table %s has %s, expected %s: %s' % (t, got.values.tolist(), tabs[t].values.tolist(), what))
            if k == 'below':
                def below(*p):
                    return sorted(set(n[len(p)] for n in nodes if n[:len(p)] == p and len(n) > len(p)))
                must(sorted(st.elements_below_key('/')) == sorted('building%d' % x for x in below()),
                     'elements %s: %s' % (st.elements_below_key('/'), what))
                if (b,) in nodes:
                    must(sorted(st.elements_below_key(bkey)) == below(b), 'elements of %s: %s: %s'
                         % (bkey, st.elements_below_key(bkey), what))
                if (b, 'elec') in nodes:
                    must(sorted(st.elements_below_key(bkey + '/elec')) == sorted('meter%d' % x for x in below(b, 'elec')),
                         'elements of %s/elec: %s: %s' % (bkey, st.elements_below_key(bkey + '/elec'), what))
    finally:
        st.close()


def spoil(x):
    """what a reader may do with its copy"""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        del x[:]
