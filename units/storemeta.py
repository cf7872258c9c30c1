"""Contracts of the metadata of a store and of what is listed below a key (C36)."""
import posixpath
import z3
from vc import core
from vc.core import VNum, Unsupported, lift
from vc.loops import LoopSpec
from vc.models import note, used, ShimModule
from vc.fold import Picked
from vc.seqs import SymIter, VList
from vc.unit import unit
from units.shares import Mapped

I, B = z3.IntSort(), z3.BoolSort()
HD = 'nilmtk/datastore/hdfdatastore.py:HDFDataStore.'
CS = 'nilmtk/datastore/csvdatastore.py:CSVDataStore.'
note('PyTables nodes', 'a node keeps the attributes given to it, across reopening the file; get_node gives the node at a path or None; '
     'create_group makes the node at a path, and those above it when asked to; _v_children holds the nodes right below')
note('yaml', 'loading a yaml file gives a new copy of the metadata that was dumped to it')
note('deepcopy', 'deepcopy gives a copy that shares nothing with the original')


class Meta(object):
    """arbitrary metadata"""
    _vc_track = False

    def __init__(self, of=None):
        self.of = of

    def __deepcopy__(self, memo):
        used('deepcopy')
        return Meta(self if self.of is None else self.of)

    def __copy__(self):
        raise Unsupported('a shallow copy of the metadata')


class Attrs(object):
    pass


class Node(object):
    _vc_track = False

    def __init__(self, path, metadata=None):
        self.path, self._v_attrs, self._v_children = path, Attrs(), {}
        if metadata is not None:
            self._v_attrs.metadata = metadata


class Tree(object):
    """pandas.HDFStore as a tree of nodes"""
    _vc_track = False

    def __init__(self):
        self.nodes, self.flushed, self.log = {'/': Node('/', Meta())}, False, []
        self._handle = self

    root = property(lambda self: self.nodes['/'])

    def get_node(self, key):
        used('PyTables nodes')
        return self.nodes.get('/' + key.strip('/'))

    def add(self, path, metadata=None):
        up, _, name = path.rpartition('/')
        n = self.nodes[path] = Node(path, metadata)
        self.nodes[up or '/']._v_children[name] = n
        return n

    def create_group(self, where, name, title='', filters=None, createparents=False):
        used('PyTables nodes')
        if where != '/' and where not in self.nodes:
            if not createparents:
                raise Unsupported('no node %s' % where)
            up, _, nm = where.rpartition('/')
            self.create_group(up or '/', nm, createparents=True)
        p = ('' if where == '/' else where) + '/' + name
        if p in self.nodes:
            raise Unsupported('node %s exists' % p)
        return self.add(p)

    def flush(self, *a, **k):
        self.flushed = True


@unit('hdf.metadata', [HD + 'save_metadata', HD + 'load_metadata'], weak=True)
def hdf_metadata(c, E):
    """metadata is kept at the node of its key, which is made if it is not there, and written out; loading gives a copy of it; the
    metadata of other keys stays"""
    M = E.load('nilmtk.datastore.hdfdatastore')
    st = M.HDFDataStore.__new__(M.HDFDataStore)
    st.store = S = Tree()
    case = c.choose(4)      # the data set; a building that is there with, without metadata; one that is not
    key = ['/', '/building1', '/building1', '/building1'][case]
    if c.choose(2):
        S.add('/building12', Meta())
    if case in (1, 2):
        S.add('/building1', Meta() if case == 1 else None)
        S.add('/building1/elec')
    before = dict((p, getattr(n._v_attrs, 'metadata', None)) for p, n in S.nodes.items())
    md = Meta()
    st.save_metadata(key, md)
    c.prove('the metadata is written out', S.flushed)
    n = S.nodes.get(key)
    kept = getattr(n._v_attrs, 'metadata', None) if n is not None else None
    c.prove('the metadata is kept under its key', isinstance(kept, Meta) and (kept is md or kept.of is md))
    c.prove('the metadata of other keys stays', all(getattr(S.nodes[p]._v_attrs, 'metadata', None) is x
                                                    for p, x in before.items() if p != key))
    c.prove('nothing else is made', set(S.nodes) - set(before) <= {key})
    for k in (key, '/'):
        src = S.nodes[k]._v_attrs.metadata
        r = st.load_metadata(k)
        c.prove('loading gives a copy of the metadata of the key', isinstance(r, Meta) and r is not src and
                r.of is (src if src.of is None else src.of))
    c.prove('the data set is loaded when no key is given', st.load_metadata().of is S.root._v_attrs.metadata or
            st.load_metadata().of is md)


class Children(object):
    """the nodes right below, by name"""
    _vc_track = False

    def __init__(self, l):
        self.l = l

    def keys(self):
        return self.l


@unit('hdf.below', [HD + 'elements_below_key'], weak=True)
def hdf_below(c, E):
    """the elements below a key are the names of the nodes right below it, for any number of them"""
    M = E.load('nilmtk.datastore.hdfdatastore')
    st = M.HDFDataStore.__new__(M.HDFDataStore)
    st.store = S = Tree()
    S.add('/building1')
    S.add('/building1/elec')
    key = ['/', '/building1', '/building1/elec', ''][c.choose(4)]
    n = c.fresh('nodes', I)
    c.assume(n >= 0)
    names = VList.symbolic(n, lambda i: Name(c, i), 'names')
    S.get_node(key or '/')._v_children = Children(names)
    r = st.elements_below_key(*([] if key == '/' and c.choose(2) else [key]))
    if not isinstance(r, VList):
        raise Unsupported('returned %r' % type(r))
    m, at = r.seq()
    i = c.fresh('i', I)
    c.prove('as many elements as nodes', m == n)
    c.assume(z3.And(0 <= i, i < n))
    c.prove('the names of the nodes', at(i).same(i, False))


class Described(SymIter):
    """elec_meters of a building: any number of meters; `set0`: how often the location of meter k0 was set"""
    _vc_track = True

    def __init__(self, W):
        self.W, self.version, self.set0 = W, 0, z3.IntVal(0)
        SymIter.__init__(self, W.n, lambda k: VNum(W.num(k)), 'described')

    def find(self, x):
        W, k = self.W, self.W.c.fresh('k', I)
        W.c.assume(z3.And(0 <= k, k < W.n, W.num(k) == lift(x), (k == W.k0) == (lift(x) == W.num(W.k0))))
        return k

    def __getitem__(self, x):
        return One(self, lift(x), self.find(x))

    def items(self):
        return SymIter(self.W.n, lambda k: (VNum(self.W.num(k)), One(self, self.W.num(k), k)), 'described')

    def keys(self):
        return self


class One(object):
    """the description of one meter"""
    _vc_track = False

    def __init__(self, D, num, k):
        self.D, self.num, self.k = D, num, k

    def __setitem__(self, key, v):
        D, c = self.D, self.D.W.c
        c.prove('only the location is added', key == 'data_location')
        want = '/building{:d}/elec/meter{:d}'.format(D.W.b, VNum(self.num))
        c.prove('the location of the table of the meter', v == want)
        D.set0 = D.set0 + z3.If(self.k == D.W.k0, z3.IntVal(1), z3.IntVal(0))
        D.version += 1


class Located(LoopSpec):
    name = 'described meters'

    def __init__(self, D):
        self.D = D

    def match(self, loop):
        return getattr(loop.it, 'tag', '') == 'described'

    def havoc(self, loop, env, names):
        self.D.set0 = self.D.W.c.fresh('h_set', I)
        self.D.version += 1
        return {}

    def allow_mutation(self, loop):
        return [self.D]

    def inv(self, loop):
        W = self.D.W
        return [('every meter so far has its location', z3.And(self.D.set0 >= 0, (self.D.set0 >= 1) == (W.k0 < loop.k)))]

    def on_item(self, loop, item):
        W = self.D.W
        W.c.assume((W.num(loop.k) == W.num(W.k0)) == (loop.k == W.k0))


class W_(object):
    pass


@unit('csv.metadata', [CS + 'save_metadata', CS + 'load_metadata', CS + '_get_metadata_path'], weak=True)
def csv_metadata(c, E):
    """metadata is kept in the file of its key (that of the meter devices in one of its own) and comes back as it was saved, with the
    location of the table of every meter, for any building number and any number of meters"""
    M = E.load('nilmtk.datastore.csvdatastore')
    c.tokens = []
    W = W_()
    W.c, W.n, W.k0, W.num = c, c.fresh('meters', I), c.fresh('k0', I), c.fresh_fun('number', I, I)
    W.b = c.int('b')
    c.assume(z3.And(W.n >= 0, 0 <= W.k0, W.k0 < W.n, W.b.e >= 1))
    D = Described(W)
    E.loop_specs.append(Located(D))
    files = {'/store/metadata/dataset.yaml': {'name': 'old'}, '/store/metadata/meter_devices.yaml': 'old devices',
             '/store/metadata/building7.yaml': {'instance': 7}}
    old = dict(files)

    def write(path, md):
        used('yaml')
        if not isinstance(path, str):
            raise Unsupported('path %r' % type(path))
        files[path] = dict(md) if isinstance(md, dict) else md

    def load(d, f):
        used('yaml')
        x = files[posixpath.join(d, f)]
        return dict(x) if isinstance(x, dict) else x
    M.write_yaml_to_file, M._load_file = write, load
    st = M.CSVDataStore.__new__(M.CSVDataStore)
    st.filename = '/store'
    if c.choose(2):
        md = {'name': 'ds', 'meter_devices': 'devices', 'x': 'y'}
        given = dict(md)
        st.save_metadata('/', given)
        c.prove('the metadata given is not changed', given == md)
        c.prove('the metadata of buildings stays', files['/store/metadata/building7.yaml'] is old['/store/metadata/building7.yaml'])
        c.prove('the metadata of the data set comes back', st.load_metadata('/') == md and st.load_metadata() == md)
        return
    key = '/building{:d}'.format(W.b) + ['', '/'][c.choose(2)]
    described = c.choose(2) == 0
    md = {'instance': 'i', 'x': 'y'}
    if described:
        md['elec_meters'] = D
    given = dict(md)
    st.save_metadata(key, given)
    c.prove('the metadata given is not changed', given == md)
    c.prove('one file is written', len(files) == 4 and all(files[p] is x for p, x in old.items()))
    r = st.load_metadata(key)
    c.prove('the metadata of the building comes back', r == md)
    if described:
        c.prove('every meter has its location', D.set0 >= 1)


@unit('ds.yaml', ['nilmtk/datastore/datastore.py:write_yaml_to_file'], weak=True)
def ds_yaml(c, E):
    """the file holds just the metadata, and is closed"""
    M = E.load('nilmtk.datastore.datastore')
    md, log = {'x': 1}, []

    class File(object):
        _vc_track = False

        def __init__(self, path, mode='r', **k):
            c.prove('the file is written anew', path == '/f.yaml' and mode in ('w', 'wt') and not k)
            self.open = True
            log.append(self)

        def close(self):
            self.open = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    class Yaml(object):
        _vc_track = False

        @staticmethod
        def dump(x, f, **k):
            if k:
                raise Unsupported('dump options')
            c.prove('the metadata is dumped into the open file', x is md and f.open)
            log.append('dump')
        safe_dump = dump
    M.open, M.yaml = File, Yaml
    M.write_yaml_to_file('/f.yaml', md)
    c.prove('one file, one dump, closed', len(log) == 2 and log[1] == 'dump' and not log[0].open)


class Name(object):
    """the name at place i of a directory; cut: without its last four letters"""
    _vc_track = False

    def __init__(self, c, i, cut=False, W=None):
        self.c, self.i, self.cut, self.W = c, i, cut, W

    def same(self, i, cut):
        return z3.And(self.i == i, z3.BoolVal(self.cut == cut))

    def endswith(self, s):
        if self.cut or s != '.csv':
            raise Unsupported('endswith %r' % (s,))
        return core.mkbool(self.W.csv(self.i))

    def __getitem__(self, k):
        if self.cut or k != slice(None, -4, None):
            raise Unsupported('part of a name')
        return Name(self.c, self.i, True, self.W)

    def __eq__(self, o):
        raise Unsupported('comparison of names')
    __hash__ = None


class Inside(Name):
    """the path of an element"""


@unit('csv.below', [CS + 'elements_below_key'], weak=True)
def csv_below(c, E):
    """the elements below a key: the buildings (directories so named), or what the directory of the key holds, tables without .csv;
    for any directory"""
    M = E.load('nilmtk.datastore.csvdatastore')
    W = W_()
    W.n = c.fresh('entries', I)
    W.csv, W.dir, W.bld = (c.fresh_fun(x, I, B) for x in ('csv', 'directory', 'building'))
    c.assume(W.n >= 0)
    there = c.choose(2) == 0
    top = c.choose(2) == 0
    key = '/' if top else '/building1/elec' + ['', '/'][c.choose(2)]
    path = '/store' if top else '/store/building1/elec'
    item = lambda i: Name(c, i, W=W)

    def listdir(p):
        if p.rstrip('/') != path or not (top or there):
            raise OSError('no directory %s' % p)
        return VList.symbolic(W.n, item, 'entries')

    def join(a, *b):
        if isinstance(b[0], Name):
            if a.rstrip('/') != path or len(b) > 1 or b[0].cut:
                raise Unsupported('path of an element')
            return Inside(c, b[0].i, W=W)
        return posixpath.join(a, *b)

    def isdir(p):
        if isinstance(p, Inside):
            return core.mkbool(W.dir(p.i))
        if p.rstrip('/') != path:
            raise Unsupported('isdir %s' % p)
        return top or there

    def match(pattern, s):
        if not isinstance(s, Name) or s.cut or pattern not in ('building[0-9]*', 'building[0-9]+', 'building[0-9]+$'):
            raise Unsupported('match %r' % pattern)
        return core.mkbool(W.bld(s.i))
    M.listdir, M.join, M.isdir, M.re = listdir, join, isdir, ShimModule('re', match=match)
    st = M.CSVDataStore.__new__(M.CSVDataStore)
    st.filename = '/store'
    over = lambda lp: getattr(lp.it, 'tag', '') == 'entries'
    if top:
        spec = Picked('entries', over, W.n, item, lambda i: z3.And(W.dir(i), W.bld(i)), lambda a, b: a.same(b.i, False))
    else:
        spec = Mapped('entries', over, W.n, item, lambda k, v: v.same(k, v.cut) if not isinstance(v, Inside) and
                      c.branch(W.csv(k)) == v.cut else z3.BoolVal(False))
    E.loop_specs.append(spec)
    r = st.elements_below_key(*([] if top and c.choose(2) else [key]))
    if not isinstance(r, VList):
        raise Unsupported('returned %r' % type(r))
    if not top and not there:
        c.prove('nothing below a key that is not there', r.base is None and not r.tail)
        return
    if r.tail or r.token != spec.end_token():
        raise Unsupported('a list built in an unexpected way')
