"""Loads the real modules of /repo for symbolic execution.

The text that is verified is the text in /repo, parsed on every run.  The only
changes are mechanical (class T below):
  * `for` / `while` statements go through a Loop object (same body, same
    targets, same else-branch), so that a loop can be cut by its contract;
  * list displays / comprehensions produce VList (a list that may have a
    symbolic part), comprehension / generator iterables go through a hook;
  * string formatting of symbolic values is opaque.
Imports of third-party packages resolve to models (models.py); names a model
does not define raise Unsupported, which is a tool limit and never a verdict.
"""
import ast
import builtins
import os
import sys
import types
import z3
from . import core, seqs, loops
from .core import Unsupported
from .seqs import VList, VSeq, SymIter, concrete_items

REPO = os.environ.get('VERIF_REPO', '/repo')


class AssignedNames(ast.NodeVisitor):
    def __init__(self):
        self.names = []
        self.skip = set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.add(n.target.id)
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Global(self, node):
        self.skip.update(node.names)
    visit_Nonlocal = visit_Global

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import


def assigned(stmts):
    v = AssignedNames()
    for s in stmts:
        v.visit(s)
    return [n for n in v.names if n not in v.skip]


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


def vcattr(a):
    return ast.Attribute(value=name('_vc_'), attr=a, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.counters = {}
        self.uid = 0

    def qual(self):
        return '.'.join(self.stack)

    def _scoped(self, node):
        # decorators and defaults belong to the enclosing scope; harmless here
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        if not isinstance(node, ast.ClassDef) and node.args.vararg is not None:
            # a contract may pass an arbitrary number of arguments as one sequence
            v = node.args.vararg.arg
            st = ast.Assign(targets=[name(v, True)], value=call(vcattr('star'), name(v)))
            k = 1 if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant) else 0
            ast.copy_location(st, node)
            node.body.insert(k, ast.fix_missing_locations(st))
        return node
    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _scoped

    def _loop(self, node, kind):
        q = self.qual()
        k = self.counters.get(q, 0)
        self.counters[q] = k + 1
        self.uid += 1
        lv = '_vcL%d' % self.uid
        if kind == 'for':
            names = assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))] + node.body)
        else:
            names = assigned(node.body)
            names += [n for n in assigned([ast.Expr(node.test)]) if n not in names]
        it = self.visit(node.iter) if kind == 'for' else ast.Constant(None)
        test = None if kind == 'for' else self.visit(node.test)
        body = [self.visit(s) for s in node.body]
        body = [y for x in body for y in (x if isinstance(x, list) else [x])]
        orelse = [self.visit(s) for s in node.orelse]
        orelse = [y for x in orelse for y in (x if isinstance(x, list) else [x])]
        lid = '%s:%s#%d' % (self.modname, q, k)
        begin = ast.Assign(
            targets=[name(lv, True)],
            value=call(vcattr('loop'), ast.Constant(lid), ast.Constant(kind), it,
                       ast.Tuple(elts=[ast.Constant(n) for n in names], ctx=ast.Load()),
                       ast.Constant(q)))
        more = lv + 'm'
        step = [ast.Assign(targets=[name(more, True)],
                           value=call(ast.Attribute(value=name(lv), attr='next', ctx=ast.Load()),
                                      call(name('locals'))))]
        cutassign = []
        for n in names:
            cutassign.append(ast.If(
                test=call(ast.Attribute(value=name(lv), attr='has', ctx=ast.Load()), ast.Constant(n)),
                body=[ast.Assign(targets=[name(n, True)],
                                 value=call(ast.Attribute(value=name(lv), attr='get', ctx=ast.Load()),
                                            ast.Constant(n)))],
                orelse=[]))
        if cutassign:
            step.append(ast.If(test=ast.Attribute(value=name(lv), attr='cut', ctx=ast.Load()),
                               body=cutassign, orelse=[]))
        stop = ast.UnaryOp(op=ast.Not(), operand=name(more) if kind == 'for' else test)
        step.append(ast.If(test=stop, body=orelse + [ast.Break()], orelse=[]))
        if kind == 'for':
            step.append(ast.Assign(
                targets=[node.target],
                value=call(ast.Attribute(value=name(lv), attr='item', ctx=ast.Load()))))
        w = ast.While(test=ast.Constant(True), body=step + body, orelse=[])
        out = [begin, w]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_For(self, node):
        return self._loop(node, 'for')

    def visit_While(self, node):
        return self._loop(node, 'while')

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.fix_missing_locations(ast.copy_location(call(vcattr('mklist'), node), node))
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys:       # an empty dict, which a loop may fill
            return ast.fix_missing_locations(ast.copy_location(call(vcattr('mkdict')), node))
        return node

    def _comp(self, node, hook):
        self.generic_visit(node)
        first = node.generators[0]
        src = first.iter
        first.iter = name('_vc_it')
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='_vc_it')], kwonlyargs=[],
                               kw_defaults=[], defaults=[]),
            body=node)
        filt = bool(first.ifs) or len(node.generators) > 1
        r = call(vcattr(hook), src, lam, ast.Constant(filt))
        return ast.fix_missing_locations(ast.copy_location(r, node))

    def visit_ListComp(self, node):
        if self._in_class_scope(node):
            return node
        return self._comp(node, 'listcomp')

    def visit_GeneratorExp(self, node):
        if self._in_class_scope(node):
            return node
        return self._comp(node, 'genexp')

    def visit_SetComp(self, node):
        if self._in_class_scope(node):
            return node
        return self._comp(node, 'setcomp')

    def _in_class_scope(self, node):
        # `await`/`yield`/walrus inside a comprehension cannot move to a lambda
        return any(isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr))
                   for n in ast.walk(node))

    def visit_Compare(self, node):
        # `x is True` / `x is False`: a symbolic truth value is no singleton
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value in (True, False) and \
                isinstance(node.comparators[0].value, bool):
            r = call(vcattr('is_const'), node.left, node.comparators[0],
                     ast.Constant(isinstance(node.ops[0], ast.IsNot)))
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_JoinedStr(self, node):
        # formatted text is only used in messages; symbolic values print as <..>
        self.generic_visit(node)
        return node

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        node.value = ast.fix_missing_locations(
            ast.copy_location(call(vcattr('fmt'), node.value), node.value))
        return node


class Engine(object):
    """One loaded image of the repository plus the contracts in force."""

    def __init__(self, repo=None, models=None, max_unroll=64):
        self.repo = repo or REPO
        self.modules = {}
        self.loop_specs = []
        self.roots = []
        self.max_unroll = max_unroll
        self.sources = {}
        self.loaded_files = set()
        self.reset_hooks = []
        self.n_cut, self.last_cut = 0, None
        self.stateless = lambda loop: False     # loops that may run over a generator whose own loop is cut
        self.mode = 'inductive'
        self.size = None
        from . import models as _models
        self.models = _models.make(self) if models is None else models
        self.builtins = dict(builtins.__dict__)
        self.builtins.update({
            'len': seqs.v_len, 'range': seqs.v_range, 'enumerate': seqs.v_enumerate,
            'zip': seqs.v_zip, 'reversed': seqs.v_reversed,
            'min': seqs.v_min, 'max': seqs.v_max, 'sum': seqs.v_sum,
            'all': seqs.v_all, 'any': seqs.v_any, 'sorted': seqs.v_sorted,
            'round': seqs.v_round, 'hash': seqs.v_hash, 'list': seqs.ListShim,
            'print': lambda *a, **k: None, 'isinstance': v_isinstance,
            'int': IntProxy, 'float': FloatProxy, 'bool': BoolProxy,
            '__import__': self._import,
            'open': _no_open,
        })

    def path_reset(self):
        """Called before each path; modules keep no per-path state."""
        for h in self.reset_hooks:
            h()

    # ---- hooks called by transformed code
    def loop(self, lid, kind, it, names, qual):
        return loops.Loop(self, lid, kind, it, list(names), qual)

    def star(self, t):
        if len(t) == 1 and isinstance(t[0], StarArgs):
            return t[0].seq
        return t

    model_dicts = False         # a unit whose contracts cover dicts filled by a cut loop sets this

    def mkdict(self):
        return seqs.MDict() if self.model_dicts else {}

    def mklist(self, l):
        return VList(l)

    def is_const(self, x, k, neg):
        if isinstance(x, core.VBool):       # a Python bool (numpy ones are never `is True`)
            r = x if k else core.mkbool(z3.Not(x.e))
            return core.mkbool(z3.Not(core.zb(r))) if neg else r
        return (x is not k) if neg else (x is k)

    def fmt(self, v):
        return '<sym>' if isinstance(v, core.Sym) else v

    def setcomp(self, it, f, filt):
        if hasattr(it, 'abstract_comp'):
            return it.abstract_comp(f)
        if hasattr(it, 'comp'):
            from .guarded import GSet
            return GSet(it.comp(f))
        if isinstance(it, VSeq):
            items = concrete_items(it)
            if items is None:
                raise Unsupported('set comprehension over symbolic %s' % it.tag)
            it = items
        return f(it)

    def listcomp(self, it, f, filt):
        if hasattr(it, 'abstract_comp'):
            return it.abstract_comp(f)
        if hasattr(it, 'items_'):
            from .guarded import to_list
            return to_list(it).comp(f)
        if isinstance(it, VSeq):
            items = concrete_items(it)
            if items is None:
                return self._symcomp(it, f, filt)
            return VList(f(items))
        return VList(f(it))

    def genexp(self, it, f, filt):
        if hasattr(it, 'abstract_comp'):
            return it.abstract_comp(f)
        if hasattr(it, 'items_'):
            from .guarded import to_list
            return to_list(it).comp(f)
        if isinstance(it, VSeq):
            items = concrete_items(it)
            if items is None:
                return self._symcomp(it, f, filt)
            return f(items)
        return f(it)

    def _symcomp(self, it, f, filt):
        n, at = it.seq()
        if filt:
            from . import fold
            r = fold.comprehension(self, it, f)
            if r is not None:
                return r
            raise Unsupported('filtering comprehension over symbolic %s' % it.tag)
        return VList.symbolic(n, lambda i: list(f([at(i)]))[0], 'map(%s)' % it.tag)

    # ---- imports
    def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = parts[:len(parts) - (level - 1)]
            nm = '.'.join(base + ([nm] if nm else []))
        top = nm.split('.')[0]
        if top == 'nilmtk':
            m = self.load(nm)
            if not fromlist:
                return self.load('nilmtk')
            for x in fromlist:
                if x != '*' and not hasattr(m, x):
                    try:
                        sub = self.load(nm + '.' + x)
                    except ModuleNotFoundError:
                        raise ImportError('cannot import name %r from %r' % (x, nm))
                    setattr(m, x, sub)
            return m
        if top in self.models:
            m = self.models[top]
            if fromlist:
                for p in nm.split('.')[1:]:
                    m = getattr(m, p)
            return m
        if top in SAFE_STDLIB:
            return builtins.__import__(nm, None, None, fromlist, 0)
        from .models import ShimModule
        m = ShimModule(top)
        self.models[top] = m
        if fromlist:
            for p in nm.split('.')[1:]:
                m = getattr(m, p)
        return m

    def path_of(self, nm):
        p = os.path.join(self.repo, *nm.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, nm):
        if nm in self.modules:
            return self.modules[nm]
        if nm in NOT_LOADED:
            from .models import ShimModule
            m = self.modules[nm] = ShimModule(nm)
            return m
        path, is_pkg = self.path_of(nm)
        if not os.path.exists(path):
            raise ModuleNotFoundError(nm)
        if '.' in nm:
            self.load(nm.rsplit('.', 1)[0])
            if nm in self.modules:
                return self.modules[nm]
        m = types.ModuleType(nm)
        m.__file__ = path
        m.__package__ = nm if is_pkg else nm.rsplit('.', 1)[0]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_vc_'] = self
        self.modules[nm] = m
        if nm == 'nilmtk':
            # the package __init__ opens a temporary HDF5 file and configures
            # pandas; submodules are loaded on demand instead
            src = ''
        else:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        self.sources[nm] = src
        self.loaded_files.add(path)
        tree = T(nm).visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        if '.' in nm:
            p, c = nm.rsplit('.', 1)
            setattr(self.modules[p], c, m)
        return m


# plotting only; every use is a tool limit
NOT_LOADED = {'nilmtk.plots'}

SAFE_STDLIB = {'copy', 'functools', 'collections', 'itertools', 'abc', 're', 'math', 'io',
               'inspect', 'sys', 'time', 'string', 'operator', 'numbers', 'types', 'json',
               'pickle', 'typing', '__future__', 'os'}


class StarArgs(object):
    """f(StarArgs(seq)) stands for f(*seq) with seq of any length"""

    def __init__(self, seq):
        self.seq = seq


def _no_open(*a, **k):
    raise Unsupported('open() during symbolic execution')


class _NumMeta(type):
    def __instancecheck__(cls, obj):
        return cls._inst(obj)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class IntProxy(metaclass=_NumMeta):
    _real = int
    _conv = staticmethod(seqs.v_int)

    @staticmethod
    def _inst(o):
        return isinstance(o, int) or isinstance(o, core.VNum) and o.is_int


class FloatProxy(metaclass=_NumMeta):
    _real = float
    _conv = staticmethod(seqs.v_float)

    @staticmethod
    def _inst(o):
        return isinstance(o, float) or isinstance(o, core.VNum) and not o.is_int


class BoolProxy(metaclass=_NumMeta):
    _real = bool
    _conv = staticmethod(seqs.v_bool)

    @staticmethod
    def _inst(o):
        return isinstance(o, (bool, core.VBool))


def v_isinstance(o, t):
    if isinstance(o, loops.Poison):
        loops.Poison._die(o)
    return isinstance(o, t)
