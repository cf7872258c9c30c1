"""Mechanical mutants of the functions under contract: which ones do the checks miss?

  python3-vt tools/mutate.py OUT.jsonl N SEED C02 C03 ...     (N mutants per property, three at a time)

Each mutant is a scratch copy of /repo; nothing is committed.  Survivors are read by hand: equivalent, outside the
property, or a hole."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
        ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div],
        ast.Mod: [ast.FloorDiv], ast.And: [ast.Or], ast.Or: [ast.And]}
ATTR = {'start': 'end', 'end': 'start', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'append': 'extend',
        'iloc': 'loc', 'update': 'setdefault', 'columns': 'index', 'intersection': 'union', 'union': 'intersection'}
NAME = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list'}


def sites(fn):
    """-> [(description, function applied to the copied tree by node index)]"""
    out = []
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('warn', 'print'):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
            skip.update(id(x) for x in ast.walk(n))
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for o in SWAP.get(type(n.ops[0]), []):
                out.append((k, 'cmp', o))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in SWAP.get(type(n.op), []):
                out.append((k, 'op', o))
        elif isinstance(n, ast.BoolOp):
            out.append((k, 'op', SWAP[type(n.op)][0]))
            for i in range(len(n.values)):
                out.append((k, 'dropval', i))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((k, 'unary', None))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((k, 'const', not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out.append((k, 'const', n.value + 1))
            if n.value == 0:
                out.append((k, 'const', -1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            out.append((k, 'const', n.value * 2))
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            out.append((k, 'attr', ATTR[n.attr]))
        elif isinstance(n, ast.Name) and n.id in NAME and isinstance(n.ctx, ast.Load):
            out.append((k, 'name', NAME[n.id]))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((k, 'test', True))
            out.append((k, 'test', False))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((k, 'jump', None))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((k, 'ifs', None))
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            out.append((k, 'args', None))
        if isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)):
                out.append((k, 'kw', i))
        if isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            out.append((k, 'drop', None))
    return out


def apply(fn, k, kind, arg):
    n = list(ast.walk(fn))[k]
    if kind == 'cmp':
        n.ops[0] = arg()
    elif kind == 'op':
        n.op = arg()
    elif kind == 'dropval':
        del n.values[arg]
        if len(n.values) == 1:
            n.values = [n.values[0], n.values[0]]
    elif kind == 'unary':
        inner = copy.deepcopy(n.operand)
        n.op, n.operand = ast.UAdd(), inner
        if True:
            # drop the operator
            for p in ast.walk(fn):
                for f, v in ast.iter_fields(p):
                    if v is n:
                        setattr(p, f, inner)
                    elif isinstance(v, list):
                        for i, x in enumerate(v):
                            if x is n:
                                v[i] = inner
    elif kind == 'const':
        n.value = arg
    elif kind == 'attr':
        n.attr = arg
    elif kind == 'name':
        n.id = arg
    elif kind == 'test':
        n.test = ast.Constant(arg)
    elif kind == 'ifs':
        n.ifs = n.ifs[1:]
    elif kind == 'args':
        n.args = n.args[::-1]
    elif kind == 'kw':
        del n.keywords[arg]
    elif kind in ('drop', 'jump'):
        for p in ast.walk(fn):
            for f, v in ast.iter_fields(p):
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is n:
                            v[i] = ast.Pass() if kind == 'drop' else ast.Break() if isinstance(n, ast.Continue) \
                                else ast.Continue()


def functions(pid):
    d = json.load(open(os.path.join(HERE, 'evidence', pid + '.json')))
    out = []
    for t in d['coverage'].get('functions_under_contract', []):
        t = t.split(' (')[0]
        f, q = t.split(':', 1) if ':' in t else (None, t)
        f = f if f.endswith('.py') else f.replace('.', '/') + '.py'
        out.append((f, q))
    return sorted(set(out))


def find(tree, q):
    body, res = tree.body, []
    parts = q.split('.')
    for i, p in enumerate(parts):
        c = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p]
        if not c:
            return []
        if i == len(parts) - 1:
            return [n for n in c if isinstance(n, ast.FunctionDef)]
        body = c[0].body
    return res


def mutants(pid, n, rng):
    pool = []
    for f, q in functions(pid):
        path = os.path.join('/repo', f)
        if not os.path.exists(path):
            continue
        src = open(path).read()
        tree = ast.parse(src)
        for j, fn in enumerate(find(tree, q)):
            for s in sites(fn):
                pool.append((f, q, j) + s)
    rng.shuffle(pool)
    return pool[:n], len(pool)


def run(pid, m):
    f, q, j, k, kind, arg = m
    d = tempfile.mkdtemp(prefix='mut_')
    r = os.path.join(d, 'repo')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        p = os.path.join(r, f)
        src = open(p).read()
        tree = ast.parse(src)
        base = ast.unparse(tree).splitlines()
        fn = find(tree, q)[j]
        apply(fn, k, kind, arg)
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree)
        open(p, 'w').write(new + '\n')
        try:
            compile(new, p, 'exec')
        except SyntaxError:
            return None
        import difflib
        diff = [l for l in difflib.unified_diff(base, new.splitlines(), lineterm='', n=0) if l[0] in '+-'
                and l[:3] not in ('+++', '---')]
        if not diff:
            return None
        o = subprocess.run(['bin/check', pid, 'quick'], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r))
        tail = o.stdout.strip().splitlines()
        return dict(pid=pid, f=f, q=q, kind=kind, diff=diff, rc=o.returncode, out=tail[-1][:300] if tail else '',
                    viol=[l for l in tail if l.startswith('VIOL')][:1])
    finally:
        shutil.rmtree(d)


def main():
    out, n, seed, pids = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rng = random.Random(seed)
    jobs = []
    for pid in pids:
        ms, total = mutants(pid, n, rng)
        print(pid, total, 'mutants, taking', len(ms), flush=True)
        jobs += [(pid, m) for m in ms]
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex, open(out, 'a') as fh:
        for r in ex.map(lambda a: run(*a), jobs):
            if r is None:
                continue
            fh.write(json.dumps(r) + '\n')
            fh.flush()
            if r['rc'] == 0:
                print('SURVIVED', r['pid'], r['q'], r['kind'], '|', ' || '.join(r['diff'])[:300], '|', r['out'][:100], flush=True)


if __name__ == '__main__':
    main()
