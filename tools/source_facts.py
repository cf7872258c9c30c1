"""Literals and AST digests of the repository's sources.

Used (a) to find literals that are new relative to the committed baseline,
which bias the witness search, (b) to give the witness search more time when
the code a property is anchored in differs from the baseline.  Neither decides
a verdict."""
import ast
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(HERE, 'baseline', 'source_facts.json')


def files(repo):
    top = os.path.join(repo, 'nilmtk')
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__', 'dataset_converters'))
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.join(d, f)


def facts(repo):
    out = {}
    for p in files(repo):
        try:
            tree = ast.parse(open(p, encoding='utf-8').read())
        except SyntaxError:
            out[os.path.relpath(p, repo)] = dict(num=[], str=[], sha='syntax-error')
            continue
        num, st = set(), set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e12:
                    num.add(v)
                elif isinstance(v, str) and len(v) < 60:
                    st.add(v)
        # literals that appear in arithmetic, e.g. 24 * 60
        out[os.path.relpath(p, repo)] = dict(num=sorted(num), str=sorted(st),
                                             sha=hashlib.sha1(ast.dump(tree).encode()).hexdigest())
    return out


def compare(repo):
    """-> (changed files, hints)"""
    base = json.load(open(BASE))
    cur = facts(repo)
    bn = set()
    bs = set()
    for v in base.values():
        bs.update(v['str'])
    changed, num, st = [], set(), set()
    for f, v in cur.items():
        b = base.get(f)
        if b is None or b['sha'] != v['sha']:
            changed.append(f)
            old = set(b['num']) if b else set()
            num.update(x for x in v['num'] if x not in old)
            st.update(x for x in v['str'] if x not in bs)
    return changed, dict(num=sorted(num), str=sorted(st))


if __name__ == '__main__':
    repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
    json.dump(facts(repo), open(BASE, 'w'), indent=0, sort_keys=True)
    print('baseline written')
