"""Replays / searches concrete cases of a property on the real code.

usage: run.py PROP --seed N --time S [--cases FILE] [--hints FILE] [--max N] --out FILE
Result JSON: {status: ok|broken, evaluated, distinct, case, message, samples}"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
import common

MODULES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'modules.json')))


def run_case(ps, case):
    """-> None if the contract holds, else message"""
    for p in ps:
        try:
            r = p.check(case)
        except common.Invalid:
            raise
        except common.Broken as e:
            return str(e)
        except Exception as e:
            return 'unexpected %s: %s | %s' % (type(e).__name__, e,
                                               traceback.format_exc()[-1500:])
        if r is not None and r is not True:
            return r if isinstance(r, str) else 'contract does not hold'
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=5)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--cases')
    ap.add_argument('--hints')
    ap.add_argument('--out')
    ap.add_argument('--only-cases', action='store_true')
    a = ap.parse_args()
    res = dict(status='ok', evaluated=0, distinct=0, invalid=0, samples=[])
    try:
        boot.load()
        for m in MODULES[a.prop]:
            importlib.import_module(m)
    except Exception as e:
        # the package itself cannot be imported
        res.update(status='import-error', message='%s: %s' % (type(e).__name__, e),
                   trace=traceback.format_exc()[-3000:])
        emit(res, a.out)
        return
    ps = common.PROPS[a.prop]
    seen = set()

    def one(case, origin):
        if res['status'] != 'ok':
            return
        key = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
        try:
            msg = run_sel(case)
        except common.Invalid:
            res['invalid'] += 1
            return
        res['evaluated'] += 1
        if key not in seen:
            seen.add(key)
            res['distinct'] += 1
        if len(res['samples']) < 3 and origin == 'random':
            res['samples'].append(case)
        if msg is not None:
            res.update(status='broken', case=case, message=msg, origin=origin)

    def run_sel(case):
        sel = [p for p in ps if case.get('kind') in (None, getattr(p.check, 'kind', None))]
        return run_case([ps[case['_p']]] if '_p' in case else sel or ps, case)
    cases = json.load(open(a.cases)) if a.cases else []
    for c in cases:
        one(c, 'counter-model')
    if not a.only_cases:
        for i, p in enumerate(ps):
            for c in p.fixed():
                c = dict(c)
                c['_p'] = i
                one(c, 'fixed')
        hints = json.load(open(a.hints)) if a.hints else None
        t0 = time.time()
        k = 0
        while res['status'] == 'ok' and time.time() - t0 < a.time and k < a.max:
            for i, p in enumerate(ps):
                if k % p.every:         # slow ones run less often
                    continue
                g = common.G('%s/%s/%s/%s' % (a.prop, a.seed, i, k), hints)
                try:
                    c = p.gen(g)
                except common.Invalid:
                    continue
                c = json.loads(json.dumps(c))
                c['_p'] = i
                one(c, 'random')
            k += 1
    emit(res, a.out)


def emit(res, out):
    txt = json.dumps(res, default=str)
    if out:
        with open(out, 'w') as f:
            f.write(txt)
    else:
        print(txt)


if __name__ == '__main__':
    main()
