"""Decides one property on /repo's current tree.

1. every proof unit of the property is generated from the current source and
   discharged (one process per unit);
2. the executable contract runs on the real code (seeded cases): this replays
   counter-models, searches witnesses for refuted obligations, and guards the
   assumptions of the proof;
3. verdict and evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import registry
import source_facts

REPO = os.environ.get('VERIF_REPO', '/repo')
VT = sys.executable
PY = '/opt/venv/bin/python'
T0 = time.time()
MODULE_OF = {}


def sh(cmd, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=HERE, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, 'timeout'


class Check(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tmp = tempfile.mkdtemp(prefix='verif_chk_')
        self.results = {}
        self.k = 0
        self.ex = cf.ThreadPoolExecutor(8)

    def fn(self, ext='json'):
        self.k += 1
        return os.path.join(self.tmp, 'f%d.%s' % (self.k, ext))

    # ---- proofs
    def unit(self, mod, uid, mode, size, budget, cross):
        out = self.fn()
        rc, o = sh([VT, os.path.join(HERE, 'vc', 'runner.py'), mod, uid, mode, json.dumps(size),
                    str(budget), '1' if cross else '0', out], budget * 2 + 60)
        if os.path.exists(out):
            return json.load(open(out))
        return dict(unit=uid, mode=mode, size=size, functions=[], obligations=0, discharged=0, paths=0,
                    complete=0, limit='tool: %s %s' % (rc, o[-800:]), backends={}, solver_s=0, wall_s=0,
                    failures=[], labels={}, used_models=[], cross={}, notes={}, files=[], title='')

    # ---- real code
    def oracle(self, secs, seed, cases=None, hints=None, only=False):
        out = self.fn()
        cmd = [PY, os.path.join(HERE, 'oracle', 'run.py'), self.pid, '--seed', str(seed),
               '--time', str(secs), '--out', out]
        if cases:
            c = self.fn()
            json.dump(cases, open(c, 'w'))
            cmd += ['--cases', c]
        if hints:
            h = self.fn()
            json.dump(hints, open(h, 'w'))
            cmd += ['--hints', h]
        if only:
            cmd.append('--only-cases')
        rc, o = sh(cmd, secs * 2 + 120)
        if os.path.exists(out):
            return json.load(open(out))
        return dict(status='tool', message='%s %s' % (rc, o[-800:]), evaluated=0, distinct=0, samples=[])

    def run(self):
        thorough = self.tier == 'thorough'
        units = registry.units_of(self.pid)
        changed, hints = source_facts.compare(REPO)
        prop = registry.PROP_FILES.get(self.pid) if hasattr(registry, 'PROP_FILES') else None
        is_changed = bool(changed)
        osecs = registry_time(self.pid, 'oracle', 6)
        n_or = 1
        if is_changed:
            osecs, n_or = osecs * 4, 3
        if thorough:
            osecs, n_or = max(osecs, 240), 5
        oracles = [self.ex.submit(self.oracle, osecs, self.seed * 1000 + i, None, hints if i else (hints if is_changed else None))
                   for i in range(n_or)]
        ubud = registry_time(self.pid, 'unit', 60)
        futs = [(m, u, self.ex.submit(self.unit, m, u, 'inductive', None, ubud * (3 if thorough else 1), thorough))
                for m, u in units]
        res = [(m, f.result()) for m, u, f in futs]
        bounded = []
        need_b = [(m, r) for m, r in res if r['limit'] or r['failures'] or not r['obligations']]
        if thorough:
            need_b = res
        bf = []
        sizes = self.sizes(units)
        for m, r in need_b:
            for s in sizes.get(r['unit'], []):
                bf.append(self.ex.submit(self.unit, m, r['unit'], 'bounded', s, ubud, False))
        bounded = [f.result() for f in bf]
        ores = [f.result() for f in oracles]
        return self.verdict(units, res, bounded, ores, changed, hints)

    def sizes(self, units):
        out = self.fn()
        code = ('import sys,json,importlib;sys.path.insert(0,%r);sys.dont_write_bytecode=True\n'
                'from vc import unit as U\n'
                'for m in %r: importlib.import_module("units."+m)\n'
                'json.dump({k:u.sizes or [] for k,u in U.REGISTRY.items()},open(%r,"w"))'
                % (HERE, sorted(set(m for m, _ in units)), out))
        sh([VT, '-c', code], 60)
        return json.load(open(out)) if os.path.exists(out) else {}

    def verdict(self, units, res, bounded, ores, changed, hints):
        pid = self.pid
        # witness from the executable contract
        broken = [o for o in ores if o['status'] == 'broken']
        import_err = [o for o in ores if o['status'] == 'import-error' and 'nilm_metadata' not in o['message']]
        fails = [(r, f) for _, r in res for f in r['failures']] + [(r, f) for r in bounded for f in r['failures']]
        witness = broken[0] if broken else None
        if not witness and import_err:
            witness = dict(case=None, message='nilmtk cannot be imported: ' + import_err[0]['message'],
                           origin='import')
        searched = 0
        if fails and not witness:
            cases = [f['case'] for _, f in fails if f['case']][:200]
            if cases:
                o = self.oracle(1, self.seed, cases, None, True)
                searched += o['evaluated']
                if o['status'] == 'broken':
                    witness = o
            if not witness:
                left = 20 if self.tier == 'quick' else 120
                fs = [self.ex.submit(self.oracle, left, self.seed * 7919 + i, None, hints) for i in range(6)]
                for f in fs:
                    o = f.result()
                    searched += o['evaluated']
                    if o['status'] == 'broken' and not witness:
                        witness = o
        hard = [(r, f) for r, f in fails if f['verdict'] == 'sat']
        ind = [r for _, r in res]
        proved = all(not r['limit'] and not r['failures'] and r['obligations'] > 0 for r in ind)
        self.evidence(ind, bounded, ores, changed, fails, witness, proved)
        known(pid, self)
        if witness or hard:
            failed = fails[0] if fails else None
            if hard:
                failed = hard[0]
            rp = self.replay(witness, failed, fails, ores)
            for r, f in fails[:6]:
                print('failed obligation: unit %s (%s%s): %s [%s]'
                      % (r['unit'], r['mode'], '' if r['size'] is None else ' size %s' % r['size'],
                         f['label'], f['verdict']))
            if witness:
                print('witness: %s' % witness['message'][:600])
                print('VIOLATION property=%s replay=%s' % (pid, rp))
            else:
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
            return 1
        for r in ind:
            if r['limit'] or r['failures'] or not r['obligations']:
                print('not proved on this tree: unit %s (%s); bounded stand-in and executable contract found nothing'
                      % (r['unit'], (r['limit'] or ', '.join(sorted(set(f['label'] + ' ' + f['verdict'] for f in r['failures']))))[:300]))
        print('%s %s: %d obligations, %d discharged, %d real-code evaluations, %.1f s'
              % (pid, 'proved' if proved else 'held (partly bounded)',
                 sum(r['obligations'] for r in ind), sum(r['discharged'] for r in ind),
                 sum(o.get('evaluated', 0) for o in ores), time.time() - T0))
        return 0

    def replay(self, witness, failed, fails, ores):
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        doc = dict(property=self.pid,
                   case=witness.get('case') if witness else None,
                   message=witness.get('message') if witness else None,
                   how_to_replay='bash bin/replay FILE (runs the case on the real code in /repo)',
                   failed_obligations=[dict(unit=r['unit'], mode=r['mode'], size=r['size'],
                                            functions=r['functions'], obligation=f['label'],
                                            verdict=f['verdict'], formula=f['formula'],
                                            path=f['path'], path_condition=f['path_condition'],
                                            counter_model=f['model'], case=f['case'], trace=f['trace'])
                                       for r, f in fails[:10]])
        txt = json.dumps(doc, indent=1, default=str)
        p = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            f.write(txt)
        return p

    def evidence(self, ind, bounded, ores, changed, fails, witness, proved):
        fns = sorted(set(f for r in ind for f in r['functions']))
        assumptions = sorted(set('%s: %s' % (k, v) for r in ind for k, v in r['notes'].items()))
        assumptions += registry.ASSUME_ALL if hasattr(registry, 'ASSUME_ALL') else []
        assumptions += getattr(registry, 'ASSUME', {}).get(self.pid, [])
        cross = {}
        for r in ind:
            for k, v in r['cross'].items():
                cross[k] = cross.get(k, 0) + v
        backends = {}
        for r in ind:
            for k, v in r['backends'].items():
                backends[k] = backends.get(k, 0) + v
        level = registry.LEVEL.get(self.pid, 'proof') if hasattr(registry, 'LEVEL') else 'proof'
        cov = dict(
            obligations=sum(r['obligations'] for r in ind),
            discharged=sum(r['discharged'] for r in ind),
            checker_cmd='python3-vt vc/runner.py <module> <unit> inductive null (z3 %s, cvc5 fallback)' % z3v(),
            trusted_base=['CPython %d.%d semantics of the executed source' % sys.version_info[:2],
                          'z3', 'cvc5 (fallback)', 'the AST transformation of vc/loader.py (loops, list '
                          'displays, comprehensions)', 'the models of pandas/numpy in vc/models.py, vc/arrays.py'],
            functions_under_contract=fns,
            fully_proved=proved,
            units=[dict(unit=r['unit'], contract=r['title'], obligations=r['obligations'],
                        discharged=r['discharged'], paths=r['paths'], limit=r['limit'],
                        solver_s=r['solver_s'], backends=r['backends']) for r in ind],
            bounded_stand_in=[dict(unit=r['unit'], size=r['size'], obligations=r['obligations'],
                                   discharged=r['discharged'], limit=r['limit']) for r in bounded],
            backends=backends, solver_s=round(sum(r['solver_s'] for r in ind), 3),
            cvc5_cross_check=cross,
            not_proved=getattr(registry, 'NOT_PROVED', {}).get(self.pid, []),
            real_code_evaluations=sum(o.get('evaluated', 0) for o in ores),
            evaluations=sum(o.get('evaluated', 0) for o in ores),
            distinct_nontrivial=sum(o.get('distinct', 0) for o in ores),
            rule='seeded random cases of the executable contract on the real code (oracle/), distinct by '
                 'content; cases that miss the precondition are not counted',
            samples=(ores[0].get('samples') or [])[:2] if ores else [],
            source_differs_from_baseline=changed)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=assumptions, wall_s=round(time.time() - T0, 2),
                  violations=1 if (witness or any(f['verdict'] == 'sat' for _, f in fails)) else 0)
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def registry_time(pid, what, default):
    return getattr(registry, 'TIMES', {}).get(pid, {}).get(what, default)


def known(pid, chk):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(p):
        return
    for line in open(p):
        line = line.strip()
        if line.startswith('known: property=%s ' % pid):
            what = line.split(' ', 2)[2]
            print('KNOWN-FINDING: property=%s %s' % (pid, what))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(pid, tier if tier in ('quick', 'thorough') else 'quick')
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
