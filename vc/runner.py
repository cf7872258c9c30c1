"""Runs one proof unit in its own process: runner.py UNIT MODE SIZE BUDGET CROSS OUT"""
import importlib
import json
import os
import sys
import time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main(argv):
    mod, uid, mode, size, budget, cross, out = argv
    from vc import unit as U, core, models
    import z3
    importlib.import_module('units.' + mod)
    u = U.REGISTRY[uid]
    size = json.loads(size)
    if isinstance(size, list):
        size = tuple(size)
    x = {'on': 1} if cross == '1' else None
    t = time.time()
    r = U.run_unit(u, mode=mode, size=size, budget=float(budget), cross=x,
                   repo=os.environ.get('VERIF_REPO'))
    fails = []
    for f in r.failures[:40]:
        case = None
        if f.model is not None and 'case' in f.inputs:
            try:
                case = core.model_value(f.model, f.inputs['case'])
            except Exception as e:
                case = None
        pc = '\n'.join(str(p) for p in f.pc[-12:])
        fails.append(dict(label=f.label, verdict=f.verdict, case=case, path=str(f.path),
                          formula=str(f.formula)[:1500], path_condition=pc[:3000],
                          model=str(f.model)[:2000] if f.model is not None else None,
                          trace=f.info.get('traceback')))
    labels = {}
    for lab, ok in r.done.values():
        a = labels.setdefault(lab, [0, 0])
        a[0] += 1
        a[1] += bool(ok)
    res = dict(unit=uid, title=u.title, mode=mode, size=size, functions=u.functions,
               obligations=r.n_obligations, discharged=r.n_discharged, paths=r.n_paths,
               complete=r.n_complete, limit=r.limit, backends=r.backends, solver_s=round(r.solver_s, 3),
               wall_s=round(time.time() - t, 3), failures=fails, labels=labels,
               used_models=sorted(models.USED), cross={k: v for k, v in (x or {}).items() if k != 'on'},
               notes={k: models.MODEL_NOTES[k] for k in models.USED if k in models.MODEL_NOTES},
               files=sorted(os.path.relpath(f, r.engine.repo) for f in r.engine.loaded_files))
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


if __name__ == '__main__':
    main(sys.argv[1:])
