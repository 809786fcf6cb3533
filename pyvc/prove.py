"""python3-vt -m pyvc.prove ID TIER OUT.json : discharge every obligation of one property."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time


TRUSTED = ['pyvc: symbolic interpreter of the Python subset and its models of CPython builtins (pyvc/interp.py, pyvc/models.py)',
           'z3 (answers "unsat" are believed)',
           'sum rules marked "rule" below: proved in lean/ for lists of any length, used here by name',
           'integers are mathematical integers; a float is treated as the real number it denotes (rounding of float results is not modelled)']


def one(args):
    prop, idx, limit = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from . import verify
    importlib.import_module('pyvc.' + prop.lower())
    t = verify.TASKS[prop][idx]
    try:
        return verify.run_task(t, limit)
    except MemoryError:
        return dict(task=t.name, prop=prop, obligations=[], paths=0, reachable=0, unsupported='memory', executed=[], contracts=[], rules={}, queries=0, solver_s=0, assumed=[], wall_s=0, funcs=t.funcs)
    except Exception as e:      # noqa
        import traceback
        return dict(task=t.name, prop=prop, obligations=[], paths=0, reachable=0, unsupported='engine: ' + traceback.format_exc()[-600:], executed=[], contracts=[], rules={}, queries=0, solver_s=0, assumed=[], wall_s=0, funcs=t.funcs)


def main():
    prop, tier, out = sys.argv[1:4]
    t0 = time.time()
    try:
        importlib.import_module('pyvc.' + prop.lower())
    except ImportError as e:
        json.dump(dict(status='none', note=str(e), obligations=[]), open(out, 'w'))
        return
    from . import verify
    ts = verify.TASKS.get(prop, [])
    only = sys.argv[4:] or None
    idx = [i for i, t in enumerate(ts) if only is None or any(o in t.name for o in only)]
    limit = 150 if tier == 'quick' else 600
    if len(idx) == 1 or os.environ.get('PYVC_DEBUG'):
        res = [one((prop, i, limit)) for i in idx]
    else:
        ctx = mp.get_context('spawn')
        with ctx.Pool(min(8, len(idx)), maxtasksperchild=1) as pool:
            res = pool.map(one, [(prop, i, limit) for i in idx], chunksize=1)
    obs, uns, rules, assumed, contracts, executed, vac = [], [], {}, set(), set(), set(), []
    for r in res:
        obs += r['obligations']
        if r['unsupported']:
            uns.append(dict(task=r['task'], why=r['unsupported'], functions=r['funcs']))
        for k, v in r['rules'].items():
            rules[k] = rules.get(k, 0) + v
        assumed |= set(r['assumed'])
        contracts |= set(r['contracts'])
        executed |= set(r['executed'])
        if not r['unsupported'] and (not r['obligations'] or r['reachable'] == 0):
            vac.append(r['task'])
    for t in vac:
        obs.append(dict(name=t + ': some path reaches the end of the contract', status='unknown', secs=0, detail='no path of this task is reachable (vacuous)', backend='z3', paths=0))
    trusted = TRUSTED + ['rule: %s (%d uses)' % kv for kv in sorted(rules.items())]
    json.dump(dict(status='done', trusted=trusted, obligations=obs, unsupported=uns, functions=sorted({f for r in res for f in r['funcs']}), executed=sorted(executed),
                   assumed_contracts=sorted(contracts), assumptions=sorted(assumed), rules=rules, vacuity=sum(r['reachable'] for r in res), vacuous=vac, tasks=[dict(task=r['task'], paths=r['paths'], reachable=r['reachable'], obligations=len(r['obligations']), queries=r['queries'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2), unsupported=r['unsupported']) for r in res],
                   backends={'z3': len(obs)}, solver_s=round(sum(r['solver_s'] for r in res), 2), wall_s=round(time.time() - t0, 2)), open(out, 'w'), indent=1)
    if os.environ.get('PYVC_SHOW'):
        for r in res:
            print('%-40s paths %4d reach %4d obl %3d %6.1fs %s' % (r['task'], r['paths'], r['reachable'], len(r['obligations']), r['wall_s'], ('UNSUPPORTED ' + r['unsupported']) if r['unsupported'] else ''))
            for o in r['obligations']:
                if o['status'] != 'proved' or os.environ['PYVC_SHOW'] == '2':
                    print('     %-9s %s (%d paths, %.2fs) %s' % (o['status'], o['name'], o['paths'], o['secs'], o['detail'][:700]))


if __name__ == '__main__':
    main()
