"""python -m oracle.run ID SEED TIER BUDGET OUT SHARD SHARDS [CASES]   (subprocess of check.py; runs the real code)"""
import importlib
import json
import os
import resource
import signal
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    pid, seed, tier, budget, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4]), sys.argv[5]
    shard, shards = int(sys.argv[6]), int(sys.argv[7])
    extra = eval(open(sys.argv[8]).read()) if len(sys.argv) > 8 else []
    sys.dont_write_bytecode = True
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    from oracle import base
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, samples=[], failure=None, error=None)
    try:
        m = importlib.import_module('oracle.' + pid.lower())
        base.load()
        s = base.Search(m, seed, tier, budget, extra, shard, shards)
        devnull = open(os.devnull, 'w')
        so = sys.stdout
        sys.stdout = devnull

        cur = {}

        def on_alarm(*a):
            raise base.Fail('does not terminate within the time limit')
        signal.signal(signal.SIGALRM, on_alarm)
        orig = s.run_case

        def timed(case, limit=20):
            signal.alarm(40)
            try:
                return orig(case)
            finally:
                signal.alarm(0)
        s.run_case = timed
        f = s.go()
        sys.stdout = so
        res.update(evaluations=s.n, distinct=len(s.keys), fixed=s.nfixed, samples=s.samples)
        if f:
            res['failure'] = dict(case=repr(f['case']), message=f['message'])
    except base.Fail as e:
        res['failure'] = dict(case='loading', message=e.msg)
    except Exception as e:
        import traceback
        res['error'] = traceback.format_exc()[-3000:]
    res['secs'] = time.time() - t0
    json.dump(res, open(out, 'w'))


main()
