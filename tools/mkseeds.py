"""Build /verif/seeded/<id>/ from edit descriptions; keeps a change only if tests pass and the demo separates.
usage: mkseeds.py [name ...]   (works in a scratch copy under /tmp)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
PRE = '''import importlib.util, os, sys, logging
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
src = os.path.join(os.getcwd(), 'src')
spec = importlib.util.spec_from_file_location('dice_calc', os.path.join(src, '__init__.py'), submodule_search_locations=[src])
dc = importlib.util.module_from_spec(spec)
sys.modules['dice_calc'] = dc
spec.loader.exec_module(dc)
from dice_calc.randvar import RV
from dice_calc.seq import Seq
from dice_calc.roller import roll
from dice_calc.blackrv import BlankRV
from fractions import Fraction as F
def law(rv):
    t = sum(rv.probs)
    d = {}
    for v, p in zip(rv.vals, rv.probs):
        if p:
            d[v] = d.get(v, 0) + F(p, t)
    return d
def check(c, *why):
    if not c:
        print('BROKEN', *why)
        sys.exit(1)
'''


def seed(name, prop, edits, demo, needs, breaks):
    SEEDS[name] = (prop, edits, demo, needs, breaks)


exec(open(os.path.join(HERE, 'tools', 'seeds.py')).read())


def build(name):
    prop, edits, demo, needs, breaks = SEEDS[name]
    work = '/tmp/seedwork_%s' % name
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', work], check=True)
    d = os.path.join(HERE, 'seeded', name)
    tmp = '/tmp/seeddemo_%s' % name
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(PRE + demo)
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nexec /usr/bin/env python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(tmp + '/demo.sh', 0o755)
    try:
        clean = subprocess.run(['bash', tmp + '/demo.sh'], cwd=work, capture_output=True, text=True)
        for f, old, new in edits:
            p = os.path.join(work, 'src', f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        bad = subprocess.run(['bash', tmp + '/demo.sh'], cwd=work, capture_output=True, text=True)
        if clean.returncode or not bad.returncode:
            return '%s: demo clean=%s bad=%s %s %s' % (name, clean.returncode, bad.returncode, clean.stdout + clean.stderr[-500:], bad.stdout + bad.stderr[-300:])
        os.makedirs(work + '/_pp')
        os.symlink(work + '/src', work + '/_pp/dice_calc')
        env = dict(os.environ, PYTHONPATH=work + '/_pp', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        w = subprocess.run(['/opt/venv/bin/python', '-c', 'import dice_calc;print(dice_calc.__file__)'], cwd=work, env=env, capture_output=True, text=True).stdout
        assert work in w, w
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=test/test_fetch.py', 'test'], cwd=work, env=env, capture_output=True, text=True)
        if t.returncode:
            return '%s: tests fail: %s' % (name, t.stdout[-400:])
        diff = subprocess.run(['git', '-C', work, 'diff', '--', 'src'], capture_output=True, text=True).stdout
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        return '%s: kept (%s)' % (name, bad.stdout.strip()[-100:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


from concurrent.futures import ThreadPoolExecutor
names = sys.argv[1:] or list(SEEDS)
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(build, names):
        print(r, flush=True)
