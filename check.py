#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID  -- decide one property on /repo's current working tree.

1. pyvc (contract-based deductive verification): generate the obligations of the property's functions from /repo's
   current source and discharge every one of them.
2. executable contracts (oracle/): the same contracts, run against the real code: replay of counterexamples, and the
   bounded stand-in for functions outside the verifier's reach.

exit 0: every obligation discharged (or, for functions outside the verifier's subset, the bounded stand-in is quiet).
exit 1: VIOLATION line.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')   # overridden only by tools/runseeds.sh
QUICK = {'C16': 35, 'C17': 40, 'C20': 35}
SHARDS = 7
# every obligation discharged, but a part of the statement is decided bounded
PARTLY = {'C07': 'with at most three die arguments to number parameters in one call',
          'C20': 'the loops of ply/lex.py and ply/yacc.py that run the patterns and the tables, and that no choice between two items loses a program, are decided bounded'}
# contracts no check proves
TRUSTED = {'parser.myparser:build_lex_yacc': 'PLY: a new lexer and parser; what they cannot read is written to the lists of the lexer',
           'parser.python_resolver:PythonResolver._check_nested_str': 'precondition: the tree consists of nodes, texts and None'}


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    out = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        rc = run(pid, tier, seed, out, t0)
    except Exception:           # noqa  a fault of the check itself is no verdict about the code
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def start(cmd, out, name):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=open(os.path.join(out, name + '.log'), 'w'),
                            stderr=subprocess.STDOUT, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


def load(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def run(pid, tier, seed, out, t0):
    quick = tier == 'quick'
    budget = float(os.environ.get('VERIF_BUDGET', 0)) or (QUICK.get(pid, 25) if quick else 420)
    # --- deductive part
    vjson = os.path.join(out, 'pyvc.json')
    vp = start([PY, '-m', 'pyvc.prove', pid, tier, vjson], out, 'pyvc')
    # --- executable contracts
    shards = []
    for i in range(SHARDS):
        o = os.path.join(out, 'shard%d.json' % i)
        shards.append((start([PY, '-m', 'oracle.run', pid, str(seed), tier, str(budget), o, str(i), str(SHARDS)], out, 'shard%d' % i), o))
    failure = None
    deadline = t0 + (780 if quick else 3000)
    pending = list(shards)
    results = []
    errors = []
    while pending and time.time() < deadline:
        for p, o in list(pending):
            if p.poll() is not None:
                pending.remove((p, o))
                r = load(o)
                if r is None:
                    errors.append('an executable-contract process ended with status %s' % p.returncode)
                    continue
                results.append(r)
                if r.get('error'):
                    errors.append(r['error'])
                if r.get('failure') and failure is None:
                    failure = r['failure']
        if failure:
            break
        time.sleep(.05)
    for p, o in shards:
        if p.poll() is None:
            stop(p)
    if failure is None:
        while vp.poll() is None and time.time() < deadline:
            time.sleep(.05)
    if vp.poll() is None:
        if failure is not None:
            try:
                vp.wait(timeout=20)
            except subprocess.TimeoutExpired:
                pass
        stop(vp)
    v = dict(dict(status='none', obligations=[], functions=[], unsupported=[], assumptions=[], note=''), **(load(vjson) or {}))
    vlog = open(os.path.join(out, 'pyvc.log')).read()[-4000:]
    if v['status'] == 'none' and vlog.strip():
        v['note'] = 'verifier ended early: ' + vlog[-1500:]
    obs = v['obligations']
    failed = [o for o in obs if o['status'] not in ('proved',)]
    evals = sum(r['evaluations'] for r in results)
    violations = 0
    lines = []
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + '.txt')
    if os.path.exists(rpath):
        os.remove(rpath)
    if failure:
        violations = 1
        with open(rpath, 'w') as f:
            f.write('property %s\nreplay: cd /verif && %s -m oracle.run %s %d %s 1 /tmp/out.json 0 1 <file with [case]>\n'
                    'case = %s\n\n%s\n' % (pid, PY, pid, seed, tier, failure['case'], failure['message']))
            for o in failed[:20]:
                f.write('\nfailed obligation: %s\n%s\n' % (o['name'], o.get('detail', '')))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rpath))
        print(failure['message'][:1500])
    elif failed:
        violations = len(failed)
        with open(rpath, 'w') as f:
            f.write('property %s: obligations that the verifier no longer discharges; no failing input was found\n' % pid)
            for o in failed:
                f.write('\nobligation: %s\nstatus: %s\n%s\n' % (o['name'], o['status'], o.get('detail', '')))
        for o in failed[:5]:
            print('obligation not discharged: %s [%s]' % (o['name'], o['status']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath))
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    proved = bool(obs) and not failed and not v['unsupported'] and v['status'] == 'done'
    level = ('other' if pid in PARTLY else 'proof') if proved else 'exploration'
    cov = dict(
        obligations=len(obs), discharged=len(obs) - len(failed),
        checker_cmd='%s -m pyvc.prove %s %s OUT.json' % (PY, pid, tier),
        trusted_base=v.get('trusted', []),
        functions_under_contract=v['functions'],
        contracts_used_at_calls=[x for x in v.get('assumed_contracts', []) if x not in TRUSTED],      # each proved by this check or another
        trusted_contracts={x: TRUSTED[x] for x in v.get('assumed_contracts', []) if x in TRUSTED},
        backends=v.get('backends', {}),
        solver_seconds=v.get('solver_s', 0),
        vacuity_checks=v.get('vacuity', 0),
        proved_for_all_inputs=proved and pid not in PARTLY, explanation=('all obligations discharged for all inputs; decided bounded only: ' if pid in PARTLY else 'all obligations discharged for all inputs') + PARTLY.get(pid, '') if proved else 'not every obligation discharged: executable contracts decide',
        out_of_reach_decided_bounded=v['unsupported'],
        obligation_names=[o['name'] for o in obs][:800],
        evaluations=evals, distinct_nontrivial=sum(r['distinct'] for r in results),
        rule='executable contracts (bounded, not counted as proved): enumerated boundary cases plus seeded random cases, '
             'each evaluated on the real code and compared with a naive exact reference; a case counts once per distinct '
             'input description within a shard',
        samples=[s for r in results for s in r['samples']][:6],
        bounded_time_per_shard_s=budget, shards=SHARDS)
    if v.get('note'):
        cov['verifier_note'] = v['note']
    if errors:
        cov['errors'] = errors[:3]
    if not quick and pid in LEAN:
        cov['lean'] = lean(pid)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=v['assumptions'], wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not violations:
        if errors and not evals:
            print('%s: the executable contracts did not run: %s' % (pid, errors[0][-1500:]))
        print('%s: %d/%d obligations discharged, %d functions under contract, %d decided bounded, %d bounded evaluations, %.1f s'
              % (pid, len(obs) - len(failed), len(obs), len(v['functions']), len(v['unsupported']), evals, time.time() - t0))
        if v['status'] != 'done':
            print('%s: verifier status: %s %s' % (pid, v['status'], v.get('note', '')[-300:]))
    for line in lines:
        print(line)
    return 1 if violations else 0


# lemmas about mathematics alone, used by name (lean/README in DESIGN.md section 1.3)
LEAN = {'C02': ['Sums'], 'C03': ['Sums', 'NFold'], 'C04': ['OrderStat'], 'C05': ['Multinomial'], 'C06': ['Sums'], 'C08': ['Sums'], 'C09': ['Sums'], 'C15': ['Sums'], 'C18': ['Sums'], 'C01': ['Sums'], 'C07': ['Sums'], 'C14': ['Sums']}


def lean(pid):
    """the lemma files once more through Lean's kernel: no verdict about /repo"""
    r = {}
    for f in LEAN[pid]:
        path = os.path.join(HERE, 'lean', f + '.lean')
        text = open(path).read()
        try:
            p = subprocess.run(['lean', path], capture_output=True, text=True, timeout=1500, cwd=os.path.join(HERE, 'lean'))
            said = (p.stdout + p.stderr)[-600:]
            r[f] = 'checked' if p.returncode == 0 and 'sorry' not in said and 'sorry' not in text and 'axiom ' not in text else 'not checked: ' + said
        except (OSError, subprocess.TimeoutExpired) as e:
            r[f] = 'not checked: %s' % e
        print('lean/%s.lean: %s' % (f, r[f].splitlines()[0] if r[f] else ''))
    return r


def known(pid):
    r = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            if line.startswith('known: property=%s ' % pid):
                r.append(line.split(' ', 2)[2].strip())
    except OSError:
        pass
    return r


main()
