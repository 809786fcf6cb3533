"""Mutation testing of the proofs: python3 tools/mutate.py C08 file.py [func regex] [max]
Prints every mutant whose obligations are all discharged (to be judged by hand: equivalent, or a hole)."""
import ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

prop, file = sys.argv[1:3]
rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
limit = int(sys.argv[4]) if len(sys.argv) > 4 else 60
src = open('/repo/src/' + file).read()
tree = ast.parse(src)
CMP = [ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq]
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
muts = []


def paths(node, p=()):
    for f, v in ast.iter_fields(node):
        if isinstance(v, ast.AST):
            yield p + ((f, None),), v
            yield from paths(v, p + ((f, None),))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.AST):
                    yield p + ((f, i),), x
                    yield from paths(x, p + ((f, i),))


def at(t, p):
    for f, i in p:
        t = getattr(t, f) if i is None else getattr(t, f)[i]
    return t


def put(t, p, new):
    par = at(t, p[:-1])
    f, i = p[-1]
    if i is None:
        setattr(par, f, new)
    elif new is None:
        getattr(par, f)[i] = ast.Pass()
    else:
        getattr(par, f)[i] = new


def add(p, node, desc):
    muts.append((p, node, desc))


def inside(p):
    names = []
    t = tree
    for f, i in p:
        t = getattr(t, f) if i is None else getattr(t, f)[i]
        if isinstance(t, (ast.FunctionDef, ast.ClassDef)):
            names.append(t.name)
    return '.'.join(names)


for p, n in paths(tree):
    fn = inside(p)
    if not fn or not rx.search(fn) or any(f in ('annotation', 'returns', 'decorator_list') for f, i in p):
        continue
    L = '%s:%s ' % (fn, getattr(n, 'lineno', '?'))
    if isinstance(n, ast.Compare):
        for o in CMP:
            if type(n.ops[0]) in CMP and o is not type(n.ops[0]):
                m = copy.deepcopy(n)
                m.ops[0] = o()
                add(p, m, L + ast.unparse(n) + ' -> ' + ast.unparse(m))
    elif isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = o()
            add(p, m, L + ast.unparse(n) + ' -> ' + ast.unparse(m))
        m = copy.deepcopy(n)
        m.left, m.right = m.right, m.left
        add(p, m, L + ast.unparse(n) + ' -> ' + ast.unparse(m))
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        add(p, m, L + ast.unparse(n) + ' -> ' + ast.unparse(m))
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        for v in (n.value + 1, n.value - 1):
            add(p, ast.Constant(v), L + '%r -> %r' % (n.value, v))
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        add(p, ast.Constant(not n.value), L + '%r -> %r' % (n.value, not n.value))
    elif isinstance(n, (ast.If, ast.IfExp)):
        for v in (True, False):
            m = copy.deepcopy(n)
            m.test = ast.Constant(v)
            add(p, m, L + 'if %s -> if %s' % (ast.unparse(n.test), v))
    elif isinstance(n, ast.comprehension) and n.ifs:
        m = copy.deepcopy(n)
        m.ifs = []
        add(p, m, L + 'drop filter ' + ast.unparse(n.ifs[0]))
    elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        add(p, None, L + 'delete ' + ast.unparse(n))
    elif isinstance(n, ast.UnaryOp):
        add(p, copy.deepcopy(n.operand), L + ast.unparse(n) + ' -> ' + ast.unparse(n.operand))
random.Random(1).shuffle(muts)
muts = muts[:limit]


def one(m):
    p, node, desc = m
    t = copy.deepcopy(tree)
    put(t, p, node)
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        open(d + '/src/' + file, 'w').write(ast.unparse(ast.fix_missing_locations(t)))
        o = d + '/o.json'
        try:
            subprocess.run(['python3-vt', '-m', 'pyvc.prove', prop, 'quick', o], cwd='/verif', env=dict(os.environ, PYVC_SRC=d + '/src'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
            r = json.load(open(o))
        except Exception as e:
            return desc, 'ERROR %s' % type(e).__name__
        bad = [x for x in r['obligations'] if x['status'] != 'proved']
        if bad:
            return desc, 'caught'
        if r['unsupported']:
            return desc, 'UNSUPPORTED ' + r['unsupported'][0]['why'][:100]
        return desc, 'SURVIVES'
    finally:
        shutil.rmtree(d)


n = {}
with ThreadPoolExecutor(6) as ex:
    for desc, r in ex.map(one, muts):
        k = r.split()[0]
        n[k] = n.get(k, 0) + 1
        if k != 'caught':
            print(k, '|', desc, '|', r if k != k.upper() or k == 'UNSUPPORTED' else '', flush=True)
print(n)
