"""C10: frames.  Every operation whose contract is proved for the other properties is executed again on arbitrary arguments; here
the obligation is its frame: nothing that existed when the operation was called is written, except the two caches of sums, and
those only with the right value.  Results are new objects or the caches of C03 and C05, whose entries are proved right there."""
from .objs import *
from . import verify
from . import c02, c03, c04, c05, c06, c07, c08, c09, c13, c14, c15, c18      # noqa

PROPS = ['C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C13', 'C14', 'C15']
# C18's limiter is an internal helper: its contract there is to rewrite the fresh result it is given
HEAVY = {'joint rolls of three dice', 'the order is transitive', 'element at a position'}
MODULES = ['randvar', 'seq', 'factory', 'roller', 'decorators', 'blackrv', 'settings', 'string_rvs', 'funclib', 'utils', 'typings']


def watch(ip):
    """from now on everything that exists at the start of an outermost call is protected during that call"""
    c = ip.c
    c.frame_only = True
    for m in MODULES:
        ip.module(m)
    inner = ip.call
    depth = [0]

    def call(f, args, kwargs=None):
        if depth[0] == 0:
            c.entry_ser = next(verify._serial)
        depth[0] += 1
        try:
            return inner(f, args, kwargs)
        finally:
            depth[0] -= 1
            if depth[0] == 0:
                c.entry_ser = -1
    ip.call = call


def what(o):
    return o.cls.name if isinstance(o, Obj) else type(o).__name__


def frame(ip):
    c = ip.c
    c.entry_ser = -1
    bad = []
    for o, k, old, v, _, _ in c.frame_log:
        if v is old or same(old, v):
            continue
        if isinstance(o, VList) and o.kind == 'iter':          # an iterator is used up by reading it
            continue
        if isinstance(o, Obj) and k == 'sum_probs':
            t = total_weight(ip, o) if v is not None else None
            if t is not None:
                c.prove_eq('frame: the cached total weight is the total weight', real(nt(v)), real(t))
            continue
        if isinstance(o, Obj) and k == '_sum':
            if v is not None and is_num(v):
                c.prove_eq('frame: the cached sum is the sum', real(nt(v)), real(ssum(ip.as_sl(o.attrs['_seq'], consume=False), nt)))
                continue
            if v is None:
                continue
        bad.append('%s of a %s' % (k, what(o)))
    c.prove('frame: nothing that existed before is changed' + (': ' + ', '.join(sorted(set(bad))) if bad else ''), not bad)


def framed(t):
    def run(ip):
        watch(ip)
        try:
            t.fn(ip)
        except verify.Skip:
            pass
        frame(ip)
    return run


@task('C10', 'C08 element at a position', ['seq:Seq.__getitem__', 'seq:Seq.__rmatmul__'])
def position(ip):
    c = ip.c
    watch(ip)
    q, n, el = c08.a_seq(ip)
    q.attrs['_one_indexed'] = c.choose(2)          # (set_one_indexed is the documented way to change it)
    whole = bool(c.choose(2))
    p = num(ip, 'p', 'int' if whole else 'float')
    if whole and c.choose(2):
        outcome(ip, ip.getattr(q, '__getitem__'), [p])
    else:
        watched(ip, lambda: ip.binop('matmul', p, q))
    frame(ip)


def watched(ip, f):
    c = ip.c
    c.entry_ser = next(verify._serial)
    try:
        return ('ok', f())
    except PyRaise as e:
        return (e.cls, None)
    finally:
        c.entry_ser = -1


@task('C10', 'equal rolls, equal names', ['roller:roll', 'roller:_roll', 'roller:_setup_str_LHS_RHS'])
def names(ip):
    c = ip.c
    watch(ip)
    use_rv(ip)
    # what an earlier roll left in the cache: any die with any name, handed out again and again
    cached = rv_obj(ip, 'cached')
    cached.attrs['_str_LHS_RHS'] = (num(ip, 'cn', 'int'), num(ip, 'cs', 'int'))
    mode = c.choose(3)

    def h(ip, args, kw):
        return (cached, args[1], None)[mode] or rv_obj(ip, 'fresh')
    ip.contracts['roller:_roll_int_rv'] = h
    ip.contracts['randvar:RV.from_rvs'] = lambda ip, a, k: rv_obj(ip, 'mixed')
    d, _, what = c03.sides(ip, ['number', 'sequence', 'die'])
    if what == 'die':
        d.attrs['_str_LHS_RHS'] = (num(ip, 'dn', 'int'), num(ip, 'ds', 'int') if c.choose(2) else '{?}')
    n = [lambda: num(ip, 'n', 'int'), lambda: seq_obj(ip, 'cnt', ints=True)[0], lambda: rv_obj(ip, 'many', ints=True), lambda: None][c.choose(4)]()
    roll = glob(ip, 'roller', 'roll')
    k1, r1 = outcome(ip, roll, [d] if n is None else [n, d])
    k2, r2 = outcome(ip, roll, [d] if n is None else [n, d])
    if not c.prove('frame: equal rolls end alike', k1 == k2):
        return
    frame(ip)
    if k1 != 'ok':
        return
    if not c.prove('frame: rolls give dice', isinstance(r1, Obj) and isinstance(r2, Obj)):
        return
    c.prove('frame: every roll gives its own object', r1 is not r2 and r1 is not cached and r1 is not d and r2 is not d)
    a, b = r1.attrs['_str_LHS_RHS'], r2.attrs['_str_LHS_RHS']
    for i in (0, 1):
        x, y = a[i], b[i]
        if is_num(x) and is_num(y):
            c.prove_eq('frame: equal rolls have equal names', real(nt(x)), real(nt(y)))
        else:
            c.prove('frame: equal rolls have equal names', isinstance(x, str) and x == y)


for P in PROPS:
    for t in list(verify.TASKS.get(P, [])):
        if t.name not in HEAVY:
            task('C10', P + ' ' + t.name, t.funcs, t.ms, t.max_paths)(framed(t))
