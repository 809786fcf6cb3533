"""C14: the function library, called as the user calls it (with the real casting wrapper)."""
from .objs import *
from .c07 import expansion, use_expansion, seq_is
from .c08 import a_seq, run, same_num, at


def lib(ip, name, args, kw=None):
    return outcome(ip, glob(ip, 'funclib', name), args, kw)


def die(ip, name='d'):
    d = rv_obj(ip, name)
    d.pre = True
    return d


def setup(ip):
    use_rv(ip)
    use_expansion(ip)
    ip.contracts['randvar:RV.from_rvs'] = from_rvs
    ip.c.writes.clear()


def number_or_die(ip, name):
    """an argument of a number parameter -> (argument, spec: f -> sum over its values of f * weight, is a die)"""
    c = ip.c
    k = c.choose(3)
    if k == 0:
        x = num(ip, name)
        return x, (lambda f: f(rt(x))), False
    if k == 1:
        s, n, el = a_seq(ip, name)
        i = c.binder('i')
        t = T.mk_agg('sum', n, i, real(nt(el(i))))
        return s, (lambda f: f(t)), False
    d = die(ip, name)

    def spec(f):
        i = c.binder('n')
        return T.mk_agg('sum', d.g.m, i, real(d.g.P(i)) * real(f(rt(d.g.el(i)))))
    return d, spec, True


def check(ip, name, kind, r, dice, spec, value):
    """result: the law spec(PSI o value) when a die was given, else the number"""
    c = ip.c
    if not c.prove(name + ': does not raise', kind == 'ok'):
        return
    if dice:
        has_law(ip, name, r, spec(lambda *v: PSI(value(*v))))
    else:
        same_num(ip, name, r, spec(value))
    frame_ok(ip)


@task('C14', 'absolute', ['funclib:absolute'])
def absolute(ip):
    setup(ip)
    x, spec, d = number_or_die(ip, 'x')
    kind, r = lib(ip, 'absolute', [x])
    check(ip, 'absolute', kind, r, d, spec, lambda v: z3.If(v < 0, -v, v))


@task('C14', 'highest and lowest of two numbers', ['funclib:highest_of_N_and_N', 'funclib:lowest_of_N_and_N'])
def of_two(ip):
    c = ip.c
    setup(ip)
    hi = bool(c.choose(2))
    x, sx, dx = number_or_die(ip, 'x')
    y, sy, dy = number_or_die(ip, 'y')
    kind, r = lib(ip, 'highest_of_N_and_N' if hi else 'lowest_of_N_and_N', [x, y])
    value = (lambda a, b: z3.If(a > b, a, b)) if hi else (lambda a, b: z3.If(a < b, a, b))
    check(ip, 'highest of two' if hi else 'lowest of two', kind, r, dx or dy, lambda f: sx(lambda a: sy(lambda b: f(a, b))), value)


@task('C14', 'contains', ['funclib:contains', 'seq:Seq._compare_to'])
def contains(ip):
    c = ip.c
    setup(ip)
    k = c.choose(3)
    i = c.binder('i')
    # some element equals v, said by counting (lean/Sums.lean: count_pos_iff_exists)
    has = lambda n, el, v: z3.If(T.mk_agg('sum', n, i, z3.If(rt(el(i)) == v, z3.RealVal(1), z3.RealVal(0))) > 0, z3.RealVal(1), z3.RealVal(0))
    x, sx, dx = number_or_die(ip, 'x')
    if k < 2:
        s, n, el = a_seq(ip, 's', like=('Seq', 'list', 'tuple'))
        spec = lambda f: sx(lambda v: f((n, el, v)))
    else:
        s = die(ip, 's')
        n, p, L, e = expansion(ip, s, 'r')
        u = c.binder('r')
        spec = lambda f: T.mk_agg('sum', n, u, real(p(u)) * real(sx(lambda v: f((L(u), lambda j: SNum(e(u, j), 'float'), v)))))
    kind, r = lib(ip, 'contains', [s, x])
    check(ip, 'contains', kind, r, k == 2 or dx, spec, lambda a: has(*a))


@task('C14', 'count', ['funclib:count_in', 'seq:Seq._compare_to', 'seq:Seq.__rmatmul__'])
def count(ip):
    c = ip.c
    setup(ip)
    vs, m, ve = a_seq(ip, 'v', like=('Seq', 'list'))
    i, j = c.binder('i'), c.binder('j')
    cnt = lambda n, el: T.mk_agg('sum', m, i, T.mk_agg('sum', n, j, z3.If(rt(ve(i)) == rt(el(j)), z3.RealVal(1), z3.RealVal(0))))
    if c.choose(2):
        s, n, el = a_seq(ip, 's', like=('Seq', 'tuple'))
        kind, r = lib(ip, 'count_in', [vs, s])
        check(ip, 'count', kind, r, False, lambda f: f(n, el), cnt)
    else:
        s = die(ip, 's')
        n, p, L, e = expansion(ip, s, 'r')
        u = c.binder('r')
        kind, r = lib(ip, 'count_in', [vs, s])
        check(ip, 'count', kind, r, True, lambda f: T.mk_agg('sum', n, u, real(p(u)) * real(f(L(u), lambda q: SNum(e(u, q), 'float')))), cnt)


@task('C14', 'reverse', ['funclib:reverse'])
def reverse(ip):
    c = ip.c
    setup(ip)
    s, n, el = a_seq(ip, 's', like=('Seq', 'list', 'tuple'))
    kind, r = lib(ip, 'reverse', [s])
    if c.prove('reverse: does not raise', kind == 'ok'):
        seq_is(ip, 'reverse', r, n, lambda i: el(n - 1 - i))
    frame_ok(ip)


@task('C14', 'sort', ['funclib:sort'])
def sort(ip):
    c = ip.c
    setup(ip)
    s, n, el = a_seq(ip, 's', like=('Seq', 'list', 'tuple'))
    kind, r = lib(ip, 'sort', [s])
    if not c.prove('sort: does not raise', kind == 'ok'):
        return
    if not c.prove('sort: a sequence', isinstance(r, Obj) and r.cls is glob(ip, 'seq', 'Seq')):
        return
    z = ip.as_sl(r.attrs['_seq'], consume=False)
    a, b, i = c.fresh('a'), c.fresh('b'), c.binder('i')
    c.prove('sort: length', slen(z) == n)
    c.prove('sort: descending', rt(ip.sl_get(z, a)) >= rt(ip.sl_get(z, b)), [a >= 0, a < b, b < slen(z)])
    c.prove_eq('sort: the same elements', real(ssum(z, lambda e: PSI(rt(e)))), T.mk_agg('sum', n, i, PSI(rt(el(i)))))
    frame_ok(ip)


@task('C14', 'maximum', ['funclib:maximum_of', 'funclib:reverse'])
def maximum(ip):
    c = ip.c
    setup(ip)
    ip.want_members = True
    k = c.choose(3)
    if k == 0:
        d = die(ip)
        n, el = d.g.m, d.g.el
    elif k == 1:
        d = num(ip, 'x')
        n, el = z3.IntVal(1), lambda i: d
    else:
        d, n, el = a_seq(ip, 's', like=('Seq', 'list'))
        c.assume(n >= 1)
    kind, r = lib(ip, 'maximum_of', [d])
    if not c.prove('maximum: does not raise', kind == 'ok') or not c.prove('maximum: a number', is_num(r)):
        return
    i, w = c.fresh('i'), c.binder('w')
    c.prove('maximum: not below any face', rt(r) >= rt(el(i)), [i >= 0, i < n])
    c.prove('maximum: a face', z3.Exists([w], z3.And(w >= 0, w < n, rt(el(w)) == rt(r))))
    frame_ok(ip)


@task('C14', 'selecting from a pool', ['funclib:highest_N_of_D', 'funclib:lowest_N_of_D', 'funclib:middle_N_of_D'])
def select(ip):
    c = ip.c
    setup(ip)
    d = die(ip)
    N = num(ip, 'pool', 'int')
    c.assume(nt(N) >= 1)
    d.attrs['_source_roll'] = N
    picked = []
    res = rv_obj(ip, 'sel')

    def rmatmul(ip, args, kw):
        if args[0] is not d or len(args) != 2:
            return NotImplemented
        picked.append(args[1])
        return res
    ip.contracts['randvar:RV.__rmatmul__'] = rmatmul
    n = num(ip, 'n', 'int')
    f = ['highest_N_of_D', 'lowest_N_of_D', 'middle_N_of_D'][c.choose(3)]
    kind, r = lib(ip, f, [n, d])
    if not c.prove(f + ': does not raise', kind == 'ok'):
        return
    P, t = nt(N), nt(n)
    count_ = z3.If(t > 0, t, 0)
    if f[0] == 'm' and r is d:
        c.prove('middle: the pool itself only when every die is selected', t == P)
        return
    c.prove(f + ': the selection', r is res and len(picked) == 1)
    first = {'h': z3.IntVal(1), 'l': P - t + 1, 'm': 1 + (P - t) / 2}[f[0]]
    p = picked[0]
    if f[0] == 'm' and is_num(p):
        c.prove('middle: the position', z3.And(t == 1, nt(p) == first))
    else:
        s = ip.as_sl(p, consume=False)
        c.prove(f + ': number of positions', slen(s) == count_)
        q = c.fresh('q')
        c.assume(z3.And(q >= 0, q < count_))
        c.prove(f + ': the positions', nt(ip.sl_get(s, q)) == first + q)
    frame_ok(ip)


@task('C14', 'explode: one more roll', ['funclib:_explode_helper'])
def explode_step(ip):
    """E(depth): the law of the helper for the die itself.  Induction: the inner call returns the die E(depth - 1)."""
    c = ip.c
    setup(ip)
    d = die(ip)
    mx = num(ip, 'max')
    depth = num(ip, 'depth', 'int')
    inner = die(ip, 'E')
    j = c.binder('j')
    S = T.mk_agg('sum', inner.g.m, j, inner.g.P(j))
    c.assume(S >= 1)
    bad = []
    helper = glob(ip, 'funclib', '_explode_helper')

    def rec(ip, args, kw):
        a = dict(zip(['N', 'MAX', 'ORIG_DIE', 'depth'], args), **kw)
        if not (set(a) == {'N', 'MAX', 'ORIG_DIE', 'depth'} and a['N'] is d and a['ORIG_DIE'] is d and same(a['MAX'], mx) and is_num(a['depth'])):
            bad.append('arguments')
            return inner
        if not ip.c.holds(z3.And(real(nt(a['depth'])) == real(nt(depth)) - 1, nt(depth) >= 1)):
            bad.append('depth')
        return inner
    ip.module('funclib').vars['_explode_helper'] = ghost('_explode_helper', rec)
    kind, r = outcome(ip, helper, [d, mx], {'ORIG_DIE': d, 'depth': depth})
    if not c.prove('explode: does not raise', kind == 'ok'):
        return
    c.prove('explode: the next roll is of the same die, one level down', not bad)
    i = c.binder('i')
    v, p = rt(d.g.el(i)), real(d.g.P(i))
    again = T.mk_agg('sum', inner.g.m, j, PSI(v + rt(inner.g.el(j))) * real(inner.g.P(j))) / real(S)
    spec = T.mk_agg('sum', d.g.m, i, p * z3.If(z3.And(v == rt(mx), nt(depth) > 0), again, PSI(v)))
    has_law(ip, 'explode: adds another roll on the maximum, up to the depth', r, spec)
    frame_ok(ip)


@task('C14', 'explode', ['funclib:explode', 'funclib:maximum_of'])
def explode(ip):
    c = ip.c
    setup(ip)
    k = c.choose(2)
    if k:
        d, n, el = a_seq(ip, 's')
        c.assume(n >= 1)
    else:
        d = die(ip)
    S_ = glob(ip, 'settings', 'SETTINGS')
    default = num(ip, 'default', 'int')
    S_.d = dict(S_.d, **{'explode depth': default})
    depth = [None, num(ip, 'depth', 'int')][c.choose(2)]
    res = die(ip, 'E')
    got = []

    def rec(ip, args, kw):
        got.append(dict(zip(['N', 'MAX', 'ORIG_DIE', 'depth'], args), **kw))
        return res
    ip.module('funclib').vars['_explode_helper'] = ghost('_explode_helper', rec)
    kind, r = outcome(ip, glob(ip, 'funclib', 'explode'), [d], {} if depth is None and c.choose(2) else {'depth': depth})
    if not c.prove('explode: does not raise', kind == 'ok'):
        return
    if not c.prove('explode: the rolls', r is res and len(got) == 1 and set(got[0]) == {'N', 'MAX', 'ORIG_DIE', 'depth'}):
        return
    a = got[0]
    D = a['N']
    c.prove('explode: of the die', D is a['ORIG_DIE'] and isinstance(D, Obj) and D.cls is glob(ip, 'randvar', 'RV') and (k == 1 or D is d))
    i = c.binder('i')
    if k:
        has_law(ip, 'explode: of the die of a sequence', D, T.mk_agg('sum', n, i, PSI(rt(el(i)))))
    want = default if depth is None else depth
    prove_same(ip, 'explode: the given depth, or the configured one', a['depth'], want)
    if c.prove('explode: maximum', is_num(a['MAX'])):
        q, w = c.fresh('q'), c.binder('w')
        g = D.g
        c.prove('explode: maximum not below any face', rt(a['MAX']) >= rt(g.el(q)), [q >= 0, q < g.m])
        c.prove('explode: maximum a face', z3.Exists([w], z3.And(w >= 0, w < g.m, rt(g.el(w)) == rt(a['MAX']))))
    frame_ok(ip)
