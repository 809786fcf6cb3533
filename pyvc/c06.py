"""C06: mixtures."""
from .objs import *


def die_family(ip, name='e'):
    """die i of a list of arbitrary dice -> function index -> die"""
    c = ip.c
    cls = glob(ip, 'randvar', 'RV')
    m = c.fresh_fn(name + '_m', [I], I)
    v, t, p = c.fresh_fn(name + '_v', [I, I], R), c.fresh_fn(name + '_t', [I, I], I), c.fresh_fn(name + '_p', [I, I], I)
    k, a, b = c.binder('fk'), c.binder('fa'), c.binder('fb')
    c.assume(z3.ForAll([k], m(k) >= 1, patterns=[m(k)]))
    c.assume(z3.ForAll([k, a, b], z3.Implies(z3.And(a >= 0, a < b, b < m(k)), v(k, a) < v(k, b)), patterns=[z3.MultiPattern(v(k, a), v(k, b))]))
    c.assume(z3.ForAll([k, a], z3.Implies(z3.And(a >= 0, a < m(k)), p(k, a) >= 0), patterns=[p(k, a)]))
    c.assume(z3.ForAll([k, a], z3.And(t(k, a) >= 0, t(k, a) <= 1), patterns=[t(k, a)]))

    def die(i):
        w1, w2 = c.binder('fv'), c.binder('fp')
        o = Obj(cls)
        o.pre = True
        o.attrs = {'vals': VList('tuple', Comp(m(i), w1, Lit((SNum(v(i, w1), t(i, w1)),)))), 'probs': VList('tuple', Comp(m(i), w2, Lit((SNum(p(i, w2), 'int'),)))),
                   'sum_probs': None, '_source_roll': 1, '_source_die': o, '_str_LHS_RHS': (1, '{?}')}
        return o
    return die, m, v, p


@task('C06', 'mixture of dice', ['randvar:RV.from_rvs', 'factory:merge_rvs'])
def dice_only(ip):
    c = ip.c
    use_rv(ip)
    die, m, v, p = die_family(ip)
    n = c.fresh('n')
    c.assume(n >= 1)
    u = c.binder('e')
    rvs = VList('list', Comp(n, u, Lit((die(u),))))
    ws, _, w = intlist(ip, 'w', nonneg=True, n=n)
    for x in (rvs, ws):
        x.pre = True
    given = bool(c.choose(2))
    j = c.binder('lj')
    S = lambda i: T.mk_agg('sum', m(i), j, p(i, j))
    k = c.binder('sk')
    c.assume(z3.ForAll([k], S(k) >= 1, patterns=[m(k), S(k)]))
    c.sum_bounds(n, k, m(k), lo=1)
    inv = ip.models.inverse_of(ip, k, S(k))
    f = glob(ip, 'randvar', 'RV').lookup('from_rvs')[0] if c.choose(2) else glob(ip, 'factory', 'merge_rvs')
    if c.choose(2):          # iterators instead of lists
        rvs, ws = VList('iter', rvs.s), VList('iter', ws.s)
    kind, r = outcome(ip, f, [rvs, ws] if given else [rvs])
    if not c.prove('mixture: does not raise', kind == 'ok'):
        return
    i = c.binder('li')
    spec = T.mk_agg('sum', n, i, (real(w(i)) if given else z3.RealVal(1)) * inv(i) * T.mk_agg('sum', m(i), j, PSI(v(i, j)) * real(p(i, j))))
    PROD = T.mk_agg('prod', n, i, S(i))
    has_law(ip, 'mixture: exact law', r, spec, r.g.h * real(PROD) if isinstance(r, Obj) and r.g is not None else None)
    frame_ok(ip)


@task('C06', 'mixture of dice, numbers, blank and missing entries', ['randvar:RV.from_rvs', 'factory:merge_rvs'])
def mixed(ip):
    c = ip.c
    use_rv(ip)
    die, m, v, p = die_family(ip)
    n = c.fresh('n')
    c.assume(n >= 0)
    K = c.fresh_fn('kind', [I], I)
    x, xt = c.fresh_fn('num', [I], R), c.fresh_fn('numkind', [I], I)
    k = c.binder('sk')
    c.assume(z3.ForAll([k], z3.And(K(k) >= 0, K(k) <= 3), patterns=[K(k)]))
    c.assume(z3.ForAll([k], z3.And(xt(k) >= 0, xt(k) <= 2, z3.Implies(xt(k) == 2, z3.Or(x(k) == 0, x(k) == 1))), patterns=[xt(k)]))
    u = c.binder('e')
    blank = ip.call(glob(ip, 'blackrv', 'BlankRV'), [])
    blank.pre = True
    rvs = VList('list', Comp(n, u, IfL(K(u) == 0, Lit((die(u),)), IfL(K(u) == 1, Lit((SNum(x(u), xt(u)),)), IfL(K(u) == 2, Lit((blank,)), Lit((None,)))))))
    ws, _, w = intlist(ip, 'w', nonneg=True, n=n)
    for o in (rvs, ws):
        o.pre = True
    given = bool(c.choose(2))
    j = c.binder('lj')
    S = lambda i: T.mk_agg('sum', m(i), j, p(i, j))
    c.assume(z3.ForAll([k], S(k) >= 1, patterns=[m(k), S(k)]))
    body = lambda i: z3.If(K(i) == 0, S(i), z3.IntVal(1))
    inv = ip.models.inverse_of(ip, k, S(k))
    f = glob(ip, 'randvar', 'RV').lookup('from_rvs')[0] if c.choose(2) else glob(ip, 'factory', 'merge_rvs')
    if c.choose(2):          # iterators instead of lists
        rvs, ws = VList('iter', rvs.s), VList('iter', ws.s)
    kind, r = outcome(ip, f, [rvs, ws] if given else [rvs])
    if not c.prove('mixture: does not raise', kind == 'ok'):
        return
    i = c.binder('li')
    some = z3.Exists([i], z3.And(i >= 0, i < n, K(i) <= 1))
    if is_blank(ip, r):
        c.prove('blank only when nothing else is listed', z3.Not(some))
        return
    c.prove('blank when nothing else is listed', some)
    W = lambda i: real(w(i)) if given else z3.RealVal(1)
    spec = T.mk_agg('sum', n, i, z3.If(K(i) == 0, W(i) * inv(i) * T.mk_agg('sum', m(i), j, PSI(v(i, j)) * real(p(i, j))), z3.If(K(i) == 1, W(i) * PSI(x(i)), z3.RealVal(0))))
    PROD = T.mk_agg('prod', n, i, body(i))
    has_law(ip, 'mixture: exact law', r, spec, r.g.h * real(PROD) if isinstance(r, Obj) and r.g is not None else None)
    frame_ok(ip)
