"""C04: selecting positions from a pool.

For a die with outcomes V 0 < .. < V (m-1), weights P and total S, let a(i) be the weight above outcome i and b(i) = a(i) + P(i).
lean/OrderStat.lean (weight_of_kth, kth_highest): over all ordered rolls of n dice, the weight of those whose k-th highest draw is
V i is  G(a i) - G(b i)  with  G(x) = sum_{j<k} comb(n, j) x^j (S - x)^(n-j);  it is not negative, and over all i it adds up to S^n."""
from .objs import *
from .c07 import expansion, use_expansion
from .c08 import a_seq, same_num


def order_law(ip, d, N, k, f):
    """sum over the outcomes of f(outcome) * weight of the rolls whose k-th highest is that outcome"""
    c = ip.c
    g = d.g
    i, j, u = c.binder('oi'), c.binder('oj'), c.binder('ou')
    S = real(T.mk_agg('sum', g.m, u, g.P(u)))

    def G(above, upto):
        return T.mk_agg('sum', k, j, z3.ToReal(M.COMB(N, j)) * M.IPOW(above, j) * M.IPOW(upto, N - j))
    A = real(T.mk_agg('sum', i + 1, u, g.P(u)))
    p = real(g.P(i))
    w = real(G(S - A, A)) - real(G(S - A + p, A - p))
    return T.mk_agg('sum', g.m, i, real(f(rt(g.el(i)))) * w)


def pool(ip, n_min=1):
    """an arbitrary pool of an arbitrary die -> (pool, die, number of dice)"""
    c = ip.c
    d = rv_obj(ip, 'd')
    d.pre = True
    i = c.binder('pt')
    c.assume(T.mk_agg('sum', d.g.m, i, d.g.P(i)) >= 1)
    N = num(ip, 'N', 'int')
    c.assume(nt(N) >= n_min)
    p = rv_obj(ip, 'pool')
    p.pre = True
    p.attrs['_source_roll'], p.attrs['_source_die'] = N, d
    return p, d, N


def order_setting(ip):
    """-> highest first?"""
    high = bool(ip.c.choose(2))
    num_settings(ip, **{'position order': 'highest first' if high else 'lowest first'})
    return high


@task('C04', 'one position', ['randvar:RV._get_kth_order_statistic'])
def one_position(ip):
    c = ip.c
    use_rv(ip)
    high = order_setting(ip)
    _, d, N = pool(ip)
    k = num(ip, 'k', 'int')
    made = []
    res = rv_obj(ip, 'res', source=False)

    def ctor(ip, args, kw):
        a = dict(zip(['vals', 'probs'], args), **kw)
        if set(a) != {'vals', 'probs'} or ip.c.binders:
            return NotImplemented
        made.append([ip.resolve_ifl(ip.as_sl(a[x], consume=False)) for x in ('vals', 'probs')])
        return res
    ip.contracts['randvar:RV'] = ctor
    ip.contracts['randvar:_INTERNAL_PROB_LIMIT_VALS'] = lambda ip, a, kw: a[0] if len(a) == 1 and not kw else NotImplemented
    kind, r = outcome(ip, ip.getattr(d, '_get_kth_order_statistic'), [N, k])
    if not c.prove('a position: does not raise', kind == 'ok'):
        return
    n, kt = nt(N), nt(k)
    if not c.branch(z3.And(kt >= 1, kt <= n)):
        c.prove('a position outside the pool gives the number 0', is_num(r) and c.holds(real(nt(r)) == 0))
        frame_ok(ip)
        return
    if not c.prove('a position of the pool gives a die', r is res and len(made) == 1):
        return
    top = kt if high else n + 1 - kt
    vs, ws = made[0]
    from . import models
    c.prove('one weight for every outcome', slen(vs) == slen(ws))
    for e in M.generic_elems(ws):
        if not is_num(e):
            raise Unsupported('weight %r' % (e,))
    c.prove_eq('the weights are those of the order statistic', real(ssum(models.zip_sl(ip, [vs, ws]), lambda e: PSI(rt(e[0])) * rt(e[1]))),
               order_law(ip, d, n, z3.simplify(top), PSI))
    w = c.fresh('w')
    if is_idx(ws):
        e = subst(ws.chunk.items[0], [(ws.var, w)])
        c.prove('the weights are integers', tag_term(tag_of(e)) != 1, [w >= 0, w < ws.n])
    frame_ok(ip)


@task('C04', 'dispatch', ['randvar:RV.__rmatmul__', 'factory:get_seq', 'seq:Seq.__init__'])
def dispatch(ip):
    """k @ pool is the order statistic of position k; several positions: the sum over the expanded rolls, positions counted from
    the other end when the setting says so"""
    c = ip.c
    use_rv(ip)
    high = order_setting(ip)
    p, d, N = pool(ip)
    stat, sums = [], []
    res, res2 = rv_obj(ip, 'res', source=False), rv_obj(ip, 'res2', source=False)

    def kth(ip, args, kw):
        a = dict(zip(['self', 'draws', 'k'], args), **kw)
        stat.append(a)
        return res
    ip.contracts['randvar:RV._get_kth_order_statistic'] = kth

    def total(ip, args, kw):
        sums.append(dict(zip(['orig', 'locs'], args), **kw))
        return res2
    ip.module('randvar').vars['_sum_at'] = ghost('_sum_at', total)
    one = bool(c.choose(2))
    if one:
        k = num(ip, 'k', 'int')
        which = c.choose(3)
        x = [k, ip.call(glob(ip, 'seq', 'Seq'), [k]), VList('list', Lit((k,)))][which]
        kind, r = outcome(ip, ip.getattr(p, '__rmatmul__'), [x])
        if not c.prove('one position: does not raise', kind == 'ok'):
            return
        if c.prove('one position: the order statistic of the die', r is res and len(stat) == 1 and not sums):
            a = stat[0]
            c.prove('one position: of the die of the pool', a.get('self') is d)
            prove_same(ip, 'one position: as many draws as dice', a.get('draws'), N)
            prove_same(ip, 'one position: that position', a.get('k'), k)
        frame_ok(ip)
        return
    from .objs import intlist, seq_obj
    if c.choose(2):
        s, n, ks = seq_obj(ip, 's', ints=True)
    else:
        s, n, ks = intlist(ip, 's', kind=['list', 'tuple'][c.choose(2)])
        s.pre = True
    c.assume(n != 1)
    kind, r = outcome(ip, ip.getattr(p, '__rmatmul__'), [s])
    if not c.prove('several positions: does not raise', kind == 'ok'):
        return
    if c.prove('several positions: summed over the rolls of the pool', r is res2 and len(sums) == 1 and not stat):
        a = sums[0]
        c.prove('several positions: of the pool', a.get('orig') is p)
        z = a.get('locs')
        z = z.attrs['_seq'] if isinstance(z, Obj) and z.cls is glob(ip, 'seq', 'Seq') else z
        z = ip.as_sl(z, consume=False)
        c.prove('several positions: as many', slen(z) == n)
        q = c.fresh('q')
        want = ks(q) if high else nt(N) - ks(q) + 1
        hyp = [q >= 0, q < n]
        c.assume(z3.And(hyp))
        c.prove('several positions: counted from the right end', nt(ip.sl_get(z, q, safe=True)) == want)
    frame_ok(ip)


@task('C04', 'sum of positions', ['randvar:_sum_at', 'decorators:anydice_type_casting', 'seq:Seq.__getitem__'])
def sum_of_positions(ip):
    """_sum_at, with the real casting: the law of the sum of those positions over the expanded rolls"""
    c = ip.c
    use_rv(ip)
    use_expansion(ip)
    ip.contracts['randvar:RV.from_rvs'] = from_rvs
    p, d, N = pool(ip)
    n, w, L, e = expansion(ip, p, 'r', nt(N))
    ls, m, ks = seq_obj(ip, 'locs', ints=True)
    ip.c.writes.clear()
    kind, r = outcome(ip, glob(ip, 'randvar', '_sum_at'), [p, ls])
    if not c.prove('sum of positions: does not raise', kind == 'ok'):
        return
    i = c.binder('i')
    u = c.binder('u')
    pick = lambda u: T.mk_agg('sum', m, i, z3.If(z3.And(ks(i) >= 1, ks(i) <= nt(N)), e(u, ks(i) - 1), z3.RealVal(0)))
    has_law(ip, 'sum of positions', r, T.mk_agg('sum', n, u, real(w(u)) * PSI(pick(u))))
    frame_ok(ip)
