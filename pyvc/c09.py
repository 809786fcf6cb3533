"""C09: statistics and queries."""
from .objs import *


def die(ip, name='a', **kw):
    d = rv_obj(ip, name, **kw)
    d.pre = True
    return d


def tot(ip, d):
    i = ip.c.binder('li')
    return T.mk_agg('sum', d.g.m, i, d.g.P(i))


def moment(ip, d, f):
    i = ip.c.binder('li')
    return T.mk_agg('sum', d.g.m, i, f(rt(d.g.el(i))) * real(d.g.P(i)))


def cached(ip, d):
    """the cached total is missing or right"""
    if ip.c.choose(2):
        d.attrs['sum_probs'] = SNum(tot(ip, d), 'int')
    return d


@task('C09', 'mean', ['randvar:RV.mean', 'randvar:RV._get_sum_probs'])
def mean(ip):
    c = ip.c
    use_rv(ip)
    d = cached(ip, die(ip))
    kind, r = outcome(ip, ip.getattr(d, 'mean'), [])
    if not c.prove('mean: does not raise', kind == 'ok'):
        return
    S = tot(ip, d)
    if r is None:
        c.prove_eq('no mean only without any weight', S, z3.IntVal(0))
        return
    if not c.prove('mean: a number', is_num(r)):
        return
    c.prove('mean of a die with some weight', S != 0)
    c.prove_eq('mean: total of outcome x weight over the total weight', rt(r) * real(S), moment(ip, d, lambda v: v))
    frame_ok(ip)



@task('C09', 'standard deviation', ['randvar:RV.std', 'randvar:RV.mean', 'randvar:RV.__pow__', 'randvar:RV._convolve'])
def std(ip):
    c = ip.c
    use_rv(ip)
    d = cached(ip, die(ip))
    kind, r = outcome(ip, ip.getattr(d, 'std'), [])
    if not c.prove('standard deviation: does not raise', kind == 'ok'):
        return
    S = tot(ip, d)
    if r is None:
        c.prove_eq('no standard deviation only without any weight', S, z3.IntVal(0))
        return
    if not c.prove('standard deviation: a number', is_num(r)):
        return
    c.prove('standard deviation of a die with some weight', S != 0)
    m1, m2 = moment(ip, d, lambda v: v), moment(ip, d, lambda v: v * v)
    s = real(S)
    var = m2 / s - (m1 / s) * (m1 / s)
    c.prove('standard deviation: not negative', rt(r) >= 0)
    c.prove('standard deviation: its square is the variance (0 when rounding makes that negative)', rt(r) * rt(r) == z3.If(var >= 0, var, 0))
    frame_ok(ip)


@task('C09', 'outcome probabilities', ['randvar:RV.get_vals_probs'])
def probabilities(ip):
    c = ip.c
    use_rv(ip)
    d = cached(ip, die(ip))
    S = tot(ip, d)
    c.assume(S >= 1)
    kind, r = outcome(ip, ip.getattr(d, 'get_vals_probs'), [0] if c.choose(2) else [])
    if not c.prove('probabilities: does not raise', kind == 'ok'):
        return
    s = ip.resolve_ifl(ip.as_sl(r, consume=False))
    c.prove('probabilities: one entry per outcome', slen(s) == d.g.m)
    k = c.fresh('k')
    c.assume(z3.And(k >= 0, k < d.g.m))
    e = ip.sl_get(s, k)
    if not c.prove('probabilities: pairs', isinstance(e, tuple) and len(e) == 2):
        return
    prove_same(ip, 'probabilities: the outcome in order', e[0], d.g.el(k))
    c.prove('probabilities: weight over total weight', rt(e[1]) * real(S) == real(d.g.P(k)))
    c.prove_eq('probabilities add up to 1', real(ssum(s, lambda x: rt(x[1]))), z3.RealVal(1))
    frame_ok(ip)


@task('C09', 'cumulative query', ['randvar:RV.get_cdf'])
def cdf(ip):
    c = ip.c
    use_rv(ip)
    d = cached(ip, die(ip))
    kind, r = outcome(ip, ip.getattr(d, 'get_cdf'), [])
    if not c.prove('cumulative query: does not raise', kind == 'ok'):
        return
    i, j = c.binder('li'), c.binder('lj')
    spec = T.mk_agg('sum', d.g.m, i, PSI(rt(d.g.el(i))) * real(T.mk_agg('sum', i + 1, j, d.g.P(j))))
    has_law(ip, 'cumulative query: every outcome gets the weight of all outcomes up to it', r, spec)
    frame_ok(ip)


@task('C09', 'filter', ['randvar:RV.filter', 'factory:get_seq'])
def filt(ip):
    c = ip.c
    use_rv(ip)
    d = cached(ip, die(ip))
    k = c.choose(4)
    if k == 0:
        x = num(ip, 'y')
        gone = lambda v: v == rt(x)
    elif k <= 2:
        x, n, el = seq_obj(ip) if k == 1 else numlist(ip, 'l')
        j = c.binder('lj')
        gone = lambda v: z3.Exists([j], z3.And(j >= 0, j < n, rt(el(j)) == v))
    else:
        x = die(ip, 'b')
        j = c.binder('lj')
        gone = lambda v: z3.Exists([j], z3.And(j >= 0, j < x.g.m, rt(x.g.el(j)) == v))
    if isinstance(x, (Obj, VList)):
        x.pre = True
    kind, r = outcome(ip, ip.getattr(d, 'filter'), [x])
    if not c.prove('filter: does not raise', kind == 'ok'):
        return
    i = c.binder('li')
    w = c.binder('lw')
    some = z3.Exists([w], z3.And(w >= 0, w < d.g.m, z3.Not(gone(rt(d.g.el(w))))))
    spec = T.mk_agg('sum', d.g.m, i, z3.If(gone(rt(d.g.el(i))), z3.RealVal(0), PSI(rt(d.g.el(i))) * real(d.g.P(i))))
    has_law(ip, 'filter: exactly the listed outcomes are removed', r, z3.If(some, spec, PSI(z3.RealVal(0))))
    frame_ok(ip)


@task('C09', 'cut', ['randvar:RV.get_vals_probs'])
def cut(ip):
    c = ip.c
    use_rv(ip)
    d = cached(ip, die(ip))
    S = tot(ip, d)
    c.assume(S >= 1)
    i2 = c.binder('li')
    every = T.mk_agg('sum', d.g.m, i2, real(d.g.P(i2)) / real(S))
    adds_up = c.prove_eq('cut: the probabilities add up to 1', every, z3.RealVal(1))
    t = num(ip, 'cut', 'float')
    c.assume(z3.And(rt(t) > 0, rt(t) < 1))
    kind, r = outcome(ip, ip.getattr(d, 'get_vals_probs'), [t])
    if not c.prove('cut: does not raise', kind == 'ok'):
        return
    s = ip.resolve_ifl(ip.as_sl(r, consume=False))
    n = slen(s)
    for q in c.prefixes:
        c.prefix_monotone(*q[:3])
    i, a, b = c.fresh('i'), c.fresh('a'), c.fresh('b')
    x, y = ip.sl_get(s, a), ip.sl_get(s, b)
    if not c.prove('cut: pairs', all(isinstance(e, tuple) and len(e) == 2 for e in (x, y))):
        return
    ra, rb = z3.And(a >= 0, a < n), z3.And(b >= 0, b < n)
    w = c.binder('lw')
    c.prove('cut: kept outcomes in order', rt(x[0]) < rt(y[0]), [ra, rb, a < b])
    c.prove('cut: only outcomes with their probability', z3.Exists([w], z3.And(w >= 0, w < d.g.m, rt(x[0]) == rt(d.g.el(w)), rt(x[1]) * real(S) == real(d.g.P(w)))), [ra])
    kept = lambda i: z3.Exists([w], z3.And(w >= 0, w < n, rt(ip.sl_get(s, w)[0]) == rt(d.g.el(i))))
    c.prove('cut: only the least likely outcomes', real(d.g.P(i)) <= rt(y[1]) * real(S), [i >= 0, i < d.g.m, z3.Not(kept(i)), rb])
    # removed probability: over the running sums of the code
    tt = rt(t)
    total = real(ssum(s, lambda e: rt(e[1])))
    for m, p, A, el in c.prefixes:
        low = c.prefix_below(m, p, A, tt)
        e = el(w)
        if low is None or not isinstance(e, tuple):
            continue
        gone = lambda v: z3.Exists([w], z3.And(w >= 0, w < m, rt(el(w)[0]) == v, real(A(w)) < tt))
        j = c.binder('lj')
        if c.prove('cut: an outcome is removed exactly when its running sum is below the cut', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), gone(rt(el(j)[0])) == (real(A(j)) < tt)))):
            # congruence of sums
            removed = T.mk_agg('sum', m, j, z3.If(gone(rt(el(j)[0])), real(p(j)), z3.RealVal(0)))
            c.assume(removed == low)
            if c.prove_eq('cut: kept and removed outcomes are all outcomes', total + removed, every) and adds_up:
                c.assume(total + removed == 1)
            c.prove('cut: less than the cut is removed', total > 1 - tt)
            break
    else:
        c.prove('cut: less than the cut is removed', total > 1 - tt)
    frame_ok(ip)


@task('C09', 'random rolling', ['roller:roller', 'factory:get_rv'])
def rolling(ip):
    c = ip.c
    use_rv(ip)
    d = cached(ip, die(ip))
    draws = []

    def choices(ip, name, args, kw):
        """random.choices(population, weights, k=1): k independent draws with probability proportional to the weights"""
        a = dict(zip(['population', 'weights'], args), **kw)
        if name != 'choices' or set(a) - {'population', 'weights', 'k'} or len(args) > 2 or a.get('weights') is None:
            raise Unsupported('random.%s' % name)
        draws.append(a)
        k = a.get('k', 1)
        w = ip.c.binder('dr')
        f = ip.c.fresh_fn('draw', [I], R)
        if isinstance(k, int):
            return VList('list', Lit(tuple(SNum(f(z3.IntVal(q)), 'float') for q in range(k))))
        return VList('list', Comp(nt(k), w, Lit((SNum(f(w), 'float'),))))
    ip.random_hook = choices
    cnt = c.choose(2)
    if cnt:
        n = num(ip, 'n', 'int')
        c.assume(nt(n) >= 0)
    kind, r = outcome(ip, glob(ip, 'roller', 'roller'), [d, n] if cnt else [d])
    if not c.prove('random rolling: does not raise', kind == 'ok'):
        return
    if not c.prove('random rolling: draws', len(draws) >= 1 or cnt):
        return
    i = c.binder('li')
    spec = T.mk_agg('sum', d.g.m, i, PSI(rt(d.g.el(i))) * real(d.g.P(i)))
    for a in draws:
        z = ip.models.zip_sl(ip, [ip.as_sl(a['population'], consume=False), ip.as_sl(a['weights'], consume=False)])
        c.prove('random rolling: one weight per outcome', slen(ip.as_sl(a['population'], consume=False)) == slen(ip.as_sl(a['weights'], consume=False)))
        c.prove_eq('random rolling: draws among the outcomes with their weights', real(ssum(z, lambda e: PSI(rt(e[0])) * rt(e[1]))), spec)
    isdraw = lambda x, v: isinstance(x, SNum) and z3.is_app(x.t) and x.t.decl().name().startswith('draw!') and (v is None or T.occurs(v, x.t))
    if not cnt:
        c.prove('random rolling: one draw', isdraw(r, None))
    else:
        s = ip.resolve_ifl(ip.as_sl(r, consume=False))
        c.prove('random rolling: the requested number of draws', slen(s) == nt(n))
        c.prove('random rolling: every result is its own draw', isinstance(s, Lit) and not s.items or isinstance(s, Comp) and is_idx(s) and isdraw(s.chunk.items[0], s.var))
    frame_ok(ip)
