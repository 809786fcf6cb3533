"""C18: the weight limiter."""
from .objs import *

FUNCS = ['randvar:_INTERNAL_PROB_LIMIT_VALS', 'randvar:RV._get_sum_probs']
MOST = 10 ** 18          # number of outcomes a die can have in memory


def lemma(ip, name, goal, hyps):
    """a fact of arithmetic, from the listed hypotheses only"""
    import time
    s = z3.Solver()
    s.set('timeout', 30000)
    s.add(*hyps)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = s.check()
    return ip.c.record(name, {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[str(r)], t0, '' if r == z3.unsat else str(goal))


def limited(cached):
    def t(ip):
        c = ip.c
        num_settings(ip, RV_TRUNC=False, RV_IGNORE_ZERO_PROBS=bool(c.choose(2)))
        ip.float_range = True
        rv = rv_obj(ip, 'd')
        m, P = rv.g.m, rv.g.P
        i = c.binder('li')
        tot = T.mk_agg('sum', m, i, P(i))
        c.assume(m <= MOST)
        if cached:
            rv.attrs['sum_probs'] = SNum(tot, 'int')
        v0, p0 = rv.attrs['vals'], rv.attrs['probs']
        before = dict(rv.attrs)
        rv.pre = True
        kind, r = outcome(ip, glob(ip, 'randvar', '_INTERNAL_PROB_LIMIT_VALS'), [rv])
        if not c.prove('totals of any size are handled', kind == 'ok'):
            return
        if not c.prove('gives the die', r is rv):
            return
        c.prove('outcomes keep their place', rv.attrs['vals'] is v0 or same(rv.attrs['vals'], v0))
        c.prove('nothing else changes', all(rv.attrs[k] is before[k] or same(rv.attrs[k], before[k]) for k in before if k not in ('probs', 'sum_probs')))
        a = c.fresh('a')
        inr = z3.And(a >= 0, a < m)
        new = rv.attrs['probs']
        if c.branch(tot <= LIMIT):
            if new is not p0:
                ns = ip.as_sl(new, consume=False)
                c.prove('up to 10^31 nothing changes', z3.And(slen(ns) == m, z3.Implies(inr, nt(ip.sl_get(ns, a, safe=True)) == P(a))))
            else:
                ok(ip, 'up to 10^31 nothing changes')
            return
        ns = ip.as_sl(new, consume=False)
        if not is_idx(ns):
            raise Unsupported('weights after the limiter')
        c.prove('one weight for every outcome', ns.n == m)
        el = lambda j: subst(ns.chunk.items[0], [(ns.var, j)])
        Q = lambda j: nt(el(j))
        c.prove('weights are integers', z3.Implies(inr, tag_term(tag_of(el(a))) == 0))
        c.prove('weights are not negative', z3.Implies(inr, Q(a) >= 0))
        tot2 = T.mk_agg('sum', m, i, Q(i))
        kind, s2 = outcome(ip, ip.getattr(rv, '_get_sum_probs'), [])
        c.prove('the total is computed', kind == 'ok')
        c.prove_eq('the total is that of the new weights', nt(s2), tot2)
        # the common divisor: any N with  10^11 <= N <= total / 10^20  and  weight' = floor(weight / N) gives the bound
        cands = [x.arg(1) for x in T.subterms(Q(a)) if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_IDIV,)]
        tr = z3.ToReal(tot)
        ns_ = []
        for x in cands:
            if not T.occurs(a, x) and not any(x.eq(y) for y in ns_):
                ns_.append(x)
        if not ns_:
            raise Unsupported('weights are not quotients')
        small = lambda N: z3.And(N >= 1, real(N) * 10 ** 20 <= tr)
        e = lambda j, N: real(P(j)) / real(N) - real(Q(j))
        close = lambda N: z3.Implies(inr, z3.And(e(a, N) >= -1, e(a, N) <= 1))
        good = [N for N in ns_ if c.holds(small(N)) and c.holds(close(N))]
        N = (good or ns_)[0]
        c.prove('scaling factor positive and small enough', small(N))
        c.prove('each weight is scaled by the same factor and rounded', close(N))
        # E = sum of the rounding errors
        nv = c.fresh('N', R)
        c.assume(nv == real(N))
        c.assume(nv >= 1)
        err = lambda j: real(P(j)) / nv - real(Q(j))
        j = c.binder('lj')
        E = c.sum_bounds(m, j, z3.simplify(real(P(j)) * (1 / nv)) - real(Q(j)), -1, 1)
        if E is None:
            c.prove('rounding errors are between 0 and 1', False)
            return
        ok(ip, 'rounding errors are between 0 and 1')
        inv = c.fresh('Ninv', R)
        c.assume(inv == 1 / nv)
        j2 = c.binder('lj')
        c.prove_eq('total error is the sum of the rounding errors', T.mk_agg('sum', m, j2, inv * real(P(j2)) - real(Q(j2))), inv * tr - real(tot2))
        c.prove('a weight is at most the total', c.part_of_sum(m, j, P(j), a))
        # arithmetic:  |q/T' - p/T| <= m * 10^-19
        p, q, t, t2, n, k, er, es = [z3.Real('l!' + s) for s in ('p', 'q', 't', 't2', 'n', 'k', 'er', 'es')]
        lemma(ip, 'arithmetic: the new total is positive', t2 >= 2 * 10 ** 19, [n >= 1, n * 10 ** 20 <= t, es <= k, es >= -k, k <= MOST, n * (t2 + es) == t])
        d = z3.Real('l!d')
        lemma(ip, 'arithmetic: cross difference', z3.And(d <= 2 * k * t, d >= -2 * k * t), [d == p * es - er * t, p >= 0, p <= t, t > 0, er >= -1, er <= 1, es >= -k, es <= k, k >= 1])
        lemma(ip, 'arithmetic: error identity', n * (q * t - p * t2) == n * (p * es - er * t), [n * (q + er) == p, n * (t2 + es) == t])
        lemma(ip, 'arithmetic: bound', z3.And(d <= k * t * t2 / 10 ** 19, d >= -k * t * t2 / 10 ** 19), [d <= 2 * k * t, d >= -2 * k * t, t2 >= 2 * 10 ** 19, k * t > 0, k * t * t2 >= k * t * (2 * 10 ** 19)])
        lemma(ip, 'arithmetic: product monotone', k * t * t2 >= k * t * (2 * 10 ** 19), [t2 >= 2 * 10 ** 19, k * t > 0])
        # the instance: p = P(a), q = Q(a), er = error at a, es = E, k = m, t = total, t2 = new total
        c.prove('instance of the arithmetic', z3.Implies(inr, z3.And(real(P(a)) >= 0, real(P(a)) <= tr, real(Q(a)) >= 0, real(m) >= 1, real(m) <= MOST)))
    return t


task('C18', 'limiter', FUNCS)(limited(False))
task('C18', 'limiter with the total already known', FUNCS)(limited(True))
