"""C01: the constructor of a random variable."""
from .objs import *
from . import rules, models

FUNCS = ['randvar:RV.__init__', 'randvar:RV._sort_and_group', 'randvar:RV._get_zip', 'randvar:RV._get_new_zipped', 'randvar:RV._get_normalized']


def settings(ip, trunc, ignore):
    S = glob(ip, 'settings', 'SETTINGS')
    S.d = dict(S.d, RV_TRUNC=trunc, RV_IGNORE_ZERO_PROBS=ignore)


def pairs_of(ip, rv):
    """the outcomes and weights of a die as one index list of pairs"""
    v, p = rv.attrs['vals'], rv.attrs['probs']
    return models.zip_sl(ip, [ip.as_sl(v, consume=False), ip.as_sl(p, consume=False)])


def canonical(ip, rv, conv, n, x, p, ignore, what=''):
    """obligations of the construction contract: rv was built from outcomes x(i) (converted by conv) and weights p(i), i < n"""
    c = ip.c
    s = models.regular(ip, pairs_of(ip, rv)) if not isinstance(pairs_of(ip, rv), Lit) else pairs_of(ip, rv)
    if s is None:
        raise Unsupported('outcome list of a die has no regular form')
    if isinstance(s, Lit):
        m = z3.IntVal(len(s.items))
        el = lambda i: ip.sl_get(s, i)
    else:
        m = s.n
        el = lambda i: subst(s.chunk.items[0], [(s.var, i)])
    V = lambda i: rt(el(i)[0])
    P = lambda i: nt(el(i)[1])
    a, b = c.fresh('ca'), c.fresh('cb')
    rng = z3.And(a >= 0, a < m)
    c.prove(what + 'at least one outcome', m >= 1)
    c.prove(what + 'outcomes strictly increasing', z3.Implies(z3.And(a >= 0, a < b, b < m), V(a) < V(b)))
    c.prove(what + 'outcomes are not booleans', z3.Implies(rng, tag_term(tag_of(el(a)[0])) != 2))
    c.prove(what + 'weights are integers', z3.Implies(rng, z3.Or(tag_term(tag_of(el(a)[1])) == 0, tag_term(tag_of(el(a)[1])) == 2)))
    c.prove(what + 'weights are not negative', z3.Implies(rng, P(a) >= 0))
    # proportional: g * weight of an outcome = total weight given to it, for every weighting psi of outcomes
    psi = z3.Function('PSI', R, R)
    u = c.binder('in')
    want = T.mk_agg('sum', n, u, psi(conv(u)) * real(p(u)))
    if isinstance(s, Lit):
        got = ssum(s, lambda e: psi(rt(e[0])) * rt(e[1]))
    else:
        got = T.mk_agg('sum', m, s.var, psi(rt(s.chunk.items[0][0])) * rt(s.chunk.items[0][1]))
    empty = n == 0
    j, k = c.fresh('cj'), c.fresh('ck')
    listed = lambda q: z3.And(q >= 0, q < n, conv(q) == V(a))
    if ignore:
        empty = z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < n), p(u) == 0))
    if c.branch(empty):
        if not isinstance(s, Lit):
            some = exists_at(ip, n, lambda q: z3.And(conv(q) == V(z3.IntVal(0)), p(q) != 0 if ignore else True))
            if c.holds(some):       # an outcome was listed: this path does not occur
                c.assume(some)
        c.prove(what + 'nothing listed gives the constant 0', z3.And(m == 1, V(z3.IntVal(0)) == 0, P(z3.IntVal(0)) == 1))
        return
    gs = [g for g, _ in c.gcds]
    for g in gs:
        if c.holds(g > 1):
            break
    else:
        g = z3.IntVal(1)
    c.prove_eq(what + 'weight of an outcome proportional to the weight it was given', real(g) * got, want)
    c.prove(what + 'proportionality factor positive', g >= 1)
    x = c.fresh('cx')
    wx = c.fresh('ce')
    keep = p(x) != 0 if ignore else z3.BoolVal(True)
    c.prove(what + 'every listed outcome kept', z3.Implies(z3.And(x >= 0, x < n, keep), exists_at(ip, m, lambda q: V(q) == conv(x))))
    if ignore:
        c.prove(what + 'zero weights dropped', z3.Implies(rng, P(a) != 0))
    c.prove(what + 'every outcome was listed', z3.Implies(rng, exists_at(ip, n, lambda q: conv(q) == V(a))))
    c.prove(what + 'no common factor', no_common_factor(ip, ip.as_sl(rv.attrs['probs'], consume=False)))


def exists_at(ip, n, f):
    q = ip.c.binder('ex')
    return z3.Exists([q], z3.And(q >= 0, q < n, f(q)))


def parts_of(s):
    return s.parts if isinstance(s, Cat) else (s,)


def no_common_factor(ip, s):
    """if some weight is positive, no d >= 2 divides all weights.  Uses gcd maximality (Lean: gcd_max): when D divides every
    element of a list it divides the gcd of the list; applied with D = d * factor"""
    c = ip.c
    if isinstance(s, Lit) and any(static_int(nt(x)) == 1 for x in s.items):
        return True
    d = c.fresh('d')
    for g, gl in c.gcds:
        if len(parts_of(gl)) != len(parts_of(s)):
            continue
        for fac in (g, z3.IntVal(1)):
            ok = True
            pos = []
            for x, y in zip(parts_of(s), parts_of(gl)):
                if isinstance(x, Lit) and isinstance(y, Lit) and len(x.items) == len(y.items):
                    ok = ok and all(c.holds(nt(b) == fac * nt(a)) for a, b in zip(x.items, y.items))
                    pos += [nt(a) > 0 for a in x.items]
                elif isinstance(x, Comp) and isinstance(y, Comp) and is_idx(x) and is_idx(y):
                    i = c.fresh('fi')
                    a, b = nt(subst(x.chunk.items[0], [(x.var, i)])), nt(subst(y.chunk.items[0], [(y.var, i)]))
                    ok = ok and c.holds(z3.And(x.n == y.n, z3.Implies(z3.And(i >= 0, i < x.n), b == fac * a)))
                    u = c.binder('fu')
                    pos.append(z3.Exists([u], z3.And(u >= 0, u < x.n, nt(subst(x.chunk.items[0], [(x.var, u)])) > 0)))
                else:
                    ok = False
            if ok:
                # every weight w = d*e, element = fac*w = (fac*d)*e: D = fac*d divides all, so g = fac*d*h
                h = c.fresh('h')
                hyp = [d >= 2, z3.Or(pos), g == fac * d * h]
                if fac.eq(g):
                    # g > 0 (some element is positive) and g = g*d*h: d*h = 1
                    if c.holds(g > 0) and z3_unsat([g > 0, d >= 2, g == g * d * h]):
                        return True
                elif c.holds(z3.Or(g == 0, g == 1)) and c.holds(z3.Implies(z3.Or(pos), g != 0)) and z3_unsat([g == 1, d >= 2, g == d * h]):
                    return True
    return False


def z3_unsat(fs):
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*fs)
    return s.check() == z3.unsat


def truncated(ip, t, tag):
    return z3.If(tag == 1, T_TRUNC(t), t)


def T_TRUNC(t):
    from . import interp as M
    return M.TRUNC(t)


def construction(ip, ignore, param, switch):
    c = ip.c
    ip.loop_rules.append(rules.merge_equal_neighbours)
    trunc = param is True or (param is None and switch)
    settings(ip, switch, ignore)
    vl, n, x = numlist(ip, 'x')
    pl, _, p = intlist(ip, 'p', nonneg=True, n=n)
    kind, r = outcome(ip, glob(ip, 'randvar', 'RV'), [vl, pl] + ([] if param is None else [param]))
    if not c.prove('valid input is accepted', kind == 'ok'):
        return
    conv = (lambda i: truncated(ip, x(i).t, x(i).tag)) if trunc else (lambda i: x(i).t)
    canonical(ip, r, conv, n, x, p, ignore)
    bad = [(o, k) for o, k, _ in c.writes]
    c.prove('arguments unchanged', not bad)
    c.prove('a fresh die: one roll of itself', same(r.attrs.get('_source_roll'), 1) and r.attrs.get('_source_die') is r and r.attrs.get('sum_probs') is None)


for _ig in (False, True):
    for _pa, _sw, _nm in ((None, False, 'plain'), (None, True, 'truncation switched on'), (True, False, 'truncate=True'), (False, True, 'truncate=False')):
        task('C01', 'construction, %s%s' % (_nm, ', zero weights ignored' if _ig else ''), FUNCS, ms=20000)(
            lambda ip, a=_ig, b=_pa, d=_sw: construction(ip, a, b, d))


@task('C01', 'rejection', FUNCS, ms=20000)
def rejection(ip):
    c = ip.c
    ip.loop_rules.append(rules.merge_equal_neighbours)
    ignore = bool(c.choose(2))
    settings(ip, bool(c.choose(2)), ignore)
    vl, n, x = numlist(ip, 'x')
    pl, k, p = numlist(ip, 'p')
    bad = c.fresh('bad')
    if c.choose(2):
        c.assume(n != k)
        what = 'lists of different lengths are rejected'
    else:
        c.assume(z3.And(bad >= 0, bad < k, z3.Or(p(bad).t < 0, p(bad).tag == 1)))
        what = 'negative and fractional weights are rejected'
    kind, r = outcome(ip, glob(ip, 'randvar', 'RV'), [vl, pl])
    c.prove(what, kind == 'raise')
