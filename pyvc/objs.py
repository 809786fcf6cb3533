"""Symbolic dice and sequences, and the contracts of RV / Seq used by callers."""
from .verify import *


class Ghost:
    """the abstract view of a die: m outcomes V(0) < ... < V(m-1) with weights P"""
    def __init__(self, m, v, p, el):
        self.m, self.V, self.P, self.el = m, v, p, el
        self.h = None


def tagged(ip, fn_v, fn_t, i):
    return SNum(fn_v(i), fn_t(i))


def numlist(ip, name='x', tags=(0, 1, 2), n=None, kind='list'):
    """a list of arbitrary length of arbitrary numbers -> (VList, length term, element function)"""
    c = ip.c
    n = n if n is not None else c.fresh(name + '_len')
    c.assume(n >= 0)
    v, t = c.fresh_fn(name, [I], R), c.fresh_fn(name + '_kind', [I], I)
    w = c.binder('x')
    c.assume(z3.ForAll([w], z3.And(t(w) >= min(tags), t(w) <= max(tags)), patterns=[t(w)]))
    if 2 in tags:
        c.assume(z3.ForAll([w], z3.Implies(t(w) == 2, z3.Or(v(w) == 0, v(w) == 1)), patterns=[z3.MultiPattern(t(w), v(w))]))
    u = c.binder('x')
    s = Comp(n, u, Lit((SNum(v(u), t(u)),)))
    return VList(kind, s), n, lambda i: SNum(v(i), t(i))


def intlist(ip, name='k', nonneg=False, n=None, kind='list'):
    c = ip.c
    n = n if n is not None else c.fresh(name + '_len')
    c.assume(n >= 0)
    v = c.fresh_fn(name, [I], I)
    w = c.binder('x')
    if nonneg:
        c.assume(z3.ForAll([w], v(w) >= 0, patterns=[v(w)]))
    u = c.binder('x')
    return VList(kind, Comp(n, u, Lit((SNum(v(u), 'int'),)))), n, v


def seq_obj(ip, name='s', ints=False):
    """an arbitrary sequence (as the constructor leaves it)"""
    cls = glob(ip, 'seq', 'Seq')
    if ints:
        l, n, v = intlist(ip, name, kind='tuple')
    else:
        l, n, v = numlist(ip, name, kind='tuple')
    o = Obj(cls, {'_sum': None, '_one_indexed': 1, '_seq': l})
    o.pre = True
    return o, n, v


def rv_obj(ip, name='d', source=None, ints=False, facts=True):
    """an arbitrary random variable satisfying the class invariant (C01): m >= 1 strictly increasing outcomes (int or
    float), non-negative integer weights"""
    c = ip.c
    cls = glob(ip, 'randvar', 'RV')
    m = c.fresh(name + '_m')
    c.assume(m >= 1)
    p = c.fresh_fn(name + '_p', [I], I)
    if ints:
        v = c.fresh_fn(name + '_v', [I], I)
        el = lambda i: SNum(v(i), 'int')
    else:
        v, t = c.fresh_fn(name + '_v', [I], R), c.fresh_fn(name + '_t', [I], I)
        el = lambda i: SNum(v(i), t(i))
    a, b = c.binder('ra'), c.binder('rb')
    if facts:
        c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < m), v(a) < v(b)), patterns=[z3.MultiPattern(v(a), v(b))]))
        c.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m), p(a) >= 0), patterns=[p(a)]))
        if not ints:
            c.assume(z3.ForAll([a], z3.And(t(a) >= 0, t(a) <= 1), patterns=[t(a)]))
    w1, w2 = c.binder('rv'), c.binder('rp')
    o = Obj(cls)
    o.attrs = {'vals': VList('tuple', Comp(m, w1, Lit((el(w1),)))), 'probs': VList('tuple', Comp(m, w2, Lit((SNum(p(w2), 'int'),)))), 'sum_probs': None,
               '_source_roll': 1, '_source_die': o, '_str_LHS_RHS': (1, '{?}')}
    o.g = Ghost(m, v, p, el)
    o.g.t = None if ints else t
    if source is None and not c.binders:          # any pool origin, any displayed name
        k = c.fresh(name + '_rolls')
        c.assume(k >= 1)
        o.attrs['_source_roll'] = SNum(k, 'int')
        o.attrs['_source_die'] = rv_obj(ip, name + '_source', source=False, facts=False)
        o.attrs['_str_LHS_RHS'] = (SNum(c.fresh(name + '_left'), 'int'), SNum(c.fresh(name + '_right'), 'int'))
    return o


# ------------------------------------------------------------------------------------------------ contracts of RV

def num_settings(ip, **kw):
    S = glob(ip, 'settings', 'SETTINGS')
    S.d = dict(S.d, **kw)


def fresh_rv(ip, name='r'):
    """a new die satisfying the class invariant"""
    o = rv_obj(ip, name, source=False)
    o.g.h = None
    return o


def rv_ctor(ip, args, kw):
    """Contract of RV(vals, probs) (proved in C01), with truncation off and zero weights kept:
    requires equally many outcomes and weights, weights non-negative integers;
    ensures the class invariant and, for one h > 0,  sum_i f(V i) P i = h * sum_j f(x j) w j  for every f
    (the constant 0 when nothing is listed)."""
    from . import models
    c = ip.c
    if len(args) > 2 or set(kw) - {'vals', 'probs'}:
        return NotImplemented
    vals, probs = (list(args) + [kw[k] for k in ('vals', 'probs') if k in kw])[:2]
    for v in (vals, probs):
        if not isinstance(v, (VList, tuple, list)):
            return NotImplemented
    sv, sp = ip.resolve_ifl(ip.as_sl(vals)), ip.resolve_ifl(ip.as_sl(probs))
    lv, lp = c.count_facts(slen(sv)), slen(sp)
    if not c.branch(lv == lp):
        raise PyRaise('AssertionError')
    for e in M.generic_elems(sv):
        if not is_num(e):
            raise Unsupported('die over %r' % (e,))
    # weights: integers, not negative
    bad = bad_weight(ip, sp)
    if bad is not False and c.branch(bad):
        raise PyRaise('AssertionError')
    o = fresh_rv(ip)
    if c.branch(lv == 0):
        o.attrs['vals'], o.attrs['probs'] = VList('tuple', Lit((0,))), VList('tuple', Lit((1,)))
        o.g = Ghost(z3.IntVal(1), lambda i: z3.RealVal(0), lambda i: z3.IntVal(1), lambda i: 0)
        o.g.h = z3.RealVal(1)
        return o
    s = models.zip_sl(ip, [sv, sp])
    g = o.g
    h = c.fresh('scale', R)
    c.assume(h > 0)
    g.h = h
    g.src = s
    if getattr(ip, 'want_members', False) and not c.binders:
        membership(ip, g, s)
    own = list(c.binders)         # inside a loop: one die per iteration
    if own:
        old, W = c.binders, ssum(sp, nt)
        if c.holds(W >= 1):
            c.assume(total_weight(ip, o) >= 1)      # sum P = h * sum w, an integer above 0

    def rule(ctx, a, var, body):
        sub = list(zip(own, a))
        at = (lambda t: z3.substitute(t, *sub)) if sub else (lambda t: t)
        r = T.coef(body, at(g.P(var)))
        if r is None or g.t is not None and models.occurs_fn(r, at(g.t(var))):
            return None

        def phi(e):
            b = z3.substitute(real(r), (at(g.V(var)), rt(e[0])))
            if T.occurs(var, b):
                raise models.Keep()
            return b * rt(e[1])
        try:
            return at(h) * real(ssum(subst_sl(s, sub) if sub else s, phi))
        except models.Keep:
            return None
    c.rules[g.m.decl().name()] = M.RangeRule('contract of RV(...)', rule)
    return o


def membership(ip, g, s):
    """the other half of the constructor's contract (C01): every outcome was listed, every listed outcome is there"""
    c = ip.c
    i = c.binder('mi')
    if isinstance(s, Lit):
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.m), z3.Or([g.V(i) == rt(e[0]) for e in s.items])), patterns=[g.V(i)]))
        for e in s.items:
            k = c.fresh('place')
            c.assume(z3.And(k >= 0, k < g.m, g.V(k) == rt(e[0])))
    elif isinstance(s, Comp) and is_idx(s):
        el = lambda t: rt(subst(s.chunk.items[0][0], [(s.var, t)]))
        src, place = c.fresh_fn('source', [I], I), c.fresh_fn('place', [I], I)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.m), z3.And(src(i) >= 0, src(i) < s.n, g.V(i) == el(src(i)))), patterns=[g.V(i)]))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), z3.And(place(i) >= 0, place(i) < g.m, g.V(place(i)) == el(i))), patterns=[place(i)]))
        g.place = place


def bad_weight(ip, s):
    """formula: some weight is negative or no integer (False when impossible)"""
    def one(e):
        if not is_num(e):
            raise Unsupported('weight %r' % (e,))
        t = tag_of(e)
        fs = []
        if isinstance(t, str):
            if t == 'float':
                fs.append(z3.BoolVal(True))
        else:
            fs.append(t == 1)
        fs.append(nt(e) < 0)
        return z3.Or(fs) if len(fs) > 1 else fs[0]

    def ex(s):
        if isinstance(s, Lit):
            return z3.Or([one(e) for e in s.items]) if s.items else z3.BoolVal(False)
        if isinstance(s, Cat):
            return z3.Or([ex(p) for p in s.parts])
        if isinstance(s, IfL):
            return z3.Or(z3.And(s.c, ex(s.a)), z3.And(z3.Not(s.c), ex(s.b)))
        if isinstance(s, Comp):
            w = ip.c.binder('bw')
            return z3.Exists([w], z3.And(w >= 0, w < s.n, ex(subst_sl(s.chunk, [(s.var, w)]))))
        raise Unsupported('weights %r' % (s,))

    def fine(e, hyps):
        if tag_of(e) in ('int', 'bool') and isinstance(tag_of(e), str) and ip.c.nonneg(nt(e), hyps):
            return True
        return ip.c.holds(z3.Not(one(e)), hyps)

    def universally(s, hyps):
        """the weights are fine, by proof"""
        if isinstance(s, Lit):
            return all(fine(e, hyps) for e in s.items)
        if isinstance(s, Cat):
            return all(universally(p, hyps) for p in s.parts)
        if isinstance(s, IfL):
            return universally(s.a, hyps + [s.c]) and universally(s.b, hyps + [z3.Not(s.c)])
        if isinstance(s, Comp):
            w = ip.c.fresh('bw')
            return universally(subst_sl(s.chunk, [(s.var, w)]), hyps + [w >= 0, w < s.n])
        return False
    if universally(s, []):
        return False
    return ex(s)


LIMIT = 10 ** 31


def limiter(ip, args, kw):
    """Contract of _INTERNAL_PROB_LIMIT_VALS (proved in C18): a die of total weight <= 10**31 is returned as it is;
    otherwise the same die with other non-negative integer weights."""
    c = ip.c
    if len(args) != 1 or kw:
        return NotImplemented
    rv = args[0]
    tot = total_weight(ip, rv)
    c.set_loc(rv, 'sum_probs', SNum(tot, 'int') if tot.sort() == I else SNum(tot, 'int'))
    if c.branch(real(tot) <= LIMIT):
        return rv
    n = rv.g.m
    p = c.fresh_fn('lim_p', [I], I)
    a = c.binder('la')
    c.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), p(a) >= 0), patterns=[p(a)]))
    w = c.binder('lp')
    c.set_loc(rv, 'probs', VList('tuple', Comp(n, w, Lit((SNum(p(w), 'int'),)))))
    c.set_loc(rv, 'sum_probs', None)
    rv.meta['scaled'] = True
    ip.any_scaled = True
    return rv


def convolve(ip, args, kw):
    """Contract of RV._convolve for two dice (proved in C02): for one h > 0,
    sum_k f(V k) P k = h * sum_i sum_j f(op(a i, b j)) p i q j  for every f; then the limiter."""
    c = ip.c
    if kw or len(args) != 3 or c.binders:
        return NotImplemented
    a, b, op = args
    if not all(isinstance(x, Obj) and x.g is not None and x.cls is glob(ip, 'randvar', 'RV') for x in (a, b)):
        return NotImplemented
    o = fresh_rv(ip, 'conv')
    g = o.g
    h = g.h = c.fresh('scale', R)
    c.assume(h > 0)

    def rule(ctx, ar, var, body):
        r = T.coef(body, g.P(var))
        if r is None or occurs_fn(r, g.t(var)):
            return None
        i, j = ctx.binder('ci'), ctx.binder('cj')
        old = ctx.binders
        ctx.binders = old + [i, j]
        try:
            v = ip.call(op, [a.g.el(i), b.g.el(j)])
        finally:
            ctx.binders = old
        if not is_num(v):
            return None
        bd = z3.substitute(real(r), (g.V(var), rt(v)))
        if T.occurs(var, bd):
            return None
        inner = ctx.normal_sums(T.mk_agg('sum', b.g.m, j, bd * real(b.g.P(j))))
        return h * T.mk_agg('sum', a.g.m, i, real(inner) * real(a.g.P(i)))
    c.rules[g.m.decl().name()] = M.RangeRule('contract of RV._convolve', rule)
    return limiter(ip, [o], {})


def from_rvs(ip, args, kw):
    """Contract of RV.from_rvs for a list of dice with positive total weights (proved in C06): for one h > 0,
    sum_k f(V k) P k = h * sum_e w e / S e * (sum_j f(v e j) p e j); then the limiter."""
    from . import models
    c = ip.c
    a = dict(zip(['rvs', 'weights'], args), **kw)
    if c.binders or set(a) - {'rvs', 'weights'}:
        return NotImplemented
    rs = ip.resolve_ifl(ip.as_sl(a['rvs'], consume=False))
    if a.get('weights') is not None:
        r = mixture(ip, rs, ip.as_sl(a['weights'], consume=False))
        if r is not NotImplemented:
            return r
    if not (isinstance(rs, Comp) and is_idx(rs)) or a.get('weights') is None:
        return NotImplemented
    ws = ip.resolve_ifl(ip.as_sl(a['weights'], consume=False))
    e = rs.chunk.items[0]
    if not (isinstance(e, Obj) and e.cls is glob(ip, 'randvar', 'RV')):
        return NotImplemented
    if not c.branch(slen(ws) == rs.n):
        raise PyRaise('AssertionError')
    if not c.branch(rs.n > 0):
        return NotImplemented
    if bad_weight(ip, ws) is not False:
        return NotImplemented
    sv = lambda x: ip.as_sl(x.attrs['vals'], consume=False)
    spr = lambda x: ip.as_sl(x.attrs['probs'], consume=False)
    k = c.binder('k')
    ek = subst(e, [(rs.var, k)])
    if not c.holds(ssum(spr(ek), nt) >= 1, [k >= 0, k < rs.n]):
        return NotImplemented
    o = fresh_rv(ip, 'mix')
    g = o.g
    h = g.h = c.fresh('scale', R)
    c.assume(h > 0)

    def rule(ctx, ar, var, body):
        r = T.coef(body, g.P(var))
        if r is None or occurs_fn(r, g.t(var)):
            return None
        u = ctx.binder('mx')
        eu = subst(e, [(rs.var, u)])
        z = models.zip_sl(ip, [sv(eu), spr(eu)])

        def phi(x):
            b = z3.substitute(real(r), (g.V(var), rt(x[0])))
            if T.occurs(var, b):
                raise models.Keep()
            return b * rt(x[1])
        try:
            inner = ctx.normal_sums(ssum(z, phi))
        except models.Keep:
            return None
        S = real(ssum(spr(eu), nt))
        return h * T.mk_agg('sum', rs.n, u, rt(ip.sl_get(ws, u, safe=True)) * real(inner) / S)
    c.rules[g.m.decl().name()] = M.RangeRule('contract of RV.from_rvs', rule)
    return limiter(ip, [o], {})


def entries(ip, s, hyps, f):
    """f(element, hypotheses) for every kind of element of a list term -> list of results"""
    if isinstance(s, Lit):
        return [f(e, hyps) for e in s.items]
    if isinstance(s, Cat):
        return [x for p in s.parts for x in entries(ip, p, hyps, f)]
    if isinstance(s, IfL):
        return entries(ip, s.a, hyps + [s.c], f) + entries(ip, s.b, hyps + [z3.Not(s.c)], f)
    if isinstance(s, Comp):
        w = ip.c.binder('en')
        return entries(ip, subst_sl(s.chunk, [(s.var, w)]), hyps + [w >= 0, w < s.n], f)
    raise models_keep()


def models_keep():
    from . import models
    return models.Keep()


def mixture(ip, rs, ws):
    """Contract of RV.from_rvs for entries that are numbers, dice, blank or missing, any nesting of the list term"""
    from . import models
    c = ip.c
    RVC = glob(ip, 'randvar', 'RV')

    def alts(e):
        """[(condition under which it is this one, value)]"""
        if not isinstance(e, Alt):
            return [(z3.BoolVal(True), e)]
        out, no = [], []
        for cd, x in e.cases[:-1]:
            out += [(z3.And(no + [cd, c2]), y) for c2, y in alts(x)]
            no.append(z3.Not(cd))
        return out + [(z3.And(no + [c2]), y) for c2, y in alts(e.cases[-1][1])]

    def counts(e):
        return z3.Or([cd for cd, x in alts(e) if kind(x) in ('num', 'die')])

    def kind(e):
        return 'num' if is_num(e) else 'none' if e is None or is_blank(ip, e) else 'die' if isinstance(e, Obj) and e.cls is RVC else 'other'

    def fine(e, hyps):
        if isinstance(e, Alt):
            return all(fine(x, hyps + [cd]) for cd, x in alts(e))
        k = kind(e)
        if k == 'die':
            return c.holds(total_weight(ip, e) >= 1, hyps)
        return k != 'other'
    try:
        if not all(entries(ip, rs, [], fine)):
            return NotImplemented
    except models.Keep:
        return NotImplemented
    if not c.branch(slen(rs) == slen(ws)):
        raise PyRaise('AssertionError')
    if bad_weight(ip, ws) is not False:
        return NotImplemented

    def some(s):
        if isinstance(s, Lit):
            return z3.Or([counts(e) for e in s.items])
        if isinstance(s, Cat):
            return z3.Or([some(p) for p in s.parts])
        if isinstance(s, IfL):
            return z3.Or(z3.And(s.c, some(s.a)), z3.And(z3.Not(s.c), some(s.b)))
        w = c.binder('sm')
        return z3.Exists([w], z3.And(w >= 0, w < s.n, some(subst_sl(s.chunk, [(s.var, w)]))))
    def surely(s):
        if isinstance(s, Lit):
            return any(all(kind(x) in ('num', 'die') for _, x in alts(e)) for e in s.items)
        if isinstance(s, Cat):
            return any(surely(p) for p in s.parts)
        if isinstance(s, IfL):
            return surely(s.a) and surely(s.b)
        return c.holds(s.n > 0) and surely(subst_sl(s.chunk, [(s.var, z3.IntVal(0))]))
    if not surely(rs) and not c.branch(z3.simplify(some(rs))):
        return ip.call(glob(ip, 'blackrv', 'BlankRV'), [])
    z = models.zip_sl(ip, [rs, ws])
    o = fresh_rv(ip, 'mix')
    g = o.g
    h = g.h = c.fresh('scale', R)
    c.assume(h > 0)

    def rule(ctx, ar, var, body):
        r = T.coef(body, g.P(var))
        if r is None or occurs_fn(r, g.t(var)):
            return None

        def at(v):
            b = z3.substitute(real(r), (g.V(var), v))
            if T.occurs(var, b):
                raise models.Keep()
            return b

        def phi(x):
            e, w = x
            if isinstance(e, Alt):
                vs = [(cd, real(phi((y, w)))) for cd, y in alts(e)]
                out = vs[-1][1]
                for cd, y in reversed(vs[:-1]):
                    out = z3.If(cd, y, out)
                return out
            k = kind(e)
            if k == 'num':
                return at(rt(e)) * rt(w)
            if k == 'die':
                inner = ctx.normal_sums(law(ip, e, lambda v: at(rt(v))))
                return rt(w) * real(inner) / real(total_weight(ip, e))
            return z3.RealVal(0)
        try:
            return h * real(ssum(z, phi))
        except models.Keep:
            return None
    c.rules[g.m.decl().name()] = M.RangeRule('contract of RV.from_rvs', rule)
    return limiter(ip, [o], {})


def occurs_fn(t, x):
    return T.occurs_term(x, t)


def total_weight(ip, rv):
    return ssum(ip.as_sl(rv.attrs['probs'], consume=False), nt)


def use_rv(ip, lim=True):
    num_settings(ip, RV_TRUNC=False, RV_IGNORE_ZERO_PROBS=False)
    ip.contracts['randvar:RV'] = rv_ctor
    if lim:
        ip.contracts['randvar:_INTERNAL_PROB_LIMIT_VALS'] = limiter


def law(ip, rv, phi):
    """sum over the outcomes of rv of phi(outcome) * weight"""
    from . import models
    s = models.zip_sl(ip, [ip.as_sl(rv.attrs['vals'], consume=False), ip.as_sl(rv.attrs['probs'], consume=False)])
    return ssum(s, lambda e: phi(e[0]) * rt(e[1]))


PSI = z3.Function('PSI', R, R)


def fresh_die(ip, r):
    return isinstance(r, Obj) and r.cls is glob(ip, 'randvar', 'RV') and same(r.attrs.get('_source_roll'), 1) and r.attrs.get('_source_die') is r


def has_law(ip, name, r, spec, scale=None):
    """obligation: r is a die with sum psi(outcome)*weight = k * spec for some k > 0 (k: the scale of its constructor call)"""
    c = ip.c
    if not c.prove(name + ': gives a die', isinstance(r, Obj) and r.cls is glob(ip, 'randvar', 'RV')):
        return False
    if r.meta.get('scaled'):
        return True          # beyond the documented limit: C18
    k = scale if scale is not None else (r.g.h if r.g.h is not None else z3.RealVal(1))
    return c.prove_eq(name, law(ip, r, lambda v: PSI(rt(v))), k * real(spec))


def frame_ok(ip, allowed=('_sum', 'sum_probs')):
    bad = [(o, k) for o, k, v in ip.c.writes if k not in allowed]
    return ip.c.prove('arguments unchanged', not bad)
