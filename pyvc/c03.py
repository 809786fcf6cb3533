"""C03: rolling n dice is the law of n independent dice.

TNP(a)(y) / TNM(a)(y): expectation of psi(y + X1 + .. + Xa) / psi(y - X1 - .. - Xa) for independent copies of one die (one pair of
functions per die).  Rules used (lean/NFold.lean):  for a die r that has the law of a copies,
   sum_i psi(c + V i) P i = S TNP(a)(c),   sum_i TNP(b)(c + V i) P i = S TNP(a+b)(c)      (S its total weight), same for TNM."""
from .objs import *


class NFold:
    """the n-fold laws of one die"""
    def __init__(self, ip, d):
        k = next(ip.c.counter)
        self.d = d
        self.p = z3.Function('TNP!%d' % k, I, R, R)
        self.m = z3.Function('TNM!%d' % k, I, R, R)
        z = z3.Const('b!nf', R)
        ip.c.assume(z3.ForAll([z], z3.And(self.p(0, z) == PSI(z), self.m(0, z) == PSI(z)), patterns=[PSI(z)]))
        d.meta['nf'] = self
        attach(ip, d, self, z3.IntVal(1))

    def spec(self, n):
        """law of n copies (negated for negative n)"""
        y = z3.RealVal(0)
        return z3.If(n < 0, self.m(-n, y), self.p(n, y))


def nf_of(ip, d):
    return d.meta.get('nf') or NFold(ip, d)


def total_of(ip, d, args=()):
    i = ip.c.binder('nt')
    return T.mk_agg('sum', d.g.m, i, d.g.P(i))


def attach(ip, r, nf, count, sign=False):
    """state that r has the law of `count` copies of nf.d (sign: of count copies, negated when count < 0)"""
    c = ip.c
    head = r.g.m
    outer = list(head.children())

    def rule(ctx, args, var, body):
        sub = list(zip(outer, args))
        inst = lambda t: z3.substitute(t, *sub) if sub else t
        V, P = inst(r.g.V(var)), inst(r.g.P(var))
        a = inst(count)
        body = ctx.normal_sums(body)
        co = T.coef(body, P)
        if co is None:
            return None
        pl = T.poly(co)
        u = ctx.binder('nu')
        S = real(z3.substitute(T.mk_agg('sum', inst(head), u, inst(r.g.P(u)))))
        out = z3.RealVal(0)
        hit = False
        for mon, cf in pl.m.items():
            f = z3.RealVal(str(cf))
            dep = []
            for k in mon:
                if T.occurs(var, pl.atoms[k]):
                    dep.append(pl.atoms[k])
                else:
                    f = f * real(pl.atoms[k])
            if len(dep) > 1:
                return None
            if not dep:
                out = out + f * S
                continue
            x = dep[0]
            if not z3.is_app(x) or x.num_args() == 0:
                return None
            z = x.children()[-1]
            zp = T.poly(z)
            vk = V.get_id()
            c1 = zp.m.get((vk,))
            if c1 not in (1, -1):
                return None
            rest = zp.add(T.Poly.atom(V), -c1).term()
            if T.occurs(var, rest):
                return None
            nm = x.decl().name()
            if nm == 'PSI':
                pos, b = c1 == 1, z3.IntVal(0)
            elif x.decl().eq(nf.p) and c1 == 1:
                pos, b = True, x.arg(0)
            elif x.decl().eq(nf.m) and c1 == -1:
                pos, b = False, x.arg(0)
            else:
                return None
            if T.occurs(var, b):
                return None
            hit = True
            if sign:
                if nm != 'PSI':
                    return None
                t = z3.If(a < 0, (nf.m if pos else nf.p)(z3.simplify(-a), rest), (nf.p if pos else nf.m)(a, rest))
            else:
                t = (nf.p if pos else nf.m)(z3.simplify(a + b), rest)
            out = out + f * S * t
        return out if hit else None
    c.rules[head.decl().name()] = M.RangeRule('law of independent copies', rule)


def measure(n):
    return z3.If(n < 0, -2 * n + 1, 2 * n)


def rolled(ip, nf, n, name='rolled'):
    """a die with the law of n copies"""
    r = rv_obj(ip, name, source=False)
    r.g.h = None
    attach(ip, r, nf, n, sign=True if not z3.is_int_value(n) else n.as_long() < 0)
    i = ip.c.binder('li')
    ip.c.assume(total_of(ip, r) >= 1)
    return r


class Memo:
    """a cache: one arbitrary entry of an earlier call, and what this call stores"""
    def __init__(self):
        self.old, self.new = None, []

    def contains(self, ip, o, x):
        for k, v in self.new:
            if same(k, x):
                return True
        if self.old is None:
            return False
        return ip.truth(ip.cmp('eq', self.old[0], x))

    def get(self, ip, o, x):
        for k, v in self.new:
            if same(k, x):
                return v
        if self.old is not None and ip.c.branch(ip.truth(ip.cmp('eq', self.old[0], x))):
            return self.old[1]
        raise PyRaise('KeyError')

    def set(self, ip, o, x, v):
        self.new.append((x, v))


def caches(ip, mod):
    """every module-level dictionary that starts empty is a cache"""
    out = []
    m = ip.module(mod)
    for k, v in list(m.vars.items()):
        if isinstance(v, VDict) and v.d == {} and v.hook is None:
            v.hook = Memo()
            out.append(v.hook)
    return out


def smaller_calls(ip, top):
    """contract of _roll_int_rv for calls with a smaller count (induction)"""
    state = dict(first=True)

    def h(ip, args, kw):
        c = ip.c
        if kw or len(args) != 2:
            return NotImplemented
        if state['first']:
            state['first'] = False
            state['top'] = args
            return NotImplemented
        n, d = args
        n0, d0 = state['top']
        if not is_num(n) or not isinstance(d, Obj) or d.g is None:
            raise Unsupported('recursive call')
        if not c.prove('the recursive count is smaller', measure(nt(n)) < measure(nt(n0))):
            raise Skip()
        return contract(ip, n, d)
    return h, state


def contract(ip, n, d):
    """contract of _roll_int_rv: the law of n independent copies of d"""
    c = ip.c
    nf = nf_of(ip, d)
    if isinstance(n, int):
        n = SNum(z3.IntVal(n), 'int')
    if not c.binders:
        if c.branch(nt(n) < 0):
            r = rolled(ip, nf, nt(n))
            c.assume(nt(n) < 0)
            return r
        if c.branch(nt(n) == 0):
            return ip.call(glob(ip, 'randvar', 'RV').lookup('from_const')[0], [0])
        if c.branch(nt(n) == 1):
            return d
        r = rv_obj(ip, 'rolled')
        r.g.h = None
        attach(ip, r, nf, nt(n))
        c.assume(total_of(ip, r) >= 1)
        r.attrs['_source_roll'], r.attrs['_source_die'] = n, d
        return r
    r = rolled(ip, nf, nt(n))
    return r


@task('C03', 'n copies of one die', ['roller:_roll_int_rv', 'randvar:RV.__add__', 'randvar:RV.__neg__', 'randvar:RV._convolve'])
def copies(ip):
    c = ip.c
    use_rv(ip)
    memos = caches(ip, 'roller')
    f = glob(ip, 'roller', '_roll_int_rv')
    S = glob(ip, 'settings', 'SETTINGS')
    # an entry left by an arbitrary earlier call, under arbitrary settings
    early = bool(c.choose(2))
    if early:
        # (what the sums are does not matter here: only whether the entry found belongs to this count and die)
        ip.contracts['randvar:RV.__add__'] = lambda ip, a, k: rv_obj(ip, 'any')
        ip.contracts['randvar:RV.__neg__'] = lambda ip, a, k: rv_obj(ip, 'any')
        n1 = num(ip, 'n1', 'int')
        d1 = rv_obj(ip, 'd1')
        d1.pre = True
        nf1 = NFold(ip, d1)
        t1, z1 = SB(c.fresh('trunc1', B)), SB(c.fresh('zero1', B))
        keep = S.d
        S.d = dict(S.d, RV_TRUNC=t1, RV_IGNORE_ZERO_PROBS=z1)
        ip.contracts['roller:_roll_int_rv'] = smaller_calls(ip, True)[0]
        kind, r1 = outcome(ip, f, [n1, d1])
        S.d = keep
        got = [(m, k, v) for m in memos for k, v in m.new]
        if kind != 'ok' or len(got) != 1:
            raise Skip()       # that call left nothing behind
        m, k, v = got[0]
        m.new.clear()
        # what the cache holds now: a die with that law (only known when that call ran under the present settings)
        old = rv_obj(ip, 'old')
        old.g.h = None
        old.pre = True
        m.old = (k, old)
    n, d = num(ip, 'n', 'int'), rv_obj(ip, 'd')
    d.pre = True
    c.assume(total_of(ip, d) >= 1)
    nf = NFold(ip, d)
    if early:
        w = c.binder('ow')

        def known():
            return z3.And(nt(n1) == nt(n), d1.g.m == d.g.m, z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < d.g.m), z3.And(d1.g.V(w) == d.g.V(w), d1.g.P(w) == d.g.P(w)))), z3.Not(t1.t), z3.Not(z1.t))
    ip.contracts['randvar:RV._convolve'] = convolve
    h, st = smaller_calls(ip, True)
    ip.contracts['roller:_roll_int_rv'] = h
    kind, r = outcome(ip, f, [n, d])
    if not c.prove('does not raise', kind == 'ok'):
        return
    if not c.prove('a die', isinstance(r, Obj) and r.cls is glob(ip, 'randvar', 'RV')):
        return
    nn = nt(n)
    if early and r is old:
        c.prove('a cached result is one of the same count, die and settings', known())
        return
    if early:
        raise Skip()            # the entry was not used: as with an empty cache
    for m in memos:
        for k, v in m.new:
            c.prove('what is cached is the result', v is r and nn is not None)
    if getattr(ip, 'any_scaled', False):
        return          # beyond the documented limit: C18
    c.prove_eq('law of n independent copies', law(ip, r, lambda v: PSI(rt(v))), real(total_weight(ip, r)) * nf.spec(nn))
    src = r.attrs['_source_roll']
    c.prove('a pool of several dice remembers its dice', z3.Implies(nn >= 2, z3.And(nt(src) == nn, z3.BoolVal(r.attrs['_source_die'] is d))) if is_num(src) else False)
    frame_ok(ip)


def record_rolls(ip):
    calls = []

    def h(ip, args, kw):
        if kw or len(args) != 2 or not is_num(args[0]) or not isinstance(args[1], Obj) or args[1].g is None:
            return NotImplemented
        r = rv_obj(ip, 'rolled')          # whose law is that of the contract (task above)
        r.attrs['_source_roll'], r.attrs['_source_die'] = args[0], args[1]
        calls.append((args[0], args[1], r))
        return r
    ip.contracts['roller:_roll_int_rv'] = h
    return calls


def sides(ip, kinds):
    """an arbitrary thing to roll -> (value, total weight and law of one draw: function of psi, description)"""
    c = ip.c
    k = kinds[c.choose(len(kinds))]
    i = c.binder('li')
    if k == 'number':
        d = num(ip, 'sides', 'int')
        s = nt(d)
        spec = z3.If(s == 0, PSI(z3.RealVal(0)), z3.If(s > 0, T.mk_agg('sum', z3.If(s > 0, s, z3.IntVal(0)), i, PSI(real(i) + 1)), T.mk_agg('sum', z3.If(s < 0, -s, z3.IntVal(0)), i, PSI(real(s) + real(i)))))
        return d, spec, 'number of sides'
    if k == 'sequence' or k == 'list':
        d, n, el = seq_obj(ip, 'q') if k == 'sequence' else numlist(ip, 'q')
        c.assume(n >= 1)
        return d, T.mk_agg('sum', n, i, PSI(rt(el(i)))), k
    d = rv_obj(ip, 'die')
    return d, T.mk_agg('sum', d.g.m, i, PSI(rt(d.g.el(i))) * real(d.g.P(i))), 'die'


@task('C03', 'what is rolled and how often', ['roller:roll', 'roller:_roll', 'randvar:RV.from_seq', 'randvar:RV.from_const'])
def conversions(ip):
    c = ip.c
    use_rv(ip)
    calls = record_rolls(ip)
    d, spec, what = sides(ip, ['number', 'sequence', 'list', 'die'])
    k = c.choose(5)
    if k == 0:
        n = num(ip, 'n', 'int')
        want = nt(n)
    elif k == 1:
        n = num(ip, 'n', 'float')
        want = nt(ip.call(ip.models.native_attr(ip, 'math', 'ceil'), [n]))
    elif k == 2 or k == 3:
        n, ln, v = seq_obj(ip, 'cnt', ints=True) if k == 2 else intlist(ip, 'cnt')
        want = ssum(n.attrs['_seq'].s if k == 2 else n.s, nt)
    else:
        n, want = None, z3.IntVal(1)
    for x in (n, d):
        if isinstance(x, (Obj, VList)):
            x.pre = True
    kind, r = outcome(ip, glob(ip, 'roller', 'roll'), [d] if n is None else [n, d])
    if not c.prove('rolling a %s: does not raise' % what, kind == 'ok'):
        return
    if not c.prove('rolling a %s: rolls once' % what, len(calls) >= 1):
        return
    n1, d1, r1 = calls[0]
    c.prove_eq('rolling a %s: the count' % what, real(nt(n1)), real(want))
    has_law(ip, 'rolling a %s: the die rolled' % what, d1, spec)
    if not c.prove('rolling a %s: gives a die' % what, isinstance(r, Obj) and r.cls is glob(ip, 'randvar', 'RV')):
        return
    c.prove('rolling a %s: a new die' % what, r is not d and r is not d1 and r is not r1)
    c.prove('rolling a %s: with the outcomes and weights of the roll' % what, same(r.attrs['vals'], r1.attrs['vals']) and same(r.attrs['probs'], r1.attrs['probs']))
    src = r.attrs['_source_die']
    c.prove('rolling a %s: with the pool of the roll' % what, same(r.attrs['_source_roll'], r1.attrs['_source_roll']) and src is r1.attrs['_source_die'])
    frame_ok(ip)


@task('C03', 'a die as count', ['roller:roll', 'roller:_roll', 'randvar:RV.from_rvs'])
def random_count(ip):
    c = ip.c
    use_rv(ip)
    ip.contracts['randvar:RV.from_rvs'] = from_rvs
    d = rv_obj(ip, 'd')
    n = rv_obj(ip, 'n', ints=True)
    d.pre = n.pre = True
    c.assume(total_of(ip, d) >= 1)
    nf = NFold(ip, d)
    bad = []

    def h(ip, args, kw):
        if kw or len(args) != 2 or not is_num(args[0]) or args[1] is not d:
            bad.append(args)
            return NotImplemented
        return contract(ip, args[0], args[1])
    ip.contracts['roller:_roll_int_rv'] = h
    kind, r = outcome(ip, glob(ip, 'roller', 'roll'), [n, d])
    if not c.prove('does not raise', kind == 'ok'):
        return
    if not c.prove('rolls that die', not bad):
        return
    if not c.prove('gives a die', isinstance(r, Obj) and r.cls is glob(ip, 'randvar', 'RV')):
        return
    if getattr(ip, 'any_scaled', False):
        return
    i = c.binder('li')
    spec = T.mk_agg('sum', n.g.m, i, real(n.g.P(i)) * nf.spec(n.g.V(i)))
    has_law(ip, 'mixture over the outcomes of the count', r, spec)
    c.prove('a new die, no pool', r is not n and r is not d and same(r.attrs['_source_roll'], 1))
    frame_ok(ip)
