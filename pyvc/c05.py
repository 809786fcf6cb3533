"""C05: a pool expands to every sorted roll with its multinomial weight.

itertools.combinations_with_replacement(L, N) is taken at its documentation: the rolls L[q(r,0)], .., L[q(r,N-1)] for every
non-decreasing choice of positions q(r,.), each choice exactly once.  lean/Multinomial.lean: for a roll of N draws the product over
its positions of "how often this value occurred so far" is the product of the factorials of the multiplicities; it divides N! and the
quotient MULT is the number of ordered rolls that sort to this one, so their total weight is MULT times the product of the weights."""
from .objs import *
from .c07 import seq_is
from . import models

FACT = z3.Function('FACT', I, I)
MULT = z3.Function('MULT', I, I)


@task('C05', 'expansion', ['randvar:RV._get_expanded_possible_rolls', 'factory:get_seq', 'utils:factorial'])
def expand(ip):
    c = ip.c
    use_rv(ip)
    d = rv_obj(ip, 'd')
    d.pre = True
    m, V, P = d.g.m, d.g.V, d.g.P
    p = rv_obj(ip, 'pool')
    p.pre = True
    N = num(ip, 'N', 'int')
    n = nt(N)
    c.assume(n >= 1)
    p.attrs['_source_roll'], p.attrs['_source_die'] = N, d
    R_ = c.fresh('rolls')
    c.assume(R_ >= 1)
    q = c.fresh_fn('q', [I, I], I)
    r, j, j2 = c.binder('r'), c.binder('j'), c.binder('j')
    c.assume(z3.ForAll([r, j], z3.Implies(z3.And(r >= 0, r < R_, j >= 0, j < n), z3.And(q(r, j) >= 0, q(r, j) < m)), patterns=[q(r, j)]))
    c.assume(z3.ForAll([r, j, j2], z3.Implies(z3.And(r >= 0, r < R_, j >= 0, j < j2, j2 < n), q(r, j) <= q(r, j2)), patterns=[z3.MultiPattern(q(r, j), q(r, j2))]))
    calls = []

    def cwr(ip, args, kw):
        if len(args) != 2 or kw or ip.c.binders:
            raise Unsupported('combinations_with_replacement')
        L = ip.resolve_ifl(ip.as_sl(args[0], consume=False))
        if not is_idx(L):
            raise Unsupported('combinations of %r' % (L,))
        calls.append((L, args[1]))
        w, v = c.binder('w'), c.binder('v')
        return VList('iter', Comp(R_, w, Lit((VList('tuple', Comp(n, v, Lit((subst(L.chunk.items[0], [(L.var, q(w, v))]),)))),))))
    ip.cwr_hook = cwr
    ip.contracts['utils:factorial'] = lambda ip, a, k: SNum(FACT(nt(a[0])), 'int') if len(a) == 1 and not k else NotImplemented
    # lean/Multinomial.lean
    i = c.binder('i')
    face = lambda r, j: V(m - 1 - q(r, j))
    den = lambda r: T.mk_agg('prod', n, i, 1 + T.mk_agg('sum', i, j, z3.If(face(r, j) == face(r, i), z3.IntVal(1), z3.IntVal(0))))

    def quotient(ip, a, b):
        if not a.eq(FACT(n)) or T.agg_of(b) is None or not ip.c.binders:
            return None
        w = ip.c.binders[-1]
        v = ip.c.binder('v')
        k, body = T.instantiate(b, v)
        k2, want = T.instantiate(den(w), v)
        if T.agg_of(b).kind == 'prod' and ip.c.holds(k == k2) and ip.c.sum_zero(real(body) - real(want), (v >= 0, v < n)):
            return MULT(w)
    ip.c.quotients = list(getattr(ip.c, 'quotients', ())) + [quotient]
    kind, res = outcome(ip, ip.getattr(p, '_get_expanded_possible_rolls'), [])
    if not c.prove('expansion: does not raise', kind == 'ok'):
        return
    if not isinstance(res, tuple) or len(res) != 2:
        raise Unsupported('result %r' % (res,))
    rolls, ws = [ip.resolve_ifl(ip.as_sl(x, consume=False)) for x in res]
    c.prove('one weight for every roll', slen(rolls) == slen(ws))
    u = c.fresh('u')
    if not calls:
        c.prove('every roll of one die once', z3.And(n == 1, slen(rolls) == m))
        c.assume(z3.And(u >= 0, u < m))
        seq_is(ip, 'a roll of one die', ip.sl_get(rolls, u), z3.IntVal(1), lambda j: d.g.el(u))
        c.prove('a roll of one die: weight', nt(ip.sl_get(ws, u)) == P(u))
        return
    c.prove('several dice: every roll once', slen(rolls) == R_)
    c.assume(z3.And(u >= 0, u < R_))
    L, cnt = calls[0]
    c.prove('several dice: rolls of that many dice', z3.And(len(calls) == 1, nt(cnt) == n))
    c.prove('several dice: every face to choose from', L.n == m)
    seq_is(ip, 'a roll: highest first', ip.sl_get(rolls, u), n, lambda j: SNum(face(u, j), 'float'))
    w = ip.sl_get(ws, u)
    c.prove_eq('a roll: multinomial weight', real(nt(w)), real(MULT(u)) * real(T.mk_agg('prod', n, i, P(m - 1 - q(u, i)))))
    c.prove('a roll: integer weight', tag_term(tag_of(w)) != 1)
    frame_ok(ip)


class Memo:
    """the table of factorials: every entry n is FACT(n); which entries exist is arbitrary"""
    def __init__(self, ip):
        self.here, self.ip, self.added = ip.c.fresh_fn('known', [I], B), ip, []

    def contains(self, ip, o, x):
        return z3.Or([self.here(nt(x))] + [nt(x) == y for y in self.added])

    def get(self, ip, o, x):
        if not ip.c.branch(self.contains(ip, o, x)):
            raise PyRaise('KeyError')
        return SNum(FACT(nt(x)), 'int')

    def set(self, ip, o, x, v):
        ip.c.prove('factorial: the table stays right', is_num(v) and nt(v) == FACT(nt(x)))
        self.added.append(nt(x))


@task('C05', 'factorial', ['utils:factorial'])
def factorial(ip):
    c = ip.c
    n = num(ip, 'n', 'int')
    f = glob(ip, 'utils', 'factorial')
    c.assume(FACT(nt(n)) == z3.If(nt(n) > 1, nt(n) * FACT(nt(n) - 1), 1))
    for mod, vs in ((ip.module('utils'), list(ip.module('utils').vars.items())),):
        for k, v in vs:
            if isinstance(v, VDict):
                v.hook = Memo(ip)

    def rec(ip, args, kw):
        a = args[0]
        c.prove('factorial: the recursion ends', z3.And(nt(a) < nt(n), nt(a) >= 0))
        return SNum(FACT(nt(a)), 'int')
    ip.module('utils').vars['factorial'] = ghost('factorial', rec)
    kind, r = outcome(ip, f, [n])
    if c.prove('factorial: does not raise', kind == 'ok'):
        c.prove('factorial: the factorial', is_num(r) and nt(r) == FACT(nt(n)))
