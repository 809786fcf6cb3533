"""Loop invariants that the summariser cannot derive (matched by the shape of the loop state, not by names)."""
from .objs import *
from . import interp as M
from . import models


def _lists(env):
    seen, out = set(), []
    e = env
    while e is not None and hasattr(e, 'vars'):
        for v in e.vars.values():
            if isinstance(v, VList) and v.kind == 'list' and id(v) not in seen:
                seen.add(id(v))
                out.append(v)
        e = e.parent
    return out


def merge_equal_neighbours(ip, st, env, g, s, body):
    """A list Z of (value, weight) pairs sorted by decreasing value is walked from its last element down to its second;
    equal neighbours are merged into the earlier one, other elements go to the (initially empty) list R.
    Invariant before the element i is handled (c = current weight of element i, W its original weight):
      - R is strictly increasing and below the value of i
      - for every weighting f of values: sum over R of f*weight + f(X i)*c + sum_{j<i} f(X j)*W j = sum over the input
      - every value X j (j >= i) is X i or is in R, with at least its weight; everything in R is a value of Z; weights >= 0
    """
    c = ip.c
    if s is None or c.binders or not (isinstance(s, Comp) and is_idx(s)):
        return NotImplemented
    ls = _lists(env)
    zs = [v for v in ls if isinstance(v.s, Comp) and is_idx(v.s) and isinstance(v.s.chunk.items[0], tuple) and len(v.s.chunk.items[0]) == 2 and all(is_num(x) for x in v.s.chunk.items[0])]
    rs = [v for v in ls if isinstance(v.s, Lit) and not v.s.items]
    if len(zs) != 1 or not rs:
        return NotImplemented
    Z = zs[0]
    if not writes_items(st):
        return NotImplemented
    base = Z.s
    m = base.n
    w = c.binder('mi')
    iv = subst(s.chunk.items[0], [(s.var, w)])
    if not is_num(iv) or not c.holds(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < s.n), nt(iv) == m - 1 - w))) or not c.holds(s.n == z3.If(m > 0, m - 1, 0)):
        return NotImplemented
    el = lambda i: subst(base.chunk.items[0], [(base.var, i)])
    X = lambda i: rt(el(i)[0])
    W = lambda i: nt(el(i)[1])
    if W(w).sort() != I:
        return NotImplemented
    if not c.branch(m > 0):
        return None                       # no iteration
    a, b = c.binder('ma'), c.binder('mb')
    if not c.holds(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < m), X(a) >= X(b)))):
        return NotImplemented
    psi = z3.Function('psi!%d' % next(c.counter), R, R)
    F = z3.Function('prefix!%d' % next(c.counter), I, R)
    total = F(m)
    step = lambda i: F(i + 1) == F(i) + psi(X(i)) * z3.ToReal(W(i))
    inv_fns = {}

    def state(tag, i):
        """fresh loop state at element i satisfying the invariant -> (R list, c, facts)"""
        r, cw, A = c.fresh('mr_' + tag), c.fresh('mc_' + tag), c.fresh('mA_' + tag, R)
        K, Wt, Kt = c.fresh_fn('mk_' + tag, [I], R), c.fresh_fn('mw_' + tag, [I], I), c.fresh_fn('mt_' + tag, [I], I)
        idx, kap = c.fresh_fn('mx_' + tag, [I], I), c.fresh_fn('mo_' + tag, [I], I)
        return dict(r=r, c=cw, A=A, K=K, W=Wt, T=Kt, idx=idx, kap=kap, src=c.fresh_fn('ms_' + tag, [I], I), cs=c.fresh('mcs_' + tag))

    def tagx(i):
        return tag_term(tag_of(el(i)[0]))

    def facts(S, i):
        r, K, Wt, Kt, idx, kap, cw = S['r'], S['K'], S['W'], S['T'], S['idx'], S['kap'], S['c']
        x, y = c.binder('mf'), c.binder('mg')
        src, cs = S['src'], S['cs']
        return [r >= 0, cw >= 0, cw >= W(i), cs >= i, cs < m, X(cs) == X(i), z3.Implies(cw > 0, W(cs) > 0),
                z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < r), z3.And(src(x) >= i, src(x) < m, X(src(x)) == K(x), z3.Implies(Wt(x) > 0, W(src(x)) > 0), idx(src(x)) == x)), patterns=[K(x), Wt(x)]),
                z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < r), K(x) < K(y)), patterns=[z3.MultiPattern(K(x), K(y))]),
                z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < r), z3.And(K(x) < X(i), Wt(x) >= 0, kap(x) >= 0, kap(x) < m, K(x) == X(kap(x)), Kt(x) == tagx(kap(x)), z3.Implies(kap(x) >= i, idx(kap(x)) == x))), patterns=[K(x)]),
                z3.ForAll([x], z3.Implies(z3.And(x >= i, x < m), z3.Or(z3.And(X(x) == X(i), cw >= W(x)), z3.And(idx(x) >= 0, idx(x) < r, K(idx(x)) == X(x), Wt(idx(x)) >= W(x)))), patterns=[X(x), idx(x)])]

    mass = lambda S, i: S['A'] + F(i) + psi(X(i)) * z3.ToReal(S['c']) == total

    def rlist(S):
        v = c.binder('ml')
        return Comp(S['r'], v, Lit(((SNum(S['K'](v), S['T'](v)), SNum(S['W'](v), 'int')),)))

    # which of the empty lists receives elements: found by running the body on an arbitrary state
    nonneg = c.holds(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m), W(a) >= 0)))
    if not nonneg:
        return NotImplemented
    # ---- initiation: R empty, c = W(m-1): the invariant holds with A = 0 because F(m) = F(m-1) + psi(X(m-1)) W(m-1)
    # ---- consecution
    i = c.fresh('mi')
    results = {}

    def iteration():
        c.assume(z3.And(i >= 1, i < m))
        S = state('in', i)
        for f in facts(S, i):
            c.assume(f)
        c.assume(mass(S, i))
        c.assume(step(i - 1))
        c.set_loc(Z, 's', UpdL(base, i, (el(i)[0], SNum(S['c'], 'int'))))
        # the receiving list: try each empty list
        for R_ in rs:
            c.set_loc(R_, 's', rlist(S))
        init = {id(R_): R_.s for R_ in rs}
        mark = len(c.trail)
        try:
            body(subst(s.chunk.items[0], [(s.var, z3.simplify(m - 1 - i))]) if False else SNum(i, 'int'))
        except M.Continue:
            pass
        except (M.Break, M.Return):
            raise Unsupported('early exit in a merging loop')
        if any(k != 's' and isinstance(cn, (Obj, VDict)) for cn, k, _ in c.trail[mark:]) or any(isinstance(cn, VList) and cn is not Z and cn not in rs and cn.ser < Z.ser for cn, k, _ in c.trail[mark:]):
            raise Unsupported('other state in a merging loop')
        changed = [R_ for R_ in rs if R_.s is not init[id(R_)]]
        if len(changed) > 1:
            raise Unsupported('several lists in a merging loop')
        for R_ in changed:
            results['R'] = R_
        # next state
        nx = ip.sl_get(Z.s, z3.simplify(i - 1))
        c2 = nt(nx[1])
        S2 = dict(S)
        S2['c'] = c2
        pushed = None
        if changed:
            new = changed[0].s
            parts = new.parts if isinstance(new, Cat) else (new,)
            if len(parts) != 2 or parts[0] is not init[id(changed[0])] or not isinstance(parts[1], Lit) or len(parts[1].items) != 1:
                raise Unsupported('unexpected list in a merging loop')
            pushed = parts[1].items[0]
            if not (isinstance(pushed, tuple) and len(pushed) == 2 and all(is_num(x) for x in pushed)):
                raise Unsupported('unexpected list in a merging loop')
        # the part of Z below i-1 is untouched
        j = c.fresh('mj')
        z = ip.c
        zs_ = Z.s
        while isinstance(zs_, UpdL):
            c.prove('merging: only the current and the next element are changed', z3.Or(zs_.idx >= i - 1))
            zs_ = zs_.base
        if zs_ is not base:
            raise Unsupported('list replaced in a merging loop')
        c.prove('merging: the values stay', rt(nx[0]) == X(i - 1))
        r, K, Wt, idx = S['r'], S['K'], S['W'], S['idx']
        if pushed is None:
            c.prove('merging: weight is conserved', S['A'] + F(i - 1) + psi(X(i - 1)) * real(c2) == total)
            r2, K2, W2, idx2 = r, K, Wt, idx
            hy = []
        else:
            px, pw = rt(pushed[0]), nt(pushed[1])
            c.prove('merging: weight is conserved', S['A'] + psi(px) * real(pw) + F(i - 1) + psi(X(i - 1)) * real(c2) == total)
            r2 = r + 1
            K2 = lambda x: z3.If(x < r, K(x), px)
            W2 = lambda x: z3.If(x < r, real(Wt(x)), real(pw))
            idx2 = None
            c.prove('merging: output strictly increasing', z3.And(px < X(i - 1), z3.Implies(r > 0, K(r - 1) < px)), [z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < r), K(a) <= K(r - 1)))] if False else [])
            q = c.fresh('mq')
            c.prove('merging: output strictly increasing', z3.Implies(z3.And(q >= 0, q < r), K(q) < px))
            c.prove('merging: outputs are listed values', z3.And(px == X(i), tag_term(tag_of(pushed[0])) == tagx(i), real(pw) >= 0))
        cs = S['cs']
        cs2 = z3.If(W(i - 1) > 0, i - 1, cs)
        if pushed is None:
            c.prove('merging: positive weights come from positive weights', z3.And(X(cs2) == X(i - 1), z3.Implies(real(c2) > 0, W(cs2) > 0)))
        else:
            c.prove('merging: positive weights come from positive weights', z3.And(X(cs) == px, z3.Implies(real(pw) > 0, W(cs) > 0), z3.Implies(real(c2) > 0, W(i - 1) > 0)))
        q = c.fresh('mq')
        if pushed is None:
            c.prove('merging: output strictly increasing', z3.Implies(z3.And(q >= 0, q < r), K(q) < X(i - 1)))
        c.prove('merging: weights stay non-negative', z3.And(real(c2) >= 0, real(c2) >= real(W(i - 1))))
        x = c.fresh('mx')
        have = [z3.And(X(x) == X(i - 1), real(c2) >= real(W(x))), z3.And(idx(x) >= 0, idx(x) < r, K(idx(x)) == X(x), Wt(idx(x)) >= W(x))]
        if pushed is not None:
            have.append(z3.And(px == X(x), real(pw) >= real(W(x))))
        c.prove('merging: every value is kept', z3.Implies(z3.And(x >= i - 1, x < m), z3.Or(have)))
        return None
    mark = c.probe
    outs = c.sub(iteration)
    if 'R' not in results:
        raise Unsupported('no output list in a merging loop')
    R_ = results['R']
    # ---- state after the loop: element 0 is current
    zero = z3.IntVal(0)
    S = state('out', zero)
    for f in facts(S, zero):
        c.assume(f)
    c.rules[S['r'].decl().name()] = M.RangeRule('merged neighbours', merged_rule(S, base, X, W, m))
    c.set_loc(R_, 's', rlist(S))
    zf, zw, zt = c.fresh_fn('mz', [I], R), c.fresh_fn('mzw', [I], I), c.fresh_fn('mzt', [I], I)
    v = c.binder('mz')
    c.set_loc(Z, 's', UpdL(Comp(m, v, Lit(((SNum(zf(v), zt(v)), SNum(zw(v), 'int')),))), zero, (el(zero)[0], SNum(S['c'], 'int'))))
    c.note('merging loop invariant')
    return None


def merged_rule(S, base, X, W, m):
    def rule(ctx, args, var, body):
        r = T.coef(body, S['W'](var))
        if r is None or models.occurs_fn(r, S['T'](var)):
            return None
        at = lambda x: z3.substitute(real(r), (S['K'](var), x))
        if T.occurs(var, at(z3.RealVal(0))):
            return None
        u = ctx.binder('mu')
        return T.mk_agg('sum', m, u, at(X(u)) * real(W(u))) - at(X(z3.IntVal(0))) * real(S['c'])
    return rule


def writes_items(st):
    import ast
    return any(isinstance(t, ast.Subscript) for n in ast.walk(st) for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []))
