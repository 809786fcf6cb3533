"""Models of the Python builtins and standard-library functions used by the package (the trusted base of the verifier:
each entry states what CPython does; nothing of /repo is modelled here)."""
import keyword
import math
import operator
import z3
from . import terms as T
from .terms import I, R, B, real
from .values import *
from . import interp as M


def U(x):
    raise Unsupported(x)


# ------------------------------------------------------------------------------------------------ types

NUMT = {'int', 'float', 'bool'}
EXCT = set(M.EXC)


def kind_name(v):
    if isinstance(v, bool) or isinstance(v, SB):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, Fraction)):
        return 'float'
    if isinstance(v, SNum):
        return v.tag if isinstance(v.tag, str) else None
    if isinstance(v, (str, SStr)):
        return 'str'
    if v is None:
        return 'NoneType'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, VList):
        return {'iter': 'generator'}.get(v.kind, v.kind)
    if isinstance(v, VDict):
        return 'dict'
    if isinstance(v, (Func, PyFn, BoundMethod)):
        return 'function'
    if isinstance(v, (Class, M.Type)):
        return 'type'
    return '?'


def isinstance_(ip, x, t):
    """python bool or z3 Bool"""
    x = ip.force(x)
    t = ip.force(t)
    if isinstance(t, tuple):
        r = False
        for u in t:
            q = isinstance_(ip, x, u)
            if q is True:
                return True
            if q is not False:
                r = q if r is False else z3.Or(r, q)
        return r
    if isinstance(t, VList):
        return isinstance_(ip, x, ip.as_sl(t).items)
    if isinstance(x, M.Opaque) or isinstance(t, M.Opaque):
        U('isinstance of %r, %r' % (x, t))
    if isinstance(t, Class):
        return isinstance(x, Obj) and x.cls.issub(t)
    if isinstance(t, M.Type):
        n = t.name
        if n == 'object':
            return True
        if n == 'Iterable':
            if isinstance(x, (tuple, VList, VDict, str, SStr)):
                return True
            if isinstance(x, Obj):
                return x.cls.lookup('__iter__')[0] is not None or x.cls.issub(t)
            return isinstance(x, Class) and bool(getattr(x, 'is_enum', False))
        if n == 'Callable':
            return isinstance(x, (Func, PyFn, BoundMethod, Class, M.Type)) or isinstance(x, Obj) and x.cls.lookup('__call__')[0] is not None
        if n in NUMT:
            if not is_num(x):
                return False
            tag = tag_of(x)
            if isinstance(tag, str):
                return tag == n or (n == 'int' and tag == 'bool')
            if n == 'int':
                return z3.Or(tag == 0, tag == 2)
            return tag == TAGS[n]
        if isinstance(x, Obj):
            return x.cls.issub(t) if isinstance(t, (Class, M.Type)) else False
        k = kind_name(x)
        if k == '?':
            U('isinstance of %r' % (x,))
        if n == 'Number':
            return is_num(x)
        return k == n
    U('isinstance with %r' % (t,))


def iscallable(x):
    if isinstance(x, (Func, PyFn, BoundMethod, Class, M.Type)):
        return True
    if isinstance(x, Obj):
        return x.cls.lookup('__call__')[0] is not None
    if isinstance(x, M.Opaque):
        U('callable')
    return False


# ------------------------------------------------------------------------------------------------ joint traversal of lists

def clean(d):
    """the dictionary, after checking that no value of an unknown iteration is read"""
    M.unpoisoned(d.values())
    return d


def zip_sl(ip, ss):
    """list term of tuples"""
    ss = [ip.resolve_ifl(s) if isinstance(s, IfL) else s for s in ss]
    if all(isinstance(s, Lit) for s in ss):
        return Lit(tuple(zip(*[s.items for s in ss])))
    r = zip_struct(ip, ss)
    if r is None and any(isinstance(s, Comp) and s.ident is not None for s in ss):
        r = zip_struct(ip, [unreg(s) for s in ss])
    if r is not None:
        return r
    # element access by index, up to the shortest
    ls = [slen(s) for s in ss]
    n = ls[0]
    for m in ls[1:]:
        if m.eq(n) or ip.c.holds(m == n):
            if not T.free_consts(m):
                n = m
            continue
        if ip.c.holds(m >= n):
            continue
        if ip.c.holds(m <= n):
            n = m
            continue
        n = z3.If(m < n, m, n)
    k = static_int(n)
    if k is not None and k <= 8:
        return Lit(tuple(tuple(ip.sl_get(s, z3.IntVal(j)) for s in ss) for j in range(k)))
    w = ip.c.binder('z')
    return generic1(ip, n, w, lambda: tuple(ip.sl_get(s, w) for s in ss))


def generic1(ip, n, w, fn):
    """list of n elements, fn() evaluated for a generic index w"""
    return ip.generic(n, w, lambda: Lit((fn(),)))


def zip_struct(ip, ss, hyps=()):
    a = ss[0]
    if any(isinstance(s, IfL) for s in ss):
        cond = next(s for s in ss if isinstance(s, IfL)).c
        sides = []
        for h in (cond, z3.Not(cond)):
            if ip.c.holds(z3.Not(h), hyps):
                sides.append(None)
                continue
            hs = tuple(hyps) + (h,)
            r = zip_struct(ip, [resolve_under(ip, s, hs) for s in ss], hs)
            if r is None:
                return None
            sides.append(r)
        x, y = sides
        return (EMPTY if y is None else y) if x is None else x if y is None else ifl(cond, x, y)
    if any(type(s) is not type(a) for s in ss):
        return None
    if isinstance(a, Lit):
        if any(len(s.items) != len(a.items) for s in ss):
            return None
        return Lit(tuple(zip(*[s.items for s in ss])))
    if isinstance(a, Cat):
        if any(len(s.parts) != len(a.parts) for s in ss):
            return None
        out = []
        for ps in zip(*[s.parts for s in ss]):
            r = zip_struct(ip, list(ps), hyps)
            if r is None:
                return None
            out.append(r)
        return cat(out)
    if isinstance(a, Comp):
        if any(not s.n.eq(a.n) and not ip.c.holds(s.n == a.n, hyps) for s in ss):
            return None
        chunks = [a.chunk] + [subst_sl(s.chunk, [(s.var, a.var)]) for s in ss[1:]]
        r = zip_struct(ip, chunks, tuple(hyps) + (a.var >= 0, a.var < a.n))
        return None if r is None else mkcomp(a.n, a.var, r)
    return None


def resolve_under(ip, s, hyps):
    while isinstance(s, IfL):
        if ip.c.holds(s.c, hyps):
            s = s.a
        elif ip.c.holds(z3.Not(s.c), hyps):
            s = s.b
        else:
            break
    return s


def enumerate_sl(ip, s, start=0):
    off = nt(start)
    if isinstance(s, IfL):
        return ifl(s.c, enumerate_sl(ip, s.a, start), enumerate_sl(ip, s.b, start))
    if isinstance(s, Lit):
        return Lit(tuple((mknum(z3.simplify(off + j)), v) for j, v in enumerate(s.items)))
    if isinstance(s, Cat):
        out = []
        for p in s.parts:
            out.append(enumerate_sl(ip, p, mknum(off)))
            off = z3.simplify(off + slen(p))
        return cat(out)
    if is_idx(s):
        w = ip.c.binder('en')
        return Comp(s.n, w, Lit(((mknum(z3.simplify(w + off)), subst(s.chunk.items[0], [(s.var, w)])),)))
    if isinstance(s, Comp):
        # filtered / nested: the position is the number of elements before
        w = ip.c.binder('en')
        chunk = subst_sl(s.chunk, [(s.var, w)])
        u = ip.c.binder('eo')
        before = T.mk_agg('sum', w, u, slen(subst_sl(s.chunk, [(s.var, u)])))
        return mkcomp(s.n, w, enumerate_sl(ip, chunk, mknum(z3.simplify(off + before))))
    if isinstance(s, (HoleL, UpdL)):
        n = slen(s)
        w = ip.c.binder('en')
        ip_s = s
        return generic1(ip, n, w, lambda: (mknum(z3.simplify(w + off)), ip.sl_get(ip_s, w)))
    U('enumerate over %r' % (s,))


# ------------------------------------------------------------------------------------------------ aggregates

def sum_tag(ip, s):
    tags = set()
    for v in M.generic_elems(s):
        if not is_num(v):
            return None
        t = tag_of(v)
        tags.add(t if isinstance(t, str) else '?')
    if not tags or tags <= {'int', 'bool'}:
        return 'int'
    if tags == {'float'}:
        pass
    t = ip.c.fresh('sumtag')
    ip.c.assume(z3.And(t >= 0, t <= 1))       # (int or float)
    return t


def total(ip, s, start=0):
    """sum(list, start)"""
    s = ip.resolve_ifl(s) if isinstance(s, IfL) else s
    elems = M.generic_elems(s)
    if isinstance(s, Lit) and (not all(is_num(v) for v in elems) or len(elems) <= 24):
        acc = start
        for v in s.items:
            acc = ip.binop('add', acc, v)
        return acc
    elems = [e for e in elems]
    if not all(is_num(v) for v in elems) or not is_num(start):
        U('sum of non-numbers')
    tag = sum_tag(ip, s)
    sort_r = any(nt(v).sort() == R for v in elems)
    t = ssum(s, (lambda v: rt(v)) if sort_r else (lambda v: nt(v)))
    if not M.static_zero(nt(start)):
        a = nt(start)
        if a.sort() != t.sort():
            a, t = real(a), real(t)
        t = a + t
    return mknum(t, tag)


def quant(ip, s, univ):
    """all / any over truth values; python bool or z3 Bool"""
    s = unreg(s)
    if isinstance(s, Lit):
        ts = [ip.truth(v) for v in s.items]
        if univ:
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if t is not True]
            return True if not ts else (z3.And(ts) if len(ts) > 1 else ts[0])
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        return False if not ts else (z3.Or(ts) if len(ts) > 1 else ts[0])
    zb = lambda t: z3.BoolVal(t) if isinstance(t, bool) else t
    if isinstance(s, Cat):
        ts = [zb(quant(ip, p, univ)) for p in s.parts]
        return M.static_or(z3.And(ts) if univ else z3.Or(ts))
    if isinstance(s, IfL):
        return M.static_or(z3.If(s.c, zb(quant(ip, s.a, univ)), zb(quant(ip, s.b, univ))))
    if isinstance(s, Comp):
        w = ip.c.binder('q')
        old = ip.c.binders
        ip.c.binders = old + [w]
        try:
            t = zb(quant(ip, subst_sl(s.chunk, [(s.var, w)]), univ))
        finally:
            ip.c.binders = old
        rng = z3.And(w >= 0, w < s.n)
        if univ:
            if z3.is_true(z3.simplify(t)):
                return True
            return z3.ForAll([w], z3.Implies(rng, t))
        if z3.is_false(z3.simplify(t)):
            return False
        return z3.Exists([w], z3.And(rng, t))
    U('all/any over %r' % (s,))


def product_of(ip, s, start=1):
    s = ip.resolve_ifl(s) if isinstance(s, IfL) else unreg(s)
    if isinstance(s, Lit):
        acc = start
        for v in s.items:
            acc = ip.binop('mul', acc, v)
        return acc
    if is_idx(s) and all(is_num(v) for v in s.chunk.items):
        w = ip.c.binder('pr')
        v = subst(s.chunk.items[0], [(s.var, w)])
        t = prod_facts(ip, T.mk_agg('prod', s.n, w, nt(v)))
        if all(isinstance(tag_of(x), str) and tag_of(x) != 'float' for x in s.chunk.items):
            tag = 'int'
        else:
            tag = ip.c.fresh('prodtag')
        r = mknum(t, tag)
        return ip.binop('mul', start, r) if start != 1 else r
    if all(is_num(v) and isinstance(tag_of(v), str) and tag_of(v) != 'float' for v in M.generic_elems(s)):
        r = mknum(prod_facts(ip, sprod(s)), 'int')
        return ip.binop('mul', start, r) if not (isinstance(start, int) and start == 1) else r
    U('product of %r' % (s,))


def prod_facts(ip, t):
    """a product of positive (non-negative) factors is positive (non-negative)"""
    c = ip.c
    d = T.agg_of(t)
    if d is None or d.kind != 'prod':
        return t
    v = c.binder('pf')
    n, body = T.instantiate(t, v)
    for k, f, g in ((1, body > 0, t > 0), (0, body >= 0, t >= 0)):
        if c.nonneg(body - k, (v >= 0, v < n)) or c.z3_valid(f, [v >= 0, v < n], 4000, False)[0] == 'proved':
            c.assume(g)
            c.note('a product of positive factors is positive')
            break
    return t


def sprod(s):
    """integer product of the elements of a structured list"""
    if isinstance(s, Lit):
        t = z3.IntVal(1)
        for v in s.items:
            t = t * nt(v)
        return z3.simplify(t)
    if isinstance(s, Cat):
        t = z3.IntVal(1)
        for p in s.parts:
            t = t * sprod(p)
        return t
    if isinstance(s, IfL):
        return z3.If(s.c, sprod(s.a), sprod(s.b))
    if isinstance(s, Comp):
        w = z3.Const('b!sp%d' % next(T._cfc), I)
        return T.mk_agg('prod', s.n, w, sprod(subst_sl(s.chunk, [(s.var, w)])))
    U('product of %r' % (s,))


def extreme(ip, items, mx):
    acc = items[0]
    for v in items[1:]:
        # python keeps the first of equal elements
        better = ip.truth(ip.cmp('gt' if mx else 'lt', v, acc))
        if isinstance(better, bool):
            acc = v if better else acc
        else:
            acc = merge(better, v, acc)
    return acc


# ------------------------------------------------------------------------------------------------ sorting: permutation rule

def leaf_shape(v):
    """(flatten, rebuild) of an element made of numbers and tuples"""
    if isinstance(v, tuple):
        return ('t', [leaf_shape(x) for x in v])
    if isinstance(v, (SStr, str)):
        U('sorting of symbolic texts')
    if not is_num(v):
        U('sorting of %r' % (v,))
    return ('n',)


def leaves(v):
    if isinstance(v, tuple):
        return [y for x in v for y in leaves(x)]
    return [v]


def rebuild(v, it_):
    if isinstance(v, tuple):
        return tuple(rebuild(x, it_) for x in v)
    return next(it_)


def lex_le(a, b):
    """z3 Bool: a <= b lexicographically for elements made of numbers / tuples"""
    la, lb = leaves(a), leaves(b)
    r = z3.BoolVal(True)
    for x, y in reversed(list(zip(la, lb))):
        tx, ty = nt(x), nt(y)
        if tx.sort() != ty.sort():
            tx, ty = real(tx), real(ty)
        r = z3.Or(tx < ty, z3.And(tx == ty, r))
    return r


def permuted(ip, s, name='perm', wide=False):
    """(list term, index -> element): a permutation of s.  Fresh index range m with the transfer rule
       sum_{i<m} f(elem'(i)) = sum over s of f(elem)"""
    c = ip.c
    elems = M.generic_elems(s)
    if not elems:
        return EMPTY, None
    proto = elems[0]
    shapes = [len(leaves(e)) for e in elems]
    if any(k != shapes[0] for k in shapes):
        U('sorting of mixed elements')
    for e in elems:
        leaf_shape(e)
    srts, tags = [], []
    for j in range(shapes[0]):
        ls = [leaves(e)[j] for e in elems]
        srt = R if any(nt(x).sort() == R for x in ls) else I
        srts.append(srt)
        ts = {tag_of(x) if isinstance(tag_of(x), str) else '?' for x in ls}
        tags.append(ts.pop() if len(ts) == 1 and '?' not in ts else None)
    m = c.fresh(name + '_n')
    fns = [c.fresh_fn(name + '_v%d' % j, [I], srt) for j, srt in enumerate(srts)]
    tfn = [c.fresh_fn(name + '_t%d' % j, [I], I) if tags[j] is None else None for j in range(len(srts))]
    n0 = slen(s)
    c.assume(m == n0)
    c.assume(m >= 0)

    def elem(i):
        return rebuild(proto, iter([SNum(f(i), tags[j] if tags[j] is not None else tfn[j](i)) for j, f in enumerate(fns)]))

    def rule(ctx, args, var, body):
        # body mentions the elements only through elem'(var)
        def phi(v):
            pairs = []
            for j, x in enumerate(leaves(v)):
                tx = nt(x)
                if srts[j] == R:
                    tx = real(tx)
                pairs.append((fns[j](var), tx))
                if tfn[j] is not None:
                    pairs.append((tfn[j](var), tag_term(tag_of(x))))
            b = z3.substitute(body, *pairs)
            if T.occurs(var, b):
                raise Keep()
            return b
        try:
            return ssum(s, phi)
        except Keep:
            return None
    c.rules[m.decl().name()] = M.RangeRule('permutation (sorted)', rule)
    w = c.binder('so')
    # every fact about all elements of s holds for the permuted elements: every permuted element is an element of s
    for j in range(len(srts)):
        pass
    mem = membership(ip, s, elem(w), srts, tfn)
    if mem is not None:
        c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < m), mem), patterns=[f(w) for f in fns] if wide else [fns[0](w)]))
        # ... and every element of s is a permuted element
        tau = c.fresh_fn('tau', [I], I)
        x = c.binder('sx')
        ex = subst(s.chunk.items[0], [(s.var, x)])
        sigma = c.memo['sigma']
        fs = [tau(x) >= 0, tau(x) < m, sigma(tau(x)) == x] + elem_eqs(elem(tau(x)), ex, srts)
        c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < m), tau(sigma(w)) == w), patterns=[sigma(w)]))
        t0 = nt(leaves(ex)[0])
        pats = [t0] if z3.is_app(t0) and t0.decl().kind() == z3.Z3_OP_UNINTERPRETED and T.occurs(x, t0) else []
        c.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < s.n), z3.And(fs)), patterns=[tau(x)] + pats))
    return Comp(m, w, Lit((elem(w),))), elem


def elem_eqs(e, v, srts):
    fs = []
    for j, (x, y) in enumerate(zip(leaves(e), leaves(v))):
        ty = nt(y)
        if srts[j] == R:
            ty = real(ty)
        fs.append(x.t == ty)
        if not isinstance(x.tag, str):
            fs.append(x.tag == tag_term(tag_of(y)))
    return fs


def filter_parts(s):
    """[('lit', item) | ('comp', n, var, keep, item)] for a list of at most one element per index, else None"""
    out = []
    for p in (s.parts if isinstance(s, Cat) else (s,)):
        if isinstance(p, Lit):
            out += [('lit', x) for x in p.items]
        elif isinstance(p, IfL):
            r = one_of(p)
            if r is None:
                return None
            out.append(('opt', r[0], r[1]))
        elif isinstance(p, Comp):
            r = one_of(p.chunk)
            if r is None:
                return None
            out.append(('comp', p.n, p.var, r[0], r[1]))
        else:
            return None
    return out


def one_of(ch):
    """(condition, element) of a list with at most one element"""
    if isinstance(ch, Lit):
        if len(ch.items) > 1:
            return None
        return (z3.BoolVal(len(ch.items) == 1), ch.items[0] if ch.items else None)
    if isinstance(ch, IfL):
        a, b = one_of(ch.a), one_of(ch.b)
        if a is None or b is None:
            return None
        if a[1] is None and b[1] is None:
            return (z3.BoolVal(False), None)
        if a[1] is None:
            return (z3.simplify(z3.And(z3.Not(ch.c), b[0])), b[1])
        if b[1] is None:
            return (z3.simplify(z3.And(ch.c, a[0])), a[1])
        try:
            return (z3.simplify(z3.If(ch.c, a[0], b[0])), merge(ch.c, a[1], b[1]))
        except Unsupported:
            return None
    return None


def is_filtered(s):
    return any(isinstance(p, IfL) or isinstance(p, Comp) and isinstance(p.chunk, IfL) for p in (s.parts if isinstance(s, Cat) else (s,)))


def regular(ip, s):
    """the same list as an index list: fresh elements on a fresh range with
       sum rule, position functions into and out of the parts (order preserving), or None"""
    c = ip.c
    if is_idx(s):
        return s
    if c.binders:
        return None
    parts = filter_parts(s)
    if not parts:
        return None
    items = [p[-1] for p in parts if p[-1] is not None]
    try:
        for e in items:
            leaf_shape(e)
    except Unsupported:
        return None
    if not items or len({len(leaves(e)) for e in items}) != 1:
        return None
    k = len(leaves(items[0]))
    srts, tags = [], []
    for j in range(k):
        ls = [leaves(e)[j] for e in items]
        srts.append(R if any(nt(x).sort() == R for x in ls) else I)
        ts = {tag_of(x) if isinstance(tag_of(x), str) else '?' for x in ls}
        tags.append(ts.pop() if len(ts) == 1 and '?' not in ts else None)
    m = c.fresh('reg_n')
    fns = [c.fresh_fn('reg_v%d' % j, [I], srt) for j, srt in enumerate(srts)]
    tfn = [c.fresh_fn('reg_t%d' % j, [I], I) if tags[j] is None else None for j in range(k)]
    c.assume(z3.And(m >= 0, m == slen(s)))
    c.reglen[m.get_id()] = (m, z3.simplify(slen(s)))
    proto = items[0]

    def elem(i):
        return rebuild(proto, iter([SNum(f(i), tags[j] if tags[j] is not None else tfn[j](i)) for j, f in enumerate(fns)]))

    def rule(ctx, args, var, body):
        def phi(v):
            pairs = []
            for j, x in enumerate(leaves(v)):
                tx = nt(x)
                if srts[j] == R:
                    tx = real(tx)
                pairs.append((fns[j](var), tx))
                if tfn[j] is not None:
                    pairs.append((tfn[j](var), tag_term(tag_of(x))))
            b = z3.substitute(body, *pairs)
            if T.occurs(var, b):
                raise Keep()
            return b
        try:
            tot = z3.RealVal(0)
            for p in parts:
                if p[-1] is None:
                    continue
                if p[0] == 'lit':
                    tot = tot + real(phi(p[1]))
                    continue
                keep, b = p[-2], real(phi(p[-1]))
                if not vanishes(b, keep):
                    b = z3.If(keep, b, z3.RealVal(0))
                tot = tot + (b if p[0] == 'opt' else T.mk_agg('sum', p[1], p[2], b))
            return tot
        except Keep:
            return None
    c.rules[m.decl().name()] = M.RangeRule('filtered list', rule)
    posf = c.fresh_fn('reg_pos', [I, I], I)       # (part, index in part) -> position
    part = c.fresh_fn('reg_part', [I], I)         # position -> part, index in part
    inv = c.fresh_fn('reg_inv', [I], I)
    w, a, b = c.binder('rg'), c.binder('rga'), c.binder('rgb')
    pw = []
    for q, p in enumerate(parts):
        Q = z3.IntVal(q)
        if p[0] == 'comp':
            _, n, var, keep, item = p
            if item is None:
                continue
            sub = [(var, w)]
            kp, e = z3.substitute(keep, *sub), subst(item, sub)
            rng = z3.And(w >= 0, w < n, kp)
            t0 = nt(leaves(e)[0])
            pats = [posf(Q, w)] + ([t0] if z3.is_app(t0) and t0.decl().kind() == z3.Z3_OP_UNINTERPRETED and T.occurs(w, t0) else [])
            c.assume(z3.ForAll([w], z3.Implies(rng, z3.And([posf(Q, w) >= 0, posf(Q, w) < m, part(posf(Q, w)) == q, inv(posf(Q, w)) == w] + elem_eqs(elem(posf(Q, w)), e, srts))), patterns=pats))
            iv = [(var, inv(w))]
            pw.append(z3.And([part(w) == q, inv(w) >= 0, inv(w) < n, z3.substitute(keep, *iv), posf(Q, inv(w)) == w] + elem_eqs(elem(w), subst(item, iv), srts)))
        else:
            cond, item = (z3.BoolVal(True), p[1]) if p[0] == 'lit' else (p[1], p[2])
            if item is None:
                continue
            z = z3.IntVal(0)
            c.assume(z3.Implies(cond, z3.And([posf(Q, z) >= 0, posf(Q, z) < m, part(posf(Q, z)) == q, inv(posf(Q, z)) == 0] + elem_eqs(elem(posf(Q, z)), item, srts))))
            pw.append(z3.And([part(w) == q, inv(w) == 0, cond, posf(Q, z) == w] + elem_eqs(elem(w), item, srts)))
    c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < m), z3.Or(pw)), patterns=[f(w) for f in fns]))
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < m), z3.Or(part(a) < part(b), z3.And(part(a) == part(b), inv(a) < inv(b)))), patterns=[z3.MultiPattern(fns[0](a), fns[0](b))]))
    c.note('filtered list as an index list')
    return Comp(m, w, Lit((elem(w),)), ident=s)


def unreg(s):
    """the filtered list an index list was made from"""
    return s.ident if isinstance(s, Comp) and s.ident is not None else s


def vanishes(b, keep):
    """b is 0 wherever keep does not hold"""
    if T.has_agg(b):
        return False
    f = z3.Solver()
    f.set('timeout', 1000)
    f.add(z3.Not(keep), b != 0)
    return f.check() == z3.unsat


class Keep(Exception):
    pass


def membership(ip, s, e, srts, tfn):
    """e (a permuted element) is some element of s: z3 formula with a Skolem index, or None"""
    if isinstance(s, Comp) and is_idx(s):
        w0 = leaves(e)[0].t.arg(leaves(e)[0].t.num_args() - 1)
        sigma = ip.c.fresh_fn('sigma', [I], I)
        j = sigma(w0)
        v = subst(s.chunk.items[0], [(s.var, j)])
        ip.c.memo['sigma'] = sigma
        fs = [j >= 0, j < s.n]
        for x, y in zip(leaves(e), leaves(v)):
            ty = nt(y)
            if x.t.sort() == R:
                ty = real(ty)
            fs.append(x.t == ty)
            if not isinstance(x.tag, str):
                fs.append(x.tag == tag_term(tag_of(y)))
        return z3.And(fs)
    return None


def sorted_(ip, v, key=None, reverse=False):
    s = ip.as_sl(v)
    s = ip.resolve_ifl(s) if isinstance(s, IfL) else s
    if isinstance(v, VList) and v.meta.get('dict_items') is not None:
        return VList('list', sorted_dict_items(ip, v.meta['dict_items'], reverse, key))
    if isinstance(s, Lit) and not any(isinstance(x, (SNum, SB, SStr, VList, Alt)) for e in s.items for x in leaves(e)) and key is None and not any(isinstance(e, Obj) for e in s.items):
        try:
            return VList('list', Lit(tuple(sorted(s.items, reverse=bool(reverse)))))
        except TypeError:
            raise PyRaise('TypeError')
    if isinstance(s, Lit) and len(s.items) <= 1:
        return VList('list', s)
    if not isinstance(reverse, bool):
        U('symbolic sort direction')
    p, elem = permuted(ip, s, wide=key is not None)
    if elem is None:
        return VList('list', EMPTY)
    c = ip.c
    a, b = c.binder('sa'), c.binder('sb')
    ka, kb = elem(a), elem(b)
    if key is not None:
        ka, kb = ip.call(key, [ka], {}), ip.call(key, [kb], {})
    le = lex_le(kb, ka) if reverse else lex_le(ka, kb)
    n = p.n
    pat = z3.MultiPattern(leaves(elem(a))[0].t, leaves(elem(b))[0].t)
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), le), patterns=[pat]))
    return VList('list', p)


# ------------------------------------------------------------------------------------------------ dicts

def dict_symbolic(ip, o):
    if o.d is None:
        return
    for k, v in clean(o.d).items():
        if not is_num(k) or not is_num(v):
            U('dict with symbolic keys and non-numeric content')
    o.contrib = Lit(tuple((k, v) for k, v in o.d.items()))
    o.d = None


def want_symbolic(ip, o):
    return False


def contrib_parts(s):
    """(hole or None, list term of the contributions after it)"""
    if isinstance(s, HoleL):
        return s, EMPTY
    if isinstance(s, Cat) and isinstance(s.parts[0], HoleL):
        return s.parts[0], cat(s.parts[1:])
    return None, s


def key_eq(a, b):
    ta, tb = nt(a), nt(b)
    if ta.sort() != tb.sort():
        ta, tb = real(ta), real(tb)
    return ta == tb


def dict_has(ip, o, x):
    if not is_num(x):
        U('symbolic dict with key %r' % (x,))
    h, rest = contrib_parts(o.contrib)
    fs = []
    if h is not None:
        f = z3.Function('hh!' + h.hid, R, B)
        fs.append(f(rt(x)))

    def ex(s):
        if isinstance(s, Lit):
            return [key_eq(k, x) for k, _ in s.items]
        if isinstance(s, Cat):
            return [f for p in s.parts for f in ex(p)]
        if isinstance(s, IfL):
            return [z3.And(s.c, z3.Or(ex(s.a)) if ex(s.a) else z3.BoolVal(False)), z3.And(z3.Not(s.c), z3.Or(ex(s.b)) if ex(s.b) else z3.BoolVal(False))]
        if isinstance(s, Comp):
            w = ip.c.binder('hk')
            fs2 = ex(subst_sl(s.chunk, [(s.var, w)]))
            return [z3.Exists([w], z3.And(w >= 0, w < s.n, z3.Or(fs2)))] if fs2 else []
        U('dict content %r' % (s,))
    fs += ex(rest)
    return M.static_or(z3.Or(fs)) if fs else False


def dict_weight(ip, o, x):
    """weight term under key x (0 when absent)"""
    h, rest = contrib_parts(o.contrib)
    t = ssum(rest, lambda kv: z3.If(key_eq(kv[0], x), rt(kv[1]), z3.RealVal(0)))
    if h is not None:
        has = z3.Function('hh!' + h.hid, R, B)(rt(x))
        val = z3.Function('hv!' + h.hid, R, R)(rt(x))
        if ip.c.holds(has):
            hv = val
        elif ip.c.holds(z3.Not(has)):
            hv = z3.RealVal(0)
        else:
            hv = z3.If(has, val, z3.RealVal(0))
        t = z3.simplify(real(t) + hv)
    return t


def dict_get(ip, o, x):
    if o.default is not None and not (isinstance(o.default, M.Type) and o.default.name == 'int'):
        U('default dictionary of something else than int')
    if o.default is not None:         # a count: 0 when absent, and the weight is 0 then
        return SNum(dict_weight(ip, o, x), 'int')
    has = dict_has(ip, o, x)
    if not ip.c.branch(has):
        raise PyRaise('KeyError')
    return SNum(dict_weight(ip, o, x), 'int')


def dict_set(ip, o, x, v):
    if not is_num(v):
        U('symbolic dict with value %r' % (v,))
    w = dict_weight(ip, o, x)
    p = T.poly(real(nt(v)) - real(w))
    d = T.int_poly_term(p)
    if d is None:
        d = p.term() if not M.static_zero(w) else nt(v)
    ip.c.set_loc(o, 'dict', cat([o.contrib, Lit(((x, SNum(int_if(d), tag_of(v))),))]))


def int_if(t):
    """drop a ToReal / turn an integral real polynomial into a sum of its atoms"""
    t = z3.simplify(t)
    if t.sort() == R and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    return t


def dict_items(ip, o):
    if o.d is not None:
        return Lit(tuple(clean(o.d).items()))
    U('iteration over a symbolic dict')


def sorted_dict_items(ip, o, reverse, key):
    """sorted items of a contribution dict: K strictly monotone, W with the grouping rule
       sum_{i<m} f(K i) W i = sum over contributions f(key) weight"""
    if o.d is not None:
        return sorted_(ip, VList('list', Lit(tuple(clean(o.d).items()))), key, reverse).s
    if key is not None:
        U('sorting dict items by a key')
    c = ip.c
    s = o.contrib
    elems = M.generic_elems(s)
    if not elems:
        return EMPTY
    tags = {tag_of(k) if isinstance(tag_of(k), str) else '?' for k, _ in elems}
    wt = {tag_of(v) if isinstance(tag_of(v), str) else '?' for _, v in elems}
    m = c.fresh('grp_n')
    kf = c.fresh_fn('grp_k', [I], R)
    wf = c.fresh_fn('grp_w', [I], I)
    tf = None if len(tags) == 1 and '?' not in tags else c.fresh_fn('grp_t', [I], I)
    tag = next(iter(tags)) if tf is None else None
    if not (wt <= {'int', 'bool'}):
        U('dict weights that are not integers')

    def elem(i):
        return (SNum(kf(i), tag if tf is None else tf(i)), SNum(wf(i), 'int'))

    def rule(ctx, args, var, body):
        r = T.coef(body, wf(var))
        if r is None or (tf is not None and occurs_fn(r, tf(var))):
            return None

        def phi(kv):
            b = z3.substitute(real(r), (kf(var), rt(kv[0])))
            if T.occurs(var, b):
                raise Keep()
            return b * rt(kv[1])
        try:
            return ssum(s, phi)
        except Keep:
            return None
    c.rules[m.decl().name()] = M.RangeRule('grouping (dict of weights)', rule)
    c.assume(m >= 0)
    ln = slen(s)
    c.assume(z3.And((m == 0) == (ln == 0), m <= ln))
    a, b = c.binder('ga'), c.binder('gb')
    lt = kf(b) < kf(a) if reverse else kf(a) < kf(b)
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < m), lt), patterns=[z3.MultiPattern(kf(a), kf(b))]))
    # weights: sum of integer contributions; non-negative when every contribution is
    w = c.binder('gw')
    nonneg = quant(ip, smap(s, lambda kv: mkbool(nt(kv[1]) >= 0)), True)
    zb = z3.BoolVal(nonneg) if isinstance(nonneg, bool) else nonneg
    c.assume(z3.Implies(zb, z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < m), wf(w) >= 0), patterns=[wf(w)])))
    if tf is not None:
        c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < m), z3.And(tf(w) >= 0, tf(w) <= 2)), patterns=[tf(w)]))
    w2 = c.binder('gi')
    return Comp(m, w2, Lit((elem(w2),)))


def occurs_fn(t, x):
    return any(y.eq(x) for y in T.subterms(t))


def dict_of_pairs(ip, s):
    if isinstance(s, IfL):
        s = ip.resolve_ifl(s)
    if isinstance(s, Lit):
        d = VDict({})
        for k, v in s.items:
            ip.setitem(d, k, v)
        return d
    # {key: value for ... in list}: a lookup table
    if isinstance(s, Comp) and is_idx(s):
        d = VDict({})
        d.hook = TableHook(s)
        return d
    U('dict comprehension')


class TableHook:
    """{K(i): V(i) for i < n}; reads by a key known to be K(j) give V(j) when the keys are distinct"""
    def __init__(self, s):
        self.s = s

    def _key(self, j):
        return subst(self.s.chunk.items[0], [(self.s.var, j)])

    def get(self, ip, o, x):
        # the key is syntactically some K(j)?
        cand = None
        k0, _ = self.s.chunk.items[0]
        j = match_index(nt(k0), self.s.var, nt(x))
        if j is None:
            U('lookup of an unknown key in a table')
        if not ip.c.branch(z3.And(j >= 0, j < self.s.n)):
            raise PyRaise('KeyError')
        a, b = ip.c.binder('ta'), ip.c.binder('tb')
        ka, kb = self._key(a)[0], self._key(b)[0]
        if not ip.c.holds(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < self.s.n), z3.Not(key_eq(ka, kb))))):
            U('table with possibly repeated keys')
        return self._key(j)[1]

    def set(self, ip, o, x, v):
        U('update of a table')

    def contains(self, ip, o, x):
        w = ip.c.binder('tk')
        return z3.Exists([w], z3.And(w >= 0, w < self.s.n, key_eq(self._key(w)[0], x)))


def match_index(pat, var, t):
    """j with pat[var := j] == t, by one-way matching"""
    found = []

    def go(p, x):
        if p.eq(var):
            found.append(x)
            return True
        if not T.occurs(var, p):
            return p.eq(x)
        if z3.is_app(p) and z3.is_app(x) and p.decl().eq(x.decl()) and p.num_args() == x.num_args():
            return all(go(a, b) for a, b in zip(p.children(), x.children()))
        return False
    pat, t = z3.simplify(pat), z3.simplify(t)
    if go(pat, t) and found and all(f.eq(found[0]) for f in found):
        return found[0]
    return None


def dict_cmp(ip, name, a, b):
    for x, y in ((a, b), (b, a)):
        if x.hook is not None and hasattr(x.hook, 'cmp'):
            return x.hook.cmp(ip, name, a, b)
    U('dict comparison')


# ------------------------------------------------------------------------------------------------ texts

def fmt(ip, x, spec, conv):
    if conv == ord('r') or conv == 114:
        if isinstance(x, (str, int, type(None))) and spec == '':
            return repr(x)
        return Hole('repr', x)
    if isinstance(x, (str, SStr)) and (spec == '' or spec == SStr([])):
        return x
    if isinstance(x, (int, bool, type(None))) and spec == '':
        return str(x)
    if isinstance(x, Obj) and spec == '':
        m = ip.find_method(x, '__format__') or ip.find_method(x, '__str__') or ip.find_method(x, '__repr__')
        if m is not None:
            try:
                return ip.call(m, [''] if ip.find_method(x, '__format__') else [])
            except Unsupported:
                return Hole('str', x)
    if isinstance(x, str) and isinstance(spec, str):
        return format(x, spec)
    return Hole('fmt', (x, spec)) if spec != '' else Hole('str', x)


def to_str(ip, x):
    x = ip.force(x)
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, (int, float, type(None))):
        return str(x)
    if isinstance(x, Obj):
        m = ip.find_method(x, '__str__') or ip.find_method(x, '__repr__')
        if m is not None:
            return ip.call(m, [])
    return SStr([Hole('str', x)])


NDIGITS = z3.Function('ndigits', I, I)
DIGIT = z3.Function('digit', I, I, I)
TEXTLEN = z3.Function('textlen', R, I, I)


def digits_of(v):
    """the number n when the text is the decimal writing of the non-negative whole number n"""
    if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Hole) and v.parts[0].what == 'str' and is_num(v.parts[0].info):
        x = v.parts[0].info
        if isinstance(tag_of(x), str) and tag_of(x) == 'int' and nt(x).sort() == I:
            return nt(x)
    return None


def str_len(ip, v):
    h = getattr(ip, 'text_len', None)
    if h is not None:
        r = h(ip, v)
        if r is not None:
            return r
    n = digits_of(v)
    if n is not None and ip.c.holds(n >= 0):
        ip.c.assume(NDIGITS(n) >= 1)
        return SNum(NDIGITS(n), 'int')
    if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Hole) and v.parts[0].what == 'str' and is_num(v.parts[0].info):
        x = v.parts[0].info
        tag = tag_of(x)
        tag = z3.IntVal({'int': 0, 'float': 1, 'bool': 2}[tag]) if isinstance(tag, str) else tag
        t = TEXTLEN(real(nt(x)), tag)
        ip.c.assume(t >= 1)
        return SNum(t, 'int')
    U('length of a text')


def str_index(ip, v, i):
    h = getattr(ip, 'text_index', None)
    if h is not None:
        r = h(ip, v, i)
        if r is not None:
            return r
    n = digits_of(v)
    if n is not None and is_num(i) and ip.c.holds(n >= 0):
        t = nt(i)
        if t.sort() != I:
            raise PyRaise('TypeError')
        ln = NDIGITS(n)
        ip.c.assume(ln >= 1)
        if ip.c.branch(z3.And(t >= 0, t < ln)):
            return SStr([Hole('digit', (n, t))])
        if ip.c.branch(z3.And(t < 0, t >= -ln)):
            return SStr([Hole('digit', (n, z3.simplify(t + ln)))])
        raise PyRaise('IndexError')
    if isinstance(v, SStr) and isinstance(i, tuple) and i[3] is None and all(x is None or type(x) is int for x in i[1:3]) and len(v.parts) > 1:
        lo, hi = i[1] or 0, i[2]
        ps = list(v.parts)
        first, last = [p if isinstance(p, str) else '' for p in (ps[0], ps[-1])]
        if 0 <= lo <= len(first) and (hi is None or -len(last) <= hi < 0):      # only literal characters are cut off
            if lo:
                ps[0] = first[lo:]
            if hi is not None:
                ps[-1] = last[:hi]
            return SStr(ps)
    U('index into a text')


def str_iter(ip, v):
    n = digits_of(v)
    if n is not None and ip.c.holds(n >= 0):
        ip.c.assume(NDIGITS(n) >= 1)
        w = ip.c.binder('dg')
        return Comp(NDIGITS(n), w, Lit((SStr([Hole('digit', (n, w))]),)))
    U('iteration over a text')


def str_cmp(ip, name, a, b):
    if name in ('eq', 'ne'):
        if same_value(a, b):
            return name == 'eq'
        h = getattr(ip, 'text_eq', None)
        if h is not None:
            r = h(ip, a, b)
            if r is not None:
                return mkbool(r if name == 'eq' else z3.Not(r))
        if isinstance(a, str) or isinstance(b, str):
            lit, s = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(s, SStr) and s.parts and isinstance(s.parts[0], str):
                p = s.parts[0]
                k = min(len(p), len(lit))
                if p[:k] != lit[:k] or len(p) > len(lit):
                    return name == 'ne'
    h = getattr(ip, 'text_cmp', None)
    if h is not None:
        r = h(ip, name, a, b)
        if r is not None:
            return r
    U('comparison of texts')


def unknown_bool(ip, what):
    return ip.c.fresh('unknown_' + what.replace(' ', '_'), B)


# ------------------------------------------------------------------------------------------------ numbers

def inverse_of(ip, var, body):
    """function k -> 1 / body[var := k] (for indices where body is not 0), shared by everything that asks for it"""
    c = ip.c
    canon = z3.simplify(z3.substitute(body, (var, z3.Const('$inv', I))))
    key = ('inverse', canon.get_id())
    hit = c.memo.get(key)
    if hit is None:
        f = c.fresh_fn('inv', [I], R)
        at = lambda k: z3.substitute(canon, (z3.Const('$inv', I), k))
        k = c.binder('iv')
        c.assume(z3.ForAll([k], z3.Implies(at(k) > 0, f(k) > 0), patterns=[f(k)]))

        def prod(x, y, d=f(z3.IntVal(0)).decl()):
            if z3.is_app(x) and x.decl().eq(d) and (at(x.arg(x.num_args() - 1)).eq(y) or T.agg_of(y) is not None and c.holds(at(x.arg(x.num_args() - 1)) == y)) and c.holds(y != 0):
                return z3.RealVal(1)
        c.products.append(prod)
        hit = c.memo[key] = (f, canon)
    return hit[0]


def product_over_factor(ip, ta, tb):
    """(product over i < n of f i) // f k  for an index k < n with f k != 0: the product of the other factors, an integer
    (rule; lean/Sums.lean)"""
    d = T.agg_of(ta)
    if d is None or d.kind != 'prod':
        return None
    v = ip.c.binder('pf')
    n, body = T.instantiate(ta, v)
    j = match_index(z3.simplify(body), v, z3.simplify(tb))
    if j is None:
        j = next((b for b in reversed(ip.c.binders) if b.sort() == I and ip.c.holds(z3.And(b >= 0, b < n, real(z3.substitute(body, (v, b))) == real(tb)))), None)
    if j is None or not ip.c.holds(z3.And(j >= 0, j < n, tb != 0)):
        return None
    ip.c.note('exact quotient of a product by one of its factors')
    if j.num_args() == 0 and T.is_binder(j) and T.occurs(j, tb):
        return real(ta) * inverse_of(ip, j, tb)(j)
    return real(ta) * inverse_of(ip, v, body)(j)


def exact_quotient(ip, ta, tb):
    """q when  ta == q * tb  is syntactically evident or registered (gcd factors)"""
    for f in getattr(ip.c, 'quotients', ()):
        q = f(ip, ta, tb)
        if q is not None:
            return q
    q = product_over_factor(ip, ta, tb)
    if q is not None:
        return q
    pa = T.poly(ta)
    pb = T.poly(tb)
    if len(pb.m) == 1:
        (mb, cb), = pb.m.items()
        if mb and cb == 1 and pa.m:
            out = T.Poly()
            out.atoms = {**pa.atoms, **pb.atoms}
            for mon, cf in pa.m.items():
                l = list(mon)
                ok = True
                for x in mb:
                    if x in l:
                        l.remove(x)
                    else:
                        ok = False
                        break
                if not ok or cf.denominator != 1:
                    return None
                out.m[tuple(l)] = cf
            ts = []
            for mon, cf in out.m.items():
                t = z3.IntVal(int(cf))
                for a in mon:
                    if out.atoms[a].sort() != I:
                        return None
                    t = t * out.atoms[a]
                ts.append(t)
            return z3.simplify(z3.Sum(ts)) if ts else z3.IntVal(0)
    return None


def to_int(ip, x):
    x = ip.force(x)
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, float):
        try:
            return int(x)
        except (OverflowError, ValueError) as e:
            raise PyRaise(type(e).__name__)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise PyRaise('ValueError')
    if isinstance(x, SB):
        return mknum(nt(x))
    if isinstance(x, SNum):
        if x.t.sort() == I:
            return mknum(x.t, 'int')
        if isinstance(x.tag, str) and x.tag == 'int':
            return x
        return SNum(trunc_term(ip, x), 'int')
    if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Hole) and x.parts[0].what == 'digit':
        n, i = x.parts[0].info
        d = DIGIT(n, i)
        ip.c.assume(z3.And(d >= 0, d <= 9))
        return SNum(d, 'int')
    if isinstance(x, Obj):
        for nm in ('__int__', '__index__', '__trunc__'):
            m = ip.find_method(x, nm)
            if m is not None:
                return ip.call(m, [])
        raise PyRaise('TypeError')
    if x is None or isinstance(x, (tuple, VList, VDict)):
        raise PyRaise('TypeError')
    U('int of %r' % (x,))


def trunc_term(ip, x):
    """int(x) for a number of sort Real: identity on the int/bool tags"""
    tr = M.TRUNC(x.t)
    if isinstance(x.tag, str):
        return x.t if x.tag in ('int', 'bool') else toward_zero(x.t)
    return z3.If(x.tag == 1, tr, x.t)


def toward_zero(v):
    v = real(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def to_float(ip, x):
    x = ip.force(x)
    if isinstance(x, (bool, int, float)):
        try:
            return float(x)
        except OverflowError:
            raise PyRaise('OverflowError')
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise PyRaise('ValueError')
    if isinstance(x, (SNum, SB)):
        if ip.float_range and tag_of(x) == 'int':
            ip.float_guard(nt(x))
        return SNum(rt(x), 'float')
    U('float of %r' % (x,))


def abs_(ip, x):
    x = ip.force(x)
    if isinstance(x, Obj):
        m = ip.find_method(x, '__abs__')
        if m is None:
            raise PyRaise('TypeError')
        return ip.call(m, [])
    if isinstance(x, (int, float)):
        return abs(x)
    if is_num(x):
        t = nt(x)
        return mknum(z3.If(t >= 0, t, -t), M.join_tag(tag_of(x), 'int'))
    raise PyRaise('TypeError')


def rounder(fname, dunder, fn, pyf):
    def f(ip, args, kw):
        x = ip.force(args[0])
        if isinstance(x, Obj):
            m = ip.find_method(x, dunder)
            if m is None:
                raise PyRaise('TypeError')
            return ip.call(m, [])
        if isinstance(x, (int, float)):
            return pyf(x)
        if is_num(x):
            if nt(x).sort() == I:
                return mknum(nt(x), 'int')
            tag = tag_of(x)
            t = fn(x.t)
            if isinstance(tag, str):
                if tag == 'float':
                    v = real(x.t)
                    return SNum(z3.ToInt(v) if fname == 'floor' else -z3.ToInt(-v) if fname == 'ceil' else toward_zero(v), 'int')
                return SNum(x.t, 'int')
            return SNum(z3.If(tag == 1, t, x.t), 'int')
        raise PyRaise('TypeError')
    return f


def round_(ip, args, kw):
    x = ip.force(args[0])
    n = ip.force(args[1]) if len(args) > 1 else kw.get('ndigits')
    if isinstance(x, Obj):
        m = ip.find_method(x, '__round__')
        if m is None:
            raise PyRaise('TypeError')
        return ip.call(m, [n] if len(args) > 1 else [])
    if isinstance(x, (int, float)) and (n is None or isinstance(n, int)):
        return round(x) if n is None else round(x, n)
    if is_num(x):
        nn = rt(n) if n is not None else z3.RealVal(0)
        # round of a whole number to n >= 0 digits is the number itself; the model keeps one symbol for all cases
        return SNum(M.ROUND(rt(x), nn), 'int' if n is None else z3.If(tag_term(tag_of(x)) == 1, z3.IntVal(1), z3.IntVal(0)))
    raise PyRaise('TypeError')


# ------------------------------------------------------------------------------------------------ calls of types

def call_type(ip, t, args, kwargs):
    n = t.name
    if n in EXCT:
        o = M.Opaque(n)
        o.exc_name = n
        o.args = args
        return o
    if n == 'int':
        if not args:
            return 0
        x = args[0]
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Hole) and x.parts[0].what in ('digits', 'numeral') and is_num(x.parts[0].info):
            return x.parts[0].info
        return to_int(ip, x)
    if n == 'float':
        return to_float(ip, args[0]) if args else 0.0
    if n == 'bool':
        if not args:
            return False
        tr = ip.truth(args[0])
        return mkbool(tr) if not isinstance(tr, bool) else tr
    if n == 'str':
        return to_str(ip, args[0]) if args else ''
    if n in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            return () if n == 'tuple' else VList(n, EMPTY)
        v = ip.force(args[0])
        if n == 'tuple' and isinstance(v, tuple):
            return v
        s = str_iter(ip, v) if isinstance(v, SStr) else ip.as_sl(v)
        if n != 'set' and n != 'frozenset' and is_filtered(s):
            s = regular(ip, s) or s
        if n == 'tuple':
            return s.items if isinstance(s, Lit) else VList('tuple', s)
        return VList('set' if n == 'frozenset' else n, s)
    if n == 'dict':
        if not args:
            return VDict(dict(kwargs))
        v = ip.force(args[0])
        if isinstance(v, VDict):
            if v.d is None:
                return VDict(None, v.contrib)
            d = dict(v.d)
            d.update(kwargs)
            return VDict(d)
        return dict_of_pairs(ip, ip.as_sl(v))
    if n == 'type':
        v = ip.force(args[0])
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, SNum) and not isinstance(v.tag, str):
            return TypeOf(v.tag)
        return ip.builtins.get(kind_name(v), M.Type(kind_name(v)))
    if n in ('staticmethod', 'property', 'classmethod'):
        f = args[0]
        f.kind = {'staticmethod': 'static'}.get(n, n)
        return f
    if n == 'object':
        return Obj(Class('object', [], {}, 'builtins'))
    if n == 'defaultdict':
        return VDict({}, default=args[0] if args else None)
    U('call of type %s' % n)



# ------------------------------------------------------------------------------------------------ builtins

def builtins(ip):
    d = {}

    def fn(name):
        def deco(f):
            d[name] = PyFn(name, f)
            return f
        return deco

    for n in ('int', 'float', 'bool', 'str', 'list', 'tuple', 'set', 'frozenset', 'dict', 'type', 'staticmethod', 'property', 'classmethod', 'object'):
        d[n] = M.Type(n)
    for n in M.EXC:
        d[n] = M.Type(n)
    d['NotImplemented'] = M.NOTIMPL
    d['Ellipsis'] = M.Opaque('...')
    d['__debug__'] = True

    @fn('len')
    def _(ip, a, k):
        return ip.length(a[0])

    @fn('range')
    def _(ip, a, k):
        a = [ip.force(x) for x in a]
        for x in a:
            if not is_num(x) or (isinstance(tag_of(x), str) and tag_of(x) == 'float'):
                raise PyRaise('TypeError')
            if not isinstance(tag_of(x), str) and not ip.c.branch(tag_of(x) != 1):
                raise PyRaise('TypeError')
        if all(isinstance(x, int) for x in a):
            r = range(*a)
            if len(r) <= 64:
                return VList('range', Lit(tuple(r)))
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if not isinstance(st, int) or st not in (1, -1):
            U('range step')
        lo, hi = it(lo), it(hi)
        n = z3.simplify(hi - lo if st == 1 else lo - hi)
        if not ip.c.holds(n >= 0):
            n = z3.simplify(z3.If(n >= 0, n, z3.IntVal(0)))
        w = ip.c.binder('rg')
        return VList('range', mkcomp(n, w, Lit((mknum(z3.simplify(lo + w if st == 1 else lo - w)),))))

    @fn('sum')
    def _(ip, a, k):
        v = ip.force(a[0])
        start = a[1] if len(a) > 1 else k.get('start', 0)
        return total(ip, ip.as_sl(v), start)

    @fn('all')
    def _(ip, a, k):
        return mkb(quant(ip, ip.as_sl(a[0]), True))

    @fn('any')
    def _(ip, a, k):
        return mkb(quant(ip, ip.as_sl(a[0]), False))

    for nm in ('max', 'min'):
        def ext(ip, a, k, mx=(nm == 'max'), nm=nm):
            if 'key' in k:
                U(nm + ' with a key')
            if len(a) > 1:
                return extreme(ip, a, mx)
            s = ip.resolve_ifl(ip.as_sl(a[0]))
            if isinstance(s, Lit):
                if not s.items:
                    if 'default' in k:
                        return k['default']
                    raise PyRaise('ValueError')
                return extreme(ip, list(s.items), mx)
            return extreme_sl(ip, s, mx)
        d[nm] = PyFn(nm, ext)

    @fn('sorted')
    def _(ip, a, k):
        rv = k.get('reverse', False)
        tr = ip.truth(rv)
        if not isinstance(tr, bool):
            tr = ip.c.branch(tr)
        return sorted_(ip, ip.force(a[0]), k.get('key'), tr)

    @fn('reversed')
    def _(ip, a, k):
        return VList('iter', M.reverse_sl(ip, ip.resolve_ifl(ip.as_sl(a[0]))))

    @fn('zip')
    def _(ip, a, k):
        if any(isinstance(x, M.Star) for x in a):
            if len(a) != 1:
                U('zip with *')
            return unzip(ip, a[0].s)
        if not a:
            return VList('iter', EMPTY)
        return VList('iter', zip_sl(ip, [ip.as_sl(x) for x in a]))

    @fn('enumerate')
    def _(ip, a, k):
        return VList('iter', enumerate_sl(ip, ip.as_sl(a[0]), a[1] if len(a) > 1 else k.get('start', 0)))

    @fn('map')
    def _(ip, a, k):
        if len(a) != 2:
            U('map')
        return VList('iter', ip.flatmap(ip.as_sl(a[1]), lambda v: Lit((ip.call(a[0], [v], {}),))))

    @fn('filter')
    def _(ip, a, k):
        def f(v):
            return Lit((v,)) if ip.branch(v if a[0] is None else ip.call(a[0], [v], {})) else EMPTY
        return VList('iter', ip.flatmap(ip.as_sl(a[1]), f))

    @fn('isinstance')
    def _(ip, a, k):
        return mkb(isinstance_(ip, a[0], a[1]))

    @fn('callable')
    def _(ip, a, k):
        return iscallable(ip.force(a[0]))

    @fn('hash')
    def _(ip, a, k):
        return hash_of(ip, a[0])

    @fn('abs')
    def _(ip, a, k):
        return abs_(ip, a[0])

    d['round'] = PyFn('round', round_)

    @fn('print')
    def _(ip, a, k):
        ip.c.set_event(('print', tuple(a)))
        return None

    @fn('repr')
    def _(ip, a, k):
        x = ip.force(a[0])
        if isinstance(x, (int, str, float, type(None))):
            return repr(x)
        if isinstance(x, Obj):
            m = ip.find_method(x, '__repr__')
            if m is not None:
                return ip.call(m, [])
        return SStr([Hole('repr', x)])

    @fn('iter')
    def _(ip, a, k):
        v = ip.force(a[0])
        if isinstance(v, VList) and v.kind == 'iter':
            return v
        return VList('iter', ip.as_sl(v))

    @fn('next')
    def _(ip, a, k):
        v = ip.force(a[0])
        if not (isinstance(v, VList) and v.kind == 'iter'):
            U('next of %r' % (v,))
        s = ip.resolve_ifl(v.s)
        if not isinstance(s, Lit):
            U('next of a symbolic iterator')
        if not s.items:
            if len(a) > 1:
                return a[1]
            raise PyRaise('StopIteration')
        ip.c.set_loc(v, 's', Lit(s.items[1:]))
        return s.items[0]

    @fn('getattr')
    def _(ip, a, k):
        try:
            return ip.getattr(a[0], a[1])
        except PyRaise as e:
            if e.exc_type == 'AttributeError' and len(a) > 2:
                return a[2]
            raise

    @fn('hasattr')
    def _(ip, a, k):
        return ip.hasattr(a[0], a[1])

    @fn('setattr')
    def _(ip, a, k):
        ip.setattr(a[0], a[1], a[2])

    @fn('divmod')
    def _(ip, a, k):
        return (ip.binop('floordiv', a[0], a[1]), ip.binop('mod', a[0], a[1]))

    @fn('pow')
    def _(ip, a, k):
        return ip.binop('pow', a[0], a[1])

    @fn('super')
    def _(ip, a, k):
        U('super()')
    return d


def mkb(t):
    return t if isinstance(t, bool) else mkbool(t)


HASHN = z3.Function('hash_num', R, I)
HPAIR = z3.Function('hash_pair', I, I, I)


def hash_of(ip, v):
    """hash as a function of the value only (equal values have equal hashes)"""
    v = ip.force(v)
    h = getattr(ip, 'hash_hook', None)
    if h is not None:
        r = h(ip, v)
        if r is not None:
            return r
    return M.Opaque('hash')


def extreme_sl(ip, s, mx):
    c = ip.c
    n = slen(s)
    if not c.branch(n > 0):
        raise PyRaise('ValueError')
    elems = M.generic_elems(s)
    if not all(is_num(e) for e in elems):
        U('max of non-numbers')
    srt = R if any(nt(e).sort() == R for e in elems) else I
    tags = {tag_of(e) if isinstance(tag_of(e), str) else '?' for e in elems}
    m = c.fresh('ext', srt)
    tag = tags.pop() if len(tags) == 1 and '?' not in tags else c.fresh('exttag')
    f = lambda v: mkbool((m >= conv(nt(v), srt)) if mx else (m <= conv(nt(v), srt)))
    a = quant(ip, smap(s, f), True)
    if a is not True:
        c.assume(a if not isinstance(a, bool) else z3.BoolVal(a))
    e = quant(ip, smap(s, lambda v: mkbool(m == conv(nt(v), srt))), False)
    if e is not True:
        c.assume(e if not isinstance(e, bool) else z3.BoolVal(e))
    return SNum(m, tag)


def conv(t, srt):
    return real(t) if srt == R else t


def unzip(ip, s):
    """zip(*list of tuples)"""
    s = ip.resolve_ifl(s)
    elems = M.generic_elems(s)
    if not elems or not all(isinstance(e, tuple) and len(e) == len(elems[0]) for e in elems):
        U('zip(*list) of irregular elements')
    if not ip.c.branch(slen(s) > 0):
        return VList('iter', EMPTY)
    cols = []
    for j in range(len(elems[0])):
        sj = smap(s, lambda v: v[j])
        cols.append(sj.items if isinstance(sj, Lit) else VList('tuple', sj))
    return VList('iter', Lit(cols))


def repeat(ip, a, b):
    s = ip.as_sl(a, consume=False)
    k = kind_of_seq(a)
    if isinstance(b, int) and (isinstance(s, Lit) or b <= 1):
        r = cat([s] * max(0, int(b)))
    else:
        n = it(b)
        if not ip.c.holds(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        r = mkcomp(z3.simplify(n), ip.c.binder('rp'), s)
    if k == 'tuple':
        return r.items if isinstance(r, Lit) else VList('tuple', r)
    return VList('list', r)


def kind_of_seq(a):
    return 'tuple' if isinstance(a, tuple) else a.kind


# ------------------------------------------------------------------------------------------------ methods of builtin values

def builtin_method(ip, o, name):
    if isinstance(o, VList):
        return list_method(o, name)
    if isinstance(o, VDict):
        return dict_method(o, name)
    if isinstance(o, (str, SStr)):
        return str_method(o, name)
    if isinstance(o, tuple):
        if name == 'index' or name == 'count':
            return PyFn(name, lambda ip, a, k: U('tuple.' + name))
        return None
    if isinstance(o, M.Opaque):
        if o.what == 'logger':
            def log(ip, a, k):
                ip.c.set_event(('log', name))
                return None
            return PyFn('logger.' + name, log)
        if name == '__name__':
            return SStr([Hole('name', o)])
        return M.Opaque(o.what + '.' + name)
    if isinstance(o, M.Type):
        if name == '__name__':
            return o.name
        if o.name in ('int', 'float', 'str', 'dict', 'list', 'tuple'):
            return PyFn(o.name + '.' + name, lambda ip, a, k: ip.call(ip.getattr(a[0], name), list(a[1:]), k))
        return None
    if isinstance(o, SNum) or is_num(o):
        if name == 'bit_length':
            return PyFn(name, lambda ip, a, k: SNum(ip.c.fresh('bits'), 'int'))
        if name == 'is_integer':
            return PyFn(name, lambda ip, a, k: mkbool(z3.IsInt(rt(o))))
    if isinstance(o, Func) and name == '__name__':
        return o.qualname
    return None


def list_method(o, name):
    def m(f):
        return PyFn('list.' + name, f)
    if name == 'append' and o.kind == 'list':
        return m(lambda ip, a, k: ip.list_append(o, a[0]))
    if name == 'extend' and o.kind == 'list':
        return m(lambda ip, a, k: ip.list_extend(o, ip.as_sl(a[0])))
    if name == 'copy':
        return m(lambda ip, a, k: VList(o.kind, o.s))
    if name == 'add' and o.kind == 'set':
        return m(lambda ip, a, k: ip.list_append(o, a[0]))
    if name == 'pop' and o.kind == 'list':
        def pop(ip, a, k):
            s = ip.resolve_ifl(o.s)
            if not isinstance(s, Lit) or (a and not isinstance(a[0], int)):
                U('pop from a symbolic list')
            if not s.items:
                raise PyRaise('IndexError')
            i = a[0] if a else -1
            items = list(s.items)
            v = items.pop(i)
            ip.c.set_loc(o, 's', Lit(items))
            return v
        return m(pop)
    if name == 'insert' and o.kind == 'list':
        def ins(ip, a, k):
            if a[0] != 0:
                s = ip.resolve_ifl(o.s)
                if not isinstance(s, Lit) or not isinstance(a[0], int):
                    U('insert into a symbolic list')
                items = list(s.items)
                items.insert(a[0], a[1])
                ip.c.set_loc(o, 's', Lit(items))
                return
            ip.c.set_loc(o, 's', cat([Lit((a[1],)), o.s]))
        return m(ins)
    if name == 'reverse' and o.kind == 'list':
        return m(lambda ip, a, k: ip.c.set_loc(o, 's', M.reverse_sl(ip, ip.resolve_ifl(o.s))))
    if name == 'sort' and o.kind == 'list':
        return m(lambda ip, a, k: ip.c.set_loc(o, 's', sorted_(ip, VList('list', o.s), k.get('key'), bool(k.get('reverse', False))).s))
    if name == 'count':
        def count(ip, a, k):
            h = getattr(ip, 'count_hook', None)
            if h is not None:
                r = h(ip, o.s, a[0])
                if r is not None:
                    return r
            return mknum(ssum(o.s, lambda v: z3.If(ip.bterm(ip.cmp('eq', v, a[0])), z3.IntVal(1), z3.IntVal(0))))
        return m(count)
    return None


def dict_method(o, name):
    def m(f):
        return PyFn('dict.' + name, f)
    if o.hook is not None:
        h = getattr(o.hook, name, None)
        if name in ('get', 'copy', 'keys', 'values', 'items', 'update', 'clear', 'setdefault', 'pop') and h is None or name == 'get':
            h2 = getattr(o.hook, 'm_' + name, None)
            if h2 is None:
                U('dict method %s' % name)
            return m(lambda ip, a, k: h2(ip, o, a, k))
        return m(lambda ip, a, k: h(ip, o, *a)) if h else None
    if name == 'get':
        def get(ip, a, k):
            x = ip.force(a[0])
            dflt = a[1] if len(a) > 1 else None
            has = ip.contains(o, x)
            if isinstance(has, bool):
                return ip.getitem(o, x) if has else dflt
            if o.d is None and is_num(dflt) and M.static_zero(nt(dflt)):
                return SNum(dict_weight(ip, o, x), 'int')
            if ip.c.branch(has):
                return ip.getitem(o, x)
            return dflt
        return m(get)
    if name == 'copy':
        return m(lambda ip, a, k: VDict(dict(clean(o.d)) if o.d is not None else None, o.contrib, o.default))
    if name == 'items':
        def items(ip, a, k):
            if o.d is not None:
                return VList('iter', Lit(tuple(clean(o.d).items())))
            v = VList('iter', EMPTY)
            v.meta['dict_items'] = VDict(None, o.contrib)
            return v
        return m(items)
    if name == 'keys':
        return m(lambda ip, a, k: VList('iter', ip.as_sl(o)))
    if name == 'values':
        return m(lambda ip, a, k: VList('iter', Lit(tuple(clean(o.d).values())) if o.d is not None else U('values of a symbolic dict')))
    if name == 'update':
        def upd(ip, a, k):
            src = ip.force(a[0]) if a else VDict({})
            pairs = list(clean(src.d).items()) if isinstance(src, VDict) and src.d is not None else list(ip.as_sl(src).items) if not isinstance(src, VDict) else U('update from a symbolic dict')
            for kk, vv in pairs + list(k.items()):
                ip.setitem(o, kk, vv)
        return m(upd)
    if name == 'clear':
        return m(lambda ip, a, k: ip.c.set_loc(o, 'dict', {}))
    if name == 'setdefault':
        def sd(ip, a, k):
            if not ip.c.branch(ip.contains(o, a[0])):
                ip.setitem(o, a[0], a[1] if len(a) > 1 else None)
            return ip.getitem(o, a[0])
        return m(sd)
    if name == 'pop':
        def pop(ip, a, k):
            if o.d is None:
                U('pop from a symbolic dict')
            h = ip.hashable(a[0])
            if h not in o.d:
                if len(a) > 1:
                    return a[1]
                raise PyRaise('KeyError')
            d = dict(o.d)
            v = d.pop(h)
            ip.c.set_loc(o, 'dict', d)
            return v
        return m(pop)
    return None


# texts without line breaks, in holes whose name says what they are
ONE_LINE = {'word', 'var', 'fname', 'digits', 'numeral', 'line'}
NOT_EMPTY = {'word', 'var', 'fname', 'digits', 'numeral'}
TEXT_METHODS = {}


def lstrip_digits(ip, o, a, k):
    """digits without leading zeros: nothing when the number is 0"""
    if len(a) == 1 and a[0] == '0' and len(o.parts) == 1 and isinstance(o.parts[0], Hole) and o.parts[0].what == 'digits':
        v = o.parts[0].info
        return '' if ip.truth(mkbool(nt(v) == 0)) else SStr([Hole('numeral', v)])
    return NotImplemented


TEXT_METHODS['lstrip'] = lstrip_digits


def one_line(ip, t):
    if isinstance(t, str):
        return '\n' not in t
    if isinstance(t, SStr):
        return all(one_line(ip, p) for p in t.parts)
    if isinstance(t, Hole):
        if t.what in ('join', 'joined'):
            s = t.info if t.what == 'join' else t.info[1]
            return (t.what == 'join' or '\n' not in t.info[0]) and all(one_line(ip, x) for x in all_items(s))
        return t.what in ONE_LINE
    return False


def all_items(s):
    if isinstance(s, Lit):
        return list(s.items)
    if isinstance(s, Comp):
        return all_items(s.chunk)
    if isinstance(s, Cat):
        return [x for p in s.parts for x in all_items(p)]
    if isinstance(s, IfL):
        return all_items(s.a) + all_items(s.b)
    U('items of %s' % type(s).__name__)


def split_text(ip, o, sep):
    """the lines of a text (only line breaks are understood)"""
    if sep != '\n':
        return None
    done, cur = [], [[]]
    flush = lambda rows: [Lit(tuple(x.parts[0] if len(x.parts) == 1 and isinstance(x.parts[0], str) else x if x.parts else '' for x in map(SStr, rows)))]
    for k, p in enumerate(o.parts):
        if isinstance(p, str):
            q = p.split('\n')
            if cur is None:
                if q[0]:
                    return None
                cur = [[x] for x in q[1:]]
                continue
            cur[-1].append(q[0])
            cur += [[x] for x in q[1:]]
        elif cur is not None and one_line(ip, p):
            cur[-1].append(p)
        elif isinstance(p, Hole) and p.what == 'block' and cur is not None and not any(cur[-1]):
            # its lines, when they stand on their own
            n, w = ip.c.fresh('lines'), ip.c.binder('ln')
            ip.c.assume(n >= 1)
            done += flush(cur[:-1]) + [Comp(n, w, Lit((SStr([Hole('line', (p.info, SNum(w), SNum(n)))]),)))]
            cur = None
        else:
            return None
    return cat(done + (flush(cur) if cur is not None else []))


def strip_line(ip, o, a, k):
    if not a and len(o.parts) == 1 and isinstance(o.parts[0], Hole) and o.parts[0].what == 'line':
        return SStr([Hole('stripped', o.parts[0].info)])
    return NotImplemented


TEXT_METHODS['strip'] = strip_line


def str_method(o, name):
    def m(f):
        return PyFn('str.' + name, f)
    if isinstance(o, str):
        if name == 'join':
            def join(ip, a, k):
                s = ip.resolve_ifl(ip.as_sl(a[0]))
                if isinstance(s, Lit):
                    parts = []
                    for j, x in enumerate(s.items):
                        if j:
                            parts.append(o)
                        if not isinstance(x, (str, SStr)):
                            raise PyRaise('TypeError')
                        parts.append(x)
                    r = SStr(parts)
                    if not r.parts:
                        return ''
                    return r.parts[0] if len(r.parts) == 1 and isinstance(r.parts[0], str) else r
                return SStr([Hole('joined', (o, s))])
            return m(join)
        if hasattr(str, name):
            def call(ip, a, k):
                aa = [ip.force(x) for x in a]
                if all(isinstance(x, (str, int, type(None))) for x in aa):
                    try:
                        r = getattr(o, name)(*aa, **k)
                    except (ValueError, IndexError, TypeError) as e:
                        raise PyRaise(type(e).__name__)
                    return VList('list', Lit(r)) if isinstance(r, list) else r
                U('str.%s with symbolic arguments' % name)
            return m(call)
        return None
    if name == 'lower' or name == 'upper':
        h = [x for x in o.parts if isinstance(x, Hole)]

        def low(ip, a, k):
            hk = getattr(ip, 'lower_hook', None)
            if hk is not None:
                return hk(ip, o, name)
            U('lower of a symbolic text')
        return m(low)
    if name == 'split':
        def split(ip, a, k):
            if len(a) == 1 and not k and isinstance(a[0], str) and a[0]:
                r = split_text(ip, o, a[0])
                if r is not None:
                    return VList('list', r)
            U('str.split of a symbolic text')
        return m(split)
    hook = TEXT_METHODS.get(name)
    if hook is not None:
        def hooked(ip, a, k):
            r = hook(ip, o, a, k)
            if r is NotImplemented:
                U('str.%s of a symbolic text' % name)
            return r
        return m(hooked)
    if name in ('startswith', 'endswith', 'split', 'strip', 'replace', 'isdigit', 'join', 'format', 'isupper', 'islower', 'isalpha'):
        return m(lambda ip, a, k: U('str.%s of a symbolic text' % name))
    return None


# ------------------------------------------------------------------------------------------------ standard library

def math_gcd(ip, args, kw):
    c = ip.c
    if not any(isinstance(a, M.Star) for a in args):
        args = [ip.force(a) for a in args]
        if all(isinstance(a, int) for a in args):
            return math.gcd(*args)
        s = Lit(tuple(args))
    else:
        s = cat([a.s if isinstance(a, M.Star) else Lit((a,)) for a in args])
    return gcd_sl(ip, s)


DVD = z3.Function('divides', I, I, B)


def gcd_sl(ip, s):
    """g = gcd of the elements: g divides every element (quotient functions), g = 0 iff all are 0; maximality is the
    lemma gcd_max below"""
    c = ip.c
    if isinstance(s, IfL):
        s = ip.resolve_ifl(s)
    for e in M.generic_elems(s):
        if not is_num(e) or nt(e).sort() != I:
            U('gcd of %r' % (e,))
    if is_filtered(s):
        s2 = regular(ip, s)
        if s2 is None:
            U('gcd of an irregular list')
        s = s2
    g = c.fresh('gcd')
    c.assume(g >= 0)
    zero = []
    for p in (s.parts if isinstance(s, Cat) else (s,)):
        if isinstance(p, Comp) and is_idx(p):
            w = c.binder('gc')
            q = c.fresh_fn('gq', [I], I)
            pw = nt(subst(p.chunk.items[0], [(p.var, w)]))
            pats = [q(w)]
            if z3.is_app(pw) and pw.num_args() and T.occurs(w, pw) and pw.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                pats.append(pw)
            c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < p.n), pw == g * q(w)), patterns=pats))
            fw = c.fresh('gw')
            rng = [fw >= 0, fw < p.n]
            for lemma, concl in ((lambda x: x > 0, lambda x: x > 0), (lambda x: x >= 0, lambda x: x >= 0)):
                if c.z3_valid(lemma(z3.substitute(pw, (w, fw))), rng, 3000, False)[0] == 'proved':
                    c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < p.n), z3.And(lemma(pw), z3.Implies(g > 0, concl(q(w))))), patterns=pats))
                    break
            c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < p.n, pw >= 0, g > 0), z3.And(q(w) >= 0, (q(w) == 0) == (pw == 0))), patterns=pats))
            zero.append(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < p.n), pw == 0), patterns=pats[1:] or pats))

            def quot(ip, ta, tb, pw=pw, w=w, q=q, n=p.n):
                if tb.eq(g):
                    j = match_index(z3.simplify(pw), w, z3.simplify(ta))
                    if j is not None and ip.c.holds(z3.And(j >= 0, j < n, g > 0)):
                        return q(j)
                return None
            c.quotients.append(quot)

            def prod(x, y, pw=pw, w=w, qd=q(w).decl()):
                if x.eq(g) and z3.is_app(y) and y.decl().eq(qd):
                    return z3.substitute(pw, (w, y.arg(y.num_args() - 1)))
            c.products.append(prod)
        elif isinstance(p, Lit):
            for e in p.items:
                q = c.fresh('gq')
                t = nt(e)
                c.assume(t == g * q)
                c.assume(z3.Implies(z3.And(t >= 0, g > 0), q >= 0))
                zero.append(t == 0)

                def quot(ip, ta, tb, t=t, q=q):
                    return q if tb.eq(g) and ta.eq(t) and ip.c.holds(g > 0) else None
                c.quotients.append(quot)
                c.products.append(lambda x, y, q=q, t=t: t if x.eq(g) and y.eq(q) else None)
        else:
            U('gcd of an irregular list')
    c.assume((g == 0) == (z3.And(zero) if zero else z3.BoolVal(True)))
    c.gcds.append((g, s))
    return SNum(g, 'int')


def accumulate_(ip, args, kw):
    if len(args) > 1 or kw:
        return accumulate_fn(ip, args, kw)
    s = ip.resolve_ifl(ip.as_sl(args[0]))
    if isinstance(s, Lit):
        out, acc = [], None
        for v in s.items:
            acc = v if acc is None else ip.binop('add', acc, v)
            out.append(acc)
        return VList('iter', Lit(out))
    if is_idx(s):
        v = s.chunk.items[0]
        if not is_num(v):
            U('accumulate')
        w, u = ip.c.binder('ac'), ip.c.binder('ai')
        t = T.mk_agg('sum', z3.simplify(w + 1), u, z3.substitute(nt(v), (s.var, u)))
        tag = tag_of(v) if isinstance(tag_of(v), str) else ip.c.fresh('acctag')
        ip.c.prefixes.append((s.n, (lambda i: z3.substitute(nt(v), (s.var, i))), (lambda i: z3.substitute(t, (w, i))), (lambda i: subst(v, [(s.var, i)]))))
        return VList('iter', Comp(s.n, w, Lit((SNum(t, 'int' if isinstance(tag, str) and tag == 'bool' else tag),))))
    U('accumulate over a filtered list')


def accumulate_fn(ip, args, kw):
    f = args[1] if len(args) > 1 else kw.get('func')
    s = ip.resolve_ifl(ip.as_sl(args[0]))
    if 'initial' in kw:
        U('accumulate initial')
    if isinstance(s, Lit):
        out, acc = [], None
        for v in s.items:
            acc = v if acc is None else ip.call(f, [acc, v], {})
            out.append(acc)
        return VList('iter', Lit(out))
    if not is_idx(s):
        U('accumulate over a filtered list')
    # each component of the accumulated tuple is either a component of the current element or a running sum
    el = lambda i: subst(s.chunk.items[0], [(s.var, i)])
    w = ip.c.binder('af')
    e = el(w)
    if not isinstance(e, tuple):
        e = (e,)
        single = True
    else:
        single = False
    hs = tuple(SNum(ip.c.havoc_const(nt(x).sort()), tag_of(x) if isinstance(tag_of(x), str) else ip.c.havoc_const(I)) if is_num(x) else M.Opaque('acc') for x in e)
    r = ip.call(f, [hs[0] if single else hs, e[0] if single else e], {})
    r = (r,) if single else r
    if not isinstance(r, tuple) or len(r) != len(e):
        U('accumulate function')
    names = {h.t.decl().name() for h in hs if isinstance(h, SNum)}
    out = []
    for h, x, y in zip(hs, e, r):
        if same_value(x, y):
            out.append(('cur',))
            continue
        if isinstance(h, SNum) and is_num(y) and is_num(x):
            dlt = M.linear_delta(nt(y), h.t, names)
            if dlt is not None and ip.c.holds(real(dlt) == real(nt(x))):
                out.append(('sum',))
                continue
        U('accumulate function of an unknown form')
    u, v = ip.c.binder('au'), ip.c.binder('av')

    def at(i):
        xs = el(i) if not single else (el(i),)
        res = []
        for j, (k, x) in enumerate(zip(out, xs)):
            if k[0] == 'cur':
                res.append(x)
            else:
                y = el(v) if single else el(v)[j]
                res.append(SNum(T.mk_agg('sum', z3.simplify(i + 1), v, nt(y)), tag_of(x)))
        return res[0] if single else tuple(res)
    for j, k in enumerate(out):
        if k[0] == 'sum':
            ip.c.prefixes.append((s.n, (lambda i, j=j: nt(el(i) if single else el(i)[j])), (lambda i, j=j: nt(at(i) if single else at(i)[j])), el))
    return VList('iter', Comp(s.n, u, Lit((at(u),))))


def zip_longest(ip, args, kw):
    fill = kw.get('fillvalue')
    ss = [ip.resolve_ifl(ip.as_sl(a)) for a in args]
    if all(isinstance(s, Lit) for s in ss):
        n = max([len(s.items) for s in ss] or [0])
        return VList('iter', Lit(tuple(tuple(s.items[j] if j < len(s.items) else fill for s in ss) for j in range(n))))
    if len(ss) != 2:
        U('zip_longest')
    a, b = ss
    la, lb = slen(a), slen(b)
    m = z3.simplify(z3.If(la < lb, la, lb))
    w = ip.c.binder('zl')
    head = generic1(ip, m, w, lambda: (ip.sl_get(a, w), ip.sl_get(b, w)))
    w2 = ip.c.binder('zl')
    ta = generic1(ip, z3.simplify(z3.If(la > lb, la - lb, z3.IntVal(0))), w2, lambda: (ip.sl_get(a, lb + w2), fill))
    w3 = ip.c.binder('zl')
    tb = generic1(ip, z3.simplify(z3.If(lb > la, lb - la, z3.IntVal(0))), w3, lambda: (fill, ip.sl_get(b, la + w3)))
    return VList('iter', cat([head, ta, tb]))


def product_(ip, args, kw):
    if kw:
        U('product repeat')
    if any(isinstance(a, M.Star) for a in args):
        U('product of a symbolic number of lists')
    ss = [ip.as_sl(a) for a in args]

    def go(k, pre):
        if k == len(ss):
            return Lit((tuple(pre),))
        return ip.flatmap(ss[k], lambda v: go(k + 1, pre + [v]))
    return VList('iter', go(0, []))


def copy_(ip, args, kw):
    o = ip.force(args[0])
    if isinstance(o, Obj):
        n = Obj(o.cls, dict(o.attrs))
        n.meta = dict(o.meta)
        n.g = o.g
        return n
    if isinstance(o, VList):
        return VList(o.kind, o.s)
    if isinstance(o, VDict):
        return VDict(dict(clean(o.d)) if o.d is not None else None, o.contrib, o.default)
    return o


def getfullargspec(ip, args, kw):
    f = args[0]
    if not isinstance(f, Func):
        h = getattr(f, 'argspec', None)
        if h is not None:
            return h
        U('getfullargspec of %r' % (f,))
    a = f.node.args
    ann = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        if x.annotation is not None:
            ann[x.arg] = ip.eval(x.annotation, f.env, f.module)
    cls = Class('FullArgSpec', [], {}, 'inspect')
    return Obj(cls, {'args': VList('list', Lit(tuple(x.arg for x in a.posonlyargs + a.args))), 'annotations': VDict(ann),
                     'varargs': a.vararg.arg if a.vararg else None, 'varkw': a.kwarg.arg if a.kwarg else None})


def comb_(ip, args, kw):
    a, b = [ip.force(x) for x in args]
    if isinstance(a, int) and isinstance(b, int):
        try:
            return math.comb(a, b)
        except ValueError:
            raise PyRaise('ValueError')
    return SNum(M.COMB(it(a), it(b)), 'int')


def sqrt_(ip, args, kw):
    x = ip.force(args[0])
    if isinstance(x, (int, float)):
        try:
            return math.sqrt(x)
        except ValueError:
            raise PyRaise('ValueError')
    if not ip.c.branch(nt(x) >= 0):
        raise PyRaise('ValueError')
    r = M.SQRT(rt(x))
    ip.c.assume(z3.And(r >= 0, r * r == rt(x)))
    return SNum(r, 'float')


def op_fn(name):
    if name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul'):
        return lambda ip, a, k: ip.binop(name, a[0], a[1])
    if name in ('and_', 'or_', 'xor', 'lshift', 'rshift'):
        return lambda ip, a, k: ip.binop(name.rstrip('_'), a[0], a[1])
    if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        return lambda ip, a, k: ip.cmp(name, a[0], a[1])
    if name == 'neg':
        import ast
        return lambda ip, a, k: ip.unop(ast.USub, a[0])
    if name == 'truth':
        return lambda ip, a, k: mkb(ip.truth(a[0]))
    if name == 'not_':
        import ast
        return lambda ip, a, k: ip.unop(ast.Not, a[0])
    return None


_OPS = {}
_NATIVE = {}


def native_attr(ip, mod, name):
    key = (mod, name)
    if key in _NATIVE:
        return _NATIVE[key]
    v = _native(ip, mod, name)
    _NATIVE[key] = v
    return v


def _native(ip, mod, name):
    if mod in ('typing', 'collections.abc'):
        if name in ('Iterable', 'Callable'):
            return M.Type(name)
        if name == 'TYPE_CHECKING':
            return False
        if name == 'TypeVar':
            return PyFn('TypeVar', lambda ip, a, k: M.Type('TypeVar:' + a[0]))
        return M.Opaque('typing.' + name)
    if mod == 'abc':
        return M.Type('ABC')
    if mod == 'enum':
        return M.Type('Enum') if name in ('Enum', 'IntEnum') else M.Opaque('enum.' + name)
    if mod == 'math':
        if name in ('inf', 'pi', 'e', 'nan'):
            return getattr(math, name)
        f = {'gcd': math_gcd, 'comb': comb_, 'sqrt': sqrt_, 'prod': lambda ip, a, k: product_of(ip, ip.as_sl(a[0])),
             'floor': rounder('floor', '__floor__', M.FLOORF, math.floor), 'ceil': rounder('ceil', '__ceil__', M.CEILF, math.ceil),
             'trunc': rounder('trunc', '__trunc__', M.TRUNC, math.trunc)}.get(name)
        if f is not None:
            return PyFn('math.' + name, f)
        if name == 'factorial':
            def fact(ip, a, k):
                x = ip.force(a[0])
                if isinstance(x, int) and x >= 0:
                    return math.factorial(x)
                U('math.factorial')
            return PyFn('math.factorial', fact)
    if mod == 'operator':
        f = op_fn(name)
        if f is not None:
            return PyFn('operator.' + name, f)
    if mod == 'itertools':
        f = {'accumulate': accumulate_, 'zip_longest': zip_longest, 'product': product_,
             'chain': lambda ip, a, k: VList('iter', cat([ip.as_sl(x) for x in a]))}.get(name)
        if f is not None:
            return PyFn('itertools.' + name, f)
        if name == 'combinations_with_replacement':
            def cwr(ip, a, k):
                h = getattr(ip, 'cwr_hook', None)
                if h is None:
                    U('combinations_with_replacement')
                return h(ip, a, k)
            return PyFn(name, cwr)
    if mod == 'collections' and name == 'defaultdict':
        return M.Type('defaultdict')
    if mod == 'copy':
        return PyFn('copy.' + name, copy_) if name == 'copy' else M.Opaque('copy.' + name)
    if mod == 'inspect' and name == 'getfullargspec':
        return PyFn(name, getfullargspec)
    if mod == 'logging':
        if name == 'getLogger':
            return PyFn('getLogger', lambda ip, a, k: M.Opaque('logger'))
        return M.Opaque('logging.' + name)
    if mod == 'random':
        def rnd(ip, a, k):
            h = getattr(ip, 'random_hook', None)
            if h is None:
                U('random.' + name)
            return h(ip, name, a, k)
        return PyFn('random.' + name, rnd)
    if mod == 'keyword' and name == 'kwlist':
        return VList('list', Lit(tuple(keyword.kwlist)))
    if mod == 'functools' and name == 'wraps':
        return PyFn('wraps', lambda ip, a, k: PyFn('wraps', lambda ip, b, kk: b[0]))
    return M.Opaque('%s.%s' % (mod, name))
