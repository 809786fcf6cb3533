"""C08: sequences."""
from .objs import *
from .models import NDIGITS, DIGIT

ARITH = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'mod', 'pow']
CMPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
FLIP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}


def a_seq(ip, name='s', ints=False, like=('Seq',)):
    """an arbitrary sequence (or list/tuple), its cached sum filled in or not -> (value, length, element function)"""
    c = ip.c
    k = like[c.choose(len(like))] if len(like) > 1 else like[0]
    if k != 'Seq':
        l, n, v = intlist(ip, name, kind=k) if ints else numlist(ip, name, kind=k)
        l.pre = True
        return l, n, (lambda i: SNum(v(i), 'int')) if ints else v
    o, n, v = seq_obj(ip, name, ints)
    if c.choose(2):
        s = ssum(o.attrs['_seq'].s, nt)
        o.attrs['_sum'] = SNum(s, 'int') if s.sort() == I else SNum(s, 'float')
    return o, n, (lambda i: SNum(v(i), 'int')) if ints else v


def total(n, el, ip):
    i = ip.c.binder('tot')
    return T.mk_agg('sum', n, i, nt(el(i)))


def at(n, el, p, one=1):
    """element at position p (0 outside)"""
    return z3.If(z3.And(p >= one, p < n + one), nt(el(p - one)), z3.RealVal(0) if nt(el(p)).sort() == R else z3.IntVal(0))


def same_num(ip, name, r, t):
    c = ip.c
    if not is_num(r):
        return c.prove(name, False)
    a = nt(r)
    if a.sort() == B:
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    return c.prove_eq(name, real(a), real(t))


@task('C08', 'element at a position', ['seq:Seq.__getitem__', 'seq:Seq.__rmatmul__'])
def position(ip):
    c = ip.c
    s, n, el = a_seq(ip)
    one = 1
    if c.choose(2):
        one = c.choose(2)
        ip.call(ip.getattr(s, 'set_one_indexed'), [bool(one)])
        ip.c.writes.clear()
    if c.choose(2):
        p = num(ip, 'p', 'int')
        kind, r = outcome(ip, ip.getattr(s, '__getitem__'), [p]) if c.choose(2) else run(ip, lambda: ip.binop('matmul', p, s))
        want = nt(p)
    else:
        p = num(ip, 'p', 'float')
        kind, r = run(ip, lambda: ip.binop('matmul', p, s))
        want = z3.If(nt(p) >= 0, z3.ToInt(nt(p)), -z3.ToInt(-nt(p)))
    if c.prove('position: does not raise', kind == 'ok'):
        same_num(ip, 'position: element, 0 outside', r, at(n, el, want, one))
    frame_ok(ip)


def run(ip, f):
    try:
        return ('ok', f())
    except PyRaise as e:
        return ('raise', e)


@task('C08', 'several positions', ['seq:Seq.__matmul__', 'seq:Seq.__rmatmul__'])
def positions(ip):
    c = ip.c
    k = c.choose(3)
    ps, m, pe = a_seq(ip, 'p', True, ('Seq',) if k < 2 else ('list', 'tuple'))
    s, n, el = a_seq(ip, 's', False, ('Seq',) if k != 1 else ('list', 'tuple'))
    kind, r = run(ip, lambda: ip.binop('matmul', ps, s))
    if c.prove('positions: does not raise', kind == 'ok'):
        i = c.binder('i')
        same_num(ip, 'positions: sum of the elements there', r, T.mk_agg('sum', m, i, at(n, el, nt(pe(i)))))
    frame_ok(ip)


@task('C08', 'positions in a whole number', ['seq:Seq.__matmul__', 'utils:mymatmul', 'utils:mylen'])
def digits(ip):
    c = ip.c
    x = num(ip, 'x', ['int', 'bool'][c.choose(2)])
    ax = nt(x)
    ax = z3.simplify(z3.If(ax < 0, -ax, ax))
    n = NDIGITS(ax)
    el = lambda i: SNum(DIGIT(ax, i), 'int')
    k = c.choose(3)
    if k == 0:
        ps, m, pe = a_seq(ip, 'p', True)
        kind, r = run(ip, lambda: ip.binop('matmul', ps, x))
        i = c.binder('i')
        want = T.mk_agg('sum', m, i, at(n, el, nt(pe(i))))
    elif k == 1:
        p = num(ip, 'p', ['int', 'bool'][c.choose(2)])
        kind, r = run(ip, lambda: ip.call(glob(ip, 'utils', 'mymatmul'), [p, x]))
        want = at(n, el, nt(p))
    else:
        kind, r = run(ip, lambda: ip.call(glob(ip, 'utils', 'mylen'), [x]))
        want = n
    if c.prove('digits: does not raise', kind == 'ok'):
        same_num(ip, 'digits: ' + ('sum of the digits there', 'digit there', 'number of digits')[k], r, want)
    frame_ok(ip)


@task('C08', 'comparing with a number', ['seq:Seq._compare_to'] + ['seq:Seq.__%s__' % o for o in CMPS])
def compare_number(ip):
    c = ip.c
    s, n, el = a_seq(ip)
    x = num(ip, 'x')
    o = CMPS[c.choose(6)]
    left = bool(c.choose(2))
    kind, r = run(ip, lambda: ip.cmp(o, s, x) if left else ip.cmp(o, x, s))
    i = c.binder('i')
    f = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}[o]
    a, b = real(rt(el(i))), real(rt(x))
    if c.prove('%s: does not raise' % o, kind == 'ok'):
        same_num(ip, '%s: counts the elements' % o, r, T.mk_agg('sum', n, i, z3.If(f(a, b) if left else f(b, a), z3.IntVal(1), z3.IntVal(0))))
    frame_ok(ip)


@task('C08', 'comparing sequences', ['seq:Seq._compare_to'] + ['seq:Seq.__%s__' % o for o in CMPS])
def compare_seq(ip):
    c = ip.c
    s, n, a = a_seq(ip, 's')
    t, m, b = a_seq(ip, 't', False, ('Seq', 'list', 'tuple'))
    o = CMPS[c.choose(6)]
    kind, r = run(ip, lambda: ip.cmp(o, s, t))
    i = c.binder('i')
    A, B_ = real(rt(a(i))), real(rt(b(i)))
    both = z3.And(i < n, i < m)
    every = lambda p: z3.ForAll([i], z3.Implies(z3.And(i >= 0, z3.Or(i < n, i < m)), p), patterns=[A, B_])
    # position by position; a missing element is below every number
    want = {'eq': every(z3.And(both, A == B_)), 'ne': z3.Not(every(z3.And(both, A == B_))), 'lt': every(z3.Or(z3.And(both, A < B_), i >= n)), 'le': every(z3.Or(z3.And(both, A <= B_), i >= n)),
            'gt': every(z3.Or(z3.And(both, A > B_), i >= m)), 'ge': every(z3.Or(z3.And(both, A >= B_), i >= m))}[o]
    if c.prove('%s: does not raise' % o, kind == 'ok'):
        if c.prove('%s: gives a truth value' % o, isinstance(r, (bool, SB)) or is_num(r)):
            got = ip.truth(r)
            got = z3.BoolVal(got) if isinstance(got, bool) else got
            c.prove('%s: holds at every position' % o, z3.Implies(got, want))
            c.prove('%s: only when it holds at every position' % o, z3.Implies(want, got))
    frame_ok(ip)


@task('C08', 'arithmetic uses the sum', ['seq:Seq.__%s__' % o for o in ARITH] + ['seq:Seq.__r%s__' % o for o in ARITH])
def arithmetic(ip):
    c = ip.c
    s, n, el = a_seq(ip)
    o = ARITH[c.choose(7)]
    k = c.choose(2)
    S = SNum(total(n, el, ip), ip.getattr(s, 'sum') and 'float')
    if k == 0:
        x = y = num(ip, 'x', ['int', 'float'][c.choose(2)])
    else:
        x, m, e2 = a_seq(ip, 't')
        y = SNum(total(m, e2, ip), 'float')
    left = bool(c.choose(2)) if k == 0 else True
    if o == 'pow':
        # powers: only when the definition makes sense for every number
        c.assume(z3.And(nt(S) > 0, rt(y) > 0))
    kind, r = run(ip, lambda: ip.binop(o, s, x) if left else ip.binop(o, x, s))
    kind2, w = run(ip, lambda: ip.binop(o, S, y) if left else ip.binop(o, y, S))
    if not c.prove('%s: raises only where the number operation does' % o, kind == kind2 and (kind == 'ok' or r.exc_type == w.exc_type)):
        return
    if kind == 'ok':
        same_num(ip, '%s: of the sums' % o, r, nt(w))
    frame_ok(ip)


@task('C08', 'logic', ['seq:Seq.__or__', 'seq:Seq.__ror__', 'seq:Seq.__and__', 'seq:Seq.__rand__', 'seq:Seq.__invert__', 'utils:myand', 'utils:myor', 'utils:myinvert'])
def logic(ip):
    c = ip.c
    kinds = ['int', 'bool', 'seq', 'float']
    k = [kinds[c.choose(4)] for _ in range(2)]
    if k[0] == k[1] == 'float' or set(k) == {'float', 'int'} or set(k) == {'float', 'bool'}:
        raise Skip()
    o = ['and', 'or', 'not'][c.choose(3)]
    xs, ts = [], []
    for j, q in enumerate(k):
        if q == 'seq':
            v, n, el = a_seq(ip, 's%d' % j)
            t = total(n, el, ip)
        else:
            v = num(ip, 'x%d' % j, q)
            t = nt(v)
        xs.append(v)
        ts.append(t != 0)
    if o == 'not':
        if k[0] == 'float':
            raise Skip()
        kind, r = run(ip, lambda: ip.call(glob(ip, 'utils', 'myinvert'), [xs[0]]))
        want = z3.Not(ts[0])
    else:
        op = c.choose(2) and k != ['int', 'int'] and 'seq' in k
        kind, r = run(ip, lambda: ip.binop(o, *xs) if op else ip.call(glob(ip, 'utils', 'my' + o), xs))
        want = z3.And(ts) if o == 'and' else z3.Or(ts)
    if c.prove('%s: does not raise' % o, kind == 'ok'):
        same_num(ip, '%s: 1 when so, else 0' % o, r, z3.If(want, z3.IntVal(1), z3.IntVal(0)))
    frame_ok(ip)


@task('C08', 'length, sum and elements', ['seq:Seq.__len__', 'seq:Seq.__iter__', 'seq:Seq.sum', 'utils:mylen'])
def basics(ip):
    c = ip.c
    s, n, el = a_seq(ip)
    kind, r = run(ip, lambda: ip.call(ip.getattr(s, 'sum'), []))
    if c.prove('sum: does not raise', kind == 'ok'):
        same_num(ip, 'sum', r, total(n, el, ip))
        kind, r = run(ip, lambda: ip.call(ip.getattr(s, 'sum'), []))
        same_num(ip, 'sum again', r, total(n, el, ip)) if kind == 'ok' else c.prove('sum again', False)
    kind, r = run(ip, lambda: ip.call(glob(ip, 'utils', 'mylen'), [s]))
    if c.prove('length: does not raise', kind == 'ok'):
        same_num(ip, 'length', r, n)
    kind, r = run(ip, lambda: VList('list', ip.as_sl(ip.call(ip.getattr(s, '__iter__'), []))))
    if c.prove('iteration: does not raise', kind == 'ok'):
        c.prove('iteration: the elements in order', same(r.s, s.attrs['_seq'].s))
    frame_ok(ip)


@task('C08', 'ranges', ['roller:myrange'])
def ranges(ip):
    c = ip.c
    a, b = num(ip, 'a', ['int', 'float'][c.choose(2)]), num(ip, 'b', ['int', 'float'][c.choose(2)])
    tr = lambda x: nt(x) if nt(x).sort() == I else z3.If(nt(x) >= 0, z3.ToInt(nt(x)), -z3.ToInt(-nt(x)))
    kind, r = run(ip, lambda: ip.as_sl(ip.call(glob(ip, 'roller', 'myrange'), [a, b])))
    if c.prove('range: does not raise', kind == 'ok'):
        l, u = tr(a), tr(b)
        if c.prove('range: number of elements', slen(r) == z3.If(u >= l, u - l + 1, 0)):
            i = c.binder('i')
            e = ip.sl_get(r, i, safe=True)
            c.prove('range: from the first to the last', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < slen(r)), nt(e) == l + i)))
    die = rv_obj(ip)
    die.pre = True
    kind, r = run(ip, lambda: ip.call(glob(ip, 'roller', 'myrange'), [a, die] if c.choose(2) else [die, b]))
    c.prove('range: a die is refused', kind == 'raise')


# ------------------------------------------------------------------------------------------------ construction

def conds(s, out):
    if isinstance(s, IfL):
        if not any(s.c.eq(x) for x in out):
            out.append(s.c)
        conds(s.a, out)
        conds(s.b, out)
    elif isinstance(s, Cat):
        for p in s.parts:
            conds(p, out)


def pick(ip, s, hyps):
    """s without conditionals, under hyps (None: undecided)"""
    if isinstance(s, IfL):
        if ip.c.holds(s.c, hyps):
            return pick(ip, s.a, hyps)
        if ip.c.holds(z3.Not(s.c), hyps):
            return pick(ip, s.b, hyps)
        return None
    if isinstance(s, Cat):
        ps = [pick(ip, p, hyps) for p in s.parts]
        return None if any(p is None for p in ps) else cat(ps)
    return s


def list_equal(ip, a, b, hyps=(), depth=0):
    """do two list terms denote the same list?  True / False / None (undecided)"""
    c = ip.c
    hyps = list(hyps)
    a, b = ip.models.unreg(a), ip.models.unreg(b)
    cs = []
    conds(a, cs)
    conds(b, cs)
    cs = [x for x in cs if not c.holds(x, hyps) and not c.holds(z3.Not(x), hyps)]
    if cs:
        rs = [list_equal(ip, a, b, hyps + [x], depth) for x in (cs[0], z3.Not(cs[0]))]
        return False if False in rs else None if None in rs else True
    a, b = pick(ip, a, hyps), pick(ip, b, hyps)
    if a is None or b is None:
        return None

    def parts(s):
        ps = [ip.models.unreg(p) for p in (s.parts if isinstance(s, Cat) else [s])]
        out = []
        for p in ps:
            if isinstance(p, Lit):
                out.extend(Lit((x,)) for x in p.items)
            elif not c.holds(slen(p) == 0, hyps):
                out.append(p)
        return out
    pa, pb = parts(a), parts(b)
    if not pa or not pb:
        rest = pa or pb
        if not rest:
            return True
        return False if any(isinstance(p, Lit) for p in rest) else None
    if len(pa) != len(pb):
        if all(isinstance(p, Lit) for p in pa + pb):
            return False
        return None
    res = True
    for x, y in zip(pa, pb):
        if same_value(x, y):
            continue
        if isinstance(x, Lit) and isinstance(y, Lit):
            u, v = x.items[0], y.items[0]
            if same(u, v):
                continue
            if is_num(u) and is_num(v):
                if c.holds(real(rt(u)) == real(rt(v)), hyps):
                    continue
            res = False if res is not None else None
            continue
        if isinstance(x, Comp) and isinstance(y, Comp) and x.ident is None and y.ident is None:
            w = c.binder('le')
            h = hyps + [w >= 0, w < x.n]
            if c.holds(x.n == y.n, hyps):
                r = list_equal(ip, subst_sl(x.chunk, [(x.var, w)]), subst_sl(y.chunk, [(y.var, w)]), h, depth + 1)
                if r is True:
                    continue
                if r is False:
                    res = False if res is not None else None
                    continue
        res = None
    return res


def prove_list(ip, name, got, want):
    r = list_equal(ip, got, want)
    if r is None:
        raise Unsupported('%s: lists of different shape: %r / %r' % (name, got, want))
    return ip.c.prove(name, r)


def atoms(ip, name='a', kinds=3):
    """an arbitrary list of numbers, dice and blank dice -> (list term, numbers of it, outcomes of its dice)"""
    from .c06 import die_family
    c = ip.c
    die, m, v, p = die_family(ip, name)
    n = c.fresh(name + '_n')
    c.assume(n >= 0)
    K = c.fresh_fn(name + '_kind', [I], I)
    x, xt = c.fresh_fn(name + '_num', [I], R), c.fresh_fn(name + '_numkind', [I], I)
    k = c.binder('sk')
    c.assume(z3.ForAll([k], z3.And(K(k) >= 0, K(k) < kinds), patterns=[K(k)]))
    c.assume(z3.ForAll([k], z3.And(xt(k) >= 0, xt(k) <= 2, z3.Implies(xt(k) == 2, z3.Or(x(k) == 0, x(k) == 1))), patterns=[xt(k)]))
    u = c.binder('e')
    blank = ip.call(glob(ip, 'blackrv', 'BlankRV'), [])
    blank.pre = True
    num_ = lambda u: Lit((SNum(x(u), xt(u)),))
    d = die(u)
    l = Comp(n, u, IfL(K(u) == 0, num_(u), IfL(K(u) == 1, Lit((d,)), Lit((blank,)))))
    nums = Comp(n, u, IfL(K(u) == 0, num_(u), EMPTY))
    outs = Comp(n, u, IfL(K(u) == 1, d.attrs['vals'].s, EMPTY))
    return l, nums, outs


@task('C08', 'flattening', ['utils:flatten'])
def flattening(ip):
    """by induction on the nesting: an item that is itself a collection stands for its own flattening"""
    c = ip.c
    n = c.fresh('n')
    c.assume(n >= 0)
    K = c.fresh_fn('kind', [I], I)
    x, xt = c.fresh_fn('num', [I], R), c.fresh_fn('numkind', [I], I)
    L, y = c.fresh_fn('inner_n', [I], I), c.fresh_fn('inner', [I, I], R)
    F, z = c.fresh_fn('flat_n', [I], I), c.fresh_fn('flat', [I, I], R)
    k = c.binder('k')
    c.assume(z3.ForAll([k], z3.And(K(k) >= 0, K(k) <= 5), patterns=[K(k)]))
    c.assume(z3.ForAll([k], L(k) >= 0, patterns=[L(k)]))
    c.assume(z3.ForAll([k], F(k) >= 0, patterns=[F(k)]))
    c.assume(z3.ForAll([k], z3.And(xt(k) >= 0, xt(k) <= 2), patterns=[xt(k)]))
    u, w = c.binder('u'), c.binder('w')
    blank = ip.call(glob(ip, 'blackrv', 'BlankRV'), [])
    die = rv_obj(ip)
    blank.pre = die.pre = True
    inner = lambda kind, i: VList(kind, Comp(L(i), w, Lit((SNum(y(i, w), 'float'),))))
    seq = Obj(glob(ip, 'seq', 'Seq'), {'_sum': None, '_one_indexed': 1, '_seq': inner('tuple', u)})
    it = [Lit((SNum(x(u), xt(u)),)), Lit((die,)), Lit((blank,)), Lit((inner('list', u),)), Lit((seq,)), Lit(('text',))]
    flat = [it[0], it[1], it[2], Comp(F(u), w, Lit((SNum(z(u, w), 'float'),))), Comp(F(u), w, Lit((SNum(z(u, w), 'float'),))), it[5]]

    def sel(xs):
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = IfL(K(u) == j, xs[j], r)
        return r
    src = VList(['list', 'tuple'][c.choose(2)], Comp(n, u, sel(it)))
    src.pre = True
    state = dict(first=True)

    def h(ip, args, kw):
        if state['first']:
            state['first'] = False
            return NotImplemented
        a = args[0]
        s = a.s if isinstance(a, VList) else a.attrs['_seq'].s if isinstance(a, Obj) and '_seq' in a.attrs else None
        i = None
        if isinstance(s, Comp) and s.n.decl().eq(L(u).decl()):
            i = s.n.arg(0)
        if i is None:
            raise Unsupported('recursive call of flatten on %r' % (a,))
        v = c.binder('w')
        return VList('iter', Comp(F(i), v, Lit((SNum(z(i, v), 'float'),))))
    ip.contracts['utils:flatten'] = h
    kind, r = run(ip, lambda: ip.as_sl(ip.call(glob(ip, 'utils', 'flatten'), [src])))
    if c.prove('flatten: does not raise', kind == 'ok'):
        prove_list(ip, 'flatten: the items in order, collections replaced by their flattening', r, Comp(n, u, sel(flat)))
    frame_ok(ip)


@task('C08', 'building a sequence', ['seq:Seq.__init__', 'factory:get_seq'])
def building(ip):
    c = ip.c
    l, nums, outs = atoms(ip)
    args = []

    def h(ip, a, kw):
        args.append(a)
        return VList('iter', l)
    ip.contracts['utils:flatten'] = h
    src = [ip.c.fresh('x')]
    which = c.choose(2)
    f = glob(ip, 'seq', 'Seq') if which == 0 else glob(ip, 'factory', 'get_seq')
    given = VList('list', l)

    def only(x):
        s = ip.as_sl(x, consume=False)
        return s.items[0] if isinstance(s, Lit) and len(s.items) == 1 else None
    kind, r = outcome(ip, f, [given])
    if not c.prove('building: does not raise', kind == 'ok'):
        return
    c.prove('building: from the flattened arguments', len(args) >= 1 and all(only(a[0]) is given for a in args))
    if not c.prove('building: gives a sequence', isinstance(r, Obj) and r.cls is glob(ip, 'seq', 'Seq')):
        return
    prove_list(ip, 'building: the numbers in order, then the outcomes of the dice', ip.as_sl(r.attrs['_seq'], consume=False), cat([nums, outs]))
    c.prove('building: counted from 1', same(r.attrs['_one_indexed'], 1))
    s = r.attrs['_sum']
    c.prove('building: no stale sum', s is None)
    frame_ok(ip)


@task('C08', 'equality of contents', ['seq:Seq.seqs_are_equal'])
def contents(ip):
    c = ip.c
    s, n, a = a_seq(ip, 's', False, ('Seq', 'list'))
    t, m, b = a_seq(ip, 't', False, ('Seq', 'tuple'))
    kind, r = outcome(ip, glob(ip, 'seq', 'Seq').lookup('seqs_are_equal')[0], [s, t])
    i = c.binder('i')
    A, B_ = real(rt(a(i))), real(rt(b(i)))
    want = z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), A == B_), patterns=[A, B_]))
    if c.prove('equal contents: does not raise', kind == 'ok'):
        got = ip.truth(r)
        got = z3.BoolVal(got) if isinstance(got, bool) else got
        c.prove('equal contents: only when the same numbers in the same order', z3.Implies(got, want))
        c.prove('equal contents: when the same numbers in the same order', z3.Implies(want, got))
    frame_ok(ip)


@task('C08', 'selection in programs', ['utils:mymatmul'])
def program_selection(ip):
    c = ip.c
    s, n, el = a_seq(ip)
    if c.choose(2):
        p = num(ip, 'p', 'int')
        kind, r = run(ip, lambda: ip.call(glob(ip, 'utils', 'mymatmul'), [p, s]))
        want = at(n, el, nt(p))
    else:
        p, m, pe = a_seq(ip, 'p', True)
        kind, r = run(ip, lambda: ip.call(glob(ip, 'utils', 'mymatmul'), [p, s]))
        i = c.binder('i')
        want = T.mk_agg('sum', m, i, at(n, el, nt(pe(i))))
    if c.prove('selection in programs: does not raise', kind == 'ok'):
        same_num(ip, 'selection in programs: the same', r, want)
    frame_ok(ip)
