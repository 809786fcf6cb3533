"""C07: function casting.  The wrapper of anydice_type_casting is executed with a ghost function; every obligation is
about what that function receives and what becomes of its results."""
from .objs import *

KINDS = ['N', 'S', 'D', None]


def ann(ip, k):
    return glob(ip, 'typings', 'T_' + k)


def ghost_fn(ip, body, params):
    """a function with the given parameters [(name, annotation letter or None)]"""
    f = ghost('func', body)
    cls = Class('FullArgSpec', [], {}, 'inspect')
    d = {n: ann(ip, k) if k in ('N', 'S', 'D') else k for n, k in params if k is not None}
    f.argspec = Obj(cls, {'args': VList('list', Lit(tuple(n for n, _ in params))), 'annotations': VDict(d), 'varargs': None, 'varkw': None})
    return f


def cast(ip, f):
    return ip.call(ip.call(glob(ip, 'decorators', 'anydice_type_casting'), []), [f])


def call_by(ip, w, args, names, kws):
    """call with the arguments whose index is in kws given by keyword"""
    pos = [a for i, a in enumerate(args) if i not in kws]
    return outcome(ip, w, pos, {names[i]: args[i] for i in sorted(kws)})


def a_value(ip, k, name):
    """an argument of kind k -> (value, spec data)"""
    c = ip.c
    if k == 'number':
        return num(ip, name), None
    if k == 'seq':
        o, n, el = seq_obj(ip, name)
        return o, (n, el)
    if k in ('list', 'tuple'):
        l, n, el = numlist(ip, name, kind=k)
        l.pre = True
        return l, (n, el)
    if k == 'range':
        lo, hi = num(ip, name + '_a', 'int'), num(ip, name + '_b', 'int')
        l = ip.call(ip.builtins['range'], [lo, hi])
        n = slen(ip.as_sl(l, consume=False))
        return l, (n, lambda i: SNum(nt(lo) + i, 'int'))
    if k == 'die':
        d = rv_obj(ip, name)
        d.pre = True
        return d, None
    if k == 'blank':
        return ip.call(glob(ip, 'blackrv', 'BlankRV'), []), None
    return marker(name), None


def seq_is(ip, name, v, n, el):
    """obligation: v is a sequence with these elements"""
    c = ip.c
    if not c.prove(name + ': a sequence', isinstance(v, Obj) and v.cls is glob(ip, 'seq', 'Seq')):
        return
    s = ip.as_sl(v.attrs['_seq'], consume=False)
    c.prove(name + ': length', slen(s) == n)
    q = c.fresh('q')
    c.assume(z3.And(q >= 0, q < n))
    prove_same(ip, name + ': elements', ip.sl_get(s, q), el(q))


@task('C07', 'the casting table', ['decorators:anydice_type_casting', 'factory:get_seq', 'factory:get_rv', 'randvar:RV.from_seq', 'randvar:RV.from_const', 'seq:Seq.sum'])
def table(ip):
    c = ip.c
    use_rv(ip)
    kinds = ['number', 'seq', 'list', 'tuple', 'range', 'die', 'blank', 'other']
    k = kinds[c.choose(len(kinds))]
    t = KINDS[c.choose(4)]
    kw = bool(c.choose(2))
    if t in ('N', 'S') and k == 'die':
        return                # the joint rolls, below
    x, dat = a_value(ip, k, 'x')
    other, more = marker('other'), marker('more')
    got = []
    res = marker('result')

    def body(ip, args, kws):
        got.append((args, kws))
        return res
    f = ghost_fn(ip, body, [('a', None), ('p', t)])
    w = cast(ip, f)
    c.writes.clear()
    kind, r = outcome(ip, w, [other] + ([] if kw else [x, more]), dict({'p': x} if kw else {}, extra=more))
    if not c.prove('cast: does not raise', kind == 'ok'):
        return
    if k == 'blank' and t in ('N', 'S'):
        c.prove('a blank die skips the call', not got)
        c.prove('a blank die gives a blank result', is_blank(ip, r))
        return
    if not c.prove('called once', len(got) == 1):
        return
    args, kws = got[0]
    c.prove('other arguments unchanged', len(args) == (1 if kw else 3) and args[0] is other and (kw or args[2] is more) and set(kws) == ({'p', 'extra'} if kw else {'extra'}) and kws['extra'] is more)
    c.prove('the result is the result of the function', r is res)
    v = ip.force(kws['p'] if kw else args[1])
    frame_ok(ip)
    if t is None or k in ('other', 'blank') or (t, k) in (('N', 'number'), ('S', 'seq'), ('D', 'die')):
        prove_same(ip, 'no cast: passed unchanged', v, x)
        return
    if k == 'number':
        if t == 'S':
            seq_is(ip, 'number as a sequence', v, z3.IntVal(1), lambda i: x)
        else:
            has_law(ip, 'number as a die', v, PSI(rt(x)))
        return
    n, el = dat
    i = c.binder('i')
    if t == 'N':
        if c.prove('sequence as a number: a number', is_num(v)):
            c.prove_eq('sequence as a number: its sum', real(nt(v)), T.mk_agg('sum', n, i, real(nt(el(i)))))
    elif t == 'S':
        seq_is(ip, 'list as a sequence', v, n, el)
    else:
        if c.branch(n > 0):
            has_law(ip, 'sequence as a die', v, T.mk_agg('sum', n, i, PSI(rt(el(i)))))


def expansion(ip, d, name, length=None):
    """contract of _get_expanded_possible_rolls: some sequences with weights (C05) -> their ghost data"""
    c = ip.c
    n = c.fresh(name + '_rolls')
    c.assume(n >= 1)
    L, s = c.fresh_fn(name + '_len', [I], I), c.fresh_fn(name + '_roll', [I, I], R)
    p = c.fresh_fn(name + '_w', [I], I)
    k = c.binder('k')
    c.assume(z3.ForAll([k], p(k) >= 0, patterns=[p(k)]))
    c.assume(z3.ForAll([k], L(k) >= 0, patterns=[L(k)]))
    if length is not None:
        L = lambda k: length
    cls = glob(ip, 'seq', 'Seq')

    def roll(i):
        u = c.binder('u')
        o = Obj(cls, {'_sum': None, '_one_indexed': 1, '_seq': VList('tuple', Comp(L(i), u, Lit((SNum(s(i, u), 'float'),))))})
        o.pre = True
        return o
    u, v = c.binder('r'), c.binder('w')
    d.meta['rolls'] = (VList('tuple', Comp(n, u, Lit((roll(u),)))), VList('tuple', Comp(n, v, Lit((SNum(p(v), 'int'),)))))
    return n, p, L, s


def use_expansion(ip):
    def contract(ip, args, kw):
        d = args[0]
        return d.meta['rolls'] if isinstance(d, Obj) and 'rolls' in d.meta else NotImplemented
    ip.contracts['randvar:RV._get_expanded_possible_rolls'] = contract


def joint(ip, nd, result):
    """nd dice meet number or sequence parameters"""
    c = ip.c
    use_rv(ip)
    use_expansion(ip)
    ip.contracts['randvar:RV.from_rvs'] = from_rvs
    q = c.fresh('q')
    c.assume(q >= 0)
    pars, args, dims = [], [], []
    for k in range(nd):
        t = 'NS'[c.choose(2)]
        d = rv_obj(ip, 'd%d' % k)
        d.pre = True
        if t == 'N':
            dims.append((d.g.m, lambda i, d=d: real(d.g.P(i)), lambda i, d=d: [rt(d.g.el(i)), z3.RealVal(0)]))
        else:
            n, p, L, s = expansion(ip, d, 'x%d' % k)
            dims.append((n, lambda i, p=p: real(p(i)), lambda i, L=L, s=s: [real(L(i)), s(i, q)]))
        pars.append(('p%d' % k, t))
        args.append(d)
    names = [n for n, _ in pars] + ['rest', 'die']
    pars += [('rest', None), ('die', 'D')]
    rest, die, more = marker('rest'), rv_obj(ip, 'other'), marker('more')
    die.pre = True
    args += [rest, die]
    first = [len(args), 0][c.choose(2)] if nd > 1 else c.choose(3)
    kws = set(range(first, len(args)))
    F = c.fresh_fn('F', [R] * (2 * nd), R)
    Fk = c.fresh_fn('Fkind', [R] * (2 * nd), I)
    bad = []

    def body(ip, a, kw):
        if not (set(kw) == {names[j] for j in kws} | {'more'} and len(a) == len(args) - len(kws)):
            bad.append('arguments')
            raise PyRaise('AssertionError')
        vals = {**{names[j]: v for j, v in zip([j for j in range(len(args)) if j not in kws], a)}, **{names[j]: kw[names[j]] for j in kws}}
        if vals['rest'] is not rest or vals['die'] is not die or kw['more'] is not more:
            bad.append('other argument')
        key = []
        for (n, t) in pars[:nd]:
            v = ip.force(vals[n])
            if t == 'N':
                if not is_num(v):
                    bad.append('number parameter got %r' % (v,))
                    return 0
                key += [rt(v), z3.RealVal(0)]
            else:
                if not (isinstance(v, Obj) and v.cls is glob(ip, 'seq', 'Seq')):
                    bad.append('sequence parameter got %r' % (v,))
                    return 0
                s = ip.as_sl(v.attrs['_seq'], consume=False)
                key += [real(slen(s)), rt(ip.sl_get(s, q, safe=True))]
        return result(ip, F(*key), Fk(*key))
    w = cast(ip, ghost_fn(ip, body, pars))
    c.writes.clear()
    pos = [a for j, a in enumerate(args) if j not in kws]
    kind, r = outcome(ip, w, pos, dict({names[j]: args[j] for j in sorted(kws)}, more=more))
    if not c.prove('joint rolls: does not raise', kind == 'ok'):
        return None
    c.prove('joint rolls: every parameter gets its kind, other arguments unchanged', not bad, ) if not bad else fail(ip, 'joint rolls: every parameter gets its kind, other arguments unchanged', str(bad[:3]))
    frame_ok(ip)
    idx = [c.binder('j%d' % k) for k in range(nd)]
    key = [x for (n, p, e), i in zip(dims, idx) for x in e(i)]
    return r, dims, idx, F(*key), Fk(*key)


def total(dims, idx, term):
    for (n, p, e), i in reversed(list(zip(dims, idx))):
        term = T.mk_agg('sum', n, i, p(i) * term)
    return term


def numeric(ip, v, k):
    ip.c.assume(z3.And(k >= 0, k <= 1))
    return SNum(v, 'float')


@task('C07', 'joint rolls of one die', ['decorators:anydice_type_casting', 'factory:merge_rvs'])
def joint1(ip):
    x = joint(ip, 1, numeric)
    if x:
        r, dims, idx, v, k = x
        has_law(ip, 'joint rolls: the mixture over all joint outcomes', r, total(dims, idx, PSI(v)))


@task('C07', 'joint rolls of two dice', ['decorators:anydice_type_casting', 'factory:merge_rvs'])
def joint2(ip):
    x = joint(ip, 2, numeric)
    if x:
        r, dims, idx, v, k = x
        has_law(ip, 'joint rolls: the mixture over all joint outcomes', r, total(dims, idx, PSI(v)))


@task('C07', 'joint rolls of three dice', ['decorators:anydice_type_casting', 'factory:merge_rvs'])
def joint3(ip):
    x = joint(ip, 3, numeric)
    if x:
        r, dims, idx, v, k = x
        has_law(ip, 'joint rolls: the mixture over all joint outcomes', r, total(dims, idx, PSI(v)))


@task('C07', 'results of every kind', ['decorators:anydice_type_casting', 'factory:merge_rvs', 'seq:Seq.sum', 'factory:get_seq'])
def results(ip):
    c = ip.c
    from .c06 import die_family
    die, m, v, p = die_family(ip)
    j = c.binder('lj')
    S = lambda i: T.mk_agg('sum', m(i), j, p(i, j))
    k = c.binder('sk')
    c.assume(z3.ForAll([k], S(k) >= 1, patterns=[m(k), S(k)]))
    K = c.fresh_fn('K', [R], I)
    sl, se = c.fresh_fn('slen', [R], I), c.fresh_fn('sel', [R, I], R)
    x = c.binder('x')
    c.assume(z3.ForAll([x], sl(x) >= 0, patterns=[sl(x)]))
    blank = ip.call(glob(ip, 'blackrv', 'BlankRV'), [])
    blank.pre = True
    kinds = ['number', 'seq', 'list', 'die', 'none', 'blank']
    # two kinds of results per call, chosen by the roll
    a, b = [(0, 1), (2, 3), (3, 5), (4, 0), (4, 5), (1, 4)][c.choose(6)]

    def give(ip, val, which):
        if which in (1, 2):
            u = ip.c.binder('u')
            s = Comp(sl(val), u, Lit((SNum(se(val, u), 'float'),)))
            if which == 2:
                return VList('list', s)
            o = Obj(glob(ip, 'seq', 'Seq'), {'_sum': None, '_one_indexed': 1, '_seq': VList('tuple', s)})
            return o
        if which == 3:
            ip.c.assume(S(K(val)) >= 1)          # an instance of the assumption on every die
        return [SNum(val, 'float'), None, None, None if which != 3 else die(K(val)), None, blank][which]

    def result(ip, val, kd):
        return give(ip, val, a if ip.branch(SB(kd == 0)) else b)
    x = joint(ip, 1, result)
    if not x:
        return
    r, dims, idx, val, kd = x

    def contribution(which):
        if which in (1, 2):
            u = c.binder('u')
            return PSI(T.mk_agg('sum', sl(val), u, se(val, u)))
        if which == 3:
            return T.mk_agg('sum', m(K(val)), j, PSI(v(K(val), j)) * real(p(K(val), j))) / real(S(K(val)))
        return PSI(val) if which == 0 else z3.RealVal(0)
    spec = total(dims, idx, z3.If(kd == 0, contribution(a), contribution(b)))
    i = idx[0]
    counted = [kd == z for z, y in ((0, a),) if y not in (4, 5)] + [kd != 0 for y in (b,) if y not in (4, 5)]
    some = z3.Exists([i], z3.And(i >= 0, i < dims[0][0], z3.Or(counted))) if counted else z3.BoolVal(False)
    if is_blank(ip, r):
        c.prove('joint rolls: blank only when every call gives nothing', z3.Not(some))
        return
    c.prove('joint rolls: blank when every call gives nothing', some)
    has_law(ip, 'joint rolls: results summed, mixed or left out by their kind', r, spec)


@task('C07', 'a blank die beside other dice', ['decorators:anydice_type_casting'])
def blank_beside(ip):
    c = ip.c
    use_rv(ip)
    use_expansion(ip)
    d = rv_obj(ip, 'd')
    d.pre = True
    expansion(ip, d, 'x')
    got = []

    def body(ip, a, k):
        got.append((a, k))
        return 1
    t, u = 'NSD'[c.choose(3)], 'NS'[c.choose(2)]
    blank = ip.call(glob(ip, 'blackrv', 'BlankRV'), [])
    args = {'p': d, 'q': blank}
    order = ['p', 'q'] if c.choose(2) else ['q', 'p']
    w = cast(ip, ghost_fn(ip, body, [(n, {'p': t, 'q': u}[n]) for n in order]))
    c.writes.clear()
    k = c.choose(3)
    kind, r = outcome(ip, w, [args[n] for n in order[:k]], {n: args[n] for n in order[k:]})
    c.prove('a blank die skips the call', kind == 'ok' and not got)
    c.prove('a blank die gives a blank result', kind == 'ok' and is_blank(ip, r))
    frame_ok(ip)
