"""C15: text outcomes.

A text outcome is a set of labels with a number each.  Labels are only compared and used as keys, so they are elements
of an arbitrary totally ordered set (represented by reals: every countable total order embeds)."""
from .objs import *
from .c08 import list_equal, run

CMPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def label(x):
    if isinstance(x, str):
        return z3.Const('label!' + x, R)
    if is_num(x):
        return real(rt(x))
    raise Unsupported('label %r' % (x,))


class Coefs:
    """a dictionary label -> number: dom(l), val(l), and (when it is the data of a text outcome) its labels in order"""
    def __init__(self, dom, val, n=None, K=None, idx=None):
        self.dom, self.val, self.n, self.K, self.idx = dom, val, n, K, idx

    def contains(self, ip, o, x):
        return self.dom(label(x))

    def get(self, ip, o, x):
        l = label(x)
        if not ip.c.branch(self.dom(l)):
            raise PyRaise('KeyError')
        return SNum(self.val(l), 'float')

    def m_get(self, ip, o, a, k):
        l = label(a[0])
        d = a[1] if len(a) > 1 else None
        if d is None:
            if not ip.c.branch(self.dom(l)):
                return None
            return SNum(self.val(l), 'float')
        return SNum(z3.If(self.dom(l), self.val(l), real(rt(d))), 'float')

    def set(self, ip, o, x, v):
        if getattr(o, 'pre', False):
            ip.c.writes.append((o, x, v))
        if ip.c.binders:
            raise Unsupported('text dictionary written in a loop')
        l, t = label(x), real(rt(v))
        dom, val = self.dom, self.val
        o.hook = Coefs(lambda k: z3.Or(k == l, dom(k)), lambda k: z3.If(k == l, t, val(k)))

    def copy(self, ip, o):
        d = VDict({})
        d.hook = Coefs(self.dom, self.val, self.n, self.K, self.idx)
        return d

    def keys(self, ip, o):
        s = Poisoned('keys')
        s.of = o
        return VList('iter', s)

    def items(self, ip, o):
        if self.K is None:
            raise Unsupported('items of a changed dictionary')
        w = ip.c.binder('ti')
        return VList('iter', Comp(self.n, w, Lit(((SNum(self.K(w), 'float'), SNum(self.val(self.K(w)), 'float')),))))

    def cmp(self, ip, name, a, b):
        ha, hb = a.hook, b.hook
        if name not in ('eq', 'ne') or not isinstance(ha, Coefs) or not isinstance(hb, Coefs):
            raise Unsupported('comparison of dictionaries')
        l = ip.c.binder('tl', R)
        # (stated over the listed labels: better instantiation)
        i = ip.c.binder('te')
        f = z3.ForAll([l], z3.And(ha.dom(l) == hb.dom(l), z3.Implies(ha.dom(l), ha.val(l) == hb.val(l))), patterns=[ha.dom(l), hb.dom(l)])
        return mkbool(f if name == 'eq' else z3.Not(f))


class Poisoned(M.Opaque):
    """the labels of a dictionary, in some order"""
    of = None


class Journal(Coefs):
    """the dictionary inside one iteration of a loop over distinct labels"""
    def __init__(self, base, key, log):
        Coefs.__init__(self, base.dom, base.val)
        self.base, self.key, self.log = base, key, log

    def set(self, ip, o, x, v):
        if not ip.c.holds(label(x) == self.key):
            raise Unsupported('text dictionary written at another label')
        ip.c.set_loc(self.log, 'v', real(rt(v)))

    def _fresh(self, x):
        if self.log.attrs['v'] is not None:
            raise Unsupported('text dictionary read after writing')

    def contains(self, ip, o, x):
        self._fresh(x)
        if not ip.c.holds(label(x) == self.key):
            raise Unsupported('text dictionary read at another label')
        return self.base.contains(ip, o, x)

    def get(self, ip, o, x):
        self.contains(ip, o, x)
        return self.base.get(ip, o, x)

    def m_get(self, ip, o, a, k):
        self.contains(ip, o, a[0])
        return self.base.m_get(ip, o, a, k)


def update_rule(ip, st, env, g, s, body):
    """for label in <distinct labels>: d[label] = f(label, d.get(label)): iterations do not interfere"""
    c = ip.c
    if s is None or c.binders or not (isinstance(s, Comp) and is_idx(s)):
        return NotImplemented
    e = s.chunk.items[0]
    k0 = e[0] if isinstance(e, tuple) else e
    if not is_num(k0):
        return NotImplemented
    src = next((h for h in ip.text_keys if h.K is not None and h.K(s.var).eq(nt(k0)) and h.n.eq(s.n)), None)
    if src is None:
        return NotImplemented
    ds = []
    en = env
    while en is not None and hasattr(en, 'vars'):
        ds += [v for v in en.vars.values() if isinstance(v, VDict) and type(v.hook) is Coefs and not getattr(v, 'pre', False) and all(v is not x for x in ds)]
        en = en.parent
    if len(ds) != 1:
        return NotImplemented
    d = ds[0]
    base = d.hook
    w = c.binder('tw')
    log = Obj(glob(ip, 'seq', 'Seq'), {'v': None})
    log.pre = False
    item = subst(e, [(s.var, w)])
    old = c.binders

    def once():
        c.binders = old + [w]
        c.assume(z3.And(w >= 0, w < s.n))
        d.hook = Journal(base, src.K(w), log)
        mark = len(c.trail)
        try:
            try:
                body(item)
            except M.Continue:
                pass
            for cont, key, _ in c.trail[mark:]:
                if cont is not log and isinstance(cont, (Obj, VList, VDict)):
                    raise Unsupported('other state in a loop over labels')
            return ('ok', log.attrs['v'])
        except PyRaise as x:
            return ('raise', x)
        finally:
            c.binders = old
            d.hook = base
    outs = c.sub(once)
    conds = ip.path_conds(outs)
    if any(o[0] != 'ok' for _, o in outs):
        raise Unsupported('loop over labels may raise')
    wrote, val = z3.BoolVal(False), z3.RealVal(0)
    for (_, o), cd in zip(outs, conds):
        if o[1] is not None:
            wrote = z3.Or(cd, wrote)
            val = z3.If(cd, o[1], val)

    def here(l, t):
        return z3.substitute(t, (w, src.idx(l)))

    def dom(l):
        return z3.Or(base.dom(l), z3.And(src.dom(l), here(l, wrote)))

    def value(l):
        return z3.If(z3.And(src.dom(l), here(l, wrote)), here(l, val), base.val(l))
    d.hook = Coefs(dom, value)
    c.note('loop over distinct keys: iterations independent')


def text(ip, name='a'):
    """an arbitrary text outcome: labels K(0) < ... < K(n-1), coefficient of each"""
    c = ip.c
    n = c.fresh(name + '_n')
    c.assume(n >= 0)
    K, val = c.fresh_fn(name + '_key', [I], R), c.fresh_fn(name + '_coef', [R], R)
    dom, idx = c.fresh_fn(name + '_dom', [R], B), c.fresh_fn(name + '_idx', [R], I)
    i, j, l = c.binder('i'), c.binder('j'), c.binder('l', R)
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), K(i) < K(j)), patterns=[z3.MultiPattern(K(i), K(j))]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(dom(K(i)), idx(K(i)) == i)), patterns=[K(i)]))
    c.assume(z3.ForAll([l], z3.Implies(dom(l), z3.And(idx(l) >= 0, idx(l) < n, K(idx(l)) == l)), patterns=[dom(l)]))
    w = c.binder('k')
    d = VDict({})
    d.hook = Coefs(dom, val, n, K, idx)
    ip.text_keys = getattr(ip, 'text_keys', []) + [d.hook]
    o = Obj(glob(ip, 'string_rvs', 'StringVal'), {'keys': VList('tuple', Comp(n, w, Lit((SNum(K(w), 'float'),)))), 'data': d})
    o.pre = d.pre = True
    o.attrs['keys'].pre = True
    o.meta['h'] = d.hook
    return o


def truth(ip, r):
    t = ip.truth(r)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def frame(ip):
    ip.c.prove('operands unchanged', not ip.c.writes)


@task('C15', 'exactly one of less, equal, greater', ['string_rvs:StringVal._compare_to', 'string_rvs:StringVal.__eq__', 'string_rvs:StringVal.__ne__'] + ['string_rvs:StringVal.__%s__' % o for o in CMPS])
def trichotomy(ip):
    c = ip.c
    a, b = text(ip, 'a'), text(ip, 'b')
    res = {}
    for o in CMPS:
        kind, r = run(ip, lambda: ip.cmp(o, a, b))
        if not c.prove('comparison does not raise', kind == 'ok'):
            return
        res[o] = truth(ip, r)
    lt, eq, gt = res['lt'], res['eq'], res['gt']
    c.prove('exactly one of less, equal, greater', z3.And(z3.Or(lt, eq, gt), z3.Not(z3.And(lt, eq)), z3.Not(z3.And(lt, gt)), z3.Not(z3.And(eq, gt))))
    c.prove('<= is less or equal', res['le'] == z3.Or(lt, eq))
    c.prove('>= is greater or equal', res['ge'] == z3.Or(gt, eq))
    c.prove('!= is not equal', res['ne'] == z3.Not(eq))
    frame(ip)


@task('C15', 'the order is transitive', ['string_rvs:StringVal._compare_to'])
def transitivity(ip):
    c = ip.c
    xs = [text(ip, n) for n in 'abc']
    o = ['lt', 'le', 'eq'][c.choose(3)]       # (the others: converse comparisons)
    res = []
    for i, j in ((0, 1), (1, 2), (0, 2)):
        kind, r = run(ip, lambda: ip.cmp(o, xs[i], xs[j]))
        if not c.prove('comparison does not raise', kind == 'ok'):
            return
        res.append(truth(ip, r))
        if len(res) < 3:
            if not c.branch(res[-1]):
                return
    c.prove('%s: transitive' % o, res[2])


@task('C15', 'converse comparisons', ['string_rvs:StringVal._compare_to'])
def converse(ip):
    c = ip.c
    a, b = text(ip, 'a'), text(ip, 'b')
    o, p = [('lt', 'gt'), ('le', 'ge'), ('eq', 'eq')][c.choose(3)]
    k1, r1 = run(ip, lambda: ip.cmp(o, a, b))
    k2, r2 = run(ip, lambda: ip.cmp(p, b, a))
    if c.prove('comparison does not raise', k1 == k2 == 'ok'):
        c.prove('a %s b agrees with b %s a' % (o, p), truth(ip, r1) == truth(ip, r2))


@task('C15', 'against numbers', ['string_rvs:StringVal._compare_to'])
def numbers(ip):
    c = ip.c
    a, x = text(ip, 'a'), num(ip, 'x')
    o = CMPS[c.choose(6)]
    left = c.choose(2)
    kind, r = run(ip, lambda: ip.cmp(o, a, x) if left else ip.cmp(o, x, a))
    if c.prove('comparison with a number does not raise', kind == 'ok'):
        c.prove('a text is above every number', truth(ip, r) == z3.BoolVal(o == 'ne' or (o in ('gt', 'ge')) == bool(left) and o not in ('eq', 'ne')))
    frame(ip)


@task('C15', 'equal outcomes have equal hashes', ['string_rvs:StringVal.__hash__', 'string_rvs:StringVal.__eq__'])
def hashes(ip):
    c = ip.c
    a, b = text(ip, 'a'), text(ip, 'b')
    kind, r = run(ip, lambda: ip.cmp('eq', a, b))
    if not c.prove('comparison does not raise', kind == 'ok'):
        return
    if not c.branch(truth(ip, r)):
        return
    seen = []
    ip.hash_hook = lambda ip, v: (seen.append(v), SNum(c.fresh('hash'), 'int'))[1]
    out = []
    for x in (a, b):
        kind, h = run(ip, lambda: ip.call(ip.getattr(x, '__hash__'), []))
        if not c.prove('hash does not raise', kind == 'ok'):
            return
        out.append(h)
    if len(seen) != 2:
        raise Unsupported('hash of something else')

    def eq(u, v):
        u, v = ip.force(u), ip.force(v)
        if isinstance(u, (tuple, VList)) and isinstance(v, (tuple, VList)):
            su, sv = ip.as_sl(u, consume=False), ip.as_sl(v, consume=False)
            if isinstance(su, Lit) and isinstance(sv, Lit):
                return len(su.items) == len(sv.items) and all(eq(x, y) for x, y in zip(su.items, sv.items))
            return list_equal(ip, su, sv)
        return is_num(u) and is_num(v) and c.holds(real(rt(u)) == real(rt(v)))
    c.prove('equal outcomes are hashed from equal content', bool(eq(seen[0], seen[1])))
    frame(ip)


def record_new(ip):
    made = []

    def h(ip, args, kw):
        a = dict(zip(['keys', 'pairs'], args), **kw)
        if set(a) != {'keys', 'pairs'} or not isinstance(a['pairs'], VDict):
            return NotImplemented
        if a['pairs'].hook is None:
            return NotImplemented       # a concrete one: really built
        ks = ip.force(a['keys'])
        of = getattr(ks.s, 'of', None) if isinstance(ks, VList) else None
        o = Obj(glob(ip, 'string_rvs', 'StringVal'), {'data': a['pairs'], 'keys': ks})
        made.append((of is a['pairs'], o))
        return o
    ip.contracts['string_rvs:StringVal'] = h
    return made


@task('C15', 'adding', ['string_rvs:StringVal.__add__', 'string_rvs:StringVal.__radd__', 'string_rvs:StringVal.from_paris', 'string_rvs:StringVal.from_const'])
def adding(ip):
    c = ip.c
    ip.loop_rules = list(ip.loop_rules) + [update_rule]
    a = text(ip, 'a')
    made = record_new(ip)
    k = c.choose(3)
    if k == 0:
        b = text(ip, 'b')
        kind, r = run(ip, lambda: ip.binop('add', a, b))
        hb = b.meta['h']
        dom, val = hb.dom, hb.val
    else:
        x = num(ip, 'x')
        kind, r = run(ip, lambda: ip.binop('add', a, x) if k == 1 else ip.binop('add', x, a))
        const = glob(ip, 'string_rvs', '_CONST_COEF')
        if not isinstance(const, str):
            raise Unsupported('constant label')
        L = label(const)
        dom, val = (lambda l: l == L), (lambda l: real(rt(x)))
    what = ['two texts', 'a text and a number', 'a number and a text'][k]
    if not c.prove('adding %s: does not raise' % what, kind == 'ok'):
        return
    if not c.prove('adding %s: gives a text' % what, isinstance(r, Obj) and r.cls is glob(ip, 'string_rvs', 'StringVal') and any(o is r for _, o in made)):
        return
    c.prove('adding %s: listed labels are those of the data' % what, all(ok for ok, o in made if o is r))
    h = r.attrs['data'].hook
    ha = a.meta['h']
    l = c.fresh('lab', R)
    c.prove('adding %s: the labels of both' % what, h.dom(l) == z3.Or(ha.dom(l), dom(l)))
    z = z3.RealVal(0)
    c.prove('adding %s: numbers added label by label' % what, z3.Implies(h.dom(l), h.val(l) == z3.If(ha.dom(l), ha.val(l), z) + z3.If(dom(l), val(l), z)))
    frame(ip)
    c.prove('adding %s: new data' % what, r.attrs['data'] is not a.attrs['data'])


def items(r):
    k = r.attrs['keys']
    s = Lit(k) if isinstance(k, tuple) else k.s
    return s.items if isinstance(s, Lit) else None


@task('C15', 'construction', ['string_rvs:StringVal.__init__', 'string_rvs:StringVal.from_str', 'string_rvs:StringVal.from_const'])
def construction(ip):
    c = ip.c
    cls = glob(ip, 'string_rvs', 'StringVal')
    k = c.choose(3)
    if k == 0:
        ks, n, v = numlist(ip, 'key', tags=(1,), kind='tuple')
        i, j = c.binder('i'), c.binder('j')
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), rt(v(i)) != rt(v(j))), patterns=[z3.MultiPattern(rt(v(i)), rt(v(j)))]))
        d = VDict({})
        kind, r = outcome(ip, cls, [ks, d])
        if not c.prove('construction: does not raise', kind == 'ok'):
            return
        s = ip.as_sl(r.attrs['keys'], consume=False)
        c.prove('construction: data as given', r.attrs['data'] is d)
        if not c.prove('construction: as many labels', slen(s) == n):
            return
        q, p = c.fresh('q'), c.fresh('p')
        e = lambda i: rt(ip.sl_get(s, i, safe=True))
        c.prove('construction: labels in increasing order', z3.Implies(z3.And(p >= 0, p < q, q < n), e(p) <= e(q)))
        c.prove_eq('construction: the same labels', ssum(s, lambda x: PSI(rt(x))), ssum(ks.s, lambda x: PSI(rt(x))))
    elif k == 1:
        kind, r = outcome(ip, cls.lookup('from_str')[0], ['lab'])
        c.prove('construction: from a text', kind == 'ok' and items(r) == ('lab',) and r.attrs['data'].d == {'lab': 1})
    else:
        x = num(ip, 'x')
        kind, r = outcome(ip, cls.lookup('from_const')[0], [x])
        const = glob(ip, 'string_rvs', '_CONST_COEF')
        c.prove('construction: from a number', kind == 'ok' and items(r) == (const,) and list(r.attrs['data'].d) == [const] and r.attrs['data'].d[const] is x)
