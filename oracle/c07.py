"""C07 casting"""
import itertools
from .base import *

ANN = ['N', 'S', 'D', None, 'int']


def enc(x):
    """injective-ish code of an argument as seen by the function, and its kind"""
    L = load()
    if isinstance(x, L.BlankRV):
        return ('blank',)
    if isinstance(x, L.RV):
        return ('rv', x.vals, x.probs, len(x))
    if isinstance(x, L.Seq):
        return ('seq', tuple(x))
    if isinstance(x, (list, tuple, range)):
        return (type(x).__name__, tuple(x))
    return ('num', x)


ARGS = [('num', 3), ('num', -1), ('num', 2.5), ('num', True), ('seq', [1, 4]), ('seq', []), ('list', [2, 5]), ('tuple', [1]), ('range', 1, 4), ('rv', [1, 2, 4], [1, 2, 3]), ('roll', 2, ('num', 3)),
        ('roll', 3, ('rv', [0, 1], [1, 2])), ('blank',), ('sblank',), ('rv', [0, 7], [0, 1])]
RET = ['num', 'none_odd', 'rv', 'seq', 'list', 'blank_even', 'num2', 'bool', 'float']


def fixed(g):
    for a in ANN:
        for x in ARGS:
            for mode in ('pos', 'kw'):
                yield ([(a, x, mode)], 'num', False)
    for a, b in itertools.product(ANN[:4], repeat=2):
        for x, y in itertools.product(ARGS[::2] + [('rv', [1, 2, 4], [1, 2, 3])], repeat=2):
            yield ([(a, x, 'pos'), (b, y, 'pos')], 'num', False)
    for r in RET:
        for x in ARGS[9:12]:
            yield ([('N', x, 'pos'), ('S', ('rv', [1, 2], [1, 1]), 'kw')], r, False)
            yield ([('S', x, 'pos')], r, True)


def random(g):
    r = g.r
    while True:
        n = r.randint(1, 4)
        ps = []
        kw = False
        hard = 0
        for i in range(n):
            a = r.choice(ANN)
            y = r.random()
            if y < .45:
                x = r.choice((g.sdie(3), ('roll', r.randint(1, 3), ('num', r.randint(2, 3))), ('roll', 2, g.sdie(3))))
                hard += 1
                if hard > 3:
                    x = ('num', g.val())
            elif y < .6:
                x = ('num', g.val())
            elif y < .75:
                x = g.seq(3)
            elif y < .85:
                x = (r.choice(('list', 'tuple')), [g.val() for _ in range(r.randint(0, 3))])
            elif y < .9:
                x = r.choice((('blank',), ('sblank',)))
            else:
                x = r.choice(ARGS)
            kw = kw or r.random() < .25
            ps.append((a, x, 'kw' if kw else 'pos'))
        yield (ps, r.choice(RET), r.random() < .3)


def cast(a, x):
    """-> ('val', enc) | ('hard', [(enc, weight)...]) | ('abort',)"""
    L = load()
    if x[0] in ('blank', 'sblank'):
        return ('abort',) if a in ('N', 'S') else ('val', ('blank',))
    if a in (None, 'int'):
        return ('val', None)
    if a == 'N':
        if x[0] == 'num':
            return ('val', ('num', x[1]))
        if x[0] in ('seq', 'list', 'tuple', 'range'):
            return ('val', ('num', sum(range(x[1], x[2]) if x[0] == 'range' else flat(x))))
        return ('hard', [(('num', v), w) for v, w in sorted(ref(x).items())])
    if a == 'S':
        if x[0] == 'num':
            return ('val', ('seq', (x[1],)))
        if x[0] in ('seq', 'list', 'tuple', 'range'):
            return ('val', ('seq', tuple(range(x[1], x[2]) if x[0] == 'range' else flat(x))))
        n, law = pool_of(x)
        return ('hard', [(('seq', t), w) for t, w in pool_law_tuples(law, n).items()])
    if x[0] == 'num' or x[0] in ('seq', 'list', 'tuple', 'range'):
        return ('val', ('law', ref(x)))
    return ('val', ('rvid',))


def result(kind, code, L):
    h = hash(code) % 1000003
    if kind == 'num':
        return h % 97
    if kind == 'num2':
        return h % 5
    if kind == 'bool':
        return bool(h % 2)
    if kind == 'float':
        return (h % 8) / 4
    if kind == 'none_odd':
        return None if h % 2 else h % 11
    if kind == 'blank_even':
        return L.BlankRV() if h % 2 == 0 else h % 7
    if kind == 'rv':
        return L.RV([h % 5, h % 7 + 1], [1 + h % 3, 1 + h % 4])
    if kind == 'seq':
        return L.Seq(h % 4, h % 9)
    if kind == 'list':
        return [h % 4, [h % 9, 1]]


def res_law(kind, code):
    h = hash(code) % 1000003
    if kind == 'num':
        return Law({h % 97: 1})
    if kind == 'num2':
        return Law({h % 5: 1})
    if kind == 'bool':
        return Law({h % 2: 1})
    if kind == 'float':
        return Law({(h % 8) / 4: 1})
    if kind == 'none_odd':
        return None if h % 2 else Law({h % 11: 1})
    if kind == 'blank_even':
        return None if h % 2 == 0 else Law({h % 7: 1})
    if kind == 'rv':
        return Law.of([h % 5, h % 7 + 1], [1 + h % 3, 1 + h % 4])
    if kind == 'seq':
        return Law({h % 4 + h % 9: 1})
    if kind == 'list':
        return Law({h % 4 + h % 9 + 1: 1})


def check(case):
    ps, rk, depth = case
    L = load()
    calls = []
    tn = {'N': L.T_N, 'S': L.T_S, 'D': L.T_D, 'int': int}

    def body(args):
        calls.append(args)
        return result(rk, tuple(enc(x) for x in args), L)
    names = ['p%d' % i for i in range(len(ps))]
    ns = {'body': body}
    exec('def f(%s): return body((%s,))' % (', '.join(names), ', '.join(names)), ns)
    f = ns['f']
    f.__annotations__ = {n: tn[a] for n, (a, _, _) in zip(names, ps) if a}
    objs = [build(x) for _, x, _ in ps]
    what = 'f(%s) -> %s' % (', '.join('%s: %s = %r' % (n, a, x) for n, (a, x, _) in zip(names, ps)), rk)
    pos = [o for o, (_, _, m) in zip(objs, ps) if m == 'pos']
    kws = {n: o for n, o, (_, _, m) in zip(names, objs, ps) if m == 'kw'}
    g = (L.anydice_casting() if depth else L.anydice_type_casting())(f)
    got = g(*pos, **kws)
    casts = [cast(a, x) for a, x, _ in ps]
    if any(c[0] == 'abort' for c in casts):
        need(not calls, what + ': called despite a blank die')
        need(isinstance(got, L.BlankRV), what + ': result %r instead of blank' % (got,))
        return
    hard = [i for i, c in enumerate(casts) if c[0] == 'hard']

    def same_arg(i, seen, c):
        if c is None:
            return seen is objs[i]
        if c == ('blank',):
            return isinstance(seen, L.BlankRV)
        if c == ('rvid',):
            return isinstance(seen, L.RV) and seen.vals == objs[i].vals and seen.probs == objs[i].probs and len(seen) == len(objs[i])
        if c[0] == 'law':
            return isinstance(seen, L.RV) and law_of(seen).norm() == c[1].norm()
        if c[0] == 'num':
            return not hasattr(seen, '_seq') and not hasattr(seen, 'vals') and seen == c[1]
        return enc(seen) == c
    if not hard:
        need(len(calls) == 1, what + ': called %d times' % len(calls))
        for i, c in enumerate(casts):
            need(same_arg(i, calls[0][i], c[1]), what + ': parameter %d received %r' % (i, enc(calls[0][i])))
        exp = result(rk, tuple(enc(x) for x in calls[0]), L)
        if exp is None and depth:
            need(isinstance(got, L.BlankRV), what + ': nothing returned must be blank')
        else:
            need(type(got) is type(exp) and enc(got) == enc(exp), what + ': result %r, expected %r' % (got, exp))
        return
    combos = list(itertools.product(*[casts[i][1] for i in hard]))
    need(len(calls) == len(combos), what + ': called %d times for %d joint rolls' % (len(calls), len(combos)))
    want = Law()
    rest = list(calls)
    any_val = False
    for combo in combos:
        w = 1
        exp = {i: c for i, (c, _) in zip(hard, combo)}
        for _, p in combo:
            w *= p
        hit = None
        for j, args in enumerate(rest):
            if all(same_arg(i, args[i], exp[i] if i in exp else casts[i][1]) for i in range(len(ps))):
                hit = j
                break
        need(hit is not None, what + ': no call for the joint roll %r' % (combo,))
        args = rest.pop(hit)
        law = res_law(rk, tuple(enc(x) for x in args))
        if law is None:
            continue
        any_val = True
        t = law.total()
        for v, p in law.items():
            want[v] = want.get(v, 0) + Fraction(w * p, t)
    if not any_val:
        need(isinstance(got, L.BlankRV), what + ': all blank, got %r' % (type(got),))
        return
    need(isinstance(got, L.RV), what + ': got %r' % (type(got),))
    if want.total() == 0:
        return
    canonical(got, what)
    same_law(law_of(got), want, what)
