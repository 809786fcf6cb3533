"""C14 function library"""
from .base import *


def fixed(g):
    S = [[], [1], [3, 1, 2], [2, 2, 5], [-1, 0, 1, -1], [5, 4, 3, 3, 1], [0.5, 2]]
    for s in S:
        yield ('reverse', ('seq', s))
        yield ('sort', ('seq', s))
        for x in (0, 1, 2, -1, 5):
            yield ('contains', ('seq', s), ('num', x))
        for t in S:
            yield ('count', ('seq', t), ('seq', s))
    for n in (0, 1, -1, 5, -7, 2.5, -2.5):
        yield ('absolute', ('num', n))
        for m in (0, 1, -1, 5, 9):
            yield ('hi2', ('num', n), ('num', m))
            yield ('lo2', ('num', n), ('num', m))
    for d in [('rv', [1, 2], [1, 3]), ('rv', [-3, 0, 4], [1, 2, 1]), ('roll', 2, ('num', 3)), ('roll', 3, ('rv', [1, 2], [1, 2])), ('rv', [3], [1]), ('rv', [1, 5], [1, 0]), ('num', 4), ('seq', [1, 3])]:
        for f in ('absolute', 'reverse', 'sort', 'maximum'):
            yield (f, d)
        yield ('contains', d, ('num', 2))
        yield ('contains', d, ('rv', [1, 2, 3], [1, 1, 1]))
        yield ('count', d, ('seq', [1, 2, 2]))
        yield ('count', ('seq', [1, 2]), d)
        yield ('hi2', d, ('rv', [0, 2], [1, 1]))
        yield ('lo2', d, ('rv', [0, 2], [1, 1]))
        for dep in (None, 0, 1, 2, 3, 4):
            yield ('explode', d, dep)
        for n in range(-1, 6):
            for f in ('highest', 'lowest', 'middle'):
                yield (f, ('num', n), d)
    for f in ('highest', 'lowest', 'middle'):
        for n in range(0, 6):
            yield (f, ('num', n), ('roll', 4, ('rv', [1, 2, 6], [1, 1, 2])))
            yield (f, ('num', n), ('roll', 5, ('num', 2)))
        yield (f, ('rv', [1, 2], [1, 2]), ('roll', 3, ('num', 3)))
        yield (f, ('seq', [1, 1]), ('roll', 3, ('num', 3)))
    for dep in (1, 2, 3):
        yield ('explset', ('rv', [1, 2, 3], [1, 1, 2]), dep)


def random(g):
    r = g.r

    def num_arg():
        return r.choice((('num', g.val()), ('seq', [g.ival() for _ in range(r.randint(0, 3))]), g.sdie(3)))

    def seq_arg():
        return r.choice((('seq', [r.choice(g.small) if r.random() < .8 else g.val() for _ in range(r.randint(0, 6))]), ('num', g.ival()), ('roll', r.randint(1, 3), g.sdie(3)), g.sdie(4)))

    def die_arg():
        return r.choice((('roll', r.randint(1, 5), ('num', r.randint(1, 3))), g.sdie(4), ('roll', r.randint(1, 4), g.sdie(3)), ('num', g.ival()), ('seq', [g.ival() for _ in range(r.randint(1, 3))])))
    while True:
        f = r.choice(('absolute', 'contains', 'count', 'reverse', 'sort', 'maximum', 'explode', 'highest', 'lowest', 'middle', 'hi2', 'lo2', 'highest', 'middle', 'lowest'))
        if f == 'absolute':
            yield (f, num_arg())
        elif f == 'contains':
            yield (f, seq_arg(), num_arg())
        elif f == 'count':
            yield (f, seq_arg(), seq_arg())
        elif f in ('reverse', 'sort'):
            yield (f, seq_arg())
        elif f == 'maximum':
            yield (f, die_arg())
        elif f == 'explode':
            yield (f, die_arg(), r.choice((None, 0, 1, 2, 3)))
        elif f in ('hi2', 'lo2'):
            yield (f, num_arg(), num_arg())
        else:
            yield (f, r.choice((('num', r.randint(-1, 6)), ('num', r.randint(1, 4)), ('rv', [1, 2, 3], [1, 2, 1]), ('seq', [1, 1]))), die_arg())


def outs(kind, d):
    """list of (argument as python value, weight) as the casting rules give it"""
    if kind == 'N':
        if d[0] == 'num':
            return [(d[1], 1)]
        if d[0] == 'seq':
            return [(sum(flat(d)), 1)]
        return [(v, w) for v, w in ref(d).items()]
    if kind == 'S':
        if d[0] == 'num':
            return [((d[1],), 1)]
        if d[0] == 'seq':
            return [(tuple(flat(d)), 1)]
        n, law = pool_of(d)
        return list(pool_law_tuples(law, n).items())


def dpool(d):
    if d[0] == 'num':
        return 1, Law({d[1]: 1})
    return pool_of(d)


def positions(f, n, size):
    if f == 'highest':
        return range(1, n + 1)
    if f == 'lowest':
        return range(size - n + 1, size + 1)
    a = 1 + (size - n) // 2
    return range(a, a + n)


def check(case):
    L = load()
    f = case[0]
    what = repr(case)
    name = {'absolute': 'absolute_X', 'contains': 'X_contains_X', 'count': 'count_X_in_X', 'reverse': 'reverse_X', 'sort': 'sort_X', 'maximum': 'maximum_of_X', 'explode': 'explode_X', 'highest': 'highest_X_of_X',
            'lowest': 'lowest_X_of_X', 'middle': 'middle_X_of_X', 'hi2': 'highest_of_X_and_X', 'lo2': 'lowest_of_X_and_X'}

    def is_die(d):
        return d[0] in ('rv', 'roll')

    def cmp(got, want, hard):
        if hard:
            need(isinstance(got, L.RV), what + ': result %r' % (got,))
            same_law(law_of(got), want, what)
        else:
            if hasattr(got, 'vals'):
                same_law(law_of(got), want, what)
            else:
                need(len(want.norm()) == 1 and got == list(want.norm())[0], what + ': result %r, expected %r' % (got, dict(want)))
    if f in ('absolute', 'contains', 'count', 'hi2', 'lo2'):
        kinds = {'absolute': 'N', 'contains': 'SN', 'count': 'SS', 'hi2': 'NN', 'lo2': 'NN'}[f]
        fn = {'absolute': abs, 'contains': lambda s, n: 1 if n in s else 0, 'count': lambda v, s: sum(sum(1 for y in s if y == x) for x in v), 'hi2': max, 'lo2': min}[f]
        got = getattr(L, name[f])(*[build(a) for a in case[1:]])
        want = Law()
        for combo in itertools.product(*[outs(k, a) for k, a in zip(kinds, case[1:])]):
            w = 1
            for _, p in combo:
                w *= p
            v = fn(*[c for c, _ in combo])
            want[v] = want.get(v, 0) + w
        cmp(got, want, any(is_die(a) for a in case[1:]))
    elif f in ('reverse', 'sort'):
        got = getattr(L, name[f])(build(case[1]))
        if is_die(case[1]):
            want = Law()
            for s, w in outs('S', case[1]):
                want[sum(s)] = want.get(sum(s), 0) + w
            cmp(got, want, True)
        else:
            s = outs('S', case[1])[0][0]
            w = tuple(reversed(s)) if f == 'reverse' else tuple(sorted(s, reverse=True))
            need(isinstance(got, L.Seq) and tuple(got) == w, what + ': result %r, expected %r' % (got, w))
    elif f == 'maximum':
        d = case[1]
        law = Law({d[1]: 1}) if d[0] == 'num' else ref(d)
        got = L.maximum_of_X(build(d))
        need(not hasattr(got, 'vals') and got == max(law), what + ': result %r' % (got,))
    elif f in ('explode', 'explset'):
        d, dep = case[1], case[2]
        law = Law({d[1]: 1}) if d[0] == 'num' else ref(d)
        mx = max(law)
        if f == 'explset':
            sub('settings').settings_set('explode depth', dep)
            got = L.explode_X(build(d))
        else:
            got = L.explode_X(build(d)) if dep is None else L.explode_X(build(d), depth=dep)
        k = 2 if dep is None else dep
        t = law.total()
        cur = Law({v: Fraction(w, t) for v, w in law.items()})
        one = cur
        for _ in range(k):
            nxt = Law()
            for v, w in one.items():
                if v == mx:
                    for u, w2 in cur.items():
                        nxt[v + u] = nxt.get(v + u, 0) + w * w2
                else:
                    nxt[v] = nxt.get(v, 0) + w
            cur = nxt
        cmp(got, cur, False)
    else:
        nd, d = case[1], case[2]
        got = getattr(L, name[f])(build(nd), build(d))
        size, base = dpool(d)
        want = Law()
        tot = base.total() ** size
        for n, w in outs('N', nd):
            ps = positions(f, n, size)
            for t, p in pool_law_tuples(base, size).items():
                x = sum(t[k - 1] if 1 <= k <= size else 0 for k in ps)
                want[x] = want.get(x, 0) + Fraction(w * p, tot)
        cmp(got, want, False)
