"""C05 pool expansion"""
from .base import *


def fixed(g):
    dice = [('num', 1), ('num', 2), ('num', 3), ('rv', [0, 1, 5], [1, 2, 3]), ('rv', [-1, 0, 2], [2, 0, 1]), ('rv', [3], [1]), ('seq', [1, 1, 2]), ('num', -3), ('rv', [1.5, 2], [2, 1])]
    for n in (1, 2, 3, 4, 5, 6):
        for d in dice:
            yield (n, d)
    yield (8, ('num', 2))
    yield (10, ('rv', [0, 1], [1, 3]))
    yield (13, ('rv', [0, 1], [2, 3]))
    yield (21, ('num', 2))


def random(g):
    r = g.r
    while True:
        n = r.randint(1, 6)
        if r.random() < .15:
            n = min(25, abs(r.choice(g.mid)) + 1)
            yield (n, ('rv', [r.choice(g.small), r.choice(g.small)], [r.randint(0, 3), r.randint(1, 4)]))
        else:
            yield (n, g.sdie(4 if n > 4 else 5))


def check(case):
    n, d = case
    L = load()
    seen = []

    def f(s: L.T_S):
        seen.append(tuple(s))
        code = 0
        for x in tuple(s):
            code = code * 7919 + order[x] + 1
        return code
    base = side_law(d)
    order = {v: i for i, v in enumerate(sorted(base))}
    got = L.anydice_type_casting()(f)(L.roll(n, build(d)))
    what = 'expansion of %d x %r' % (n, d)
    want = pool_law_tuples(base, n)
    need(len(seen) == len(set(seen)), what + ': a roll was seen twice')
    for s in seen:
        need(list(s) == sorted(s, reverse=True) and len(s) == n, what + ': not sorted highest first: %r' % (s,))
    need(set(seen) == set(want), lambda: what + ': rolls seen differ, e.g. %r' % (list(set(seen) ^ set(want))[:2],))

    def enc(t):
        c = 0
        for x in t:
            c = c * 7919 + order[x] + 1
        return c
    same_law(law_of(got), Law({enc(t): w for t, w in want.items()}), what)
    vals, probs = L.roll(n, build(d))._get_expanded_possible_rolls()
    tot = L.RV([1], [1])
    die = L.roll(1, build(d))
    need(sum(probs) == sum(die.probs) ** n, what + ': weights add up to %d, expected %d^%d' % (sum(probs), sum(die.probs), n))
