"""C03 rolling"""
import itertools
import math
from .base import *


def fixed(g):
    for n in range(-4, 9):
        for d in (1, 2, 3, 4, 6, 0, -1, -3, -6, 10):
            if abs(n) * abs(d) <= 60:
                yield ('roll', n, ('num', d))
    for n in (0, 1, 2, 3, 5, 6, 7, 9, 11, 13, 16):
        for d in [('rv', [0, 1], [1, 2]), ('rv', [-1, 2, 5], [1, 0, 3]), ('seq', [1, 1, 2]), ('list', [3, 0]), ('rv', [1], [1]), ('tuple', [-2, 2]), ('rv', [1.5, 2], [1, 1]), ('roll', 2, ('num', 3))]:
            yield ('roll', n, d)
            yield ('roll', -n, d)
    for s in ('2d6', 'd4', '1d8', '3d3', '10d2', '0d6'):
        yield ('text', s)
    for n in (('seq', [1, 2]), ('list', [2, 2]), ('seq', []), ('seq', [-2]), ('rv', [0, 1, 3], [1, 2, 1]), ('roll', 1, ('num', 3)), ('rv', [-1, 2], [1, 1]), ('rv', [2], [1]), ('rv', [1, 2], [0, 1]), ('num', 1.5), ('num', 2.0), ('num', True)):
        for d in (('num', 4), ('num', -2), ('seq', [1, 5, 5]), ('rv', [1, 2], [1, 3])):
            yield ('count', n, d)
    yield ('one', ('num', 6))
    yield ('one', ('num', -6))
    yield ('one', ('num', 0))
    yield ('one', ('seq', [1, 1, 5]))
    yield ('one', ('rv', [1, 2], [2, 3]))
    yield ('one', ('num', 2.5))
    yield ('hist', [(2, ('rv', [1.0, 2.0], [1, 1])), (2, ('rv', [1, 2], [1, 1])), (4, ('rv', [1, 2], [1, 1]))])
    yield ('hist', [(4, ('rv', [0, 1], [1, 3])), (4, ('rv', [0, 1], [3, 1])), (4, ('rv', [0, 2], [1, 3])), (5, ('rv', [0, 1], [1, 3]))])
    yield ('trunc', 2, ('rv', [1.5, 2.5], [1, 1]))
    yield ('trunc', 3, ('rv', [0.4, 0.8], [1, 2]))


def random(g):
    r = g.r
    while True:
        x = r.random()
        if x < .5:
            d = r.choice((g.sdie(), g.sdie(), ('num', r.choice((1, 2, 3, 4, 6, 8, -2, -4) + tuple(i for i in g.mid if abs(i) < 25))), g.seq(4)))
            if d == ('seq', []):
                continue
            n = r.choice((r.randint(-6, 12), r.randint(0, 20), min(40, abs(r.choice(g.mid)))))
            if abs(n) > 13 and d[0] == 'num' and abs(d[1]) > 8:
                n = 13
            if abs(n) > 9 and isinstance(d, tuple) and d[0] in ('rv', 'seq') and any(abs(v) > 100 or isinstance(v, float) for v in d[1]):
                n = r.randint(-5, 5)
            yield ('roll', n, d)
        elif x < .7:
            d = r.choice((('num', r.choice((2, 3, 4, -2, 6))), g.sdie(3), ('seq', [r.choice(g.small) for _ in range(3)])))
            y = r.random()
            if y < .3:
                n = ('seq', [r.randint(-2, 3) for _ in range(r.randint(0, 4))])
            elif y < .4:
                n = ('list', [r.randint(-2, 3) for _ in range(r.randint(0, 4))])
            elif y < .9:
                k = r.randint(1, 4)
                n = ('rv', [r.randint(-3, 5) for _ in range(k)], [r.randint(0, 4) for _ in range(k)])
                if sum(n[2]) == 0:
                    continue
            else:
                n = ('num', r.choice((0.2, 1.0, 2.5, -1.5, 3.0)))
            yield ('count', n, d)
        elif x < .95:
            base = [g.sdie(3) for _ in range(2)]
            if r.random() < .5:
                b = base[0]
                base.append(('rv', list(b[1]), [p + 1 for p in b[2]]))
                base.append(('rv', [v + 1 for v in b[1]], list(b[2])))
                base.append(('rv', [float(v) for v in b[1]], list(b[2])))
            yield ('hist', [(r.randint(-3, 9), r.choice(base)) for _ in range(r.randint(2, 7))])
        else:
            yield ('trunc', r.randint(1, 4), ('rv', [r.choice((0.5, 1.5, 1.25, 2, 0.75)) for _ in range(2)], [1, r.randint(1, 3)]))


def cmp(got, law, what):
    canonical(got, what)
    same_law(law_of(got), law, what)


def check(case):
    L = load()
    k = case[0]
    if k == 'roll':
        cmp(L.roll(case[1], build(case[2])), nfold(side_law(case[2]), case[1]), 'roll(%r, %r)' % (case[1], case[2]))
    elif k == 'text':
        n, d = case[1].split('d')
        cmp(L.roll(case[1]), nfold(side_law(('num', int(d))), int(n or 1)), 'roll(%r)' % case[1])
    elif k == 'one':
        cmp(L.roll(build(case[1])), side_law(case[1]), 'roll(%r)' % (case[1],))
    elif k == 'count':
        _, n, d = case
        got = L.roll(build(n), build(d))
        sl = side_law(d)
        if n[0] == 'num':
            want = nfold(sl, math.ceil(n[1]))
        elif n[0] in ('seq', 'list'):
            want = nfold(sl, sum(flat(n)))
        else:
            want = Law()
            cl = ref(n)
            for c, w in cl.items():
                part = nfold(sl, c)
                t = part.total()
                for v, p in part.items():
                    want[v] = want.get(v, 0) + Fraction(w * p, t)
        cmp(got, want, 'roll(%r, %r)' % (n, d))
    elif k == 'hist':
        for i, (n, d) in enumerate(case[1]):
            got = L.roll(n, build(d))
            cmp(got, nfold(side_law(d), n), 'step %d roll(%r, %r) after %r' % (i, n, d, case[1][:i]))
            if not any(isinstance(v, float) for v in d[1]):
                need(all(type(v) is int for v in got.vals), 'step %d roll(%r, %r): outcome types depend on history: %r' % (i, n, d, got.vals))
    elif k == 'trunc':
        _, n, d = case
        die = build(d)
        fresh = {}
        for order in ((False, True), (True, False)):
            reset_state()
            for t in order:
                with settings(RV_TRUNC=t):
                    x = L.roll(n, die)
                fresh.setdefault(t, []).append((x.vals, x.probs))
        for t, rs in fresh.items():
            need(rs[0] == rs[1], 'roll(%r, %r) with RV_TRUNC=%s depends on earlier rolls: %r' % (n, d, t, rs))
