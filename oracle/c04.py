"""C04 order statistics"""
from .base import *


def fixed(g):
    dice = [('num', 2), ('num', 4), ('rv', [0, 1, 5], [1, 2, 3]), ('rv', [-1, 0, 2], [2, 0, 1]), ('rv', [3], [1]), ('seq', [1, 1, 2]), ('num', -3), ('rv', [1.5, 2], [2, 1])]
    for n in (1, 2, 3, 4):
        for d in dice:
            for order in ('highest first', 'lowest first'):
                for k in range(-1, n + 2):
                    yield ('sel', ('roll', n, d), k, order)
    for n in (1, 2, 3, 4):
        for d in dice:
            for order in ('highest first', 'lowest first'):
                for ks in ([1, 2], [2, 1], [1, 1], [], [1, 2, 3], [0, 1], [3, 5], [-1, 2], [n, n]):
                    yield ('sum', ('roll', n, d), ks, order)
    yield ('sel', ('rv', [1, 2], [1, 3]), 1, 'highest first')
    yield ('sum', ('rv', [1, 2], [1, 3]), [1, 1], 'highest first')
    yield ('lim', 1)
    yield ('lim', 2)
    yield ('big', 400, 6, 1)
    yield ('big', 400, 6, 400)
    yield ('big', 120, 6, 17)
    yield ('mix',)
    yield ('ign', ('rv', [0, 1, 2, 3], [1, 0, 2, 0]), 2)
    yield ('len', 3)


def random(g):
    r = g.r
    while True:
        n = r.choice((1, 2, 2, 3, 3, 4, 5, 6))
        d = g.sdie(5 if n < 5 else 3)
        if r.random() < .2:
            d = ('num', r.choice((2, 3, 4, 5, -2, 6)))
        order = r.choice(('highest first', 'lowest first', 'highest first'))
        if r.random() < .1:
            n = min(30, max(2, abs(r.choice(g.mid))))
            d = ('rv', [r.choice(g.small) for _ in range(2)], [r.randint(1, 3), r.randint(1, 3)])
            yield ('sel', ('roll', n, d), r.choice((1, n, n // 2, r.randint(0, n + 1))), order)
        elif r.random() < .5:
            yield ('sel', ('roll', n, d), r.randint(-1, n + 2), order)
        elif r.random() < .9:
            yield ('sum', ('roll', n, d), [r.randint(-1, n + 1) for _ in range(r.randint(0, 4))], order)
        else:
            yield ('ign', ('rv', [0, 1, 2, 3], [r.randint(0, 3) for _ in range(3)] + [1]), r.randint(2, 4))


def want_law(d, ks, order):
    n, law = pool_of(d)
    res = Law()
    for t, w in pool_law_tuples(law, n).items():
        s = t if order == 'highest first' else t[::-1]
        x = sum(s[k - 1] if 1 <= k <= n else 0 for k in ks)
        res[x] = res.get(x, 0) + w
    return res


def as_law(got):
    return law_of(got) if hasattr(got, 'vals') else Law({got: 1})


def check(case):
    L = load()
    k = case[0]
    if k == 'sel':
        _, d, pos, order = case
        X = build(d)
        n, law = pool_of(d)
        with settings(position__order=order):
            got = pos @ X
        what = '%r @ %r (%s)' % (pos, d, order)
        if not 1 <= pos <= n:
            need(not hasattr(got, 'vals') and got == 0, what + ': outside must be 0, got %r' % (got,))
            return
        canonical(got, what)
        same_law(law_of(got), want_law(d, [pos], order), what)
        with settings(position__order=order):
            got2 = L.Seq(pos) @ X
        same_law(as_law(got2), want_law(d, [pos], order), 'Seq ' + what)
    elif k == 'sum':
        _, d, ks, order = case
        X = build(d)
        n, law = pool_of(d)
        with settings(position__order=order):
            got = L.Seq(*ks) @ X
        w1 = want_law(d, ks, order)
        what = '%r @ %r (%s)' % (ks, d, order)
        same_law(as_law(got), w1, what)
        with settings(position__order=order):
            got = list(ks) @ X if False else X.__rmatmul__(list(ks))
        same_law(as_law(got), w1, 'list ' + what)
    elif k == 'lim':
        X = L.RV([0, 1], [2 * 10 ** 40, 10 ** 40 + 7]) + L.RV([0], [1])
        P = L.roll(2, X)
        got = case[1] @ P
        a, b = got.mean(), 0
        need(abs(a - (1 - (2 / 3) ** 2 if case[1] == 1 else (1 / 3) ** 2)) < 1e-9, 'selection from a reduced die: mean %r' % a)
    elif k == 'big':
        _, n, s, pos = case
        got = pos @ L.roll(n, s)
        tot = sum(got.probs)
        # P(k-th highest >= x) = sum_{j>=k} C(n,j) p^j (1-p)^(n-j)
        for x in range(1, s + 1):
            p = Fraction(s - x + 1, s)
            w = sum(math.comb(n, j) * p ** j * (1 - p) ** (n - j) for j in range(pos, n + 1))
            gv = Fraction(sum(q for v, q in zip(got.vals, got.probs) if v >= x), tot)
            need(abs(gv - w) < Fraction(1, 10 ** 12), '%d@%dd%d: P(>=%d) is %s' % (pos, n, s, x, float(gv)))
    elif k == 'mix':
        X = L.roll(L.roll(2), 6)
        same_law(as_law(1 @ X), law_of(X), '1@((d2)d6)')
    elif k == 'ign':
        _, d, n = case
        with settings(RV_IGNORE_ZERO_PROBS=False):
            X = build(d)
        law = ref(d)
        with settings(RV_IGNORE_ZERO_PROBS=True):
            P = L.roll(n, X)
            for pos in range(1, n + 1):
                got = pos @ P
                w = Law()
                for t, ww in pool_law_tuples(law, n).items():
                    w[t[pos - 1]] = w.get(t[pos - 1], 0) + ww
                same_law(as_law(got), w, '%d@%d of %r with zero weights ignored' % (pos, n, d))
    elif k == 'len':
        need(len(L.roll(case[1], 6)) == case[1], 'pool size')
