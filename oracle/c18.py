"""C18 weight reduction"""
from .base import *


def fixed(g):
    T = 10 ** 31
    for tot in (T - 1, T, T + 1, 2 * T, T * 10, 10 ** 45, 10 ** 100, 10 ** 308, 10 ** 320, 10 ** 700):
        yield ('add', [0, 1], [tot // 3, tot - tot // 3])
        yield ('add', [0, 1, 2], [1, tot - 8, 7])
        yield ('add', [0, 1, 5], [0, tot - 1, 1])
        yield ('mix', [0, 1, 5], [2, tot - 9, 7])
        yield ('direct', [0, 3, 9], [tot // 7, tot // 5 + 1, tot - tot // 7 - tot // 5 - 1])
        yield ('direct', [0], [tot])
    yield ('direct', [1, 2], [T - 1, 1])
    yield ('direct', [1, 2], [T, 1])
    yield ('direct', list(range(50)), [10 ** 33 + i for i in range(50)])
    yield ('direct', list(range(50)), [10 ** 29 + i * i for i in range(50)])
    yield ('sel', 400, 6, 1)
    yield ('sel', 60, 6, 3)
    yield ('roll', 60, 6)
    yield ('limit', [0, 1], [7, 5], 10)
    yield ('limit', [0, 1], [5, 5], 10)


def random(g):
    r = g.r
    while True:
        n = r.randint(1, 8)
        e = r.choice((28, 30, 31, 31, 32, 40, 62, 120, 400))
        ps = [r.randint(0, 10 ** r.randint(0, e)) for _ in range(n)]
        ps[0] = r.choice((10 ** e, 10 ** e + 1, 3 * 10 ** e, r.randint(1, 10 ** e)))
        yield (r.choice(('direct', 'add', 'mix')), list(range(n)), ps)


def compare(got, vals, probs, what):
    """got: RV after reduction; (vals, probs): exact law before"""
    need(tuple(got.vals) == tuple(vals), what + ': outcomes %r' % (got.vals,))
    need(all(type(p) is int and p >= 0 for p in got.probs), what + ': weights %r' % (got.probs,))
    gg = math.gcd(*probs)
    red = [p // gg for p in probs]
    tot = sum(red)
    gt = sum(got.probs)
    need(gt > 0, what + ': all weights vanished')
    need(got._get_sum_probs() == gt, what + ': stored total %r is stale' % got._get_sum_probs())
    if tot <= 10 ** 31:
        need(tuple(got.probs) == tuple(red), what + ': changed below the limit: %r, expected %r' % (got.probs, red))
        return
    m = len(vals)
    for v, p, q in zip(vals, red, got.probs):
        d = abs(Fraction(q, gt) - Fraction(p, tot))
        need(d <= Fraction(m, 10 ** 19), what + ': probability of %r moved by %s' % (v, float(d)))


def check(case):
    L = load()
    k = case[0]
    what = repr(case)[:300]
    R = sub('randvar')
    if k == 'direct':
        rv = L.RV(case[1], case[2])
        vals, probs = rv.vals, rv.probs
        got = R._INTERNAL_PROB_LIMIT_VALS(rv)
        compare(got, vals, probs, what)
    elif k == 'add':
        X = L.RV(case[1], case[2])
        got = X + L.RV([0], [1])
        compare(got, X.vals, L.RV(case[1], case[2]).probs, what)
        need(X.probs == L.RV(case[1], case[2]).probs, what + ': operand changed')
        got = X * L.RV([2], [1])
        compare(got, [2 * v for v in X.vals], X.probs, what)
    elif k == 'mix':
        X = L.RV(case[1], case[2])
        got = L.RV.from_rvs([X], [3])
        compare(got, X.vals, X.probs, what)
        need(X.probs == L.RV(case[1], case[2]).probs, what + ': operand changed')
    elif k == 'sel':
        _, n, s, pos = case
        X = L.roll(n, s)
        got = pos @ X
        need(len(got.vals) == s and sum(got.probs) > 0, what)
    elif k == 'roll':
        _, n, s = case
        X = L.roll(n, s)
        law = nfold(side_law(('num', s)), n)
        tot = law.total()
        gt = sum(X.probs)
        need(list(X.vals) == sorted(law), what)
        for v, q in zip(X.vals, X.probs):
            need(abs(Fraction(q, gt) - Fraction(law[v], tot)) < Fraction(1, 10 ** 14), what + ': probability of %r' % v)
    elif k == 'limit':
        rv = L.RV(case[1], case[2])
        p0 = rv.probs
        got = R._INTERNAL_PROB_LIMIT_VALS(rv)
        need(got.probs == p0, what)
