"""C09 statistics and queries"""
import random as _random
from .base import *


def fixed(g):
    ds = [('rv', [1, 2], [1, 3]), ('rv', [0, 1], [1, 1]), ('rv', [0], [1]), ('rv', [-3, 0, 7], [2, 0, 5]), ('roll', 2, ('num', 6)), ('rv', [1.5, -2], [3, 4]), ('rv', [0, 5, 9], [1, 50, 2]), ('rv', [1, 2, 3, 4], [1, 1, 1, 1]),
          ('rv', [0, 1], [10 ** 20, 1]), ('num', 5), ('rv', [5], [3])]
    for d in ds:
        yield ('stat', d)
        yield ('cdf', d)
        for c in (0, 0.01, 0.1, 0.25, 0.3, 0.5, 0.9, 0.99):
            yield ('cut', d, c)
        for f in (('num', 0), ('num', 1), ('list', [1, 2]), ('seq', [0, 5, 7]), ('rv', [1, 9], [1, 2]), ('list', []), ('list', [0, 1, 2, 3, 4, 5, 9, -3, 7, 1.5, -2])):
            yield ('filter', d, f)
        yield ('roller', d, 7)
    yield ('cdf', ('rv', [1, 2, 3], [2, 2, 2]))
    for xs in (['a', 'b', 'a', 3, 1], [1, 1, 1, 'x', 'y', 2], ['3', 3, '3', 'b'], ['a', 'a', 'b', 'ab', 'ab', 'ab'], ['-1.5', -1, 'x']):
        for c in (0, .1, .2, .21, .35, .5, .8):
            yield ('tcut', xs, c)
    yield ('cdf', ('rv', [0, 1, 2], [0, 3, 3]))


def random(g):
    r = g.r
    while True:
        d = g.die(8) if r.random() < .7 else ('roll', r.randint(1, 4), g.sdie(3))
        x = r.random()
        if x < .25:
            yield ('stat', d)
        elif x < .4:
            yield ('cdf', d)
        elif x < .65:
            yield ('cut', d, r.choice((r.random(), r.random() * .3, r.randint(0, 99) / 100)))
        elif x < .95:
            vs = list(d[1]) if d[0] == 'rv' else [1, 2]
            k = r.randint(0, len(vs))
            pick = r.sample(vs, k) + [g.val() for _ in range(r.randint(0, 2))]
            f = r.choice((('list', pick), ('seq', pick)))
            if len(pick) == 1 and r.random() < .5:
                f = ('num', pick[0])
            elif pick and r.random() < .2:
                f = ('rv', pick, [1] * len(pick))
            yield ('filter', d, f)
        elif x < .97:
            yield ('tcut', [r.choice(('a', 'b', 'ab', '2', 1, 2, -3, '-4')) for _ in range(r.randint(1, 7))], r.choice((0, .15, .3, .5, r.random() * .9)))
        else:
            yield ('roller', d, r.randint(0, 10 ** 6))


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * max(1.0, abs(float(b)), scale)


def check(case):
    L = load()
    k, d = case[0], case[1]
    if k == 'tcut':
        import re
        _, xs, c = case
        X = L.RV.from_seq(L.get_seq(xs))
        vp = X.get_vals_probs(c)
        cnt = {}
        for x in xs:
            key = x if not isinstance(x, str) else ('"%s"' % x if re.match(r'^-?[0-9]+([.][0-9]+)?$', x) else x)
            cnt[key] = cnt.get(key, 0) + 1
        n = len(xs)
        for v, p in vp:
            need(v in cnt and abs(p - cnt[v] / n) < 1e-12, '%r: %r' % (case, vp))
        kept = {v for v, _ in vp}
        gone = [v for v in cnt if v not in kept]
        tot = sum(cnt[v] for v in gone) / n
        need(len(kept) == len(vp) and (not gone if c == 0 else tot < c + 1e-12), '%r: %r' % (case, vp))
        need(all(cnt[v] <= cnt[u] for v in gone for u in kept), '%r: cut a likelier outcome: %r' % (case, vp))
        if c and kept:
            need(tot + min(cnt[u] for u in kept) / n >= c - 1e-12, '%r: more could be cut: %r' % (case, vp))
        return
    X = build(d) if d[0] != 'num' else L.RV.from_const(d[1])
    law = ref(d)
    n = {v: w for v, w in law.norm().items()}
    what = repr(case)
    if k == 'stat':
        m = sum(Fraction(v) * p for v, p in n.items())
        var = sum(Fraction(v) ** 2 * p for v, p in n.items()) - m * m
        scale = max(abs(float(v)) for v in law)
        need(close(X.mean(), float(m), scale), what + ': mean %r, expected %r' % (X.mean(), float(m)))
        s = X.std()
        tol = 1e-7 * max(1.0, scale)
        need(abs(s - math.sqrt(var)) <= tol, what + ': std %r, expected %r' % (s, math.sqrt(var)))
        vp = X.get_vals_probs()
        need([v for v, _ in vp] == sorted(law), what + ': outcomes %r' % (vp,))
        for v, p in vp:
            need(abs(p - float(n.get(v, 0))) < 1e-12, what + ': probability of %r is %r' % (v, p))
        need(abs(sum(p for _, p in vp) - 1) < 1e-9, what + ': probabilities add up to %r' % sum(p for _, p in vp))
    elif k == 'cdf':
        C = X.get_cdf()
        vs = sorted(law)
        acc, w = [], 0
        for v in vs:
            w += law[v]
            acc.append(w)
        gg = math.gcd(*acc) or 1
        need(list(C.vals) == vs, what + ': outcomes %r' % (C.vals,))
        g2 = math.gcd(*C.probs) or 1
        need([p // g2 for p in C.probs] == [a // gg for a in acc], what + ': cumulative weights %r, expected %r' % (C.probs, [a // gg for a in acc]))
    elif k == 'cut':
        c = case[2]
        vp = X.get_vals_probs(c)
        kept = [v for v, _ in vp]
        vs = sorted(law)
        need(kept == [v for v in vs if v in set(kept)], what + ': %r' % (vp,))
        for v, p in vp:
            need(abs(p - float(n.get(v, 0))) < 1e-12, what + ': probability of %r is %r' % (v, p))
        gone = [v for v in vs if v not in set(kept)]
        tot = sum(n.get(v, 0) for v in gone)
        if c == 0:
            need(not gone, what + ': nothing may be cut, lost %r' % gone)
            return
        need(float(tot) < c + 1e-12, what + ': cut outcomes %r have total probability %s' % (gone, float(tot)))
        for v in gone:
            for u in kept:
                need(n.get(v, 0) <= n.get(u, 0), what + ': cut %r but kept the less likely %r' % (v, u))
        if kept:
            nxt = min(n.get(v, 0) for v in kept)
            need(float(tot + nxt) >= c - 1e-12, what + ': %r could also be cut' % (nxt,))
    elif k == 'filter':
        f = case[2]
        F = build(f)
        if f[0] == 'num':
            bad = {f[1]}
        elif f[0] == 'rv':
            bad = set(ref(f))
        else:
            bad = set(flat(f))
        got = X.filter(F)
        rest = {v: w for v, w in law.items() if v not in bad}
        canonical(got, what)
        if not rest:
            need(got.vals == (0,), what + ': nothing left must be the constant 0, got %r' % (got.vals,))
            return
        need(set(got.vals) == set(rest), what + ': outcomes %r, expected %r' % (got.vals, sorted(rest)))
        if sum(rest.values()):
            same_law(law_of(got), Law(rest), what)
    elif k == 'roller':
        st = _random.getstate()
        try:
            _random.seed(case[2])
            one = L.roller(X)
            need(one in set(v for v in n), what + ': rolled %r' % (one,))
            N = 3000
            rs = L.roller(X, N)
            need(len(rs) == N and len(L.roller(X, 0)) == 0 and len(L.roller(X, 1)) == 1, what + ': count')
            for v in set(rs):
                need(v in n, what + ': rolled %r' % (v,))
            for v, p in n.items():
                p = float(p)
                c = sum(1 for x in rs if x == v)
                sd = math.sqrt(N * p * (1 - p)) + 1
                need(abs(c - N * p) < 7 * sd, what + ': %r rolled %d of %d times, probability %r' % (v, c, N, p))
        finally:
            _random.setstate(st)
