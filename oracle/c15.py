"""C15 text outcomes"""
import itertools
import operator as op
from .base import *

LAB = ['a', 'b', 'ab', 'c', 'A', '', 'zz', '10', 'a b']


def fixed(g):
    vs = [{}, {'a': 1}, {'b': 1}, {'a': 2}, {'a': 1, 'b': 1}, {'b': 1, 'a': 1}, {'b': 2, 'a': 1}, {'a': 1, 'c': 1}, {'ab': 1}, {'c': 1, 'b': 1, 'a': 1}, {'a': -1}, {'a': 1.5}, {'b': 1, 'c': 3}]
    for a in vs[1:]:
        for b in vs[1:]:
            yield ('pair', a, b)
            yield ('add', a, b)
    for a, b, c in itertools.product(vs[1:8], repeat=3):
        yield ('triple', a, b, c)
    for a in vs[1:]:
        for n in (0, 1, -5, 2.5, 10 ** 9):
            yield ('num', a, n)
    yield ('die', ['a', 'b', 'c'], 3)
    yield ('die', ['b', 'a', 1], 3)
    yield ('assoc', ['a', 'b', 'a', 3])


def random(g):
    r = g.r

    def v():
        ks = r.sample(LAB, r.randint(1, 4))
        return {k: r.choice((1, 1, 2, 3, -1, 0, 1.5)) for k in ks}
    while True:
        x = r.random()
        a = v()
        b = v() if r.random() < .4 else {k: (c if r.random() < .7 else c + 1) for k, c in r.sample(list(a.items()), r.randint(1, len(a)))}
        if x < .35:
            yield ('pair', a, b)
        elif x < .6:
            yield ('triple', a, b, v() if r.random() < .5 else {**b, r.choice(LAB): r.choice((1, 2))})
        elif x < .8:
            yield ('add', a, b)
        elif x < .9:
            yield ('num', a, g.val())
        elif x < .95:
            yield ('die', [r.choice(LAB + [1, 2]) for _ in range(r.randint(1, 4))], r.randint(2, 4))
        else:
            yield ('assoc', [r.choice(LAB + [1, 2.5]) for _ in range(r.randint(2, 5))])


def check(case):
    L = load()
    V = sub('string_rvs').StringVal

    def mk(d):
        return V(tuple(d), dict(d))
    k = case[0]
    what = repr(case)

    def lt(a, b):
        return sorted(a.items()) < sorted(b.items())
    if k == 'pair':
        a, b = case[1], case[2]
        A, Bv = mk(a), mk(b)
        eq = a == b
        r = [bool(A < Bv), bool(A == Bv), bool(A > Bv)]
        need(sum(r) == 1, what + ': less/equal/greater are %r' % r)
        need(r[1] == eq, what + ': equality is %r' % r[1])
        need(bool(A <= Bv) == (r[0] or r[1]) and bool(A >= Bv) == (r[2] or r[1]) and bool(A != Bv) == (not r[1]), what + ': <=, >=, != disagree')
        need(bool(Bv > A) == r[0] and bool(Bv < A) == r[2] and bool(Bv == A) == r[1], what + ': converse disagrees')
        if eq:
            need(hash(A) == hash(Bv), what + ': equal but different hashes')
            perm = dict(reversed(list(a.items())))
            need(hash(A) == hash(mk(perm)) and A == mk(perm), what + ': hash depends on the order of construction')
            need(len({A, Bv, mk(perm)}) == 1, what + ': kept apart')
    elif k == 'triple':
        vs = [mk(x) for x in case[1:]]
        for p in itertools.permutations(vs):
            if p[0] < p[1] and p[1] < p[2]:
                need(p[0] < p[2], what + ': not transitive')
            if p[0] <= p[1] and p[1] <= p[2]:
                need(p[0] <= p[2], what + ': <= not transitive')
        s1 = sorted(vs)
        s2 = sorted(reversed(vs))
        need(all(x == y for x, y in zip(s1, s2)), what + ': sorting depends on the order given')
    elif k == 'add':
        a, b = case[1], case[2]
        sa, sb = dict(a), dict(b)
        A, Bv = mk(a), mk(b)
        X, Y = A + Bv, Bv + A
        want = {}
        for d in (a, b):
            for kk, c in d.items():
                want[kk] = want.get(kk, 0) + c
        need(dict(X.data) == want and dict(Y.data) == want and tuple(X.keys) == tuple(sorted(want)), what + ': sum %r' % (X.data,))
        need(X == Y and hash(X) == hash(Y) and not X != Y and not X < Y and not X > Y, what + ': a+b and b+a differ')
        need(dict(A.data) == sa and dict(Bv.data) == sb, what + ': adding changed an operand')
        need(len({X: 1, Y: 2}) == 1, what + ': a+b and b+a are kept apart')
    elif k == 'num':
        a, n = case[1], case[2]
        A = mk(a)
        need((A > n) is True or A > n, what)
        need(A > n and A >= n and not A < n and not A <= n and A != n and not (A == n), what + ': order against a number')
        need(n < A and n <= A and not n > A, what + ': order of a number against it')
        X, Y = A + n, n + A
        need(X == Y and hash(X) == hash(Y), what + ': a+n and n+a differ')
        Z = (A + n) + A
        W = A + (A + n)
        need(Z == W and hash(Z) == hash(W), what + ': regrouping changes the sum')
    elif k == 'die':
        X = L.RV.from_seq(L.get_seq(*case[1]))
        n = case[2]
        P = L.roll(n, X)
        key = [v if not hasattr(v, 'keys') else (tuple(v.keys), tuple(v.data[q] for q in v.keys)) for v in P.vals]
        need(len(set(key)) == len(key), what + ': an outcome is listed twice: %r' % (P.vals,))
        need(all(P.vals[i] < P.vals[i + 1] for i in range(len(P.vals) - 1)), what + ': outcomes not increasing')
        need(sum(P.probs) * (math.gcd(*[1]) or 1) > 0, what)
        m = len(set(case[1]))
        tot = len(case[1]) ** n
        need(tot % sum(P.probs) == 0, what + ': total weight %r' % sum(P.probs))
    elif k == 'assoc':
        xs = [V.from_str(x) if isinstance(x, str) else x for x in case[1]]
        if not any(hasattr(x, 'keys') for x in xs):
            return
        ref_ = None
        for p in itertools.islice(itertools.permutations(xs), 24):
            s = p[0]
            for q in p[1:]:
                s = s + q
            if ref_ is None:
                ref_ = s
            need(s == ref_ and hash(s) == hash(ref_) and len({s, ref_}) == 1, what + ': order of adding matters: %r vs %r' % (s, ref_))
