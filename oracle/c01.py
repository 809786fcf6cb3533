"""C01 construction"""
import itertools
import math
from .base import *

CONT = ['list', 'tuple', 'gen', 'iter']


def mk(kind, xs):
    if kind == 'tuple':
        return tuple(xs)
    if kind == 'gen':
        return (x for x in xs)
    if kind == 'iter':
        return iter(list(xs))
    return list(xs)


def fixed(g):
    for n in range(0, 4):
        for vals in itertools.product((-1, 0, 1, 2), repeat=n):
            for probs in itertools.product((0, 1, 2, 3), repeat=n):
                if n == 3 and (hash((vals, probs)) % 3):
                    continue
                yield ('rv', vals, probs, None, False, False, 'list')
    for ign in (False, True):
        for vals, probs in [([], []), ([1, 2], [0, 0]), ([3], [0]), ([1, 1, 2], [0, 0, 4]), ([True, False, 1], [2, 3, 4]),
                            ([1.5, 1.2, -1.5, -1.2], [1, 1, 1, 1]), ([2, 2.0], [1, 1]), ([5, 5, 5], [2, 2, 2])]:
            for tr in (None, True, False):
                for st in (False, True):
                    yield ('rv', vals, probs, tr, st, ign, 'list')
    yield ('bad', [1, 2], [1])
    yield ('bad', [1], [1, 1])
    yield ('bad', [], [1])
    yield ('bad', [1, 2, 3], [1, -1, 1])
    yield ('bad', [1], [-1])
    yield ('bad', [1, 1], [2, -1])
    yield ('bad', [1, 2], [1, 0.5])
    for x in (0, 1, -3, 2.5, True, False):
        yield ('const', x)
    for s in ([], [1, 1, 2], [3, ('list', [1, ('list', [2, 2])]), 1], [('rv', [1, 2], [1, 3]), 5], [True, False], [0.5, 0.5, 1]):
        for kind in ('seq', 'list', 'tuple'):
            yield ('from_seq', (kind, s))
    yield ('from_seq', ('range', 1, 7))
    yield ('str', ['a', 'b', 'a', 'c'], [1, 2, 3, 4])
    for n in (10, 17, 33, 50, 65, 100, 129, 200, 257, 400, 1001, 1100):
        for at in (0, n // 2, n - 1):
            p = [6] * n
            p[at] = 3
            yield ('rv', list(range(n)), p, None, False, False, 'list')
            p = [2] * n
            p[at] = 5
            yield ('rv', [(i * 7919) % n for i in range(n)], p, None, False, False, 'gen')
            yield ('rv', [(i * 7) % (n // 2) for i in range(n)], p, None, False, False, 'tuple')
    yield ('str', ['b', 'a', 3, 'b', 3], [1, 2, 3, 4, 0])


def random(g):
    r = g.r
    while True:
        n = r.choice((1, 2, 3, 4, 5, 6, 8, 12, 20))
        x = r.random()
        if x < .06:
            probs = [g.weight() for _ in range(n)]
            vals = [g.val() for _ in range(n)]
            if r.random() < .5:
                probs[r.randrange(n)] = -r.choice((1, 2, 100, abs(r.choice(g.big)) + 1))
            elif r.random() < .5:
                vals.append(1)
            else:
                probs.append(1)
            yield ('bad', vals, probs)
            continue
        if x < .12:
            yield ('str', [r.choice(('a', 'b', 'ab', 'A', '1', '', 2, 3)) for _ in range(n)], [g.weight() for _ in range(n)])
            continue
        if x < .2:
            yield ('from_seq', (r.choice(('seq', 'list', 'tuple')), [g.val() if r.random() < .8 else (('rv', [g.val() for _ in range(2)], [1, 2]) if r.random() < .5 else ('list', [g.val() for _ in range(r.randint(0, 3))])) for _ in range(n)]))
            continue
        vals = [g.val() for _ in range(n)]
        if r.random() < .1:
            vals = [bool(v) if r.random() < .5 else v for v in vals]
        probs = [g.weight() for _ in range(n)]
        m = r.choice((1, 1, 1, 2, 3, 6, 7, 60, 10 ** 6, 10 ** 25))
        probs = [p * m for p in probs]
        if r.random() < .1:
            _, vals, probs = g.die(r.choice((5, 12)))
        yield ('rv', vals, probs, r.choice((None, None, True, False)), r.random() < .2, r.random() < .2, r.choice(CONT))


def spec_canon(rv, law, ign, what):
    canonical(rv, what)
    keep = {v: w for v, w in law.items() if not (ign and w == 0)}
    if not keep:
        need(rv.vals == (0,) and rv.probs == (1,), '%s: nothing left must be the constant 0, got %r %r' % (what, rv.vals, rv.probs))
        return
    need(set(rv.vals) == set(keep) and len(rv.vals) == len(keep), '%s: outcomes %r, expected %r' % (what, rv.vals, sorted(keep)))
    need(len(rv.probs) == len(rv.vals), what + ': lengths')
    gg = math.gcd(*keep.values()) or 1
    want = tuple(keep[v] // gg for v in sorted(keep))
    need(rv.probs == want, '%s: weights %r, expected %r' % (what, rv.probs, want))


def check(case):
    L = load()
    if case[0] == 'rv':
        _, vals, probs, tr, st, ign, cont = case
        with settings(RV_TRUNC=st, RV_IGNORE_ZERO_PROBS=ign):
            rv = L.RV(mk(cont, vals), mk(cont, probs)) if tr is None else L.RV(mk(cont, vals), mk(cont, probs), truncate=tr)
        t = st if tr is None else tr
        vv = [int(v) if (t or isinstance(v, bool)) else v for v in vals]
        spec_canon(rv, Law.of(vv, probs), ign, 'RV(%r, %r)' % (vals, probs))
        if not t and not any(isinstance(v, float) for v in vals):
            need(all(type(v) is int for v in rv.vals), 'integer outcomes became %r' % (rv.vals,))
    elif case[0] == 'bad':
        try:
            L.RV(list(case[1]), list(case[2]))
        except Exception as e:
            need(isinstance(e, (AssertionError, ValueError, TypeError)), 'RV(%r, %r) raised %r' % (case[1], case[2], e))
            return
        raise Fail('RV(%r, %r) was accepted' % (case[1], case[2]))
    elif case[0] == 'const':
        rv = L.RV.from_const(case[1])
        spec_canon(rv, Law({int(case[1]) if isinstance(case[1], bool) else case[1]: 1}), False, 'from_const(%r)' % case[1])
    elif case[0] == 'from_seq':
        rv = L.RV.from_seq(build(case[1]))
        spec_canon(rv, ref(case[1]), False, 'from_seq(%r)' % (case[1],))
    elif case[0] == 'str':
        S = sub('string_rvs').StringVal
        seq = L.StringSeq(tuple(case[1]))
        rv = L.RV(list(seq), case[2])
        labels = [x if isinstance(x, int) else ('s', x) for x in case[1]]
        law = Law.of(labels, case[2])
        got = [x if isinstance(x, int) else ('s', x.keys[0]) for x in rv.vals]
        key = lambda x: (1, x[1]) if isinstance(x, tuple) else (0, x)
        need(got == sorted(law, key=key), 'text outcomes %r, expected %r' % (got, sorted(law, key=key)))
        gg = math.gcd(*law.values()) or 1
        need(rv.probs == tuple(law[x] // gg for x in got), 'text weights %r' % (rv.probs,))
