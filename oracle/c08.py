"""C08 sequences"""
import operator as op
from .base import *
from .c02 import CMP, ALL, ARITH, BOOL


def fixed(g):
    seqs = [[], [1], [0], [3, 1, 2], [1, 2], [2, 1], [1, 2, 3], [-1, 1], [0.5, 2], [0, 0], [5, 5, 5, 5], [1, 2, 0], [2, -2]]
    for e in (-1, 3, 6, 9, 10, 15, 16, 18, 19, 20, 30, 300):
        for d in (-1, 0, 1):
            x = -10 ** e + d if e >= 0 else -2 ** 63 + d
            yield ('cmp', [1], [1, x])
            yield ('cmp', [1, x], [1])
    yield ('cmp', [1], [1, -1e308])
    for s in seqs:
        for i in range(-2, 7):
            yield ('at', s, i)
        for t in seqs:
            yield ('cmp', s, t)
            if all(isinstance(x, int) for x in s):
                yield ('sel', s, t)
        for x in (-1, 0, 1, 2, 0.5, 5, True):
            yield ('cmpn', s, x)
            yield ('arith', s, x)
        yield ('basic', s)
        for n in (0, 7, 123, 9040, -56, 100000):
            if all(isinstance(x, int) for x in s):
                yield ('digits', s, n)
    for c in ([('rv', [1, 2], [1, 3]), 5, ('list', [1, ('tuple', [2, ('list', [])])])], [('list', []), ('list', [('list', [('list', [4])])])], [('range', 1, 4), 2, ('seq', [7, 8])], [('rv', [3, 3, 1], [1, 1, 0]), ('rv', [0], [1]), 9], [('blank',), 4], [True, 1.5]):
        yield ('build', c)
    for a in range(-2, 13):
        for b in (0, 5, 10, 123, -47, 99, 10 ** 6):
            yield ('im', a, b)
    for a in (0, 1, -1, 9, 10, -100, 12345, True):
        yield ('il', a)
    for a in (0, 1, -1, 5, True, False):
        for b in (0, 1, 2, False, -3):
            yield ('ib', a, b)
    for l in range(-3, 4):
        for r in range(-3, 5):
            yield ('range', l, r)
    yield ('range', 1.0, 3.7)
    yield ('one', [4, 5, 6])
    yield ('rangerv',)


def random(g):
    r = g.r

    def s(m=6, ints=False):
        return [g.ival() if ints else g.val() for _ in range(r.randint(0, m))]
    while True:
        x = r.random()
        if x < .15:
            yield ('at', s(10), r.choice((r.randint(-3, 12), g.ival())))
        elif x < .35:
            a = s()
            b = s() if r.random() < .4 else (a[:r.randint(0, len(a))] + s(2))
            yield ('cmp', a, b)
        elif x < .5:
            yield ('sel', [r.randint(-2, 8) for _ in range(r.randint(0, 6))], s(8))
        elif x < .6:
            a = s()
            yield ('cmpn', a, r.choice(a + [g.val()]))
        elif x < .72:
            yield ('arith', s(), r.choice((g.val(), ('seq', s(3)), g.sdie(3))))
        elif x < .8:
            yield ('digits', [r.randint(-1, 9) for _ in range(r.randint(0, 4))], r.choice((r.randint(-10 ** 6, 10 ** 6), g.ival())))
        elif x < .9:
            def nest(dep):
                k = r.random()
                if k < .6 or dep > 3:
                    return g.val()
                if k < .7:
                    return g.sdie(3)
                return (r.choice(('list', 'tuple', 'seq')), [nest(dep + 1) for _ in range(r.randint(0, 3))])
            yield ('build', [nest(0) for _ in range(r.randint(0, 5))])
        elif x < .93:
            yield ('im', r.randint(-2, 12), r.choice((r.randint(-10 ** 9, 10 ** 9), g.ival())))
        elif x < .95:
            yield ('il', g.ival())
        elif x < .97:
            yield ('basic', s(8))
        else:
            yield ('range', r.randint(-20, 20), r.randint(-20, 25))


def at(s, i):
    return s[i - 1] if 1 <= i <= len(s) else 0


def check(case):
    L = load()
    U = sub('utils')
    k = case[0]
    what = repr(case)
    if k == 'at':
        _, s, i = case
        S = L.Seq(*s)
        need(S[i] == at(s, i), what + ': S[i]=%r' % (S[i],))
        need((i @ S) == at(s, i), what + ': i@S=%r' % (i @ S,))
    elif k == 'basic':
        s = case[1]
        S = L.Seq(*s)
        need(len(S) == len(s) and tuple(S) == tuple(s) and S.sum() == sum(s) and S.sum() == sum(s), what)
        need((~S) == (1 if sum(s) == 0 else 0), what + ' not')
        need(tuple(L.Seq(s)) == tuple(s) and tuple(L.Seq(S)) == tuple(s) and tuple(L.get_seq(S, s)) == tuple(s) + tuple(s), what + ' rebuild')
        need(L.Seq.seqs_are_equal(S, list(s)) and not L.Seq.seqs_are_equal(S, list(s) + [1]), what + ' seqs_are_equal')
        need(L.myLen(S) == len(s), what + ' myLen')
    elif k == 'cmp':
        _, s, t = case
        S, T_ = L.Seq(*s), L.Seq(*t)
        n = max(len(s), len(t))
        a = list(s) + [float('-inf')] * (n - len(s))
        b = list(t) + [float('-inf')] * (n - len(t))
        for o, f in CMP.items():
            w = all(f(x, y) for x, y in zip(a, b)) if o != '!=' else not all(x == y for x, y in zip(a, b))
            for kind, got in (('Seq', f(S, T_)), ('list', f(S, list(t))), ('tuple', f(S, tuple(t)))):
                need(bool(got) == w and not hasattr(got, '_seq'), what + ' %s %s: %r' % (o, kind, got))
    elif k == 'cmpn':
        _, s, x = case
        S = L.Seq(*s)
        for o, f in CMP.items():
            need(f(S, x) == sum(1 for y in s if f(y, x)), what + ' S %s x: %r' % (o, f(S, x)))
            need(f(x, S) == sum(1 for y in s if f(x, y)), what + ' x %s S: %r' % (o, f(x, S)))
    elif k == 'sel':
        _, ps, t = case
        T_ = L.Seq(*t)
        w = sum(at(t, p) for p in ps)
        need((L.Seq(*ps) @ T_) == w, what + ': %r' % (L.Seq(*ps) @ T_,))
        need((L.Seq(*ps) @ list(t)) == w, what + ' (list)')
        need((list(ps) @ T_) == w, what + ' (list left)')
        need(len(t) == len(T_), what)
    elif k == 'arith':
        _, s, x = case
        S = L.Seq(*s)
        if isinstance(x, (tuple, list)) and x[0] == 'seq':
            y, lx = L.Seq(*x[1]), Law({sum(x[1]): 1})
        elif isinstance(x, (tuple, list)):
            y, lx = build(x), ref(x)
        else:
            y, lx = x, Law({x: 1})
        for o, (rf, f) in ALL.items():
            if o in CMP and not hasattr(y, 'vals'):
                continue
            for left in (True, False):
                if o in CMP and not left:
                    continue
                l2 = Law({sum(s): 1})
                try:
                    if o == '**':
                        vs = [abs(v) for v in list(l2) + list(lx)]
                        if max(vs) > 12 or min(list(lx)) < 0 or min(list(l2)) < 0:
                            continue
                    want = l2.comb(lx, f) if left else lx.comb(l2, f)
                except (ZeroDivisionError, OverflowError):
                    continue
                if any(isinstance(v, complex) for v in want):
                    continue
                got = rf(S, y) if left else rf(y, S)
                w2 = what + ' %s %s -> %r' % (o, 'left' if left else 'right', got if not hasattr(got, 'vals') else (got.vals, got.probs))
                if hasattr(y, 'vals'):
                    need(hasattr(got, 'vals'), w2)
                    same_law(law_of(got), want, w2)
                else:
                    need(not hasattr(got, 'vals') and not hasattr(got, '_seq') and got == list(want)[0], w2)
    elif k == 'digits':
        _, ps, n = case
        d = [int(c) for c in str(abs(n))]
        got = L.Seq(*ps) @ n
        need(got == sum(at(d, p) for p in ps), what + ': %r' % got)
    elif k == 'build':
        c = case[1]
        objs = [build(x) if isinstance(x, (tuple, list)) else x for x in c]
        w = tuple(flat(('list', c)))
        for f in (L.Seq, L.get_seq):
            S = f(*objs)
            need(tuple(S) == w and len(S) == len(w), what + ': %s gives %r, expected %r' % (f.__name__, tuple(S), w))
            S = f(list(objs))
            need(tuple(S) == w, what + ': nested %s gives %r' % (f.__name__, tuple(S)))
    elif k == 'im':
        _, a, b = case
        d = [int(c) for c in str(abs(b))]
        need(L.myMatmul(a, b) == at(d, a), what + ': %r' % L.myMatmul(a, b))
        need(L.myMatmul(a, L.Seq(*d)) == at(d, a), what + ' seq')
    elif k == 'il':
        need(L.myLen(case[1]) == len(str(abs(int(case[1])))), what + ': %r' % L.myLen(case[1]))
        need(L.myInvert(case[1]) == (1 if case[1] == 0 else 0), what + ' not: %r' % L.myInvert(case[1]))
    elif k == 'ib':
        _, a, b = case
        need(L.myAnd(a, b) == (1 if a and b else 0), what + ' and: %r' % L.myAnd(a, b))
        need(L.myOr(a, b) == (1 if a or b else 0), what + ' or: %r' % L.myOr(a, b))
        need(L.myAnd(L.Seq(a), b) == (1 if a and b else 0) and L.myOr(L.Seq(a), b) == (1 if a or b else 0), what + ' seq and/or')
        need(L.myAnd(b, L.Seq(a)) == (1 if a and b else 0) and L.myOr(b, L.Seq(a)) == (1 if a or b else 0), what + ' seq and/or right')
    elif k == 'range':
        _, l, r = case
        need(list(L.myrange(l, r)) == list(range(int(l), int(r) + 1)), what + ': %r' % list(L.myrange(l, r)))
    elif k == 'one':
        S = L.Seq(*case[1])
        S.set_one_indexed(False)
        need([S[i] for i in range(-1, 5)] == [0] + case[1] + [0] * 2, what)
        S.set_one_indexed(True)
        need([S[i] for i in range(0, 5)] == [0] + case[1] + [0], what)
    elif k == 'rangerv':
        for args in ((L.roll(6), 3), (1, L.roll(6))):
            try:
                L.myrange(*args)
            except TypeError:
                continue
            raise Fail('range accepts a die')
