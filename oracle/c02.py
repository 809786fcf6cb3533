"""C02 operators"""
import operator as op
import itertools
import math
from .base import *

ARITH = {'+': op.add, '-': op.sub, '*': op.mul, '//': op.floordiv, '/': op.truediv, '**': op.pow, '%': op.mod}
CMP = {'==': op.eq, '!=': op.ne, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge}
BOOL = {'|': (op.or_, lambda a, b: 1 if a or b else 0), '&': (op.and_, lambda a, b: 1 if a and b else 0)}
ALL = {**{k: (f, f) for k, f in ARITH.items()}, **{k: (f, lambda a, b, f=f: 1 if f(a, b) else 0) for k, f in CMP.items()}, **BOOL}
UN = {'neg': (op.neg, lambda v: -v), 'pos': (op.pos, lambda v: v), 'abs': (abs, abs), 'round': (round, lambda v: round(v, 0)),
      'floor': (math.floor, math.floor), 'ceil': (math.ceil, math.ceil), 'trunc': (math.trunc, math.trunc)}


def fixed(g):
    dice = [('rv', [0], [1]), ('rv', [1, 2], [1, 3]), ('rv', [-1, 0, 2], [2, 1, 1]), ('rv', [1, 1.5], [1, 2]), ('rv', [0, 3], [0, 5]), ('roll', 2, ('num', 3)),
            ('rv', [2, 3, 5], [6, 10, 15]), ('rv', [-2, 7], [4, 1])]
    others = dice + [('num', 0), ('num', 2), ('num', -3), ('num', 0.5), ('num', True), ('seq', [1, 2]), ('seq', []), ('seq', [2, -2]), ('list', [1, 3]), ('tuple', [4]), ('range', 1, 4)]
    for o in ALL:
        for a in dice:
            for b in others:
                yield ('bin', o, a, b)
                if b[0] not in ('rv', 'roll'):
                    yield ('bin', o, b, a)
    for o in ALL:
        if o in CMP:
            continue
        for a in [('seq', [1, 2]), ('seq', [5]), ('seq', []), ('seq', [-1, 0.5])]:
            for b in [('num', 2), ('num', -1), ('seq', [3, 1]), ('num', 0.5), ('num', 0)]:
                yield ('bin', o, a, b)
                yield ('bin', o, b, a)
    for u in UN:
        for a in dice + [('rv', [-2.5, -1.5, 0.5, 1.5, 2.5, 2.4999], [1, 2, 3, 4, 5, 6])]:
            yield ('un', u, a)
    for a in dice + [('rv', [0, 1], [1, 0]), ('rv', [0], [7]), ('rv', [1], [1]), ('rv', [0, 0], [1, 2])]:
        yield ('not', a)
    for nd in (-1, 0, 1, 2):
        yield ('roundn', ('rv', [1.25, 1.35, 123, -1.26], [1, 2, 3, 4]), nd)
    yield ('bin', '+', ('rv', [0, 1], [1, 10 ** 15]), ('rv', [0, 1], [1, 9 * 10 ** 15 - 7]))
    yield ('bin', '*', ('rv', [1, 2, 3], [10 ** 15, 3, 7]), ('rv', [1, 2, 5], [10 ** 15, 1, 1]))
    yield ('srv', ['a', 'b', 'c'], ['a', 'b'])
    yield ('srv', ['a', 'a', 2], ['b', 'a'])
    yield ('srv', ['a', 'b'], 3)
    yield ('alias', '+', ('rv', [1, 2], [1, 3]))
    for o in ALL:
        yield ('alias', o, ('rv', [1, 2, 4], [1, 3, 2]))


def random(g):
    r = g.r
    while True:
        x = r.random()
        if x < .1:
            yield ('un', r.choice(list(UN)), g.die(8))
        elif x < .14:
            yield ('not', g.die(3))
        elif x < .17:
            yield ('alias', r.choice(list(ALL)), g.die(6))
        elif x < .2:
            yield ('srv', [r.choice('abcd') for _ in range(r.randint(1, 4))], [r.choice(('a', 'b', 1, 2)) for _ in range(r.randint(1, 3))])
        else:
            o = r.choice(list(ALL))
            a = g.die(6)
            y = r.random()
            if y < .55:
                b = g.die(r.choice((3, 6, 10)))
            elif y < .75:
                b = ('num', g.val())
            elif y < .9:
                b = g.seq()
            else:
                b = (r.choice(('list', 'tuple')), [g.val() for _ in range(r.randint(0, 4))])
            if r.random() < .5 and b[0] not in ('list', 'tuple'):
                a, b = b, a
            elif r.random() < .3:
                a, b = b, a
            if o == '**':     # keep powers finite and small
                a = ('rv', [r.choice((0, 1, 2, 3, -1, -2, 0.5)) for _ in range(3)], [1, 2, 3])
                b = r.choice((('rv', [0, 1, 2, 3], [1, 1, 2, 5]), ('num', r.choice((0, 1, 2, 3))), ('seq', [1, 1])))
                if r.random() < .3:
                    a, b = ('num', r.choice((2, 3, -1, 0))), ('rv', [0, 1, 2, 4], [3, 1, 1, 1])
            yield ('bin', o, a, b)


def opnd(d):
    if d[0] in ('seq', 'list', 'tuple', 'range'):
        f = flat(d) if d[0] != 'range' else list(range(d[1], d[2]))
        return Law({sum(f): 1})
    return ref(d)


def check(case):
    L = load()
    if case[0] == 'bin':
        _, o, a, b = case
        rf, f = ALL[o]
        A, Bv = build(a), build(b)
        try:
            want = opnd(a).comb(opnd(b), f)
            err = None
        except (ZeroDivisionError, OverflowError, TypeError) as e:
            want, err = None, e
        if want is not None and any(isinstance(v, complex) for v in want):
            return
        try:
            got = rf(A, Bv)
        except Exception as e:
            if err is not None and type(e) is type(err):
                return
            raise Fail('%r %s %r raised %s: %s' % (a, o, b, type(e).__name__, e))
        need(err is None, lambda: '%r %s %r should raise %r' % (a, o, b, err))
        what = '%r %s %r' % (a, o, b)
        if not hasattr(got, 'vals'):
            need(a[0] not in ('rv', 'roll') and b[0] not in ('rv', 'roll'), what + ': result is not a die: %r' % (got,))
            need(len(want) == 1 and not isinstance(got, L.Seq) and got == list(want)[0], '%s: got %r want %r' % (what, got, list(want)))
            return
        canonical(got, what)
        same_law(law_of(got), want, what)
    elif case[0] == 'alias':
        _, o, a = case
        rf, f = ALL[o]
        A = build(a)
        try:
            want = ref(a).comb(ref(a), f)
        except (ZeroDivisionError, OverflowError):
            return
        if any(isinstance(v, complex) for v in want):
            return
        got = rf(A, A)
        what = 'X %s X, X=%r' % (o, a)
        canonical(got, what)
        same_law(law_of(got), want, what)
    elif case[0] == 'un':
        _, u, a = case
        rf, f = UN[u]
        got = rf(build(a))
        canonical(got, '%s %r' % (u, a))
        same_law(law_of(got), ref(a).map(f), '%s %r' % (u, a))
    elif case[0] == 'roundn':
        got = round(build(case[1]), case[2])
        same_law(law_of(got), ref(case[1]).map(lambda v: round(v, case[2])), 'round %r' % (case,))
    elif case[0] == 'not':
        a = case[1]
        got = ~build(a)
        law = ref(a)
        isz = set(law) == {0}
        canonical(got, 'not %r' % (a,))
        same_law(law_of(got), Law({1 if isz else 0: 1}), 'not %r' % (a,))
    elif case[0] == 'srv':
        _, xs, ys = case
        X = L.RV.from_seq(L.get_seq(*xs))
        Y = L.RV.from_seq(L.get_seq(*ys)) if isinstance(ys, list) else ys
        got = X + Y

        def key(v):
            return (('#', v),) if isinstance(v, (int, float)) else tuple(sorted(v.data.items()))

        def add(p, q):
            d = {}
            for k, c in list(p) + list(q):
                k = '_UNIQUE_STRING' if k == '#' else k
                d[k] = d.get(k, 0) + c
            if list(d) == ['_UNIQUE_STRING']:
                return (('#', d['_UNIQUE_STRING']),)
            return tuple(sorted(d.items()))
        lx = Law.of([key(L.StringSeq((x,))._seq[0]) if isinstance(x, str) else (('#', x),) for x in xs], [1] * len(xs))
        yl = ys if isinstance(ys, list) else [ys]
        ly = Law.of([key(L.StringSeq((x,))._seq[0]) if isinstance(x, str) else (('#', x),) for x in yl], [1] * len(yl))
        want = lx.comb(ly, add)
        glist = [key(v) for v in got.vals]
        need(len(glist) == len(set(glist)), 'text sum lists an outcome twice: %r' % (glist,))
        need(all(got.vals[i] < got.vals[i + 1] for i in range(len(got.vals) - 1)), 'text outcomes not increasing %r' % (got.vals,))
        same_law(Law.of(glist, got.probs), want, 'text sum %r + %r' % (xs, ys))
