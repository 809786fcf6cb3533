"""C13 blank die"""
import operator as op
from .base import *
from .c02 import ALL, CMP

OTHERS = [('num', 0), ('num', 3), ('num', -2), ('num', 1.5), ('num', True), ('seq', [1, 4]), ('seq', []), ('rv', [1, 2], [1, 3]), ('roll', 2, ('num', 3)), ('rv', [0], [1]), ('blank',)]


def fixed(g):
    for o in list(ALL):
        for x in OTHERS:
            yield ('bin', o, x, 'l')
            yield ('bin', o, x, 'r')
            yield ('spec', o, x, 'l')
            yield ('spec', o, x, 'r')
        yield ('bin', o, ('list', [1, 2]), 'l')
        yield ('bin', o, ('list', [1, 2]), 'r')
    for u in ('neg', 'pos', 'not', 'abs', 'round', 'floor', 'ceil', 'trunc'):
        yield ('un', u)
    for s in (0, 1, 2, -1, True, [], [1], [0], [2], [1, 1], [1, 2], [2, 1], [2, 3], [1, 0], [1, 1, 1], [3, 1, 1]):
        for sp in (False, True):
            yield ('sel', s, sp)
    yield ('bool',)
    yield ('misc',)


def random(g):
    r = g.r
    while True:
        x = r.choice((g.die(4), ('num', g.val()), g.seq(4), ('roll', r.randint(1, 3), g.sdie(3))))
        yield (r.choice(('bin', 'bin', 'bin', 'spec')), r.choice(list(ALL)), x, r.choice('lr'))


def is_blank(x, special=False):
    L = load()
    return isinstance(x, L.BlankRV) and bool(x._special_null) == special


def same(got, x, X, what):
    L = load()
    if x[0] == 'blank':
        need(is_blank(got), what + ': got %r' % (type(got),))
    elif x[0] in ('rv', 'roll'):
        need(isinstance(got, L.RV) and got.vals == X.vals and got.probs == X.probs, what + ': got %r' % (got,))
    elif x[0] in ('seq', 'list'):
        need((isinstance(got, (L.Seq, list)) and list(got) == list(X)) or (not isinstance(got, L.BlankRV) and got == sum(flat(x))), what + ': got %r' % (got,))
    else:
        need(not isinstance(got, (L.BlankRV, L.RV)) and got == X, what + ': got %r' % (got,))


def check(case):
    import math
    L = load()
    k = case[0]
    if k == 'bin':
        _, o, x, side = case
        X, Bk = build(x), L.BlankRV()
        rf, _f = ALL[o]
        if x[0] == 'list' and side == 'r' and o in ('+', '*', '%') and False:
            return
        what = '%s %s %s' % (('blank', o, x) if side == 'l' else (x, o, 'blank'))
        got = rf(Bk, X) if side == 'l' else rf(X, Bk)
        if o == '+' or o == '|':
            same(got, x, X, what)
        elif o == '-':
            if side == 'r' or x[0] == 'blank':
                same(got, x, X, what)
            elif x[0] in ('rv', 'roll'):
                need(isinstance(got, L.RV), what)
                same_law(law_of(got), ref(x).map(lambda v: -v), what)
            elif x[0] in ('seq', 'list'):
                need(not isinstance(got, L.BlankRV) and got == -sum(flat(x)), what + ': got %r' % (got,))
            else:
                need(not isinstance(got, (L.BlankRV, L.RV)) and got == -X, what + ': got %r' % (got,))
        else:
            need(is_blank(got), what + ': must be blank, got %r' % (got if not hasattr(got, '_special_null') else 'special blank',))
        need(not Bk._special_null, what + ': changed the blank die')
    elif k == 'spec':
        # the "nothing rolled" blank (blank number of dice): absorbing for arithmetic, 1 for tests
        _, o, x, side = case
        X, Bk = build(x), L.BlankRV(_special_null=True)
        rf, _f = ALL[o]
        if x[0] == 'blank':
            return
        what = '%s %s %s' % (('special blank', o, x) if side == 'l' else (x, o, 'special blank'))
        got = rf(Bk, X) if side == 'l' else rf(X, Bk)
        if o in CMP or o in '|&':
            need(not isinstance(got, (L.BlankRV, L.RV)) and got == 1, what + ': got %r' % (type(got),))
        else:
            need(is_blank(got, True), what + ': got %r' % (type(got),))
    elif k == 'sel':
        _, s, sp = case
        Bk = L.BlankRV(_special_null=sp)
        multi = isinstance(s, (list, tuple))
        got = (L.Seq(*s) if multi else s) @ Bk
        first = all(x == 1 for x in s) if multi else s == 1
        if not sp:
            need(is_blank(got), '%r @ blank: %r' % (s, got))
        elif first:
            need(is_blank(got, True), '%r @ nothing rolled: %r' % (s, got))
        else:
            need(not isinstance(got, L.BlankRV) and got == 0, '%r @ nothing rolled: %r' % (s, got))
    elif k == 'un':
        b = L.BlankRV()
        f = {'neg': op.neg, 'pos': op.pos, 'not': op.invert, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[case[1]]
        need(is_blank(f(b)), '%s blank: %r' % (case[1], f(b)))
    elif k == 'bool':
        for b in (L.BlankRV(), L.BlankRV(_special_null=True)):
            try:
                bool(b)
            except TypeError:
                continue
            raise Fail('a blank die was used as a truth value')
    else:
        need(len(L.BlankRV()) == 0 and is_blank(L.roll(3, L.BlankRV())) and is_blank(L.roll(3, L.Seq())) and is_blank(L.roll(L.Seq())), 'rolling a blank die')
        need(is_blank(L.roll(L.BlankRV(), 6), True), 'rolling a blank number of dice')
        need(is_blank(3 @ L.BlankRV()), 'selecting from a blank die')
        try:
            L.BlankRV() @ 3
        except TypeError:
            return
        raise Fail('a blank die was accepted as position selector')
