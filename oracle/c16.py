"""C16 compiled code has the tree's operators, operands, grouping and block structure"""
from .base import *
from .anydice import *


def all_pairs():
    """every parent/child operator combination, left and right"""
    A, B, C, D = (('var', x) for x in 'ABCD')
    leaf = [lambda a, b, o=o: ('bin', o, a, b) for o in BINS] + [lambda a, b: ('ndm', a, b), lambda a, b: ('dm', a), lambda a, b: ('hash', a), lambda a, b: ('seq', [a, ('range', b, a)]),
            lambda a, b: ('call', ['foo', a, 'to', b]), lambda a, b: ('str', ['t'])] + [lambda a, b, o=o: ('un', o, a) for o in '+-!']
    for p in leaf:
        for c in leaf:
            yield p(c(A, B), C)
            yield p(A, c(B, C))
            yield p(c(A, B), c(C, D))


def fixed(g):
    setup = [('assign', x, ('num', str(i))) for i, x in enumerate('ABCD')] + [('func', ['foo', ('U', None), 'to', ('V', 'n')], [('result', ('bin', '-', ('var', 'U'), ('var', 'V')))])]
    es = list(all_pairs())
    for fl in FLAGSETS:
        for i in range(0, len(es), 60):
            yield (setup + [('out', e, None) for e in es[i:i + 60]], fl, 0, 0, i)
    A, B = ('var', 'A'), ('var', 'B')
    o = lambda n: ('out', ('num', str(n)), None)
    for fl in FLAGSETS:
        for cond in [('num', str(i)) for i in range(6)]:
            yield ([('if', [(cond, [o(1)])], None), o(9)], fl, 0, 0, 0)
            yield ([('if', [(cond, [o(1), o(2)]), (('un', '-', cond), [o(3)]), (('hash', cond), [])], [o(4), ('if', [(cond, [])], [o(5)]), o(6)]), o(9)], fl, 0, 0, 0)
        yield ([('loop', 'A', ('seq', [('range', ('num', '1'), ('num', '3'))]), [('loop', 'B', A, [('out', ('bin', '-', A, B), None), ('assign', 'C', B)]), ('out', ('var', 'C'), None)]), ('out', A, None)], fl, 0, 0, 0)
        yield ([('loop', 'A', ('num', '3'), []), o(1)], fl, 0, 0, 0)
        yield ([('func', ['f', ('A', 'n'), ('B', 's'), ('C', 'd'), ('D', None)], [('if', [(A, [('result', B)])], None), ('loop', 'Z', B, [('if', [(('var', 'Z'), [('result', ('var', 'Z'))])], None)]), ('result', ('var', 'D'))])] +
               [('out', ('call', ['f', ('num', str(i)), ('num', '2'), ('num', '3'), ('num', '4')]), None) for i in range(6)], fl, 0, 0, 0)
        yield ([('func', ['f', ('A', 'n'), ('A', None), 'x', ('A', 's')], [('result', A)]), ('out', ('call', ['f', ('num', '1'), ('num', '2'), 'x', ('num', '3')]), None)], fl, 0, 0, 0)
        yield ([('func', ['f'], []), ('out', ('call', ['f']), None)], fl, 0, 0, 0)
        yield ([('assign', 'A', ('num', '1')), ('func', ['g'], [('result', A)]), ('func', ['h', ('B', None)], [('assign', 'C', B), ('result', ('call', ['g']))]), ('assign', 'A', ('num', '2')), ('out', ('call', ['h', ('num', '5')]), None)], fl, 0, 0, 0)


def random(g):
    r = g.r
    while True:
        prog = PGen(r).program(8)
        yield (prog, r.choice(FLAGSETS), r.random() < .5, r.random() < .4, r.randrange(10 ** 6))


def check(case):
    prog, flags, fancy, par, seed = case
    import random as rm
    r = rm.Random(seed)
    text = show_stmts(prog, printer(r, fancy), (lambda: r.random() < .15) if par else None)
    compare(prog, text, flags)
