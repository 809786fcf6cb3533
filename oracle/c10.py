"""C10 no mutation, history independence"""
import copy
import operator as op
from .base import *

BIN = ['+', '-', '*', '==', '<', '&', '|', '//', '%', '>=']
OPS = {'+': op.add, '-': op.sub, '*': op.mul, '==': op.eq, '<': op.lt, '&': op.and_, '|': op.or_, '//': op.floordiv, '%': op.mod, '>=': op.ge}


def snap(x):
    L = load()
    if isinstance(x, L.RV):
        return ('rv', x.vals, x.probs, len(x), str(x), tuple(map(repr, x.vals)), (x._source_die.vals, x._source_die.probs) if getattr(x, '_source_die', None) is not None else None)
    if isinstance(x, L.Seq):
        return ('seq', tuple(map(repr, x)), x.sum() if type(x) is L.Seq else None, getattr(x, '_one_indexed', None), str(x))
    if isinstance(x, L.BlankRV):
        return ('blank', str(x), len(x))
    if isinstance(x, list):
        return ('list', tuple(map(snap, x)))
    return ('val', repr(x))


def steps(r, n, g):
    """program: list of (op, args) where args index earlier values"""
    out = []
    base = [('mk', g.sdie(3, floats=False)), ('mk', ('num', r.choice((2, 3, 1, 0, 4)))), ('mk', g.seq(3, floats=False)), ('mk', ('roll', r.randint(1, 3), ('num', r.randint(2, 4))))]
    out += base
    for _ in range(n):
        k = len(out)
        i, j = r.randrange(k), r.randrange(k)
        y = r.random()
        if y < .35:
            c = r.choice((-1, 0, 1, 1, 2, 2, 3, 4))
            out.append(('roll', c if r.random() < .8 else ('ref', i), ('ref', j)))
        elif y < .6:
            out.append(('bin', r.choice(BIN), i, j))
        elif y < .7:
            out.append(('sel', r.choice((1, 2, 0, [1, 2])), i))
        elif y < .78:
            out.append(('un', r.choice(('neg', 'abs', 'not', 'pos')), i))
        elif y < .84:
            out.append(('merge', [i, j, r.randrange(k)]))
        elif y < .9:
            out.append(('query', r.choice(('mean', 'std', 'cdf', 'vp', 'filter', 'output', 'hash', 'repr')), i))
        elif y < .95:
            out.append(('cast', r.choice('NSD'), i))
        else:
            out.append(('lib', r.choice(('highest', 'lowest', 'reverse', 'sort', 'explode', 'maximum', 'absolute', 'count', 'contains')), i))
    return out


ARGS = ['RV', 'from_seq', 'get_seq', 'Seq', 'from_rvs', 'roll', 'roll2', 'filter', 'output', 'add', 'radd', 'cmp', 'eq', 'sel', 'castS', 'castN', 'castD', 'castret', 'blank', 'get_rv', 'are_equal', 'sel2', 'StringSeq', 'sort']


def args_case(case):
    """containers handed to an operation keep their content"""
    _, name, vs, ws = case
    L = load()
    vs, ws = list(vs), list(ws)
    inner = L.RV([1, 2], [1, 1])
    a, w = list(vs), list(ws)
    nested = [a, [a, inner], (a,)]
    before = (list(map(repr, a)), list(map(repr, w)), repr(len(nested)), len(nested[1]))

    def f(x):
        return a if name == 'castret' else x
    f.__annotations__ = {'x': {'castS': L.T_S, 'castN': L.T_N, 'castD': L.T_D}.get(name, L.T_N)}
    c = L.anydice_casting()(f)
    acts = {'RV': lambda: L.RV(a, w), 'from_seq': lambda: L.RV.from_seq(nested), 'get_seq': lambda: L.get_seq(nested), 'Seq': lambda: L.Seq(*nested), 'from_rvs': lambda: L.RV.from_rvs(a, w), 'roll': lambda: L.roll(a),
            'roll2': lambda: L.roll(2, a), 'filter': lambda: inner.filter(a), 'output': lambda: L.output(a, print_=False), 'add': lambda: inner + a, 'radd': lambda: a + inner if False else L.Seq(1) + a, 'cmp': lambda: inner < a,
            'eq': lambda: L.Seq(1, 2) == a, 'sel': lambda: a @ L.Seq(4, 5, 6), 'castS': lambda: c(a), 'castN': lambda: c(a), 'castD': lambda: c(a), 'castret': lambda: c(inner), 'blank': lambda: L.BlankRV() - a,
            'get_rv': lambda: sub('factory').get_rv(a), 'are_equal': lambda: L.RV.dices_are_equal(a, inner), 'sel2': lambda: L.Seq(1, 2) @ a, 'StringSeq': lambda: L.get_seq(a, 'x'), 'sort': lambda: L.sort_X(a)}
    for rep in (1, 2):
        try:
            acts[name]()
        except (AssertionError, TypeError, ValueError, AttributeError, IndexError):
            pass
        after = (list(map(repr, a)), list(map(repr, w)), repr(len(nested)), len(nested[1]))
        need(before == after, '%s changed what it was given: %r became %r' % (name, before, after))
        need(inner.vals == (1, 2) and inner.probs == (1, 1) and len(inner) == 1, '%s changed a die inside its argument' % name)


def fixed(g):
    for name in ARGS:
        for vs, ws in (([True, 2, False], [1, 1, 1]), ([], []), ([3, 1, 1], [2, 2, 2]), ([1.5, 0, True], [1, 0, 4]), ([2, 1], [1, 1])):
            yield ('args', name, vs, ws)
    yield [('mk', ('num', 6)), ('roll', 2, ('ref', 0)), ('mk', ('rv', [1, 2, 3, 4, 5, 6], [1] * 6)), ('roll', 2, ('ref', 2)), ('roll', 1, ('ref', 2)), ('roll', 2, ('ref', 0))]
    yield [('mk', ('num', 6)), ('roll', 1, ('ref', 0)), ('roll', 1, ('ref', 1)), ('roll', 3, ('ref', 1)), ('bin', '+', 1, 3), ('roll', 1, ('ref', 4))]
    yield [('mk', ('seq', [1, 2])), ('bin', '+', 0, 0), ('sel', 1, 0), ('roll', ('ref', 0), ('ref', 0)), ('cast', 'S', 3), ('sel', [1, 2], 3), ('lib', 'highest', 3)]
    yield [('mk', ('rv', [0, 1], [10 ** 16, 1])), ('roll', 4, ('ref', 0)), ('bin', '+', 1, 1), ('sel', 1, 1), ('sel', 2, 1), ('merge', [0, 1, 2])]


def random(g):
    while True:
        if g.r.random() < .15:
            n = g.r.randint(0, 4)
            vs = [g.r.choice((True, False, 1, 2, 0, 1.5, -1)) for _ in range(n)]
            yield ('args', g.r.choice(ARGS), vs, [g.r.randint(1, 3) for _ in range(n)])
            continue
        yield steps(g.r, g.r.randint(2, 12), g)


def run(prog, check_snap=True):
    L = load()
    vals, snaps, res = [], [], []
    for st, s in enumerate(prog):
        ops = s[0]

        def get(x):
            return vals[x[1]] if isinstance(x, (tuple, list)) and x and x[0] == 'ref' else x
        try:
            if ops == 'mk':
                v = build(s[1])
            elif ops == 'roll':
                n, d = get(s[1]), get(s[2])
                if hasattr(n, 'vals') and (len(n.vals) > 8 or max(abs(x) for x in n.vals) > 6) or isinstance(n, int) and abs(n) > 6 or hasattr(n, '_seq') and abs(n.sum()) > 6:
                    v = 0
                elif hasattr(d, 'vals') and len(d.vals) > 40 or isinstance(d, int) and abs(d) > 40:
                    v = 0
                else:
                    v = L.roll(n, d)
            elif ops == 'bin':
                a, b = vals[s[2]], vals[s[3]]
                if hasattr(a, 'vals') and hasattr(b, 'vals') and len(a.vals) * len(b.vals) > 3000:
                    v = 0
                elif isinstance(a, (bool, float)) or isinstance(b, (bool, float)):
                    v = 0
                else:
                    v = OPS[s[1]](a, b)
            elif ops == 'sel':
                x = vals[s[2]]
                k = L.Seq(*s[1]) if isinstance(s[1], (list, tuple)) else s[1]
                v = k @ x if not isinstance(x, (int, float)) else 0
            elif ops == 'un':
                x = vals[s[2]]
                v = {'neg': op.neg, 'abs': abs, 'not': op.invert, 'pos': op.pos}[s[1]](x) if hasattr(x, 'vals') or hasattr(x, '_special_null') else 0
            elif ops == 'merge':
                v = L.RV.from_rvs([vals[i] if not hasattr(vals[i], '_seq') else vals[i].sum() for i in s[1]], [1, 2, 3][:len(s[1])])
            elif ops == 'query':
                x = vals[s[2]]
                if not hasattr(x, 'vals'):
                    v = 0
                elif s[1] == 'mean':
                    v = x.mean()
                elif s[1] == 'std':
                    v = x.std()
                elif s[1] == 'cdf':
                    v = x.get_cdf()
                elif s[1] == 'vp':
                    v = repr(x.get_vals_probs(0.1))
                elif s[1] == 'filter':
                    v = x.filter([1, 2])
                elif s[1] == 'output':
                    v = L.output(x, print_=False)
                elif s[1] == 'hash':
                    v = hash(x)
                else:
                    v = repr(x)
                if isinstance(v, (str, float)):
                    res.append(repr(v))
                    v = 0
            elif ops == 'cast':
                ann = {'N': L.T_N, 'S': L.T_S, 'D': L.T_D}[s[1]]

                def f(x):
                    return x.sum() if hasattr(x, '_seq') else x
                f.__annotations__ = {'x': ann}
                x = vals[s[2]]
                v = L.anydice_casting()(f)(x)
            elif ops == 'lib':
                x = vals[s[2]]
                fn = {'highest': lambda: L.highest_X_of_X(1, x), 'lowest': lambda: L.lowest_X_of_X(1, x), 'reverse': lambda: L.reverse_X(x), 'sort': lambda: L.sort_X(x), 'explode': lambda: L.explode_X(x),
                      'maximum': lambda: L.maximum_of_X(x), 'absolute': lambda: L.absolute_X(x), 'count': lambda: L.count_X_in_X(x, L.Seq(1, 2)), 'contains': lambda: L.X_contains_X(x, 1)}[s[1]]
                v = fn()
        except (AssertionError, TypeError, ZeroDivisionError, ValueError, AttributeError, NotImplementedError, IndexError) as e:
            v = 0
            res.append(type(e).__name__)
        vals.append(v)
        snaps.append(snap(v))
        res.append(snap(v))
        for i in range(len(vals) - 1):
            t = snap(vals[i])
            if check_snap and t != snaps[i]:
                raise Fail('step %d %r changed the value of step %d %r: %r became %r' % (st, s, i, prog[i], snaps[i][:5], t[:5]))
    return res


def check(prog):
    if prog and prog[0] == 'args':
        return args_case(prog)
    a = run(prog)
    b = run(prog)          # same calls, later in the same process
    for i, (x, y) in enumerate(zip(a, b)):
        need(x == y, 'repeating the calls gives a different result: %r then %r in %r' % (x[:5], y[:5], prog))
    reset_state()
    # unrelated history in between
    L = load()
    for n in (2, 3, 4):
        for d in (2, 3, 4, 6):
            L.roll(n, L.RV([float(x) for x in range(1, d + 1)], [1] * d))
            L.roll(n, L.roll(1, d))
            L.roll(1, L.roll(n, d))
    c = run(prog)
    for x, y in zip(a, c):
        need(x == y, 'another history gives a different result: %r then %r in %r' % (x[:6], y[:6], prog))
