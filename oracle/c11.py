"""C11 depth guard"""
from .base import *


class Boom(Exception):
    pass


def tree(r, depth):
    """a call: (kind, children); kind = what the body does after its children"""
    n = 0 if depth <= 0 else r.choice((0, 1, 1, 2, 3))
    return (r.choice(('num', 'num', ('pre', r.randint(1, 5)), ('post', r.randint(1, 5)), 'prereset', 'none', 'raise', 'catch', 'rv', 'zero', 'seq', 'false')), [tree(r, depth - 1) for _ in range(n)])


def chain(n, leaf):
    t = (leaf, [])
    for _ in range(n):
        t = ('catch' if leaf == 'raise' else 'num', [t])
    return t


def fixed(g):
    for m in (1, 2, 3, 10):
        for n in range(0, m + 3):
            for leaf in ('num', 'none', 'raise', 'zero', 'false'):
                for deco in ('both', 'depth'):
                    yield (m, [chain(n, leaf)], deco)
    yield (2, [('raise', [])] * 3 + [chain(3, 'num')], 'both')
    yield (1, [('raise', [])] * 2 + [('num', [('num', [])])], 'depth')
    yield (3, [('reset', [])] + [chain(4, 'num')], 'depth')
    yield (3, [('catch', [('raise', []), ('num', [])]), chain(3, 'num')], 'both')
    yield (4, [('setmax', [('num', [('num', [])])]), chain(6, 'num')], 'both')
    for e in ('exit', 'kbd'):
        yield (3, [(e, []), chain(4, 'num')], 'both')


def random(g):
    r = g.r
    while True:
        m = r.choice((1, 2, 3, 4, 10, max(1, min(12, abs(r.choice(g.mid))))))
        yield (m, [tree(r, r.randint(0, min(m, 4) + 2)) for _ in range(r.randint(1, 4))], r.choice(('both', 'depth')))


def check(case):
    m, calls, deco = case
    L = load()
    S = sub('settings')
    log, want = [], []
    mx = [m]

    def body(t, path):
        log.append(path)
        kind, ch = t
        if kind[0] == 'pre':
            S.settings_set('maximum function depth', kind[1])
        if kind == 'prereset':
            S.settings_set('maximum function depth', 10)
            S.settings_set('explode depth', 2)
        for i, c in enumerate(ch):
            try:
                f(c, path + (i,))
            except (Boom, SystemExit, KeyboardInterrupt):
                if kind != 'catch':
                    raise
        if kind == 'raise':
            raise Boom()
        if kind[0] == 'post':
            S.settings_set('maximum function depth', kind[1])
        if kind == 'exit':
            raise SystemExit(3)
        if kind == 'kbd':
            raise KeyboardInterrupt()
        if kind == 'reset':
            S.settings_reset()
            S.settings_set('maximum function depth', mx[0])
        return {'num': 5, 'catch': 7, 'none': None, 'rv': L.RV([1, 2], [1, 1]), 'zero': 0, 'seq': L.Seq(), 'false': False}.get(kind, 1)
    f = L.anydice_casting()(body) if deco == 'both' else L.max_func_depth()(body)

    def model(t, path, active):
        """-> ('blank'|'val'|'exc')"""
        if active >= mx[0]:
            return 'blank'
        want.append(path)
        kind, ch = t
        if kind[0] == 'pre':
            mx[0] = kind[1]
        if kind == 'prereset':
            mx[0] = 10
        for i, c in enumerate(ch):
            if model(c, path + (i,), active + 1) == 'exc' and kind != 'catch':
                return 'exc'
        if kind in ('raise', 'exit', 'kbd'):
            return 'exc'
        if kind[0] == 'post':
            mx[0] = kind[1]
        return 'blank' if kind == 'none' else kind
    S.settings_set('maximum function depth', m)
    for j, t in enumerate(calls):
        w = model(t, (j,), 0)
        try:
            got = f(t, (j,))
            res = 'blank' if isinstance(got, L.BlankRV) else 'val'
        except (Boom, SystemExit, KeyboardInterrupt):
            res = 'exc'
            got = None
        what = 'maximum depth %d, calls %r, call %d' % (m, calls, j)
        need(log == want, what + ': bodies run %r, expected %r' % (log, want))
        need(res == (w if w in ('blank', 'exc') else 'val'), what + ': gives %s, expected %s' % (res, w))
        exp = {'num': 5, 'catch': 7, 'zero': 0, 'false': False}
        if w in exp:
            need(got == exp[w] and type(got) is type(exp[w]), what + ': value %r' % (got,))
        if w == 'seq':
            need(isinstance(got, L.Seq), what + ': value %r' % (got,))
    # afterwards the full depth is available again
    cnt = []

    def probe():
        cnt.append(1)
        return g2() if len(cnt) < 50 else 0
    g2 = L.max_func_depth()(probe)
    r = g2()
    need(len(cnt) == min(mx[0], 50), 'after the calls %r only %d of %d nested calls run' % (calls, len(cnt), mx[0]))
