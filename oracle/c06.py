"""C06 mixtures"""
from .base import *


def fixed(g):
    A, B_, C = ('rv', [1, 2], [1, 3]), ('rv', [2, 5, 6], [2, 2, 3]), ('num', 4)
    for es, ws in [([A], [1]), ([A, B_], None), ([A, B_], [1, 1]), ([A, B_], [3, 5]), ([A, C], [2, 3]), ([C, C], [1, 2]), ([A, ('blank',)], [1, 5]), ([('blank',)], [1]), ([], []), ([], None),
                   ([('none',), A], [7, 1]), ([('none',), ('blank',)], [1, 1]), ([A, B_, C, ('blank',), ('none',)], [1, 2, 3, 4, 5]), ([A, A], [1, 1]), ([A, B_], [0, 1]), ([A, B_], [5, 0]),
                   ([('num', 1), ('num', 1.0), ('num', 2.5)], [1, 1, 1]), ([('sblank',), A], [1, 1]), ([('rv', [1, 2], [10 ** 6, 1]), A], [1, 1]), ([('num', True), ('num', 0)], [1, 1]),
                   ([('rv', [0, 1], [1, 10 ** 14]), ('rv', [0, 1, 2], [7, 10 ** 9, 3])], [2, 3])]:
        for via in ('from_rvs', 'merge'):
            yield (es, ws, via, 'list')
            yield (es, ws, via, 'gen')


def random(g):
    r = g.r
    while True:
        es = []
        for _ in range(r.randint(0, 6)):
            x = r.random()
            if x < .55:
                es.append(g.sdie(4) if r.random() < .8 else ('rv', [g.val(), g.val()], [r.randint(1, 50), r.randint(1, 50)]))
            elif x < .8:
                es.append(('num', g.val()))
            elif x < .92:
                es.append(('blank',))
            else:
                es.append(('none',))
        ws = None if r.random() < .25 else [r.choice((0, 1, 2, 3, 5, 7, abs(r.choice(g.mid)))) for _ in es]
        if es and ws and not any(ws):
            continue
        yield (es, ws, r.choice(('from_rvs', 'merge')), r.choice(('list', 'gen', 'tuple')))


def check(case):
    es, ws, via, cont = case
    L = load()
    objs = [build(e) for e in es]
    c = {'list': list, 'tuple': tuple, 'gen': iter}[cont]
    f = L.RV.from_rvs if via == 'from_rvs' else sub('factory').merge_rvs
    got = f(c(objs)) if ws is None else f(c(objs), c(ws))
    w2 = ws if ws is not None else [1] * len(es)
    want = Law()
    rest = False
    for e, w in zip(es, w2):
        if e[0] in ('blank', 'sblank', 'none'):
            continue
        rest = True
        law = ref(e)
        t = law.total()
        for v, p in law.items():
            want[v] = want.get(v, 0) + Fraction(w * p, t)
    what = 'mixture of %r weights %r' % (es, ws)
    if not rest:
        need(isinstance(got, L.BlankRV) and len(got) == 0, what + ': must be blank, got %r' % (type(got),))
        return
    need(isinstance(got, L.RV), what + ': got %r' % (type(got),))
    if want.total() == 0:
        return
    canonical(got, what)
    same_law(law_of(got), want, what)
