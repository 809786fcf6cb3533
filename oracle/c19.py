"""C19 printed report"""
import re
from .base import *


def fixed(g):
    objs = [('rv', [1, 2], [1, 3]), ('rv', [0], [1]), ('rv', [-10, 5, 100], [1, 1, 1]), ('roll', 2, ('num', 6)), ('num', 7), ('num', 2.5), ('seq', [1, 1, 2]), ('seq', []), ('blank',), ('sblank',), ('none',), ('rv', [1, 2, 3], [1, 0, 999]), ('rv', [1.5, 2.25], [1, 2]), ('list', [4, 5]), ('srv', ['a', 'bb', '3']), ('rv', [0, 1], [1, 1])]
    for o in objs:
        for named in (None, 'x', 'my die', ''):
            for w in (None, 1, 5, 40, 180):
                yield (o, named, True, w, 'ret', 0)
        for mode in ('print', 'fn', 'ret', 'method'):
            yield (o, 'n', True, None, mode, 0)
            yield (o, None, False, None, mode, 0)
        yield (o, None, True, None, 'ret', 10)
        yield (o, None, True, None, 'ret', 30)
    yield (('rv', list(range(20)), [1] * 20), None, True, None, 'ret', 0)
    yield (('rv', [1, 2], [1, 2]), 'w', True, None, 'setting', 0)


def random(g):
    r = g.r
    while True:
        x = r.random()
        o = g.die(8) if x < .5 else (('roll', r.randint(1, 4), g.sdie(3)) if x < .7 else (('num', g.val()) if x < .8 else (g.seq(4) if x < .95 else ('srv', [r.choice(('a', 'b', '12', '-3', 'c d')) for _ in range(r.randint(1, 4))]))))
        yield (o, r.choice((None, 'name', 'x y', 'N[A]', r.choice(g.strs))), r.random() < .85, r.choice((None, None, 1, 3, 20, 100, r.randint(1, 250))), r.choice(('ret', 'ret', 'print', 'fn', 'method')), r.choice((0, 0, 0, 5, 20, 50)))


def check(case):
    L = load()
    o, named, pdf, width, mode, cut = case
    X = build(o)
    outl = []
    kw = {}
    if named is not None:
        kw['named'] = named
    if not pdf:
        kw['show_pdf'] = False
    if width is not None:
        kw['blocks_width'] = width
    if cut:
        kw['cdf_cut'] = cut
    what = 'output(%r, %r)' % (o, kw)
    S = sub('settings').SETTINGS
    w = width if width is not None else 180
    if mode == 'ret':
        text = L.output(X, print_=False, **kw)
    elif mode == 'method':
        text = X.output(print_=False, **kw) if hasattr(X, 'output') else L.output(X, print_=False, **kw)
    elif mode == 'fn':
        r = L.output(X, print_fn=outl.append, **kw)
        need(r is None and len(outl) == 1, what + ': handed to the printer %d times, returned %r' % (len(outl), r))
        text = outl[0]
        need(text == L.output(X, print_=False, **kw), what + ': printed text differs from the returned one')
    elif mode in ('print', 'setting'):
        S['DEFAULT_PRINT_FN'] = outl.append
        if mode == 'setting':
            S['DEFAULT_OUTPUT_WIDTH'] = w = 33
        r = L.output(X, **kw)
        need(r is None and len(outl) == 1, what + ': printed %d times, returned %r' % (len(outl), r))
        text = outl[0]
        need(text == L.output(X, print_=False, **kw), what + ': printed text differs from the returned one')
    need(isinstance(text, str), what + ': %r' % (text,))
    head = (named + ' ') if named is not None else ''
    need(text.startswith(head), what + ': name missing: %r' % text[:60])
    lines = text[len(head):].split('\n')
    blank = o[0] in ('blank', 'sblank', 'none') or (o[0] == 'seq' and not o[1])
    if blank:
        need(lines[0].strip() == '' and len([x for x in lines if ':' in x]) == 0 and all(set(x) <= {'-'} for x in lines if x), what + ': blank report %r' % text[:80])
        return
    if o[0] == 'srv':
        rv = L.RV.from_seq(L.get_seq(*o[1]))
        labs, tot = [], sum(rv.probs)
        for v, p in zip(rv.vals, rv.probs):
            lab = str(v)
            labs.append((('"%s"' % lab) if re.fullmatch(r'-?\d+(\.\d+)?', lab) else lab, Fraction(p, tot)))
        exp = labs
        need(lines[0] == 'NaN ± NaN', what + ': statistics %r' % lines[0])
    else:
        law = Law({X: 1}) if o[0] == 'num' and not isinstance(X, bool) else (Law({int(X): 1}) if o[0] == 'num' else ref(o))
        n = law.norm()
        exp = [(v, n.get(v, Fraction(0))) for v in sorted(law)]
        rv = sub('factory').get_rv(X)       # 2 and 2.0 are one outcome: shown as the die holds it
        if list(rv.vals) == [v for v, _ in exp]:
            exp = [(a, p) for a, (_, p) in zip(rv.vals, exp)]
        m = re.fullmatch(r'(\S+) ± (\S+)', lines[0])
        need(m is not None, what + ': statistics line %r' % lines[0])
        mean = sum(Fraction(v) * p for v, p in n.items())
        var = sum(Fraction(v) ** 2 * p for v, p in n.items()) - mean ** 2
        sc = max([1.0] + [abs(float(v)) for v in law])
        need(abs(float(m.group(1)) - float(mean)) <= 0.00501 + 1e-9 * sc, what + ': mean shown %s, is %s' % (m.group(1), float(mean)))
        need(abs(float(m.group(2)) - math.sqrt(var)) <= 0.00501 + 1e-6 * sc, what + ': deviation shown %s, is %s' % (m.group(2), math.sqrt(var)))
    rows = lines[1:]
    if not pdf:
        need(rows == [], what + ': rows shown: %r' % rows[:2])
        return
    need(rows and set(rows[-1]) <= {'-'} and len(rows[-1]) == w + 8, what + ': closing line %r' % (rows[-1:],))
    rows = rows[:-1]
    if cut:
        kept = {str(v) for v, _ in (L.RV.from_seq(L.get_seq(*o[1])) if o[0] == 'srv' else sub('factory').get_rv(X)).get_vals_probs(cut / 100)}
        exp = [e for e in exp if str(e[0]) in kept]
    need(len(rows) == len(exp), what + ': %d rows for %d outcomes' % (len(rows), len(exp)))
    ml = max(len(str(v)) for v, _ in exp)
    for row, (v, p) in zip(rows, exp):
        lab, rest = row[:ml], row[ml:]
        need(lab.strip() == str(v) and rest.startswith(': '), what + ': row %r for outcome %r' % (row[:40], v))
        m = re.fullmatch(r': +(\d+\.\d\d) {2}(█*)', rest)
        need(m is not None, what + ': row %r' % row[:60])
        need(abs(float(m.group(1)) - 100 * float(p)) <= 0.00501, what + ': outcome %r shown with %s%%, is %s%%' % (v, m.group(1), 100 * float(p)))
        blocks = max(0, w - ml)
        need(abs(len(m.group(2)) - float(p) * blocks) <= 0.51, what + ': bar of %r has %d blocks' % (v, len(m.group(2))))
