"""C17 names, texts, rejection, repeatability"""
import keyword
from .base import *
from .anydice import *

TRICKY = ['roll', 'output', 'get seq', 'len', 'vars', 'myrange', 'settings set', 'anydice casting', 'max func depth', 'list', 'print', 'random', 'math', 'if', 'for', 'class', 'not', 'lambda', 'import', 'in', 'is',
          'and', 'or', 'def', 'return', 'pass', 'set', 'to', 'loop', 'over', 'named', 'function', 'result', 'else', 'f', 'f roll', 'absolute', 'sort', 'dummy', 'my len', 'k', 'self', 'as', 'from', 'with', 'try', 'async', 'await',
          'str', 'int', 'type', 'copy', 'x', 'true div', 'explode', 'reverse', 'highest of', 'contains', 'range', 'sum', 'abs', 'exec', 'f f', 'yield', 'global', 'del', 'raise', 'match', 'case', 'exit']


def chars():
    cs = [chr(c) for c in list(range(32, 127)) + [0, 9, 11, 12, 13, 7, 27, 127, 133, 160, 0x2028, 0x2029, 0xe9, 0x4e2d, 0xfeff, 0x1f600, 8, 1, 26, 28]]
    return [c for c in cs if c not in '"[\n']


def fixed(g):
    ts = []
    for t in TEXTS:
        ts += [[t], [t, ('v', 'A'), t]]
    cs = chars()
    ts.append([''.join(cs)])
    for c in cs:
        ts.append(['x' + c])
        if c in '\\{}]\'':
            for c2 in '\\{}]\'nxuN0 ':
                ts += [[c + c2], [c + c2, ('v', 'A'), c2 + c]]
    for i in range(0, len(ts), 40):
        yield ('text', ts[i:i + 40])
    for w in TRICKY:
        ws = w.split()
        for fl in ({}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}):
            A = ('var', 'A')
            helpers = [('out', ('seq', [('num', '1'), ('range', ('num', '2'), ('num', '3'))]), None), ('out', ('hash', ('seq', [])), ('str', ['n'])), ('out', ('ndm', ('num', '2'), ('num', '6')), None),
                       ('set', ('str', ['a']), ('num', '1')), ('out', ('bin', '@', ('num', '1'), ('dm', ('num', '6'))), None), ('assign', 'B', ('num', '3')), ('loop', 'C', ('seq', []), [('out', ('var', 'C'), None)])]
            lib = [('out', ('call', [('num', '5') if x == 'X' else x for x in p.split()]), None) for p in LIB]
            for pat, args in ((ws, []), (ws + [('A', None)], [('num', '4')]), (ws + [('A', 'n'), ('B', 's')], [('num', '4'), ('num', '5')])):
                f = ('func', pat, [('result', ('bin', '+', A, ('num', '1000')) if args else ('num', '1000'))])
                call = ('out', ('call', ws + args), None)
                yield ('prog', [f, call] + helpers + lib + [call], fl)
    for n in (2, 3):        # every mixture of parameter kinds, next to each other and with words between
        many = []
        for j, kinds in enumerate(itertools.product((None, 'n', 's', 'd'), repeat=n)):
            own = 'q' + ''.join('abcdefghij'[int(x)] for x in str(j))
            for words in ([],) if n == 2 and None in kinds else ([own], ['to', own + 'z']):
                pat, args, e = [], [], None
                for i, k in enumerate(kinds):
                    pat += words[i:i + 1] + [('CBA'[i], k)]
                    args += words[i:i + 1] + [('num', str(4 + i))]
                    v = ('bin', '*', ('var', 'CBA'[i]), ('num', str(100 ** i)))
                    e = v if e is None else ('bin', '-', e, v)
                prog = [('func', pat, [('result', e)]), ('out', ('call', args), None)]
                if words:
                    many += prog
                else:
                    yield ('prog', prog, {})
        for i in range(0, len(many), 40):
            yield ('prog', many[i:i + 40], {})
    for t, ok in [('A: 5', 0), ('function: f A {output A}\nA: 1', 1), ('output [f]', 0), ('function: f A {result: A}\noutput [f]', 0), ('function: f A {result: A}\noutput [f 1 2]', 0), ('function: f A {result: A}\noutput [1 f]', 0),
                  ('function: f A {result: A}\noutput [f 1]', 1), ('function: f A {result: [g A]}\noutput 1', 0), ('if 0 {output [nope]} output 1', 0), ('output [roll]', 0), ('output [len]', 0), ('output [list]', 0), ('output [get seq]', 0),
                  ('output [output 1]', 0), ('output [vars]', 0), ('output [print 1]', 0), ('function: roll {result: 1}\noutput [len]', 0), ('function: roll {result: 1}\noutput [f roll]', 0), ('output [absolute 1]', 1), ('output [absolute]', 0),
                  ('output [contains 1 2]', 0), ('output [highest 1 of 2]', 1), ('output [highest of 1 and 2]', 1), ('output [highest of 1 or 2]', 0), ('', 0), ('   \n', 0), ('\\ c \\', 0), ('output 1', 1), ('loop A over 1 {}', 0),
                  ('function: f {result: 1}\nfunction: g {result: [f]}', 0), ('set "a" to 1', 0), ('function: class {output 1}\nA: 1', 1), ('function: f {}\noutput [f]', 1), ('if 1 {} else {output 2}', 1), ('output [sort 1] output [sorts 1]', 0),
                  ('function: vars {result: 2}\noutput [absolute 1]+[vars]', 1), ('function: vars {result: 2}\noutput [absolut 1]+[vars]', 0)]:
        for fl in FLAGSETS:
            yield ('accept', t, ok, fl)
    for fl in FLAGSETS:
        yield ('history', ['output 1', 'function: roll {result: 5}\noutput [roll]+d6', 'output 2d6', 'function: a A {result: A}\noutput [a 1]', 'output [a 1]', 'bad ( ', 'output "x"', 'output "unclosed', 'output 3d6', 'output 1 ? 2', 'output 1', 'set "x" to 1', 'output #{1}@2d6'], fl)
    for p in ('output 7', 'function: roll {result: 5}\noutput [roll] + 2', 'function: len A:n {result: A*2}\noutput [len 4] + 1 named "r"', 'function: absolute A:n {result: A + 100}\noutput [absolute 5]', 'function: if A:n {result: A + 100}\noutput [if 5]+2',
              'function: get seq A:n {result: A + 1}\noutput [get seq 5]', 'output [highest of 3 and 9]', 'output #{4, 5, 1..3}', 'output [count 3 in {3,3,4}]'):
        yield ('run', p, {'output 7': 7}.get(p), None)
    for i, (a, b) in enumerate([('[roll]+1', 6), ('[roll] * 2', 10)]):
        yield ('run', 'function: roll {result: 5}\noutput ' + a, b, None)


def random(g):
    r = g.r
    cs = chars()
    words = [w for t in TRICKY for w in t.split()]
    while True:
        x = r.random()
        if x < .5:
            ws = r.sample(words, 6) + list(r.choice(LIB).replace('X', '').split()) + ['f', 'roll', 'get', 'seq', 'len']
            if r.random() < .3:
                ws += [w for s in g.strs for w in s.replace('_', ' ').split() if w.isalpha() and w.islower() and w.isascii() and w != 'd']
            yield ('prog', PGen(r, ws).program(8), r.choice(FLAGSETS))
        elif x < .85:
            ts = []
            for _ in range(12):
              parts = []
              for _ in range(r.randint(1, 4)):
                parts.append(('v', 'A') if r.random() < .3 else ''.join(r.choice(cs) if r.random() < .5 else r.choice('\\{}]\'nxu0 A_') for _ in range(r.randint(1, 5))) if r.random() < .8 else r.choice(TEXTS))
              ts.append(parts)
            yield ('text', ts)
        else:
            ps = [show_stmts(PGen(r, words[:9]).program(3), printer(r, 0)) for _ in range(3)] + ['output 1', 'output [nope]', 'output (', 'function: roll {result: 1}\noutput [roll]']
            yield ('history', [r.choice(ps) for _ in range(6)], r.choice(FLAGSETS))


def check(case):
    P = sub('parser.parse_and_exec')
    k = case[0]
    if k == 'prog':
        _, prog, fl = case
        compare(prog, show_stmts(prog, printer(None, 0)), fl)
    elif k == 'text':
        import re
        ts = []
        for parts in case[1]:
            inner = show_str(('str', parts))[1:-1]
            if len(re.findall(r'\[[A-Z_]+\]', inner)) == sum(not isinstance(p, str) for p in parts):
                ts.append((inner, ''.join(p if isinstance(p, str) else '12' for p in parts)))
        for fl in FLAGSETS[:4]:
            text = 'A: 12\n' + '\n'.join('output 1 named "%s"\noutput {"%s", 1}' % (i, i) for i, _ in ts)
            try:
                outs = P.unsafe_exec(P.compile_anydice(text, dict(fl)))
            except Exception as e:
                if len(case[1]) > 1:
                    for parts in case[1]:
                        check(('text', [parts]))
                raise Fail('text %r, flags %r: %s: %s' % (ts, fl, type(e).__name__, e))
            need(len(outs) == 2 * len(ts), 'texts %r: %d outputs' % (ts, len(outs)))
            for (inner, want), o1, o2 in zip(ts, outs[::2], outs[1::2]):
                need(o1[1].get('named') == want, 'text %r, flags %r comes out as %r instead of %r' % (inner, fl, o1[1].get('named'), want))
                items = [str(v) for v in o2[0][0]]
                need(len(items) == 2 and any(v == want or v.strip() == want.strip() for v in items), 'text %r in a sequence comes out as %r' % (inner, items))
    elif k == 'accept':
        _, t, ok, fl = case
        try:
            P.compile_anydice(t, dict(fl))
            got, e = 1, ''
        except Exception as ex:
            got, e = 0, '%s: %s' % (type(ex).__name__, str(ex)[:100])
        need(got == ok, 'program %r with %r is %s %s' % (t, fl, 'accepted' if got else 'rejected', e))
    elif k == 'history':
        _, progs, fl = case
        def comp(p):
            f = dict(fl)
            try:
                c = P.compile_anydice(p, f)
            except Exception as ex:
                c = type(ex)
            need(f == fl, 'compiling %r changed the given flags to %r' % (p, f))
            return c
        first = {}
        for p in progs + progs[::-1]:
            c = comp(p)
            need(first.setdefault(p, c) == c, 'compiling %r again gives a different result:\n%s\n---\n%s' % (p, first[p], c))
    elif k == 'run':
        _, t, want, _ = case
        exp = want
        for fl in FLAGSETS[:4]:
            outs = P.unsafe_exec(P.compile_anydice(t, dict(fl)))
            v = outs[0][0][0]
            L = load()
            got = law_of(sub('factory').get_rv(v)).norm()
            if exp is None:
                exp = got
                ref_ = {'output [highest of 3 and 9]': 9, 'output #{4, 5, 1..3}': 5, 'output [count 3 in {3,3,4}]': 2, 'function: absolute A:n {result: A + 100}\noutput [absolute 5]': 105, 'function: if A:n {result: A + 100}\noutput [if 5]+2': 107,
                        'function: get seq A:n {result: A + 1}\noutput [get seq 5]': 6, 'function: roll {result: 5}\noutput [roll] + 2': 7, 'function: len A:n {result: A*2}\noutput [len 4] + 1 named "r"': 9}.get(t)
                if ref_ is not None:
                    exp = ref_
            e = exp if isinstance(exp, dict) else {exp: Fraction(1)}
            need(got == e, '%r gives %s instead of %s (flags %r)' % (t, got, e, fl))
