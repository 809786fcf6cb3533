"""C20 accepted exactly when the documented grammar derives it: an independent tokenizer and an Earley recognizer of the documented grammar"""
from .base import *
from .anydice import *

WORDS = ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')
SYMS = ('!=', '..', '+', '-', '*', '/', '^', ':', '<', '>', '=', '@', '#', '|', '&', '!', '.', ',', '(', ')', '{', '}', '[', ']')
LOW, UP, DIG = 'abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ_', '0123456789'


def tokens(t):
    """list of (kind, text), None when the text has a character that is no token"""
    out, i = [], 0
    while i < len(t):
        ch = t[i]
        if ch in ' \t\n':
            i += 1
        elif ch == '\\':
            j = t.find('\\', i + 1)
            if j < 0:
                return None
            i = j + 1
        elif ch == '"':
            j = i + 1
            while j < len(t) and t[j] not in '"\n':
                j += 1
            if j >= len(t) or t[j] != '"':
                return None
            if j > i + 1:
                out.append(('S', t[i:j + 1]))
            i = j + 1
        elif ch in LOW or ch in UP or ch in DIG:
            cls = LOW if ch in LOW else UP if ch in UP else DIG
            j = i
            while j < len(t) and t[j] in cls:
                j += 1
            w = t[i:j]
            out.append(('d' if w == 'd' else w if w in WORDS else {LOW: 'w', UP: 'V', DIG: 'n'}[cls], w))
            i = j
        else:
            for s in SYMS:
                if t.startswith(s, i):
                    out.append((s, s))
                    i += len(s)
                    break
            else:
                return None
    return out


def grammar():
    g = {}

    def rule(lhs, *alts):
        g.setdefault(lhs, []).extend(tuple(a.split()) for a in alts)
    rule('P', '', 'P St')
    rule('St', 'output E', 'output E named Str', 'function : F { P }', 'loop V over E { P }', 'result : E', 'set Str to E', 'V : E', 'If', 'If Else', 'If Elif', 'If Elif Else')
    rule('If', 'if E { P }')
    rule('Elif', 'else if E { P }', 'Elif else if E { P }')
    rule('Else', 'else { P }')
    rule('F', 'Fi', 'F Fi')
    rule('Fi', 'd', 'V', 'V : d', 'V : w', 'w', *WORDS)
    rule('Str', 'S', 'Str S')
    rule('E', 'T', 'T d T', 'd T', *['E %s E' % o for o in ('+', '-', '*', '/', '^', '@', '&', '|', '<', '>', '=', '!=', '< =', '> =')])
    rule('T', '+ T', '- T', '! T', '# T', '( E )', 'n', 'n . n', 'V', '{ }', '{ L }', 'Str', '[ C ]')
    rule('L', 'El', 'L , El')
    rule('El', 'E', 'E .. E')
    rule('C', 'Ci', 'C Ci')
    rule('Ci', 'E', 'w', *WORDS)
    return g


GRAM = grammar()


def derives(kinds):
    """Earley recognizer"""
    n = len(kinds)
    sets = [set() for _ in range(n + 1)]
    null = {'P'}
    sets[0] = {('P', a, 0, 0) for a in GRAM['P']}
    for i in range(n + 1):
        todo = list(sets[i])
        while todo:
            lhs, rhs, dot, start = todo.pop()
            new = []
            if dot < len(rhs):
                x = rhs[dot]
                if x in GRAM:
                    new = [(x, a, 0, i) for a in GRAM[x]]
                    if x in null:
                        new.append((lhs, rhs, dot + 1, start))
                elif i < n and kinds[i] == x:
                    sets[i + 1].add((lhs, rhs, dot + 1, start))
            else:
                new = [(l, r, d + 1, s) for (l, r, d, s) in sets[start] if d < len(r) and r[d] == lhs]
            for it in new:
                if it not in sets[i]:
                    sets[i].add(it)
                    todo.append(it)
    return any(l == 'P' and d == len(r) and s == 0 for l, r, d, s in sets[n])


def accepted(text):
    ts = tokens(text)
    return ts is not None and derives([k for k, _ in ts])


VOCAB = ['output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result', 'd', 'A', 'B', '1', '6', 'foo', 's', '"t"', '"x [A] y"', '""'] + list(SYMS)
SHORT = ['d', 'A', '1', 'foo', '"t"', '+', '-', '<', '=', '!', '!=', '#', '@', '.', '..', ',', '(', ')', '{', '}', '[', ']', ':', 'if', 'to']
BAD = ['$', '%', '~', '`', '?', ';', "'", '\r', '\x0b', '\xa0', '\xe9', '\u2028', '\x00', '\\', '"', '"a\nb"', '\\ c', '"a', 'a"', '\\ "', '"\\"', '\\\\', '\\\n\n\\', '"\t"', '"[A"', '"["', '"[a]"', '"[A]"', '"]"', '[A]', '" [']


def fixed(g):
    seen = ['1', 'd6', '2d6', '1 d 6', '-1d6', '#2d6', '1d6d6', 'd6 d6', '1d', 'dd6', '1.5', '1 . 5', '1..5', '.5', '1.', '{1..2}', '{1...2}', '{1..2..3}', '{,}', '{1,}', '{}', '()', '[]', '[d]', '[d6]', '[1 d6]', '[A d]', '[f 1]', '[f -1]', '[f A -B]',
            '[A !B]', '[A = B]', '[f "a" "b"]', '[if else to]', '[f [g 1] {2}]', '[output]', '[named]', '[f, 1]', '1 < = 2', '1 = < 2', '1 ! = 2', '1 != 2', '1 == 2', '1 <= 2', '1 >= 2', '1 => 2', '1 <> 2', '--1', '-+!#1', '1 - -1', '1 + d6', '-d6', '!d6', '#d6', '(d6)d6',
            '"a" "b"', '"a" "" "b"', '""', '"a', '"a\nb"', '"a" + 1', 'A', 'A_B', '_', 'Ab', 'aB', '1A', 'A1', 'foo', 'output', '1 2', '1,2', '1;2', '((((1))))', '(1', '1)', '{1', '1}', '1 named "x"', '1 named x', '1 named "x" "y"', '1 named "x" + 1', '1 named', 'named "x"', '{1}{2}', '{{1},{2..3}}', '1^2^3', '1@2@3', '@1', '1@', '&1', '1|', '1\\c\\+2', '1\\c', 'A\\c\\B', '\\c\\1', '1 \\"\\ + 2', '\\\\1']
    for e in seen:
        yield ('text', 'output ' + e)
        yield ('text', 'output ' + e + '\noutput 1')
        yield ('text', 'A: ' + e + ' output 1')
    sts = ['function: f {}', 'function: {}', 'function: A {result: A}', 'function: f A:n B:s C:d D {}', 'function: d {}', 'function: f d {}', 'function: f A:foo {}', 'function: f A:to {}', 'function: f 1 {}', 'function f {}', 'function: output output {}', 'function: A B {}', 'function: A: d {}', 'function: f A : {}',
           'function: f {function: g {}}', 'loop A over {1..3} {}', 'loop A over 3 {output A}', 'loop a over 3 {}', 'loop A {}', 'loop A over {}', 'loop A over {} {}', 'loop A over B output 1', 'result: 1', 'result 1', 'result:', 'set "a" to 1', 'set "a" to "b"', 'set "a" to "b" + 1', 'set a to 1', 'set "a" 1', 'set "a" "b" to "c" "d"',
           'if 1 {}', 'if 1 {} else {}', 'if 1 {} else if 2 {}', 'if 1 {} else if 2 {} else if 3 {} else {}', 'if 1 {} else {} else {}', 'if 1 {} else {} else if 2 {}', 'else {}', 'else if 1 {}', 'if {} {}', 'if {}', 'if 1 output 2', 'if 1 {output 1} output 2 else {}', 'A: 1', 'A 1', 'A:', 'a: 1', '1: 1', 'A: B: 1', 'A: 1 B: 2', 'A:1B:2', '{output 1}', '{}', '1', '"x"', '"', '\\', '\\\\', '', ' \n\t ', '}', '{']
    for s in sts:
        yield ('text', s + ' output 1')
        yield ('text', 'output 1 ' + s)
        yield ('text', 'if 1 { ' + s + ' } output 1')
    for b in BAD:
        for t in ('output 1%s+2', '%soutput 1', 'output 1%s', 'output "x%sy"', 'output 1 %s output 2', 'output [f %s 1]', 'A: 1 \\ %s \\ output A'):
            yield ('text', t % b)
    for k in (1, 2, 3):
        if k == 3 and g.tier != 'thorough':
            break
        for c in itertools.product(SHORT, repeat=k):
            yield ('text', 'output ' + ' '.join(c))


def respace(r, ts):
    """the same tokens with other white space and comments between them"""
    out = []
    prev = ''
    for _, t in ts:
        glue = prev and (prev[-1] in LOW and t[0] in LOW or prev[-1] in UP and t[0] in UP or prev[-1] in DIG and t[0] in DIG or prev + t[0] in ('!=', '..'))
        x = r.random()
        sp = '' if x < .4 and not glue else r.choice([' ', '\n', '\t', '  \n ', '\\\\', '\\ c \n output } "\\', ' \\x\\ ', '\n\n', '\\"\\', '\\a\\\\b\\'])
        out += [sp, t]
        prev = t
    return ''.join(out) + r.choice(['', '\n', ' ', '\\ end \\'])


def random(g):
    r = g.r
    while True:
        prog = PGen(r).program(r.choice((3, 3, 4, 8)))
        k = r.random()
        text = show_stmts(prog, printer(r, True))
        ts = tokens(text)
        if k < .2:
            yield ('prog', prog, r.randrange(10 ** 6))
        elif k < .4:
            yield ('same', text, respace(r, ts))
        else:
            ts = list(ts[:60])
            if r.random() < .15 and len(ts) > 6:
                i = r.randrange(len(ts) - 5)
                ts = ts[i:i + r.randint(3, 20)]
            for _ in range(r.choice((0, 0, 1, 1, 1, 2))):
                i = r.randrange(len(ts) + 1)
                x = r.random()
                w = r.choice(VOCAB)
                if x < .35 and ts:
                    del ts[min(i, len(ts) - 1)]
                elif x < .6:
                    ts.insert(i, (None, w))
                elif x < .8 and ts:
                    ts[min(i, len(ts) - 1)] = (None, w)
                elif x < .9 and len(ts) > 1:
                    j = r.randrange(len(ts))
                    i = min(i, len(ts) - 1)
                    ts[i], ts[j] = ts[j], ts[i]
                elif ts:
                    ts.insert(i, ts[min(i, len(ts) - 1)])
            t = respace(r, ts) if ts else ''
            if r.random() < .15:
                i = r.randrange(len(t) + 1)
                t = t[:i] + r.choice(BAD) + t[i:]
            yield ('text', t + '\noutput 1')


_real = {}


def keep_tables(on):
    """the parser tables of one process are built once (a suspect is looked at again with fresh ones)"""
    m = sub('parser.myparser')
    if not _real:
        if not callable(getattr(m, 'yacc', None)):
            return
        real = _real['yacc'] = m.yacc
        made = {}

        def once(*a, **k):
            k.setdefault('module', m)
            if not _real['on']:
                return real(*a, **k)
            if 'y' not in made:
                made['y'] = real(*a, **k)
            return made['y']
        m.yacc = once
    _real['on'] = on


FL = {'COMPILER_FLAG_FUNC_EXIST_CHECK': False}


def comp(text):
    try:
        return sub('parser.parse_and_exec').compile_anydice(text, dict(FL))
    except Fail:
        raise
    except Exception as e:
        return e



def look(case):
    k = case[0]
    if k == 'text':
        got = comp(case[1])
        ts = tokens(case[1])
        ok = ts is not None and derives([x for x, _ in ts])
        if not ok:
            need(isinstance(got, Exception), 'not a program, but compiled: %r\n%s' % (case[1], got))
        else:
            outs = any(x == 'output' for x, _ in ts)
            if isinstance(got, Exception) and outs and 'No outputs made' not in str(got):
                raise Fail('a program, but rejected: %r\n%s: %s' % (case[1], type(got).__name__, str(got)[:200]))
            if isinstance(got, Exception) and len(ts) >= 2 and (ts[0][0] == 'output' or ts[-2][0] == 'output' and ts[-1][0] == 'n' and not (len(ts) > 2 and ts[-3][0] in ('[', 'w'))) and depth(ts) and 'No outputs made' in str(got):
                raise Fail('a program, but its output is lost: %r' % case[1])
    elif k == 'same':
        a, b = comp(case[1]), comp(case[2])
        need(not isinstance(a, Exception), 'a program, but rejected: %r: %s' % (case[1], a))
        need(not isinstance(b, Exception), 'a program, but rejected: %r: %s' % (case[2], b))
        need(a == b, 'other white space, other code: %r\n%r' % (case[1], case[2]))
    else:
        import random as rm
        prog, seed = case[1], case[2]
        compare(prog, show_stmts(prog, printer(rm.Random(seed), True)), {})


def depth(ts):
    """the last two tokens stand outside of brackets"""
    d = 0
    for x, _ in ts[:-2]:
        d += (x in '[{(') - (x in ')}]') if len(x) == 1 else 0
    return d == 0


def check(case):
    keep_tables(True)
    try:
        look(case)
        return
    except Fail:
        pass
    finally:
        keep_tables(False)
    look(case)
