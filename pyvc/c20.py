"""C20: the functions of the lexer and the parser, the productions, and the pipeline that refuses what they refuse."""
from . import c17
from .c17 import *
from . import grammar

G = grammar.GMOD
for _p in ('C16', 'C17'):
    for _t in list(TASKS[_p]):
        if _t.name.startswith('grammar') or _t.name in ('words are told apart', 'numbers keep their digits', 'compilation'):
            task('C20', _t.name, _t.funcs)(_t.fn)


def ghost_obj(name, **kw):
    return Obj(Class(name, [], {}, 'ghost'), kw)


@task('C20', 'grammar: productions', [G + ':build_lex_yacc'])
def _(ip):
    """the parser is built from the productions of the documented grammar: none is missing, none is left out of the tables"""
    c = ip.c
    d = grammar.lr_table()
    have = {('%s : %s' % (p[0], ' '.join(p[1:]))).strip() for p in d['prods'][1:]}
    named = {p for p in grammar.TREE} | {'multiline_code : empty', 'empty :', 'funcname_def :'}
    symbols = {s for p in named for s in p.replace(':', '').split()}
    other = {s for p in have for s in p.replace(':', '').split()} - symbols
    if other:
        raise Unsupported('the grammar has other symbols: %s' % sorted(other)[:3])
    for p in sorted(named):
        c.prove('%s: is a production' % p, p in have)
    c.prove('nothing else is a production', not have - named)
    used = {-n for a in d['action'].values() for n in a.values() if n is not None and n < 0}
    lost = [i for i in range(1, len(d['prods'])) if i not in used]
    c.prove('every production is used by the tables', all(d['prods'][i][0] == 'funcname_def' and len(d['prods'][i]) == 1 for i in lost))


def posn(ip, name):
    n = num(ip, name, 'int')
    ip.c.assume(nt(n) >= 0)
    return n


def lexer(ip, log, state='INITIAL'):
    def column(ip, a, k):
        return posn(ip, 'column')
    ip.contracts[G + ':find_column'] = column
    lx = ghost_obj('lexer', lexdata=SStr([Hole('source', ('program', 0))]), lineno=posn(ip, 'line'), lexpos=posn(ip, 'at'))
    for f in ('begin', 'skip', 'push_state'):
        lx.attrs[f] = PyFn(f, lambda ip, a, k, f=f: log.append((f,) + tuple(a)))
    lx.attrs['pop_state'] = PyFn('pop_state', lambda ip, a, k: log.append(('begin', 'INITIAL')))
    lx.attrs['current_state'] = PyFn('current_state', lambda ip, a, k: state)
    n, u = ip.c.fresh('n'), ip.c.binder('e')
    ip.c.assume(n >= 0)
    for f in ('LEX_ILLEGAL_CHARS', 'YACC_ILLEGALs'):
        lx.attrs[f] = VList('list', Comp(n, u, Lit((SStr([Hole('error', (f, SNum(u)))]),))))
    return lx, n


def token(ip, lx, typ, value):
    return ghost_obj('LexToken', type=typ, value=value, lexer=lx, lexpos=posn(ip, 'lexpos'), lineno=posn(ip, 'lineno'))


def count(lx, f):
    return slen(lx.attrs[f].s)


@task('C20', 'what cannot be read is recorded', [G + ':t_ANY_error', G + ':p_error', G + ':t_ANY_eof'])
def _(ip):
    c = ip.c
    log = []
    which = c.choose(4)
    state = 'instring' if which == 2 else 'INITIAL'
    lx, n = lexer(ip, log, state)
    if which == 0:
        ip.text_index = lambda ip, v, i: SStr([Hole('char', ('first', 0))]) if i == 0 else None
        t = token(ip, lx, 'error', SStr([Hole('rest', ('r', 0))]))
        k, r = outcome(ip, glob(ip, G, 't_ANY_error'), [t])
        c.prove('illegal character: recorded', k == 'ok' and count(lx, 'LEX_ILLEGAL_CHARS') + count(lx, 'YACC_ILLEGALs') >= 1)
        c.prove('illegal character: no token', k == 'ok' and r is None)
        c.prove('illegal character: it is passed over', len(log) == 1 and log[0][0] == 'skip' and log[0][1] >= 1)
    elif which == 1:
        t = token(ip, lx, 'PLUS', '+')
        k, r = outcome(ip, glob(ip, G, 'p_error'), [t])
        c.prove('unexpected token: recorded', k == 'ok' and count(lx, 'YACC_ILLEGALs') >= 1)
        c.prove('unexpected token: the parser is not told to go on with another one', k == 'ok' and r is None and not log)
    else:
        t = token(ip, lx, 'eof', '')
        k, r = outcome(ip, glob(ip, G, 't_ANY_eof'), [t])
        c.prove('end of the program: is the end', k == 'ok' and r is None)
        c.prove('end of the program: an open text is recorded, nothing else', k == 'ok' and z3.And(count(lx, 'LEX_ILLEGAL_CHARS') >= 1 if which == 2 else count(lx, 'LEX_ILLEGAL_CHARS') == n, count(lx, 'YACC_ILLEGALs') == n))


@task('C20', 'end of the program inside a statement', [G + ':p_error'])
def _(ip):
    k, r = outcome(ip, glob(ip, G, 'p_error'), [None])
    ip.c.prove('unexpected end: there is no tree', k == 'raise' or r is None)


@task('C20', 'comments, line ends and quotes', [G + ':t_ignore_COMMENT', G + ':t_INITIAL_ignore_newline', G + ':t_begin_instring', G + ':t_instring_end'])
def _(ip):
    c = ip.c
    log = []
    lx, n = lexer(ip, log)
    which = c.choose(4)
    f, v = [('t_ignore_COMMENT', SStr(['\\', Hole('comment', ('c', 0)), '\\'])), ('t_INITIAL_ignore_newline', SStr([Hole('newlines', ('n', 0))])), ('t_begin_instring', '"'), ('t_instring_end', '"')][which]
    lines = posn(ip, 'newlines')
    ip.models.TEXT_METHODS['count'] = lambda ip, o, a, k: lines if a[0] == '\n' else NotImplemented
    ip.text_len = lambda ip, v: lines
    before = lx.attrs['lineno']
    t = token(ip, lx, f[2:], v)
    k, r = outcome(ip, glob(ip, G, f), [t])
    c.prove('%s: no token' % f, k == 'ok' and r is None)
    c.prove('%s: nothing is refused' % f, z3.And(count(lx, 'LEX_ILLEGAL_CHARS') == n, count(lx, 'YACC_ILLEGALs') == n))
    state = [x for x in log if x[0] in ('begin', 'push_state')]
    c.prove('%s: %s' % (f, ['reading goes on as before', 'reading goes on as before', 'a text begins', 'the text is over'][which]), state in ([[], [], [('begin', 'instring')], [('begin', 'INITIAL')]][which], [[], [], [('push_state', 'instring')], [('begin', 'INITIAL')]][which]) and len(log) == len(state))


SYMBOLS = {'t_PLUS': '+', 't_MINUS': '-', 't_TIMES': '*', 't_DIVIDE': '/', 't_POWER': '^', 't_COLON': ':', 't_LESS': '<', 't_GREATER': '>', 't_EQUALS': '=', 't_NOTEQUALS': '!=', 't_AT': '@', 't_HASH': '#', 't_OR': '|', 't_AND': '&',
           't_EXCLAMATION': '!', 't_DOUBLE_DOT': '..', 't_DOT': '.', 't_COMMA': ',', 't_LPAREN': '(', 't_RPAREN': ')', 't_LBRACE': '{', 't_RBRACE': '}', 't_LBRACKET': '[', 't_RBRACKET': ']'}


def language(pattern):
    """the texts a pattern without repetition matches, None when it has other constructs"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    import re

    def go(items):
        out = ['']
        for op, arg in items:
            op = str(op)
            if op == 'LITERAL':
                part = [chr(arg)]
            elif op == 'SUBPATTERN':
                part = go(arg[3])
            elif op == 'BRANCH':
                part = [y for x in arg[1] for y in (go(x) or [None])]
            elif op == 'IN' and all(str(o) == 'LITERAL' for o, _ in arg):
                part = [chr(x) for _, x in arg]
            else:
                return None
            if part is None or None in part:
                return None
            out = [a + b for a in out for b in part]
        return out
    return go(sp.parse(pattern, re.VERBOSE))


@task('C20', 'symbols', [])
def _(ip):
    """the pattern of every symbol matches that symbol and nothing else"""
    c = ip.c
    for name, text in SYMBOLS.items():
        if name not in ip.module(G).vars:
            raise Unsupported('symbol %s is read elsewhere' % name)
        p = glob(ip, G, name)
        words = language(p) if isinstance(p, str) else None
        if words is None:
            raise Unsupported('pattern of %s' % name)
        c.prove('%s: reads %s and nothing else' % (name, text), set(words) == {text})
    ig, ig2 = glob(ip, G, 't_ignore'), glob(ip, G, 't_instring_ignore')
    c.prove('blanks and tabs are passed over, nothing else is', isinstance(ig, str) and set(ig) == set(' \t'))
    c.prove('inside texts nothing is passed over', ig2 == '')


# ------------------------------------------------------------ patterns as languages
TOP = 0x10ffff


def complement(rs):
    out, at = [], 0
    for a, b in sorted(rs):
        if a > at:
            out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= TOP:
        out.append((at, TOP))
    return out


_digits = []


def decimal_digits():
    if not _digits:
        import unicodedata
        cs = [c for c in range(TOP + 1) if unicodedata.category(chr(c)) == 'Nd']
        start = prev = cs[0]
        for c in cs[1:]:
            if c != prev + 1:
                _digits.append((start, prev))
                start = c
            prev = c
        _digits.append((start, prev))
    return _digits


def to_re(pattern):
    """(the pattern as nested tuples over sets of characters, has it a repetition that prefers the shortest match, python's tree)"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    import re
    lazy = []

    def cls(items):
        rs, neg = [], False
        for op, arg in items:
            op = str(op)
            if op == 'NEGATE':
                neg = True
            elif op == 'LITERAL':
                rs.append((arg, arg))
            elif op == 'RANGE':
                rs.append(tuple(arg))
            elif op == 'CATEGORY' and str(arg) == 'CATEGORY_DIGIT':
                rs += decimal_digits()
            else:
                raise Unsupported('pattern %r' % pattern)
        return complement(rs) if neg else rs

    def go(items):
        return ('cat', [one(op, arg) for op, arg in items])

    def one(op, arg):
        op = str(op)
        if op == 'LITERAL':
            return ('set', [(arg, arg)])
        if op == 'NOT_LITERAL':
            return ('set', complement([(arg, arg)]))
        if op == 'ANY':
            return ('set', complement([(10, 10)]))
        if op == 'IN':
            return ('set', cls(arg))
        if op == 'SUBPATTERN':
            return go(arg[3])
        if op == 'BRANCH':
            return ('or', [go(x) for x in arg[1]])
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = arg
            if op == 'MIN_REPEAT':
                lazy.append(1)
            return ('rep', lo, None if str(hi) == 'MAXREPEAT' else hi, go(sub))
        raise Unsupported('pattern %r' % pattern)
    try:
        tree = sp.parse(pattern, re.VERBOSE)
    except (re.error, TypeError):
        raise Unsupported('pattern %r' % (pattern,))
    return go(tree), bool(lazy), tree


def union(*trees):
    return ('or', list(trees))


def inside(a, b):
    """every text of a is one of b; None: the solver does not say.  Characters that no set of the two tells apart are one letter"""
    cuts = {0}

    def collect(t):
        if t[0] == 'set':
            for x, y in t[1]:
                cuts.add(x)
                cuts.add(y + 1)
        elif t[0] == 'rep':
            collect(t[3])
        else:
            for x in t[1]:
                collect(x)
    collect(a)
    collect(b)
    cuts = sorted(x for x in cuts if x <= TOP)
    sets = []

    def members(rs):
        return frozenset(i for i, x in enumerate(cuts) if any(lo <= x <= hi for lo, hi in rs))

    def each(t):
        if t[0] == 'set':
            sets.append(members(t[1]))
        elif t[0] == 'rep':
            each(t[3])
        else:
            for x in t[1]:
                each(x)
    each(a)
    each(b)
    sign = {}
    letter = {}
    for i in range(len(cuts)):
        k = tuple(i in x for x in sets)
        letter[i] = sign.setdefault(k, chr(ord('a') + len(sign)))

    def build(t):
        if t[0] == 'set':
            ls = sorted({letter[i] for i in members(t[1])})
            return z3.Union(*[z3.Re(x) for x in ls]) if len(ls) > 1 else z3.Re(ls[0])
        if t[0] == 'cat':
            xs = [build(x) for x in t[1]]
            return z3.Concat(*xs) if len(xs) > 1 else xs[0] if xs else z3.Re('')
        if t[0] == 'or':
            xs = [build(x) for x in t[1]]
            return z3.Union(*xs) if len(xs) > 1 else xs[0]
        _, lo, hi, sub = t
        r = build(sub)
        if hi is not None:
            return z3.Loop(r, lo, hi)
        return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
    s = z3.Solver()
    s.set('timeout', 20000)
    x = z3.String('x')
    s.add(z3.InRe(x, build(a)), z3.Not(z3.InRe(x, build(b))))
    if len(sign) < 26:       # only letters that stand for characters
        s.add(z3.InRe(x, z3.Star(z3.Range('a', chr(ord('a') + len(sign) - 1)))))
    r = s.check()
    return True if r == z3.unsat else False if r == z3.sat else None


# name -> (what it must at least read, what it may read)
PATTERNS = {'t_NUMBER': (r'[0-9]+', r'\d+'), 't_LOWERNAME': (r'[a-z]+',) * 2, 't_UPPERNAME': (r'[A-Z_]+',) * 2, 't_INITIAL_ignore_newline': (r'\n', r'\n+'), 't_begin_instring': (r'"',) * 2, 't_instring_end': (r'"',) * 2,
            't_instring_INSTRING_VAR': (r'\[[A-Z_]+\]',) * 2, 't_ignore_COMMENT': (r'\\[^\\]*\\',) * 2}


@task('C20', 'patterns', [])
def _(ip):
    c = ip.c
    vs = ip.module(G).vars

    def pattern(name):
        if name not in vs:
            raise Unsupported('%s is read elsewhere' % name)
        v = glob(ip, G, name)
        p = grammar.pydoc(v) if isinstance(v, Func) else v
        if not isinstance(p, str):
            raise Unsupported('pattern of %s' % name)
        return p
    for name, (least, most) in PATTERNS.items():
        a, lazy, tree = to_re(pattern(name))
        if lazy:
            # \ then as little as possible, then \ : reads up to the next \
            items = [(str(o), x) for o, x in tree]
            if not (name == 't_ignore_COMMENT' and len(items) == 3 and items[0] == ('LITERAL', 92) and items[2] == ('LITERAL', 92) and items[1][0] == 'MIN_REPEAT' and items[1][1][0] == 0 and str(items[1][1][1]) == 'MAXREPEAT'):
                raise Unsupported('pattern %r prefers short matches' % pattern(name))
            whole, _, _ = to_re(r'\\(.|\n)*\\')
            least, most = whole, whole
        else:
            least, most = to_re(least)[0], to_re(most)[0]
        r1, r2 = inside(least, a), inside(a, most)
        if r1 is None or r2 is None:
            raise Unsupported('the solver does not compare the patterns of %s' % name)
        c.prove('%s: reads everything it has to read' % name, r1)
        c.prove('%s: reads nothing else' % name, r2)
    # inside a text: every character but the end of the line and the quote is read, by one of the three, and nothing else is
    names = ('t_instring_INSTRING_VAR', 't_instring_INSTRING_NONVAR', 't_instring_INSTRING_ANY')
    rs = [to_re(pattern(n)) for n in names]
    if any(l for _, l, _ in rs):
        raise Unsupported('patterns of texts prefer short matches')
    r1, r2 = inside(to_re(r'[^\n"]')[0], union(*[r for r, _, _ in rs])), inside(union(*[r for r, _, _ in rs]), to_re(r'[^\n"]+')[0])
    starts = inside(rs[2][0], to_re(r'[^\n"\[][^\n"]*')[0])
    if None in (r1, r2, starts):
        raise Unsupported('the solver does not compare the patterns of texts')
    c.prove('texts: every character of a line but the quote is read', r1)
    c.prove('texts: nothing else is read', r2)
    c.prove('texts: what is read as plain text does not begin with a bracket', starts)


task('C20', 'grammar: tables', [G + ':build_lex_yacc'])(grammar.tables)
