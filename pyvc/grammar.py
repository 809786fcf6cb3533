"""The actions of the grammar: for every production of the docstrings of myparser.py, the value the action leaves in p[0] is the
node the production describes, for all values of the symbols on its right-hand side."""
import os
from .texts import *
from .verify import *

GMOD = 'parser.myparser'
LEXEME = {'PLUS': '+', 'MINUS': '-', 'TIMES': '*', 'DIVIDE': '/', 'POWER': '^', 'COLON': ':', 'LESS': '<', 'GREATER': '>', 'EQUALS': '=', 'NOTEQUALS': '!=', 'AT': '@', 'HASH': '#', 'OR': '|', 'AND': '&',
          'EXCLAMATION': '!', 'DOT': '.', 'DOUBLE_DOT': '..', 'COMMA': ',', 'LPAREN': '(', 'RPAREN': ')', 'LBRACE': '{', 'RBRACE': '}', 'LBRACKET': '[', 'RBRACKET': ']', 'D_OP': 'd'}
WORDS = ('OUTPUT', 'FUNCTION', 'LOOP', 'OVER', 'NAMED', 'SET', 'TO', 'IF', 'ELSE', 'RESULT')
LEXEME.update({w: w.lower() for w in WORDS})
# symbols whose value is a node that grows: node type
GROWS = {'multiline_code': 'MULTILINE_CODE', 'string': 'STRING', 'funcname_def': 'FUNCNAME_DEF', 'elements': 'SEQ', 'call_elements': 'CALL'}
NODES = ('expression', 'term', 'element', 'range', 'single_code')

# production -> value.  an integer: the value of that symbol; (type, parts...): a node; ('+', part): the node p[1] with one more part;
# a list: a list of nodes; ('text', i...): the texts joined; ('inner', i): the text of p[i] without its brackets
TREE = {
    'multiline_code : single_code': ('MULTILINE_CODE', 1),
    'multiline_code : multiline_code single_code': ('+', 2), 'multiline_code : empty': ('MULTILINE_CODE',),
    'single_code : OUTPUT expression': ('OUTPUT', 2), 'single_code : OUTPUT expression NAMED string': ('OUTPUT_NAMED', 2, 4),
    'single_code : FUNCTION COLON funcname_def LBRACE multiline_code RBRACE': ('FUNCTION', 3, 5),
    'single_code : LOOP var_name OVER expression LBRACE multiline_code RBRACE': ('LOOP', 2, 4, 6),
    'single_code : RESULT COLON expression': ('RESULT', 3), 'single_code : SET string TO string': ('SET', 2, 4), 'single_code : SET string TO expression': ('SET', 2, 4),
    'single_code : var_name COLON expression': ('VAR_ASSIGN', 1, 3), 'var_name : UPPERNAME': 1,
    'if_expr : IF expression LBRACE multiline_code RBRACE': [('IF', 2, 4)], 'else_expr : ELSE LBRACE multiline_code RBRACE': [('ELSE', 3)],
    'elseif_expr : ELSE IF expression LBRACE multiline_code RBRACE': [('ELSEIF', 3, 5)],
    'elseif_expr : elseif_expr ELSE IF expression LBRACE multiline_code RBRACE': ['*1', ('ELSEIF', 4, 6)],
    'single_code : if_expr': ('IF_ELIF_ELSE', '*1'), 'single_code : if_expr else_expr': ('IF_ELIF_ELSE', '*1', '*2'),
    'single_code : if_expr elseif_expr': ('IF_ELIF_ELSE', '*1', '*2'), 'single_code : if_expr elseif_expr else_expr': ('IF_ELIF_ELSE', '*1', '*2', '*3'),
    'expression : term D_OP term': ('EXPR_OP', '=ndm', 1, 3), 'expression : term': 1,
    'term : HASH term': ('HASH', 2), 'term : LPAREN expression RPAREN': ('GROUP', 2), 'term : NUMBER': ('NUMBER', 1), 'term : NUMBER DOT NUMBER': ('NUMBER_DECIMAL', 1, 3),
    'term : var_name': ('VAR', 1), 'term : LBRACE RBRACE': ('SEQ',), 'term : LBRACE elements RBRACE': 2,
    'elements : elements COMMA element': ('+', 3), 'elements : element': ('SEQ', 1), 'element : expression': 1, 'element : range': 1,
    'range : expression DOUBLE_DOT expression': ('RANGE', 1, 3), 'term : string': 1, 'term : LBRACKET call_elements RBRACKET': 2,
    'call_elements : expression': ('CALL', ('CALL_EXPR', 1)), 'call_elements : call_elements expression': ('+', ('CALL_EXPR', 2)),
    'expression : D_OP term': ('EXPR_OP', '=dm', 2, None),
}
for _o in ('PLUS', 'MINUS', 'TIMES', 'DIVIDE', 'POWER', 'AT', 'AND', 'OR', 'LESS', 'GREATER', 'EQUALS', 'NOTEQUALS'):
    TREE['expression : expression %s expression' % _o] = ('EXPR_OP', 2, 1, 3)
for _o in ('LESS', 'GREATER'):
    TREE['expression : expression %s EQUALS expression' % _o] = ('EXPR_OP', ('text', 2, 3), 1, 4)
for _o in ('PLUS', 'MINUS', 'EXCLAMATION'):
    TREE['term : %s term' % _o] = ('UNARY', 1, 2)
EXPRESSIONS = [p for p in TREE if not p.startswith(('single_code', 'multiline', 'if_', 'else', 'var_name', 'call_elements', 'term : LBRACKET'))]
STATEMENTS = [p for p in TREE if p not in EXPRESSIONS and 'LBRACKET' not in p and not p.startswith('call_elements')]
NAMES = [p for p in TREE if p not in EXPRESSIONS and p not in STATEMENTS]
_n = {'funcname_def : var_name': ('FUNCNAME_DEF', ('PARAM', 1)), 'funcname_def : funcname_def var_name': ('+', ('PARAM', 2))}
for _o in ('D_OP', 'LOWERNAME'):
    _n['funcname_def : var_name COLON ' + _o] = ('FUNCNAME_DEF', ('PARAM_WITH_DTYPE', 1, 3))
    _n['funcname_def : funcname_def var_name COLON ' + _o] = ('+', ('PARAM_WITH_DTYPE', 2, 4))
for _o in ('LOWERNAME',) + WORDS + ('D_OP',):
    _n['funcname_def : ' + _o] = ('FUNCNAME_DEF', 1)
    _n['funcname_def : funcname_def ' + _o] = ('+', 2)
    if _o != 'D_OP':
        _n['call_elements : ' + _o] = ('CALL', 1)
        _n['call_elements : call_elements ' + _o] = ('+', 2)
NAMES += list(_n)
TREE.update(_n)
_t = {}
for _o in ('INSTRING_ANY', 'INSTRING_NONVAR'):
    _t['string : ' + _o] = ('STRING', 1)
    _t['string : string ' + _o] = ('+', 2)
_t['string : INSTRING_VAR'] = ('STRING', ('STRVAR', ('inner', 1)))
_t['string : string INSTRING_VAR'] = ('+', ('STRVAR', ('inner', 2)))
TEXTS = list(_t)
TREE.update(_t)


def productions(ip):
    """production -> (name, function), from the docstrings of the real functions"""
    out = {}
    for name in list(ip.module(GMOD).vars):
        f = glob(ip, GMOD, name) if name.startswith('p_') and name != 'p_error' else None
        if not isinstance(f, Func):
            continue
        lhs = None
        for line in (pydoc(f) or '').splitlines():
            ws = line.split()
            if not ws:
                continue
            if ws[0] == '|':
                rhs = ws[1:]
            elif len(ws) > 1 and ws[1] in (':', '::='):
                lhs, rhs = ws[0], ws[2:]
            else:
                raise Unsupported('production %r' % line)
            if '%prec' in rhs:
                rhs = rhs[:rhs.index('%prec')]
            out.setdefault(('%s : %s' % (lhs, ' '.join(rhs))).strip(), (name, f))
    return out


def pydoc(f):
    import ast
    return ast.get_docstring(f.node, clean=False)


def some(ip, what, role, kids=None):
    """an arbitrary node of the given type (None: any) and how its parts look"""
    o = Obj(glob(ip, GMOD, 'Node'), {'$role': role, '$idx': 0})
    o.meta['opaque'] = role
    if kids is not None:
        o.attrs.update({'type': glob(ip, GMOD, 'NodeType').ns[what], 'vals': VList('list', kids)})
        del o.meta['opaque']
    return o


def value(ip, sym, i):
    """(value of symbol i, its parts before when it grows)"""
    c = ip.c
    if sym in LEXEME:
        return LEXEME[sym], None
    if sym in ('LOWERNAME', 'UPPERNAME', 'NUMBER', 'var_name', 'INSTRING_ANY', 'INSTRING_NONVAR'):
        return SStr([Hole('token', ('p%d' % i, 0))]), None
    if sym == 'INSTRING_VAR':
        return SStr(['[', Hole('token', ('p%d' % i, 0)), ']']), None
    if sym == 'empty':
        return None, None
    if sym in GROWS:
        n, u = c.fresh('n'), c.binder('e')
        c.assume(n >= 0)
        kid = Obj(glob(ip, GMOD, 'Node'), {'$role': 'part of p%d' % i, '$idx': SNum(u)})
        kid.meta['opaque'] = 'part'
        s = Comp(n, u, Lit((kid,)))
        return some(ip, GROWS[sym], 'p%d' % i, s), s
    if sym in ('if_expr', 'else_expr', 'elseif_expr'):
        u = c.binder('e')
        n = c.fresh('n') if sym == 'elseif_expr' else z3.IntVal(1)
        c.assume(n >= 1)
        kid = Obj(glob(ip, GMOD, 'Node'), {'$role': 'part of p%d' % i, '$idx': SNum(u)})
        kid.meta['opaque'] = 'part'
        s = Comp(n, u, Lit((kid,))) if sym == 'elseif_expr' else Lit((subst(kid, [(u, z3.IntVal(0))]),))
        return VList('list', s), s
    if sym == 'single_code':
        o = some(ip, None, 'p%d' % i)
        kinds = ('OUTPUT', 'OUTPUT_NAMED', 'FUNCTION', 'LOOP', 'RESULT', 'SET', 'IF_ELIF_ELSE', 'VAR_ASSIGN')
        o.attrs['type'] = glob(ip, GMOD, 'NodeType').ns[kinds[c.choose(len(kinds))]]
        return o, None
    if sym in NODES:
        return some(ip, None, 'p%d' % i), None
    raise Unsupported('symbol %s' % sym)


def text_parts(ip, x):
    return [p if isinstance(p, str) else ('hole', p.info) if isinstance(p, Hole) and p.what == 'token' else ('?', p) for p in pieces(ip, x)]


def same(ip, got, want, vals, olds):
    """a formula or a truth value: got is what the table says"""
    c = ip.c
    got = ip.force(got)
    if want is None:
        return True
    if isinstance(want, int):
        return same_value(ip, got, vals[want])
    if isinstance(want, str) and want.startswith('='):
        return got == want[1:]
    if isinstance(want, tuple) and want[0] in ('text', 'inner'):
        if not isinstance(got, (str, SStr)):
            raise Unsupported('text expected, %r' % (got,))
        if want[0] == 'text':
            return text_parts(ip, got) == text_parts(ip, SStr([p for i in want[1:] for p in ([vals[i]] if isinstance(vals[i], str) else vals[i].parts)]))
        return text_parts(ip, got) == text_parts(ip, SStr(vals[want[1]].parts[1:-1] if len(vals[want[1]].parts) == 3 else []))
    if got is None:
        return False        # a production without a value
    if isinstance(want, list):
        if not isinstance(got, VList):
            raise Unsupported('value of a list of branches: %r' % (got,))
        return same_list(ip, got.s, want, vals, olds)
    grow = want[0] == '+'
    if not isinstance(got, Obj) or got.cls is not glob(ip, GMOD, 'Node'):
        raise Unsupported('not a node: %r' % (got,))
    if '$role' in got.attrs and 'vals' not in got.attrs:
        return False
    kind = vals[1].attrs['type'] if grow else glob(ip, GMOD, 'NodeType').ns[want[0]]
    if ip.force(got.attrs['type']) is not kind:
        return False
    v = ip.force(got.attrs['vals'])
    if not isinstance(v, VList):
        raise Unsupported('parts of a node: %r' % (v,))
    return same_list(ip, v.s, (['*1'] if grow else []) + list(want[1:]), vals, olds)


def same_value(ip, got, v):
    if isinstance(v, (str, SStr)):
        return isinstance(got, (str, SStr)) and text_parts(ip, got) == text_parts(ip, v)
    if isinstance(v, Obj):
        return isinstance(got, Obj) and got.attrs.get('$role') == v.attrs['$role'] and '$role' in got.attrs
    return got is v


def same_list(ip, s, parts, vals, olds):
    c = ip.c
    lens = [slen(olds[int(p[1:])]) if isinstance(p, str) and p.startswith('*') else z3.IntVal(1) for p in parts]
    total = z3.simplify(z3.Sum(lens + [z3.IntVal(0)]))
    if not c.holds(slen(s) == total):
        return slen(s) == total
    at = z3.IntVal(0)
    out = []
    for p, n in zip(parts, lens):
        if isinstance(p, str) and p.startswith('*'):
            q = c.fresh('q')
            if c.holds(n == 0):
                continue
            with_q = z3.And(q >= 0, q < n)
            i = int(p[1:])
            c.assume(z3.Implies(n >= 1, with_q))
            if not c.holds(n >= 1):
                if not c.choose(2):
                    c.assume(n == 0)
                    continue
                c.assume(n >= 1)
            g, w = ip.force(ip.index_sl(s, SNum(z3.simplify(at + q), 'int'))), ip.force(ip.index_sl(olds[i], SNum(q, 'int')))
            if not isinstance(g, Obj) or '$role' not in g.attrs:
                return False
            if g.attrs['$role'] != w.attrs['$role']:
                return False
            out.append(nt(g.attrs['$idx']) == nt(w.attrs['$idx']))
        else:
            if p is not None:
                out.append(same(ip, ip.index_sl(s, SNum(z3.simplify(at), 'int')), p, vals, olds))
        at = at + n
    fs = []
    for o in out:
        if o is False:
            return False
        if o is not True:
            fs.append(o)
    return z3.And(fs) if fs else True


def action(ip, names):
    c = ip.c
    ps = productions(ip)
    known = [p for p in names if p in ps]
    missing = [p for p in names if p not in ps]
    k = c.choose(len(known) + 1)
    if k == len(known):
        # what the table cannot say anything about
        if missing and not all(p in ('multiline_code : empty',) for p in missing):
            raise Unsupported('production written in another way: %s' % missing[0])
        return
    prod = known[k]
    name, f = ps[prod]
    rhs = prod.split(' : ')[1].split()
    vals, olds = [None], [None]
    for i, sym in enumerate(rhs):
        v, old = value(ip, sym, i + 1)
        vals.append(v)
        olds.append(old)
    p = VList('list', Lit(tuple(vals)))
    kind, r = outcome(ip, f, [p])
    if kind == 'raise' and any(x in ('if_expr', 'else_expr', 'elseif_expr') for x in rhs):
        raise Unsupported('lists of branches kept in another way: %s' % r.exc_type)
    if not c.prove('%s: accepted' % prod, kind == 'ok'):
        return
    got = ip.index_sl(p.s, 0)
    c.prove('%s: the value is the node the production describes' % prod, same(ip, got, TREE[prod], vals, olds))


def source_functions():
    import ast
    from .interp import SRC
    try:
        t = ast.parse(open(os.path.join(SRC, 'parser', 'myparser.py'), encoding='utf-8').read())
    except (OSError, SyntaxError):
        return {}
    return {n.name: n for n in t.body if isinstance(n, ast.FunctionDef) and n.name.startswith('p_') and n.name != 'p_error'}


# ------------------------------------------------------------ which reading wins
BINARY = {'OR': 1, 'AND': 2, 'LESS': 3, 'GREATER': 3, 'EQUALS': 3, 'NOTEQUALS': 3, 'PLUS': 4, 'MINUS': 4, 'TIMES': 5, 'DIVIDE': 5, 'POWER': 6, 'AT': 7}
_table = {}


def lr_table():
    if not _table:
        import json
        import subprocess
        import sys
        from .interp import SRC
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), 'lrtable.py'), SRC], capture_output=True, timeout=120)
        try:
            _table.update(json.loads(r.stdout))
        except ValueError:
            raise Unsupported('the parser tables cannot be built: %s' % r.stderr.decode(errors='replace')[-200:])
    return _table


def precedence(ip):
    """in every state of the parser that ends a production, what wins against every token that may follow.
    An action -k reduces production k; a state that can reduce k is a state in which production k has been read to its end"""
    c = ip.c
    d = lr_table()
    prods, action = d['prods'], d['action']
    texts = ['%s : %s' % (p[0], ' '.join(p[1:])) for p in prods]
    if any(texts.count(t) > 1 for t in texts):
        raise Unsupported('a production is listed twice')
    want = {}           # production -> token -> may be read on (True) or must be reduced (False)
    for o, n in BINARY.items():
        for extra in ('', ' EQUALS'):
            want['expression : expression %s%s expression' % (o, extra)] = {q: BINARY[q] > n for q in BINARY}
    for t in ('expression : term D_OP term', 'expression : D_OP term', 'term : PLUS term', 'term : MINUS term', 'term : EXCLAMATION term', 'term : HASH term'):
        want[t] = {q: False for q in list(BINARY) + ['D_OP']}
    want['expression : term'] = dict({q: False for q in BINARY}, D_OP=True)
    for t in ('call_elements : expression', 'call_elements : call_elements expression'):
        want[t] = {q: True for q in BINARY}
    for t in ('term : string', 'single_code : SET string TO string', 'single_code : OUTPUT expression NAMED string'):
        want[t] = {q: True for q in ('INSTRING_ANY', 'INSTRING_NONVAR', 'INSTRING_VAR')}
    want['term : NUMBER'] = {'DOT': True, 'D_OP': False}
    for t, follow in want.items():
        if t not in texts:
            if t == 'expression : expression EQUALS EQUALS expression' or ' EQUALS expression' in t and t.split()[3] not in ('LESS', 'GREATER'):
                continue
            raise Unsupported('production written in another way: %s' % t)
        k = texts.index(t)
        states = [a for a in action.values() if -k in a.values()]
        bad = None
        for a in states:
            for q, shift in follow.items():
                if q in a and (a[q] is None or (a[q] > 0) != shift or not shift and a[q] != -k):
                    bad = q
        c.prove('%s: read to its end%s' % (t, ''), bool(states))
        c.prove('%s: against every operator that may follow%s' % (t, ' (%s)' % bad if bad else ''), bad is None)


def lalr(prods):
    """canonical LR(0) states of the productions (0 is the start) and the LALR(1) lookahead of every item, worked out anew"""
    nts = {p[0] for p in prods}
    by = {}
    for i, p in enumerate(prods):
        by.setdefault(p[0], []).append(i)
    rhs = [p[1:] for p in prods]
    null, grow = set(), True
    while grow:
        grow = False
        for p in prods:
            if p[0] not in null and all(x in null for x in p[1:]):
                null.add(p[0])
                grow = True
    first = {n: set() for n in nts}
    grow = True
    while grow:
        grow = False
        for p in prods:
            for x in p[1:]:
                new = first[x] if x in nts else {x}
                if not new <= first[p[0]]:
                    first[p[0]] |= new
                    grow = True
                if x not in null:
                    break

    def closure(items):
        out, todo = set(items), list(items)
        while todo:
            i, d = todo.pop()
            if d < len(rhs[i]) and rhs[i][d] in nts:
                for j in by[rhs[i][d]]:
                    if (j, 0) not in out:
                        out.add((j, 0))
                        todo.append((j, 0))
        return out
    start = frozenset({(0, 0)})
    states, todo, step = {start: closure(start)}, [start], {}
    while todo:
        s = todo.pop()
        for x in {rhs[i][d] for i, d in states[s] if d < len(rhs[i])}:
            t = frozenset((i, d + 1) for i, d in states[s] if d < len(rhs[i]) and rhs[i][d] == x)
            step[s, x] = t
            if t not in states:
                states[t] = closure(t)
                todo.append(t)
    la = {(s, it): set() for s in states for it in states[s]}
    la[start, (0, 0)].add('$end')
    work = [(start, (0, 0))]
    while work:
        s, (i, d) = work.pop()
        if d == len(rhs[i]):
            continue
        x = rhs[i][d]
        t = step[s, x]
        if not la[s, (i, d)] <= la[t, (i, d + 1)]:
            la[t, (i, d + 1)] |= la[s, (i, d)]
            work.append((t, (i, d + 1)))
        if x in nts:
            f = set()
            for y in rhs[i][d + 1:]:
                f |= first[y] if y in nts else {y}
                if y not in null:
                    break
            else:
                f |= la[s, (i, d)]
            for j in by[x]:
                # an item without lookahead yet still has to be visited
                if not f <= la[s, (j, 0)] or (s, (j, 0)) not in seen_(la):
                    la[s, (j, 0)] |= f
                    seen_(la).add((s, (j, 0)))
                    work.append((s, (j, 0)))
        if (t, (i, d + 1)) not in seen_(la):
            seen_(la).add((t, (i, d + 1)))
            work.append((t, (i, d + 1)))
    la.pop('seen', None)
    return states, step, la, nts, start


def seen_(la):
    return la.setdefault('seen', set())


def tables(ip):
    """the tables are the LALR(1) tables of the productions: every state stands for a set of items, every entry is what an item
    of that set allows, and nothing an item allows is left out (but for choices between two of them)"""
    c = ip.c
    d = lr_table()
    prods, action, goto = d['prods'], d['action'], d['goto']
    states, step, la, nts, start = lalr(prods)
    name, todo, wrong = {'0': start}, ['0'], []
    while todo:
        s = todo.pop()
        st = name[s]
        moves = [(x, str(n)) for x, n in goto.get(s, {}).items()] + [(x, str(n)) for x, n in action.get(s, {}).items() if n is not None and n > 0]
        for x, n in moves:
            t = step.get((st, x))
            if t is None or name.get(n, t) != t:
                wrong.append('state %s on %s' % (s, x))
            elif n not in name:
                name[n] = t
                todo.append(n)
    c.prove('tables: every state stands for one set of items', not wrong)
    if wrong:
        return
    bad = {'goto': [], 'shift': [], 'reduce': [], 'nothing': [], 'choice': []}
    for s, st in name.items():
        want = {}
        for i, dot in states[st]:
            r = prods[i][1:]
            if dot < len(r):
                if r[dot] in nts:
                    if r[dot] not in goto.get(s, {}):
                        bad['goto'].append((s, r[dot]))
                else:
                    want.setdefault(r[dot], set()).add('shift')
            else:
                for q in la[st, (i, dot)]:
                    want.setdefault(q, set()).add(-i if i else 0)
        have = action.get(s, {})
        for q in set(want) | set(have):
            a = have.get(q)
            w = want.get(q, set())
            act = 'shift' if a is not None and a > 0 else a
            if not w:
                if a is not None:
                    bad['nothing'].append((s, q))
            elif act not in w:
                bad['choice' if len(w) > 1 else 'shift' if w == {'shift'} else 'reduce'].append((s, q))
            elif len(w) > 1 and 'shift' not in w and act != max(w):
                bad['choice'].append((s, q))
    c.prove('tables: after a production the parser is in the state of its left side', not bad['goto'])
    c.prove('tables: a token that an item allows is read', not bad['shift'])
    c.prove('tables: a production that is complete is applied', not bad['reduce'])
    c.prove('tables: a token that no item allows is refused', not bad['nothing'])
    c.prove('tables: where two items allow different steps one of them is taken, of two productions the first', not bad['choice'])
    ip.c.memo['lalr'] = bad
