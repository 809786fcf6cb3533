"""C16: the code generator, by structural induction on the parse tree.

Contract of resolve_node for an expression node: the text is one python expression whose python parse tree is the meaning M(node)
of the AnyDice node, and whose operator at the top binds at least as tightly as the class CLASS(kind of the node).  A node's own
task runs the real resolve_node on a node of that kind whose children are opaque: resolve_node of a child is its contract (a hole),
_python_prec of a child its real value for each kind of child.  The resulting text is given to python's own parser with every hole
filled by representatives of every class the child may have; python's expression grammar is an operator precedence grammar, so how a
text parses depends only on the classes of the operands (trusted fact about the grammar of Python)."""
import ast as pyast
import itertools
from .texts import *

MOD = 'parser.python_resolver'
KEY = MOD + ':PythonResolver.'
ARITH = {'+': 'Add', '-': 'Sub', '*': 'Mult', '/': 'FloorDiv', '^': 'Pow', '@': 'MatMult', '&': 'BitAnd', '|': 'BitOr'}
COMPARE = {'=': 'Eq', '!=': 'NotEq', '<': 'Lt', '>': 'Gt', '<=': 'LtE', '>=': 'GtE'}
UNARIES = {'+': 'UAdd', '-': 'USub', '!': 'Invert'}
ON_INT = {'@': 'myMatmul', '&': 'myAnd', '|': 'myOr', '!': 'myInvert', '#': 'myLen'}
BIN = list(ARITH) + list(COMPARE)

# classes of python's expression grammar, loosest first
LEVEL = {pyast.BitOr: 1, pyast.BitXor: 1, pyast.BitAnd: 2, pyast.LShift: 2, pyast.RShift: 2, pyast.Add: 3, pyast.Sub: 3, pyast.Mult: 4, pyast.MatMult: 4, pyast.Div: 4, pyast.FloorDiv: 4, pyast.Mod: 4, pyast.Pow: 6}
REPS = {0: ['{0} < {1}', '{0} == {1}', '{0} != {1}', '{0} >= {1}'], 1: ['{0} | {1}'], 2: ['{0} & {1}'], 3: ['{0} + {1}', '{0} - {1}'], 4: ['{0} * {1}', '{0} // {1}'],
        5: ['-{0}', '+{0}', '~{0}'], 6: ['{0} ** {1}', '{0} ** -{1}'], 7: ['{0}', 'f_{0}({1})', '({0} < {1})', '(-{0})', '[{0}, {1}]', 'f"{{{0}}} x"', "vars['{0}']", '7', '7.5', '(({0} + {1}) @ {0})']}


def level(text):
    """class of a python expression text, None if it is none"""
    try:
        b = pyast.parse(text, mode='eval').body
    except SyntaxError:
        return None
    if b.col_offset > 0 or b.end_col_offset < len(text.encode()):
        return 7          # parenthesized
    if isinstance(b, pyast.Compare):
        return 0
    if isinstance(b, pyast.BinOp):
        return LEVEL[type(b.op)]
    if isinstance(b, pyast.UnaryOp):
        return 5 if not isinstance(b.op, pyast.Not) else -1
    if isinstance(b, (pyast.BoolOp, pyast.IfExp, pyast.Lambda, pyast.NamedExpr, pyast.Await, pyast.Tuple, pyast.Starred, pyast.Yield)):
        return -1
    return 7


def resolver(ip, on_int, **kw):
    """a resolver with arbitrary flags and history"""
    c = ip.c
    S = lambda n: SB(c.fresh(n, B))
    keep = ip.contracts.get(KEY + '_check_nested_str')
    ip.contracts[KEY + '_check_nested_str'] = lambda ip, a, k: True
    o = ip.call(glob(ip, MOD, 'PythonResolver'), [child(ip, 'root', sort='block')])
    if keep is None:
        del ip.contracts[KEY + '_check_nested_str']
    o.attrs.update({'_COMPILER_FLAG_NON_LOCAL_SCOPE': S('non_local'), '_COMPILER_FLAG_OPERATOR_ON_INT': on_int, '_COMPILER_FLAG_FUNC_LIB_CONFLICT': S('conflict'), '_COMPILER_FLAG_FUNC_EXIST_CHECK': S('exist'), '_output_counter': num(ip, 'outputs', 'int')})
    c.assume(nt(o.attrs['_output_counter']) >= 0)
    o.meta['opaque'] = 'resolver'
    o.meta['log'] = log = []
    for n, m in (('_defined_functions', 'add'), ('_user__defined_functions', 'append'), ('_called_functions', 'add')):
        x = Obj(Class('recorder', [], {}, 'ghost'))
        x.meta['opaque'] = n
        x.attrs[m] = PyFn(n, lambda ip, a, k, n=n: log.append((n, a[0])))
        o.attrs[n] = x
    o.attrs.update(kw)
    return o


def node(ip, kind, *vals):
    return Obj(glob(ip, 'parser.myparser', 'Node'), {'type': glob(ip, 'parser.myparser', 'NodeType').ns[kind], 'vals': VList('list', Lit(tuple(vals)))})


def child(ip, role, idx=None, sort='expr'):
    """an arbitrary node, only its contract is known"""
    o = Obj(glob(ip, 'parser.myparser', 'Node'), {'$role': role, '$idx': idx if idx is not None else 0, '$sort': sort})
    o.meta['opaque'] = role
    return o


def opaque(o):
    return isinstance(o, Obj) and '$role' in o.attrs


def hole(o):
    return Hole(o.attrs['$sort'], (o.attrs['$role'], o.attrs['$idx']))


def contracts(ip, prec=None):
    ip.c.memo['fnames'] = names = []

    def fname(ip, a, k):
        if len(a) == 2 and not k and isinstance(ip.force(a[1]), VList):
            names.append(ip.as_sl(ip.force(a[1])))
            return SStr([Hole('fname', ('name', len(names) - 1))])
        return NotImplemented
    ip.contracts[KEY + '_python_func_name'] = fname

    def rn(ip, a, k):
        if len(a) == 2 and not k and opaque(a[1]):
            return SStr([hole(a[1])])
        return NotImplemented

    def ir(ip, a, k):
        if len(a) == 2 and not k and opaque(a[1]) and a[1].attrs['$sort'] == 'block':
            return SStr([Hole('indented', (a[1].attrs['$role'], a[1].attrs['$idx']))])
        return NotImplemented

    def pp(ip, a, k):
        if len(a) == 2 and not k and opaque(a[1]):
            if prec is None or a[1].attrs['$role'] not in prec:
                raise Unsupported('precedence of an opaque node')
            return prec[a[1].attrs['$role']]
        return NotImplemented
    ip.contracts[KEY + 'resolve_node'] = rn
    ip.contracts[KEY + '_indent_resolve'] = ir
    ip.contracts[KEY + '_python_prec'] = pp


def kinds(ip):
    """one concrete node of every kind of expression"""
    v = lambda x: node(ip, 'VAR', x)
    out = {('bin', o): lambda o=o: node(ip, 'EXPR_OP', o, v('A'), v('B')) for o in BIN}
    out.update({('un', o): lambda o=o: node(ip, 'UNARY', o, v('A')) for o in UNARIES})
    out.update({'ndm': lambda: node(ip, 'EXPR_OP', 'ndm', v('A'), v('B')), 'dm': lambda: node(ip, 'EXPR_OP', 'dm', v('A'), 'DUMMY VAL'), 'hash': lambda: node(ip, 'HASH', v('A')),
                'group': lambda: node(ip, 'GROUP', v('A')), 'number': lambda: node(ip, 'NUMBER', '12'), 'decimal': lambda: node(ip, 'NUMBER_DECIMAL', '1', '5'), 'var': lambda: v('A'),
                'seq': lambda: node(ip, 'SEQ', v('A'), v('B')), 'range': lambda: node(ip, 'RANGE', v('A'), v('B')), 'call': lambda: node(ip, 'CALL', 'f', node(ip, 'CALL_EXPR', v('A'))), 'string': lambda: node(ip, 'STRING', 'x')})
    return out


_groups = {}


def classes(ip, on_int):
    """kind -> (value of _python_prec, class of the text), computed from the real functions"""
    if on_int not in _groups:
        keep = dict(ip.contracts)
        ip.contracts.clear()
        r = resolver(ip, on_int, _COMPILER_FLAG_NON_LOCAL_SCOPE=False, _COMPILER_FLAG_FUNC_LIB_CONFLICT=False)
        out = {}
        for k, f in kinds(ip).items():
            n = f()
            t = ip.call(ip.getattr(r, 'resolve_node'), [n])
            p = ip.call(ip.getattr(r, '_python_prec'), [n]) if KEYS_EXIST(ip, '_python_prec') else None
            if not isinstance(t, str) or level(t) is None or not (p is None or isinstance(p, int)):
                raise Unsupported('text of a %s: %r' % (k, t))
            out[k] = (p, level(t))
        ip.contracts.update(keep)
        _groups[on_int] = out
    return _groups[on_int]


def KEYS_EXIST(ip, name):
    return glob(ip, MOD, 'PythonResolver').lookup(name)[0] is not None


def fillings(ps, cls):
    """every way to fill the holes with representatives: (text, hole key -> text)"""
    hs = []
    for q in ps:
        if isinstance(q, Hole):
            k = (q.info[0], str(q.info[1]))
            if k not in hs:
                hs.append(k)
    choices = []
    for j, k in enumerate(hs):
        lo = cls.get(k[0], 0)
        choices.append([r.format('h%da' % j, 'h%db' % j) for L in range(max(lo, 0), 8) for r in REPS[L]])
    for combo in itertools.product(*choices):
        f = dict(zip(hs, combo))
        yield ''.join(q if isinstance(q, str) else f[(q.info[0], str(q.info[1]))] for q in ps), f


def expr(text):
    return pyast.parse(text, mode='eval').body


def dump(e):
    return pyast.dump(e)


def nm(x):
    return pyast.Name(x, pyast.Load())


def call(f, *args):
    return pyast.Call(nm(f), list(args), [])


def meaning(kind, on_int, kids):
    """the python tree that means the AnyDice node"""
    if isinstance(kind, tuple):
        op = kind[1]
        if kind[0] == 'un':
            return call(ON_INT[op], *kids) if op in ON_INT and on_int else pyast.UnaryOp(getattr(pyast, UNARIES[op])(), kids[0])
        if on_int and op in ON_INT:
            return call(ON_INT[op], *kids)
        if op in ARITH:
            return pyast.BinOp(kids[0], getattr(pyast, ARITH[op])(), kids[1])
        return pyast.Compare(kids[0], [getattr(pyast, COMPARE[op])()], [kids[1]])
    if kind in ('ndm', 'dm'):
        return call('roll', *kids)
    if kind == 'hash':
        return call(ON_INT['#'] if on_int else 'len', *kids)
    if kind == 'group':
        return kids[0]
    if kind == 'range':
        return call('myrange', *kids)
    if kind == 'seq':
        return call('get_seq', pyast.List(list(kids), pyast.Load()))
    raise KeyError(kind)


def names_in(e):
    return {x.id for x in pyast.walk(e) if isinstance(x, pyast.Name)} | {x.attr for x in pyast.walk(e) if isinstance(x, pyast.Attribute)}


def flat_ok(ps):
    return all(isinstance(q, str) or isinstance(q, Hole) and q.what == 'expr' for q in ps)


def check_text(ip, what, kind, on_int, ps, roles, cls, minimum):
    """obligations of one expression text"""
    c = ip.c
    if not flat_ok(ps):
        raise Unsupported('text %r' % (ps,))
    bad = low = None
    seen = {q.info[0] for q in ps if isinstance(q, Hole)}
    for text, f in fillings(ps, cls):
        kids = [expr(f[(r, '0')]) if (r, '0') in f else None for r in roles]
        if None in kids:
            bad = text
            break
        try:
            got = expr(text)
        except SyntaxError:
            bad = bad or text
            continue
        want = meaning(kind, on_int, kids)
        if dump(got) != dump(want):
            extra = names_in(got) - names_in(want)
            if extra:          # another helper: what it means is not for the parser to decide
                raise Unsupported('another helper is called: %s' % ', '.join(sorted(extra)))
            bad = bad or text
        if level(text) < minimum:
            low = low or text
    c.prove(what + ': operator, operands and grouping' + (': ' + bad if bad else ''), bad is None)
    c.prove(what + ': binds as tightly as its class' + (': ' + low if low else ''), low is None)


def fixed_kind(ip, kind, build, roles):
    c = ip.c
    on_int = bool(c.choose(2))
    cl = classes(ip, on_int)
    groups = sorted(set(cl.values()), key=str)
    pick = {r: groups[c.choose(len(groups))] for r in roles}
    contracts(ip, {r: pick[r][0] for r in roles})
    r = resolver(ip, on_int)
    n = build(ip)
    k, t = outcome(ip, ip.getattr(r, 'resolve_node'), [n])
    what = ('operator %s' % kind[1] if kind[0] == 'bin' else 'sign %s' % kind[1]) if isinstance(kind, tuple) else kind
    if not c.prove(what + ': gives a text', k == 'ok' and isinstance(t, (str, SStr))):
        return
    check_text(ip, what, kind, on_int, pieces(ip, t), roles, {r: pick[r][1] for r in roles}, cl[kind][1])
    if cl[kind][0] is not None:
        c.prove(what + ': its class does not depend on the operands', ip.call(ip.getattr(r, '_python_prec'), [n]) == cl[kind][0])
    c.prove(what + ': defines and calls nothing', not r.meta['log'])


def expr_task(kind, title, build, roles):
    task('C16', title, [KEY + 'resolve_node', KEY + '_operand', KEY + '_python_prec'])(lambda ip: fixed_kind(ip, kind, build, roles))


for op in BIN:
    expr_task(('bin', op), 'operator %s' % op, lambda ip, op=op: node(ip, 'EXPR_OP', op, child(ip, 'left'), child(ip, 'right')), ['left', 'right'])
for op in UNARIES:
    expr_task(('un', op), 'sign %s' % op, lambda ip, op=op: node(ip, 'UNARY', op, child(ip, 'operand')), ['operand'])
expr_task('ndm', 'roll', lambda ip: node(ip, 'EXPR_OP', 'ndm', child(ip, 'count'), child(ip, 'sides')), ['count', 'sides'])
expr_task('dm', 'single roll', lambda ip: node(ip, 'EXPR_OP', 'dm', child(ip, 'sides'), 'DUMMY VAL'), ['sides'])
expr_task('hash', 'count', lambda ip: node(ip, 'HASH', child(ip, 'operand')), ['operand'])
expr_task('group', 'group', lambda ip: node(ip, 'GROUP', child(ip, 'operand')), ['operand'])
expr_task('range', 'range', lambda ip: node(ip, 'RANGE', child(ip, 'from'), child(ip, 'to')), ['from', 'to'])


# ------------------------------------------------------------ leaves, lists and statements
def uses(*names):
    return [KEY + n for n in names]


def ground(t, pairs):
    return z3.simplify(z3.substitute(z3.simplify(z3.substitute(t, *pairs)), *pairs)) if pairs else z3.simplify(t)


def inst_sl(ip, s, pairs):
    """the list term at concrete sizes"""
    if isinstance(s, IfL):
        c = ground(s.c, pairs)
        if z3.is_true(c) or z3.is_false(c):
            return inst_sl(ip, s.a if z3.is_true(c) else s.b, pairs)
        return inst_sl(ip, ip.resolve_ifl(s), pairs)
    if isinstance(s, Lit):
        return s
    if isinstance(s, Cat):
        return Lit(tuple(x for p in s.parts for x in inst_sl(ip, p, pairs).items))
    if isinstance(s, Comp):
        n = ground(s.n, pairs)
        if not z3.is_int_value(n):
            raise Unsupported('list of unknown size %s' % n)
        return Lit(tuple(x for j in range(n.as_long()) for x in inst_sl(ip, subst_sl(s.chunk, [(s.var, z3.IntVal(j))]), pairs).items))
    raise Unsupported('list %s' % type(s).__name__)


def inst(ip, t, pairs):
    """the text at concrete sizes, as pieces"""
    if isinstance(t, str):
        return [t]
    if isinstance(t, Hole):
        if t.what == 'join':
            return [q for x in inst_sl(ip, t.info, pairs).items for q in inst(ip, x, pairs)]
        if t.what == 'joined':
            out = []
            for j, x in enumerate(inst_sl(ip, t.info[1], pairs).items):
                out += ([t.info[0]] if j else []) + inst(ip, x, pairs)
            return merge_lits(out)
        h = subst(t, pairs) if pairs else t
        if isinstance(h.info, tuple) and len(h.info) == 2 and isinstance(h.info[1], SNum):
            h = Hole(h.what, (h.info[0], str(z3.simplify(h.info[1].t))))
        return [h]
    if isinstance(t, SStr):
        return merge_lits([q for p in t.parts for q in inst(ip, p, pairs)])
    if isinstance(t, Alt):
        for cond, x in t.cases:
            cond = ground(cond, pairs)
            if z3.is_true(cond):
                return inst(ip, x, pairs)
            if not z3.is_false(cond):
                break
    raise Unsupported('text %r' % (t,))


BLOCKS = ['S_{0}()', 'S_{0}()\nR_{0} = T_{0}', 'if S_{0}:\n  T_{0}\n', 'for S_{0} in T_{0}:\n  pass\n', '@S_{0}()\ndef T_{0}():\n  return 1\n', 'if S_{0}:\n  if T_{0}:\n    pass\nelif R_{0}:\n  pass\nelse:\n  U_{0}\n\n']
EXPRS = [r for L in range(8) for r in REPS[L]]


def indent(s, prefix):
    return '\n'.join(prefix + x for x in s.split('\n'))


CHOICES = {'expr': EXPRS, 'block': BLOCKS, 'indented': BLOCKS, 'var': ['V{0}'], 'type': ['int'], 'fname': ['fn_{0}_X'], 'ann': ['', ': int']}


def indentation(ip):
    """the prefix of an indented line, from the real function"""
    t = ip.call(ip.getattr(resolver(ip, False), '_indent_str'), ['x'])
    if not isinstance(t, str) or not t.endswith('x'):
        raise Unsupported('indentation %r' % (t,))
    return t[:-1]


def assignments(holes):
    """ways to fill the holes, one hole at a time through all its representatives: list of {(what-group, role, idx): text}"""
    base = {h: CHOICES[h[0]][-1 if h[0] == 'expr' else 0].format('h%d' % j, 'k%d' % j) for j, h in enumerate(holes)}
    base = {h: ('x%d' % j if h[0] == 'expr' else base[h]) for j, h in enumerate(holes)}
    yield dict(base)
    for j, h in enumerate(holes):
        for r in CHOICES[h[0]]:
            d = dict(base)
            d[h] = r.format('h%d' % j, 'k%d' % j)
            yield d


def hkey(h):
    what = 'block' if h.what == 'indented' else h.what
    i = h.info[1]
    return (what, h.info[0], str(z3.simplify(i.t)) if isinstance(i, SNum) else str(i))


def check_stmts(ip, what, cases, want):
    """cases: (label, pieces, keys of the holes the node has); want(fill) -> list of python statements"""
    c = ip.c
    bad = None
    prefix = indentation(ip)
    for label, ps, keys in cases:
        for q in ps:
            if not isinstance(q, str) and not (isinstance(q, Hole) and q.what in CHOICES):
                raise Unsupported('text %r' % (q,))
        there = {hkey(q) for q in ps if isinstance(q, Hole)}
        if not there <= set(keys):
            raise Unsupported('unknown parts %r' % (there - set(keys),))
        for f in assignments(keys):
            text = ''.join(q if isinstance(q, str) else indent(f[hkey(q)], prefix) if q.what == 'indented' else f[hkey(q)] for q in ps)
            try:
                got = pyast.parse(text).body
            except SyntaxError:
                bad = bad or '%s %r is not python' % (label, text)
                continue
            exp = want(label, f)
            if [dump(x) for x in got] != [dump(x) for x in exp]:
                extra = set().union(*[names_in(x) for x in got]) - set().union(*[names_in(x) for x in exp])
                if extra:
                    raise Unsupported('another helper is called: %s' % ', '.join(sorted(extra)))
                bad = bad or '%s %r' % (label, text)
    c.prove(what + (': ' + bad if bad else ''), bad is None)


def run_node(ip, r, n, what):
    k, t = outcome(ip, ip.getattr(r, 'resolve_node'), [n])
    if not ip.c.prove(what + ': gives a text', k == 'ok' and isinstance(t, (str, SStr))):
        return None
    return t


def flags(ip, on_int=None):
    """the two flags that change the text"""
    non_local = bool(ip.c.choose(2))
    on_int = bool(ip.c.choose(2)) if on_int is None else on_int
    return non_local, on_int, resolver(ip, on_int, _COMPILER_FLAG_NON_LOCAL_SCOPE=non_local)


def symtext(what, role, idx=0):
    return SStr([Hole(what, (role, idx))])


def body(text):
    return pyast.parse(text).body


def kexpr(f, role, idx='0'):
    return expr(f[('expr', role, idx)])


def kblock(f, role, idx='0'):
    return body(f[('block', role, idx)])


def vname(f, non_local, role, ctx, idx='0'):
    v = f[('var', role, idx)]
    return pyast.Subscript(nm('vars'), pyast.Constant(v), ctx) if non_local else pyast.Name(v, ctx)


@task('C16', 'variable', uses('resolve_node'))
def _(ip):
    contracts(ip)
    nl, _, r = flags(ip)
    t = run_node(ip, r, node(ip, 'VAR', symtext('var', 'name')), 'variable')
    if t is not None:
        check_stmts(ip, 'variable: the name it has in the program', [('', inst(ip, t, []), [('var', 'name', '0')])], lambda l, f: [pyast.Expr(vname(f, nl, 'name', pyast.Load()))])


@task('C16', 'assignment', uses('resolve_node'))
def _(ip):
    contracts(ip)
    nl, _, r = flags(ip)
    t = run_node(ip, r, node(ip, 'VAR_ASSIGN', symtext('var', 'name'), child(ip, 'value')), 'assignment')
    if t is not None:
        check_stmts(ip, 'assignment: the value to the variable', [('', inst(ip, t, []), [('var', 'name', '0'), ('expr', 'value', '0')])],
                    lambda l, f: [pyast.Assign([vname(f, nl, 'name', pyast.Store())], kexpr(f, 'value'))])


@task('C16', 'sequence', uses('resolve_node'))
def _(ip):
    c = ip.c
    contracts(ip)
    _, _, r = flags(ip)
    n, u = c.fresh('n'), c.binder('e')
    c.assume(n >= 0)
    nd = Obj(glob(ip, 'parser.myparser', 'Node'), {'type': glob(ip, 'parser.myparser', 'NodeType').ns['SEQ'], 'vals': VList('list', Comp(n, u, Lit((child(ip, 'elem', SNum(u)),))))})
    t = run_node(ip, r, nd, 'sequence')
    if t is not None:
        check_stmts(ip, 'sequence: its elements in order', [(j, inst(ip, t, [(n, z3.IntVal(j))]), [('expr', 'elem', str(i)) for i in range(j)]) for j in range(4)],
                    lambda l, f: [pyast.Expr(call('get_seq', pyast.List([kexpr(f, 'elem', str(i)) for i in range(l)], pyast.Load())))])
    c.prove('sequence: defines and calls nothing', not r.meta['log'])


@task('C16', 'block of statements', uses('resolve_node'))
def _(ip):
    c = ip.c
    contracts(ip)
    _, _, r = flags(ip)
    n, u = c.fresh('n'), c.binder('e')
    c.assume(n >= 0)
    nd = Obj(glob(ip, 'parser.myparser', 'Node'), {'type': glob(ip, 'parser.myparser', 'NodeType').ns['MULTILINE_CODE'], 'vals': VList('list', Comp(n, u, Lit((child(ip, 'statement', SNum(u), sort='block'),))))})
    t = run_node(ip, r, nd, 'block')
    if t is not None:
        sizes = [j for j in range(4) if ip.c.holds(n == j) or not ip.c.holds(n != j)]
        check_stmts(ip, 'block: its statements in order', [(j, inst(ip, t, [(n, z3.IntVal(j))]), [('block', 'statement', str(i)) for i in range(j)]) for j in sizes],
                    lambda l, f: sum([kblock(f, 'statement', str(i)) for i in range(l)], []) or [pyast.Pass()])


@task('C16', 'output', uses('resolve_node'))
def _(ip):
    contracts(ip)
    nl, _, r = flags(ip)
    before = r.attrs['_output_counter']
    named = bool(ip.c.choose(2))
    nd = node(ip, 'OUTPUT_NAMED', child(ip, 'value'), child(ip, 'name')) if named else node(ip, 'OUTPUT', child(ip, 'value'))
    t = run_node(ip, r, nd, 'output')
    if t is not None:
        keys = [('expr', 'value', '0')] + ([('expr', 'name', '0')] if named else [])
        check_stmts(ip, 'output: the value%s' % (' and its name' if named else ''), [('', inst(ip, t, []), keys)],
                    lambda l, f: [pyast.Expr(pyast.Call(nm('output'), [kexpr(f, 'value')], [pyast.keyword('named', kexpr(f, 'name'))] if named else []))])
    ip.c.prove('output: counted', nt(r.attrs['_output_counter']) > nt(before))


@task('C16', 'setting', uses('resolve_node'))
def _(ip):
    contracts(ip)
    _, _, r = flags(ip)
    t = run_node(ip, r, node(ip, 'SET', child(ip, 'name'), child(ip, 'value')), 'setting')
    if t is not None:
        check_stmts(ip, 'setting: name and value', [('', inst(ip, t, []), [('expr', 'name', '0'), ('expr', 'value', '0')])], lambda l, f: [pyast.Expr(call('settings_set', kexpr(f, 'name'), kexpr(f, 'value')))])


@task('C16', 'result', uses('resolve_node'))
def _(ip):
    contracts(ip)
    _, _, r = flags(ip)
    t = run_node(ip, r, node(ip, 'RESULT', child(ip, 'value')), 'result')
    if t is not None:
        ps = inst(ip, t, [])
        check_stmts(ip, 'result: the value', [('', ps, [('expr', 'value', '0')])], lambda l, f: [pyast.Return(kexpr(f, 'value'))])


@task('C16', 'loop', uses('resolve_node', '_indent_resolve', '_indent_str'))
def _(ip):
    contracts(ip)
    nl, _, r = flags(ip)
    t = run_node(ip, r, node(ip, 'LOOP', symtext('var', 'name'), child(ip, 'over'), child(ip, 'body', sort='block')), 'loop')

    def want(l, f):
        v = f[('var', 'name', '0')]
        pre = body("vars['%s'] = %s" % (v, v)) if nl else []
        return [pyast.For(pyast.Name(v, pyast.Store()), kexpr(f, 'over'), pre + kblock(f, 'body'), [])]
    if t is not None:
        check_stmts(ip, 'loop: variable, sequence and body', [('', inst(ip, t, []), [('var', 'name', '0'), ('expr', 'over', '0'), ('block', 'body', '0')])], want)


@task('C16', 'conditional', uses('resolve_node', '_indent_resolve'))
def _(ip):
    c = ip.c
    contracts(ip)
    _, _, r = flags(ip)
    n, u = c.fresh('n'), c.binder('e')
    c.assume(n >= 0)
    has_else = bool(c.choose(2))
    N, NT = glob(ip, 'parser.myparser', 'Node'), glob(ip, 'parser.myparser', 'NodeType').ns
    parts = [Lit((node(ip, 'IF', child(ip, 'if'), child(ip, 'then', sort='block')),)),
             Comp(n, u, Lit((node(ip, 'ELSEIF', child(ip, 'elif', SNum(u)), child(ip, 'elif then', SNum(u), sort='block')),)))]
    if has_else:
        parts.append(Lit((node(ip, 'ELSE', child(ip, 'else', sort='block')),)))
    t = run_node(ip, r, Obj(N, {'type': NT['IF_ELIF_ELSE'], 'vals': VList('list', cat(parts))}), 'conditional')

    def want(l, f):
        orelse = kblock(f, 'else') if has_else else []
        for i in reversed(range(l)):
            orelse = [pyast.If(kexpr(f, 'elif', str(i)), kblock(f, 'elif then', str(i)), orelse)]
        return [pyast.If(kexpr(f, 'if'), kblock(f, 'then'), orelse)]
    if t is not None:
        keys = lambda j: [('expr', 'if', '0'), ('block', 'then', '0')] + [(k, m, str(i)) for i in range(j) for k, m in (('expr', 'elif'), ('block', 'elif then'))] + ([('block', 'else', '0')] if has_else else [])
        check_stmts(ip, 'conditional: conditions and bodies in order', [(j, inst(ip, t, [(n, z3.IntVal(j))]), keys(j)) for j in range(4)], want)


@task('C16', 'indentation', uses('_indent_resolve', '_indent_str'))
def _(ip):
    c = ip.c
    contracts(ip)
    del ip.contracts[KEY + '_indent_resolve']
    r = resolver(ip, False)
    k, t = outcome(ip, ip.getattr(r, '_indent_resolve'), [child(ip, 'body', sort='block')])
    if not c.prove('indentation: gives a text', k == 'ok' and isinstance(t, SStr)):
        return
    ps = pieces(ip, t)
    q = ps[0]
    if len(ps) != 1 or not isinstance(q, Rep) or q.sep != '\n' or len(q.body) != 2 or not isinstance(q.body[0], str) or not isinstance(q.body[1], Hole) or q.body[1].what != 'line':
        raise Unsupported('indented text %r' % (ps,))
    ln = q.body[1].info
    c.prove('indentation: every line, in order', z3.And(q.n == nt(ln[2]), nt(ln[1]) == q.var))
    c.prove('indentation: of the body', ln[0] == ('body', 0))
    c.prove('indentation: the same blank prefix on every line', q.body[0] != '' and q.body[0].strip(' ') == '')


# ------------------------------------------------------------ numbers
def rational(text):
    from fractions import Fraction
    return Fraction(text)


@task('C16', 'number', uses('resolve_node'))
def _(ip):
    c = ip.c
    contracts(ip)
    _, _, r = flags(ip)
    v = num(ip, 'value', 'int')
    c.assume(nt(v) >= 0)
    t = run_node(ip, r, node(ip, 'NUMBER', SStr([Hole('digits', v)])), 'number')
    if t is None:
        return
    if isinstance(t, str):
        c.prove('number: its value', nt(v) == int(t) if t.isdigit() and t == str(int(t)) else False)
        return
    h = t.parts[0]
    if len(t.parts) != 1 or not isinstance(h, Hole) or h.what not in ('numeral', 'str', 'digits') or not is_num(h.info):
        raise Unsupported('number %r' % (t,))
    c.prove('number: its value', nt(h.info) == nt(v))
    c.prove('number: without leading zeros', h.what != 'digits')


@task('C16', 'decimal', uses('resolve_node'))
def _(ip):
    contracts(ip)
    _, _, r = flags(ip)
    t = run_node(ip, r, node(ip, 'NUMBER_DECIMAL', symtext('digits', 'whole'), symtext('digits', 'part')), 'decimal')
    if t is None:
        return
    ps = inst(ip, t, [])
    bad = None
    for a in ('0', '00', '7', '012', '1234567890123456789'):
        for b in ('0', '5', '05', '50', '333'):
            if not all(isinstance(q, str) or isinstance(q, Hole) and q.what == 'digits' for q in ps):
                raise Unsupported('decimal %r' % (ps,))
            text = ''.join(q if isinstance(q, str) else a if q.info[0] == 'whole' else b for q in ps)
            try:
                ok = dump(expr(text)) == dump(pyast.Constant(float('%s.%s' % (a, b))))
            except SyntaxError:
                ok = False
            bad = bad or (None if ok else text)
    ip.c.prove('decimal: its value' + (': ' + bad if bad else ''), bad is None)


# ------------------------------------------------------------ calls and functions
def name_words(ip, pairs, k=0):
    """the words given to _python_func_name"""
    return [inst(ip, x, pairs) for x in inst_sl(ip, ip.c.memo['fnames'][k], pairs).items]


def words_ok(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, str):
            if g != [w]:
                return False
        elif len(g) != 1 or not isinstance(g[0], Hole) or (g[0].what,) + tuple(map(str, g[0].info)) != w:
            return False
    return True


@task('C16', 'call', uses('resolve_node'))
def _(ip):
    c = ip.c
    contracts(ip)
    nl, _, r = flags(ip)
    N, NT = glob(ip, 'parser.myparser', 'Node'), glob(ip, 'parser.myparser', 'NodeType').ns
    # only words | words, then an argument, then words and arguments
    n, u, m, w = c.fresh('n'), c.binder('e'), c.fresh('m'), c.binder('e')
    c.assume(z3.And(n >= 0, m >= 0))
    W = c.fresh_fn('is_word', [I], B)
    words = Comp(n, u, Lit((symtext('word', 'word', SNum(u)),)))
    arg = lambda role, i: node(ip, 'CALL_EXPR', child(ip, role, i))
    some = bool(c.choose(2))
    vals = cat([words, Lit((arg('first', 0),)), Comp(m, w, IfL(W(w), Lit((symtext('word', 'rest', SNum(w)),)), Lit((arg('arg', SNum(w)),))))]) if some else words
    t = run_node(ip, r, Obj(N, {'type': NT['CALL'], 'vals': VList('list', vals)}), 'call')
    if t is None:
        return
    cases, bad = [], None
    for a in range(3):
        for b in range(4 if some else 1):
            for p in itertools.product(range(2), repeat=b):
                pairs = [(n, z3.IntVal(a)), (m, z3.IntVal(b))] + [(W(z3.IntVal(i)), z3.BoolVal(bool(x))) for i, x in enumerate(p)]
                if len(c.memo['fnames']) != 1:
                    raise Unsupported('another way to build the name')
                want = [('word', 'word', str(i)) for i in range(a)] + (['X'] if some else []) + [('word', 'rest', str(i)) if x else 'X' for i, x in enumerate(p)]
                if not words_ok(name_words(ip, pairs), want):
                    bad = bad or '%r for %r' % (name_words(ip, pairs), want)
                cases.append(((a, p), inst(ip, t, pairs), ([('expr', 'first', '0')] if some else []) + [('expr', 'arg', str(i)) for i, x in enumerate(p) if not x] + [('fname', 'name', '0')]))
    c.prove('call: the name has the words and places of the call' + (': ' + bad if bad else ''), bad is None)
    check_stmts(ip, 'call: its arguments in order', cases,
                lambda l, f: [pyast.Expr(pyast.Call(nm(f[('fname', 'name', '0')]), ([kexpr(f, 'first')] if some else []) + [kexpr(f, 'arg', str(i)) for i, x in enumerate(l[1]) if not x] + ([nm('vars')] if nl else []), []))])
    called = [x for k, x in r.meta['log'] if k == '_called_functions']
    c.prove('call: recorded as called', len(called) == 1 and isinstance(called[0], SStr) and called[0].parts[0].what == 'fname' and len(called[0].parts) == 1)
    c.prove('call: defines nothing', not [x for k, x in r.meta['log'] if k == '_defined_functions'])


FPATTERNS = [(j, p) for j in range(3) for p in itertools.product(range(5), repeat=j)] + [(3, p) for p in itertools.product(range(3), repeat=3)]
TYPES = {2: 'T_N', 3: 'T_S', 4: 'T_D', 5: 'int'}


@task('C16', 'function', uses('resolve_node', '_indent_resolve', '_indent_str'))
def _(ip):
    c = ip.c
    contracts(ip)
    listed, again, sizes = [], [], []

    def has(ip, a, k):
        listed.append(ip.as_sl(a[0]))
        again.append(bool(c.choose(2)))
        return again[-1]

    def fix(ip, a, k):
        """other names, all different, with the types they had"""
        if not again or not again[-1] or k:
            raise Unsupported('renaming of parameters that are not repeated')
        args, names = a
        listed.append(args.s)
        v = c.binder('p')
        h = lambda typed: SStr([Hole('var', ('renamed', SNum(v)))] + ([Hole('ann', ('type', SNum(v)))] if typed else []))
        for x, typed in ((args, True), (names, False)):
            size = c.fresh('params')
            c.assume(size == slen(x.s))
            sizes.append(size)
            c.set_loc(x, 's', Comp(size, v, Lit((h(typed),))))
        return None
    ip.contracts[MOD + ':has_dups'] = has
    ip.contracts[MOD + ':fix_dups_in_args'] = fix
    nl, _, r = flags(ip, False)
    n, u = c.fresh('n'), c.binder('e')
    c.assume(n >= 0)
    K = c.fresh_fn('part', [I], I)
    k = c.binder('sk')
    c.assume(z3.ForAll([k], z3.And(K(k) >= 0, K(k) <= 4), patterns=[K(k)]))
    N, NT = glob(ip, 'parser.myparser', 'Node'), glob(ip, 'parser.myparser', 'NodeType').ns
    v = symtext('var', 'param', SNum(u))
    kinds = [symtext('word', 'word', SNum(u)), node(ip, 'PARAM', v)] + [node(ip, 'PARAM_WITH_DTYPE', v, x) for x in 'nsd']
    ch = Lit((kinds[4],))
    for i in (3, 2, 1, 0):
        ch = IfL(K(u) == i, Lit((kinds[i],)), ch)
    head = Obj(N, {'type': NT['FUNCNAME_DEF'], 'vals': VList('list', Comp(n, u, ch))})
    t = run_node(ip, r, Obj(N, {'type': NT['FUNCTION'], 'vals': VList('list', Lit((head, child(ip, 'body', sort='block'))))}), 'function')
    if t is None:
        return
    cases, bad = [], None
    for j, p in FPATTERNS:
        pairs = [(n, z3.IntVal(j))] + [(K(z3.IntVal(i)), z3.IntVal(x)) for i, x in enumerate(p)]
        if c.holds(z3.Not(z3.And([n == j] + [K(i) == x for i, x in enumerate(p)]))):
            continue
        if len(c.memo['fnames']) != 1:
            raise Unsupported('another way to build the name')
        want = ['X' if x else ('word', 'word', str(i)) for i, x in enumerate(p)]
        if not words_ok(name_words(ip, pairs), want):
            bad = bad or '%r for %r' % (name_words(ip, pairs), want)
        params = [i for i, x in enumerate(p) if x]
        if not listed:
            raise Unsupported('repeated parameters are not looked for')
        got = [inst(ip, x, pairs) for x in inst_sl(ip, listed[0], pairs).items]
        if not words_ok(got, [('var', 'param', str(i)) for i in params]):
            bad = bad or 'names %r for %r' % (got, p)
        if again[-1]:
            got = [inst(ip, x, pairs) for x in inst_sl(ip, listed[1], pairs).items]
            for i, x in zip(params, got):
                typed = len(x) == 2 and isinstance(x[1], str) and x[1].replace(' ', '') == ':' + TYPES.get(p[i], '?')
                bad = bad or (None if isinstance(x[0], Hole) and x[0].info == ('param', str(i)) and (typed if p[i] in TYPES else len(x) == 1) else 'typed names %r for %r' % (got, p))
            if len(got) != len(params):
                bad = bad or 'typed names %r for %r' % (got, p)
        pairs += [(x, z3.IntVal(len(params))) for x in sizes]
        cases.append((p, inst(ip, t, pairs), ([('var', 'renamed', str(i)) for i in range(len(params))] + [('ann', 'type', str(i)) for i in range(len(params))] if again[-1] else [('var', 'param', str(i)) for i in params]) +
                      [('fname', 'name', '0'), ('block', 'body', '0')]))
    c.prove('function: the name has the words and places of the definition' + (': ' + bad if bad else ''), bad is None)

    def want(p, f):
        names = [(f[('var', 'param', str(i))], x) for i, x in enumerate(p) if x] if not again[-1] else [(f[('var', 'renamed', str(j))], 5 if f[('ann', 'type', str(j))] else 1) for j in range(sum(1 for x in p if x))]
        args = [pyast.arg(a, nm(TYPES[x]) if x in TYPES else None) for a, x in names] + ([pyast.arg('vars')] if nl else [])
        pre = body('vars = vars.copy()' + ''.join('; vars["%s"] = %s' % (a, a) for a, _ in names)) if nl else []
        fd = body('def f():\n  pass\n')[0]
        fd.name, fd.args.args, fd.body, fd.decorator_list = f[('fname', 'name', '0')], args, pre + kblock(f, 'body'), [call('anydice_casting')]
        return [fd]
    check_stmts(ip, 'function: parameters, types and body', cases, want)
    for what in ('_defined_functions', '_user__defined_functions'):
        d = [x for k, x in r.meta['log'] if k == what]
        c.prove('function: recorded in %s' % what, len(d) == 1 and isinstance(d[0], SStr) and d[0].parts[0].what == 'fname' and len(d[0].parts) == 1)
    c.prove('function: calls nothing', not [x for k, x in r.meta['log'] if k == '_called_functions'])


@task('C16', 'name of a function', uses('_python_func_name'))
def _(ip):
    c = ip.c
    r = resolver(ip, False)
    n, u = c.fresh('n'), c.binder('e')
    c.assume(n >= 1)
    const = glob(ip, MOD, 'CONST')
    library = [x for x in ip.as_sl(ip.getitem(const, 'function library')).items]
    helpers = sorted(x for x in ip.as_sl(glob(ip, MOD, '_FUNCS_MAY_COLLIDE')).items)
    asked = {}

    def text_eq(ip, a, b):
        lit, s = (a, b) if isinstance(a, str) else (b, a)
        if isinstance(lit, str) and isinstance(s, SStr):
            return asked.setdefault((lit, repr(s)), (c.fresh('is_' + lit, B), lit, s))[0]
        return None
    ip.text_eq = text_eq
    k, t = outcome(ip, ip.getattr(r, '_python_func_name'), [VList('list', Comp(n, u, Lit((symtext('word', 'word', SNum(u)),))))])
    del ip.text_eq
    if not c.prove('name: gives a text', k == 'ok' and isinstance(t, SStr)):
        return
    ps = pieces(ip, t)
    prefix = ps[0] if isinstance(ps[0], str) else ''
    q = ps[-1]
    if len(ps) > 2 or len(ps) == 2 and not prefix or not isinstance(q, Rep) or len(q.body) != 1 or not isinstance(q.body[0], Hole) or q.body[0].what != 'word':
        raise Unsupported('name %r' % (ps,))
    c.prove('name: the words in order', z3.And(q.n == n, nt(q.body[0].info[1]) == q.var))
    # words are lower case letters or X, so a separator outside of them keeps different names different
    c.prove('name: different words give different names', q.sep != '' and not (set(q.sep) & set('abcdefghijklmnopqrstuvwxyzX')))
    c.prove('name: an identifier', ('a' + q.sep + 'X' + q.sep + 'b').isidentifier() and (prefix + 'a').isidentifier())
    if prefix:
        c.prove('name: the prefix is not the beginning of a library function or a helper', not any(x.startswith(prefix) for x in library + helpers))
        c.prove('name: only when the helpers are avoided', r.attrs['_COMPILER_FLAG_FUNC_LIB_CONFLICT'].t)
        # a library function is never renamed
        isname = [b for b, lit, s in asked.values() if lit in library and not (s.parts and isinstance(s.parts[0], str))]
        c.prove('name: library functions keep their name', {lit for b, lit, s in asked.values() if not isinstance(s.parts[0], str)} >= set(library) and z3.Not(z3.Or(isname)))
    else:
        c.prove('name: without the flag or of the library', z3.Or([z3.Not(r.attrs['_COMPILER_FLAG_FUNC_LIB_CONFLICT'].t)] + [b for b, lit, s in asked.values() if lit in library]))
    c.prove('name: no library function is called like a helper', not (set(library) & set(helpers)))


@task('C16', 'whole program', uses('resolve', 'reset_state', 'get_text'))
def _(ip):
    """resolve: the text of the tree (and the store of the variables), only blank lines are dropped"""
    c = ip.c
    contracts(ip)
    r = resolver(ip, False)
    r.attrs['_COMPILER_FLAG_FUNC_EXIST_CHECK'] = False
    nl = r.attrs['_COMPILER_FLAG_NON_LOCAL_SCOPE']
    blank = c.fresh_fn('blank_line', [I], B)
    runs, defined = [], {}

    def rn(ip, a, k):
        """the tree: any outputs; with the flag no function is called like a helper (name of a function)"""
        if len(a) != 2 or k or not opaque(a[1]):
            return NotImplemented
        flag, no = a[0].attrs['_COMPILER_FLAG_FUNC_LIB_CONFLICT'], len(runs)
        more = num(ip, 'more', 'int')
        c.assume(nt(more) >= 0)
        a[0].attrs['_output_counter'] = SNum(nt(a[0].attrs['_output_counter']) + nt(more), 'int')
        old = a[0].attrs['_defined_functions'] if runs else None
        old = old if isinstance(old, Obj) and old.cls.name == 'names' else None          # what an earlier pass defined, unless it was reset
        has = lambda name: z3.Or(old.meta['has'](name) if old is not None else z3.BoolVal(False), z3.And(z3.Not(ip.bterm(flag)), defined.setdefault((no, name), c.fresh('defined', B))))
        x = Obj(Class('names', [], {'__contains__': PyFn('in', lambda ip, b, k: mkbool(has(b[-1])))}, 'ghost'))
        x.meta['has'], x.meta['opaque'] = has, 'names'
        a[0].attrs['_defined_functions'] = x
        runs.append(a[0].attrs['_COMPILER_FLAG_FUNC_LIB_CONFLICT'])
        return SStr([Hole('block', ('tree', 0))])
    ip.contracts[KEY + 'resolve_node'] = rn

    def text_eq(ip, a, b):
        lit, s = (a, b) if isinstance(a, str) else (b, a)
        if lit == '' and isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Hole) and s.parts[0].what == 'stripped':
            return blank(nt(s.parts[0].info[1]))
        return None
    ip.text_eq = text_eq
    k, t = outcome(ip, ip.getattr(r, 'resolve'), [])
    made = nt(r.attrs['_output_counter'])
    if k == 'raise':
        c.prove('program: refused only without outputs', z3.And(z3.BoolVal(t.exc_type == 'AssertionError'), made == 0))
        return
    c.prove('program: has an output', made > 0)
    k, t = outcome(ip, ip.getattr(r, 'get_text'), [])
    if not c.prove('program: gives a text', k == 'ok' and isinstance(t, SStr)):
        return
    h = t.parts[0]
    if len(t.parts) != 1 or not isinstance(h, Hole) or h.what != 'joined' or h.info[0] != '\n':
        raise Unsupported('program text %r' % (t,))
    s = ip.as_sl(h.info[1]) if not isinstance(h.info[1], SL) else h.info[1]
    parts = s.parts if isinstance(s, Cat) else [s]
    rows = [j for j, p in enumerate(parts) if isinstance(p, Comp)]
    if len(rows) != 1:
        raise Unsupported('program lines %r' % (parts,))
    lits = [[x for p in ps for x in inst_sl(ip, p, []).items] for ps in (parts[:rows[0]], parts[rows[0] + 1:])]
    if not all(isinstance(x, str) for ls in lits for x in ls):
        raise Unsupported('program lines %r' % (lits,))
    want = [dump(x) for x in body('vars = {}')] if c.branch(ip.bterm(nl)) else []
    c.prove('program: begins with the store of the variables when they are shared', [dump(x) for x in body('\n'.join(lits[0]))] == want)
    c.prove('program: nothing follows the tree', all(x.strip() == '' for x in lits[1]))
    p = parts[rows[0]]
    q = c.fresh('line')
    keeps = bool(c.choose(2))
    c.assume(z3.And(q >= 0, q < p.n, z3.Not(blank(q)) if keeps else blank(q)))
    x = subst_sl(p.chunk, [(p.var, q)])
    while isinstance(x, IfL):
        x = ip.resolve_ifl(x)
    if not isinstance(x, Lit) or not all(isinstance(y, SStr) and len(y.parts) == 1 and isinstance(y.parts[0], Hole) and y.parts[0].what == 'line' for y in x.items):
        raise Unsupported('program lines %r' % (x,))
    c.prove('program: every line of the tree that is not blank, once', len(x.items) == 1 if keeps else len(x.items) <= 1)
    c.prove('program: the lines of the tree in order', z3.And([z3.And(nt(y.parts[0].info[1]) == q, nt(y.parts[0].info[2]) == p.n) for y in x.items]))


# ------------------------------------------------------------ functions with a parameter listed twice
class Params:
    """names and typed names of n parameters; equal names are equal NAME"""
    def __init__(self, ip):
        c = ip.c
        self.ip, self.n, self.u = ip, c.fresh('n'), c.binder('e')
        c.assume(self.n >= 0)
        self.NAME, self.LEN, self.REN, self.W = c.fresh_fn('name', [I], I), c.fresh_fn('len', [I], I), c.fresh_fn('again', [I], B), c.fresh_fn('before', [I], I)
        a, b = c.binder('a'), c.binder('b')
        n, N = self.n, self.NAME
        c.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n, self.REN(a)), z3.And(self.W(a) >= 0, self.W(a) < a, N(self.W(a)) == N(a))), patterns=[self.REN(a)]))
        c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n, N(a) == N(b)), self.REN(b)), patterns=[z3.MultiPattern(N(a), N(b))]))
        self.names, self.args = VList('list', self.list(False, n)), VList('list', self.list(True, n))
        ip.text_eq = lambda ip, x, y: self.eq(x, y)
        ip.text_len = lambda ip, v: SNum(self.LEN(nt(v.parts[0].info[1])), 'int') if self.is_name(v) else None
        ip.text_index = self.cut
        ip.count_hook, ip.set_size = self.count, self.distinct

    def is_name(self, v):
        return isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Hole) and v.parts[0].what == 'var'

    def item(self, typed, i):
        return SStr([Hole('var', ('param', SNum(i)))] + ([Hole('ann', ('ann', SNum(i)))] if typed else []))

    def renamed(self, typed, i):
        return SStr(['dummy', Hole('str', SNum(i, 'int'))] + ([Hole('ann', ('ann', SNum(i)))] if typed else []))

    def list(self, typed, upto):
        """after the parameters behind `upto` have been looked at"""
        u = self.u
        return Comp(self.n, u, Lit((merge(z3.And(u > upto, self.REN(u)), self.renamed(typed, u), self.item(typed, u)),)))

    def eq(self, x, y):
        if isinstance(x, Alt) or isinstance(y, Alt):
            a, b = (x, y) if isinstance(x, Alt) else (y, x)
            return z3.Or([z3.And(cond, self.eq(v, b)) for cond, v in a.cases])
        if self.is_name(x) and self.is_name(y):
            return self.NAME(nt(x.parts[0].info[1])) == self.NAME(nt(y.parts[0].info[1]))
        for a, b in ((x, y), (y, x)):
            if self.is_name(a) and (isinstance(b, str) or isinstance(b.parts[0], str)):
                p = b if isinstance(b, str) else b.parts[0]
                if set(p) - set('ABCDEFGHIJKLMNOPQRSTUVWXYZ_'):
                    return z3.BoolVal(False)
        if isinstance(x, SStr) and isinstance(y, SStr) and len(x.parts) == len(y.parts) == 2 and x.parts[0] == y.parts[0] == 'dummy' and x.parts[1].what == y.parts[1].what == 'str':
            return nt(x.parts[1].info) == nt(y.parts[1].info)
        raise Unsupported('comparison of texts')

    def cut(self, ip, v, i):
        if isinstance(i, tuple) and len(i) == 4 and i[2] is None and i[3] is None and isinstance(i[1], SNum) and isinstance(v, SStr) and isinstance(v.parts[0], Hole) and v.parts[0].what == 'var' and \
                ip.c.holds(nt(i[1]) == self.LEN(nt(v.parts[0].info[1]))):
            return SStr(v.parts[1:])
        return None

    def count(self, ip, s, x):
        """how often: more than once means at two places"""
        c = ip.c
        if not isinstance(s, Comp) or not isinstance(s.chunk, Lit) or len(s.chunk.items) != 1:
            return None
        E = lambda i: self.eq(subst(s.chunk.items[0], [(s.var, i)]), x)
        k, p, q, a, b = c.fresh('times', I), c.fresh('one'), c.fresh('other'), c.binder('a'), c.binder('b')
        c.assume(z3.And(k >= 0, k <= s.n))
        c.assume(z3.Implies(k > 1, z3.And(p >= 0, p < q, q < s.n, E(p), E(q))))
        c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < s.n, E(a), E(b)), k > 1), patterns=[z3.MultiPattern(self.NAME(a), self.NAME(b))]))
        c.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < s.n, E(a)), k >= 1), patterns=[self.NAME(a)]))
        return SNum(k, 'int')

    def distinct(self, ip, s):
        c = ip.c
        if not isinstance(s, Comp) or not isinstance(s.chunk, Lit) or len(s.chunk.items) != 1:
            return None
        at = lambda i: subst(s.chunk.items[0], [(s.var, i)])
        k, p, q, a, b = c.fresh('different', I), c.fresh('one'), c.fresh('other'), c.binder('a'), c.binder('b')
        c.assume(z3.And(k >= 0, k <= s.n))
        c.assume(z3.Implies(k < s.n, z3.And(p >= 0, p < q, q < s.n, self.eq(at(p), at(q)))))
        c.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < s.n, self.eq(at(a), at(b))), k < s.n), patterns=[z3.MultiPattern(self.NAME(a), self.NAME(b))]))
        return SNum(k, 'int')


@task('C16', 'repeated parameters are found', [MOD + ':has_dups'])
def _(ip):
    P = Params(ip)
    k, t = outcome(ip, glob(ip, MOD, 'has_dups'), [P.names])
    if not ip.c.prove('repeated: gives a truth value', k == 'ok' and isinstance(t, (bool, SB))):
        return
    i = ip.c.binder('i')
    some = z3.Exists([i], z3.And(i >= 0, i < P.n, P.REN(i)))
    ip.c.prove('repeated: exactly when a name is listed again', (t.t if isinstance(t, SB) else z3.BoolVal(t)) == some)


@task('C16', 'repeated parameters are renamed', [MOD + ':fix_dups_in_args'])
def _(ip):
    c = ip.c
    P = Params(ip)

    def rule(ip, st, env, g, s, body):
        if not (isinstance(s, Comp) and isinstance(s.chunk, Lit) and len(s.chunk.items) == 1 and is_num(s.chunk.items[0])):
            return NotImplemented
        j = c.fresh('step')
        if not (c.holds(s.n == P.n) and c.holds(z3.Implies(z3.And(j >= 0, j < s.n), nt(subst(s.chunk.items[0], [(s.var, j)])) == s.n - 1 - j))):
            return NotImplemented
        if c.choose(2):         # any step keeps the invariant
            i = c.fresh('i')
            c.assume(z3.And(i >= 0, i < P.n))
            for v, typed in ((P.names, False), (P.args, True)):
                c.set_loc(v, 's', P.list(typed, i))
            try:
                body(SNum(i, 'int'))
            except M.Continue:
                pass
            q = c.fresh('q')
            c.assume(z3.And(q >= 0, q < P.n))
            for v, typed in ((P.names, False), (P.args, True)):
                got, want = ip.force(ip.index_sl(v.s, SNum(q, 'int'))), ip.force(ip.index_sl(P.list(typed, i - 1), SNum(q, 'int')))
                if not (isinstance(got, SStr) and all(isinstance(x, str) and x == 'dummy' or isinstance(x, Hole) and x.what in ('var', 'str', 'ann') for x in got.parts)):
                    raise Unsupported('renamed to %r' % (got,))
                same_kind = [x if isinstance(x, str) else x.what for x in got.parts] == [x if isinstance(x, str) else x.what for x in want.parts]
                ix = lambda x: nt(x.info) if x.what == 'str' else nt(x.info[1])
                c.prove('renaming a %s: first kept, later ones renamed' % ('typed parameter' if typed else 'parameter'), same_kind and z3.And([ix(x) == ix(y) for x, y in zip(got.parts, want.parts) if isinstance(x, Hole)] + [z3.BoolVal(True)]))
            raise Infeasible()
        for v, typed in ((P.names, False), (P.args, True)):
            c.set_loc(v, 's', P.list(typed, z3.IntVal(-1)))
        return None
    ip.loop_rules = list(ip.loop_rules) + [rule]
    k, t = outcome(ip, glob(ip, MOD, 'fix_dups_in_args'), [P.args, P.names])
    c.prove('renaming: does not raise', k == 'ok')
    a, b = c.fresh('a'), c.fresh('b')
    c.assume(z3.And(a >= 0, a < b, b < P.n))
    at = lambda i: subst(P.names.s.chunk.items[0], [(P.names.s.var, i)])
    if not isinstance(P.names.s, Comp):
        raise Unsupported('names %r' % P.names.s)
    eq = z3.Or([z3.And(ca, cb, P.eq(x, y)) for ca, x in at(a).cases for cb, y in at(b).cases])
    c.prove('renaming: all names are different', z3.Not(eq))


# ------------------------------------------------------------ the actions of the grammar
from . import grammar

task('C16', 'grammar: expressions', [grammar.GMOD + ':p_expression_binop', grammar.GMOD + ':p_expression_dop', grammar.GMOD + ':p_expression_comparison', grammar.GMOD + ':p_expression_term', grammar.GMOD + ':p_term_unary', grammar.GMOD + ':p_term_hash', grammar.GMOD + ':p_term_grouped', grammar.GMOD + ':p_term_number', grammar.GMOD + ':p_term_number_decimal', grammar.GMOD + ':p_term_name', grammar.GMOD + ':p_term_seq', grammar.GMOD + ':p_elements', grammar.GMOD + ':p_element', grammar.GMOD + ':p_range', grammar.GMOD + ':p_str_element', grammar.GMOD + ':Node.__init__', grammar.GMOD + ':Node.with_child'])(lambda ip: grammar.action(ip, grammar.EXPRESSIONS))
task('C16', 'grammar: statements', [grammar.GMOD + ':p_multiline_code', grammar.GMOD + ':p_multiline_code_empty', grammar.GMOD + ':p_single_code', grammar.GMOD + ':p_single_code_if_elseif_else', grammar.GMOD + ':p_if', grammar.GMOD + ':p_else', grammar.GMOD + ':p_elif', grammar.GMOD + ':p_var_assign', grammar.GMOD + ':p_var_name'])(lambda ip: grammar.action(ip, grammar.STATEMENTS))
task('C16', 'grammar: precedence of operators', [grammar.GMOD + ':build_lex_yacc'])(grammar.precedence)
