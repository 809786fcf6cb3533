"""C17: names, texts, rejection, repeatability of the code generator."""
from . import c16
from .c16 import *

for _t in list(TASKS['C16']):
    if _t.name in ('call', 'function', 'name of a function', 'repeated parameters are found', 'repeated parameters are renamed'):
        task('C17', _t.name, _t.funcs)(_t.fn)


# ------------------------------------------------------------ texts
def replaced(ip, o, a, k):
    """x.replace(c, s) of an arbitrary text, c one character: every c becomes s"""
    h = o.parts[0]
    if k or len(a) != 2 or not all(isinstance(x, str) for x in a) or len(a[0]) != 1 or len(o.parts) != 1 or not isinstance(h, Hole) or h.what != 'raw':
        return NotImplemented
    return SStr([Hole('raw', (h.info[0], h.info[1], h.info[2] + ((a[0], a[1]),)))])


def image(chain, ch):
    for a, b in chain:
        ch = ch.replace(a, b)
    return ch


SPECIAL = '\\{}\'\0\r\t\x0b\x0c'
_checked = {}


def literal_value(source):
    """list of characters and variables the text literal stands for, None when it is no such literal"""
    try:
        e = expr(source)
    except (SyntaxError, ValueError):
        return None
    vs = e.values if isinstance(e, pyast.JoinedStr) else [e]
    out = []
    for v in vs:
        if isinstance(v, pyast.Constant) and isinstance(v.value, str):
            out += list(v.value)
        elif isinstance(v, pyast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
            out.append(('v', dump(v.value)))
        else:
            return None
    return out


def all_characters(chain, before, after):
    """every character of every text stands for itself between the quotes; first offender"""
    key = (chain, before, after)
    if key not in _checked:
        bad = None
        cps = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000 and chr(c) not in '\n"']
        for i in range(0, len(cps), 4096):
            block = ''.join(map(chr, cps[i:i + 4096]))
            if literal_value(before + image(chain, block) + after) != list(block):
                bad = next((x for x in block if literal_value(before + image(chain, x) + after) != [x]), block[:1])
                break
        _checked[key] = bad
    return _checked[key]


@task('C17', 'text', uses('resolve_node'))
def _(ip):
    """a text is written as a string literal whose characters are those of the text and whose fields are the variables"""
    c = ip.c
    contracts(ip)
    ip.models.TEXT_METHODS['replace'] = replaced
    nl, _, r = flags(ip)
    n, u = c.fresh('n'), c.binder('e')
    c.assume(n >= 0)
    V = c.fresh_fn('is_variable', [I], B)
    N, NT = glob(ip, 'parser.myparser', 'Node'), glob(ip, 'parser.myparser', 'NodeType').ns
    raw = SStr([Hole('raw', ('part', SNum(u), ()))])
    nd = Obj(N, {'type': NT['STRING'], 'vals': VList('list', Comp(n, u, IfL(V(u), Lit((child(ip, 'variable', SNum(u)),)), Lit((raw,)))))})
    t = run_node(ip, r, nd, 'text')
    if t is None:
        return
    sv = run_node(ip, resolver(ip, False, _COMPILER_FLAG_NON_LOCAL_SCOPE=nl), node(ip, 'STRVAR', symtext('var', 'name')), 'text variable')
    if sv is None:
        return
    field = inst(ip, sv, [])
    if not all(isinstance(q, str) or isinstance(q, Hole) and q.what == 'var' for q in field):
        raise Unsupported('text variable %r' % (field,))
    bad = chars = None
    shapes = [p for j in range(4) for p in itertools.product(range(2), repeat=j)]
    for p in shapes:
        pairs = [(n, z3.IntVal(len(p)))] + [(V(z3.IntVal(i)), z3.BoolVal(bool(x))) for i, x in enumerate(p)]
        ps = inst(ip, t, pairs)
        hs = [q for q in ps if isinstance(q, Hole)]
        if not all(q.what in ('raw', 'expr') for q in hs):
            raise Unsupported('text %r' % (ps,))
        chain = next((q.info[2] for q in hs if q.what == 'raw'), ())
        if any(q.what == 'raw' and q.info[2] != chain for q in hs):
            raise Unsupported('texts escaped in different ways')
        if chars is None and p == (0,) and isinstance(ps[0], str) and isinstance(ps[-1], str):
            off = all_characters(chain, ps[0], ps[-1])
            chars = [off]
        # neighbours: every combination of the classes of characters, and of a variable, side by side
        reps = ['', 'a'] + list(SPECIAL) + ['{}', '}}', '\\\\', '{A}', 'x41'] if len(p) < 3 else ['', 'a', '\\', '{', '}', '\'']
        for combo in itertools.product(*[['A', 'B_C'] if x else reps for x in p]):
            at = {('expr' if p[i] else 'raw', str(i)): x for i, x in enumerate(combo)}
            src, ok = '', True
            for q in ps:
                if isinstance(q, str):
                    src += q
                    continue
                x = at.get((q.what, str(q.info[1]) if not isinstance(q.info[1], SNum) else str(z3.simplify(q.info[1].t))))
                if x is None:
                    ok = False
                    break
                src += image(chain, x) if q.what == 'raw' else ''.join(z if isinstance(z, str) else x for z in field)
            want = []
            for i, x in enumerate(combo):
                want += [('v', dump(expr("vars['%s']" % x) if nl else nm(x)))] if p[i] else list(x)
            if not ok or literal_value(src) != want:
                bad = bad or '%r written as %s' % (combo, src)
    c.prove('text: parts and variables in order' + (': ' + bad if bad else ''), bad is None)
    if chars is None:
        raise Unsupported('text of one part')
    c.prove('text: every character stands for itself' + (': U+%04X' % ord(chars[0]) if chars[0] else ''), chars[0] is None)
    c.prove('text: defines and calls nothing', not r.meta['log'])


# ------------------------------------------------------------ rejection and helpers
HELPERS = {'output', 'get_seq', 'roll', 'myrange', 'settings_set', 'anydice_casting', 'len', 'vars'}


@task('C17', 'rejection and helpers', uses('resolve', 'reset_state', '__init__'))
def _(ip):
    """resolve refuses exactly the programs that call an undefined function or have no output; no function of the program has the name of a helper"""
    import keyword
    c = ip.c
    contracts(ip)
    check = bool(c.choose(2))
    ip.contracts[KEY + '_check_nested_str'] = lambda ip, a, k: True
    fl = {k: bool(c.choose(2)) if k == 'COMPILER_FLAG_FUNC_LIB_CONFLICT' else check if 'EXIST' in k else False for k in ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK')}
    given = VDict(dict(fl))
    given.pre = True
    r = ip.call(glob(ip, MOD, 'PythonResolver'), [child(ip, 'root', sort='block'), given])
    library = set(ip.as_sl(ip.getitem(glob(ip, MOD, 'CONST'), 'function library')).items)
    for k, v in fl.items():
        c.prove('flags: as given', r.attrs.get('_' + k) is v)
    n, u = c.fresh('n'), c.binder('e')
    c.assume(n >= 0)
    D = c.fresh_fn('is_defined', [I], B)
    more = num(ip, 'made', 'int')
    c.assume(nt(more) >= 0)
    runs, own = [], {}

    def initial(what, s):
        s = ip.as_sl(s, consume=False)
        return set(s.items) if isinstance(s, Lit) and all(isinstance(x, str) for x in s.items) else None

    def rn(ip, a, k):
        """the tree: calls (named by index), definitions, outputs; with the flag no definition is called like a helper"""
        if len(a) != 2 or k or not opaque(a[1]) or a[1].attrs['$role'] != 'root':
            return NotImplemented
        o = a[0]
        before = initial('defined', o.attrs['_defined_functions']), initial('called', o.attrs['_called_functions']), o.attrs['_output_counter']
        c.prove('a pass begins with the library', before[0] == library)
        c.prove('a pass begins without calls', before[1] == set())
        c.prove('a pass begins without outputs', before[2] == 0)
        flag = ip.truth(o.attrs['_COMPILER_FLAG_FUNC_LIB_CONFLICT'])
        o.attrs['_output_counter'] = more
        o.attrs['_called_functions'] = VList('set', Comp(n, u, Lit((SStr([Hole('fname', ('called', SNum(u)))]),)))) if not ip.c.holds(n == 0) else VList('set', Lit(()))

        def has(ip, b, k):
            x = b[-1]
            if isinstance(x, SStr):
                return mkbool(D(nt(x.parts[0].info[1])))
            return False if flag is True else mkbool(own.setdefault(x, c.fresh('defines_' + x, B)))
        o.attrs['_defined_functions'] = x = Obj(Class('names', [], {'__contains__': PyFn('in', has)}, 'ghost'))
        x.meta['opaque'] = 'names'
        o.attrs['_user__defined_functions'] = VList('list', Lit(()))
        runs.append(flag)
        return SStr([Hole('block', ('tree', 0))])
    ip.contracts[KEY + 'resolve_node'] = rn

    def text_eq(ip, a, b):
        lit, s = (a, b) if isinstance(a, str) else (b, a)
        if lit == '' and isinstance(s, SStr) and isinstance(s.parts[0], Hole) and s.parts[0].what == 'stripped':
            return blank(nt(s.parts[0].info[1]))
        return None
    blank = c.fresh_fn('blank_line', [I], B)
    ip.text_eq = text_eq
    k, t = outcome(ip, ip.getattr(r, 'resolve'), [])
    i = c.binder('i')
    unknown = z3.Exists([i], z3.And(i >= 0, i < n, z3.Not(D(i))))
    if k == 'raise':
        c.prove('refused: by an error of its own', t.exc_type == 'AssertionError')
        c.prove('refused: only for an unknown function or no output', z3.Or(nt(more) == 0, unknown if check else z3.BoolVal(False)))
        return
    c.prove('accepted: has an output', nt(more) > 0)
    if check:
        c.prove('accepted: every called function is defined', z3.Not(unknown))
    for x in sorted(HELPERS | {w for w in keyword.kwlist if w.islower()}):
        c.prove('accepted: no function of the program is called like a helper', z3.BoolVal(True) if runs[-1] is True else z3.Not(own[x]) if x in own else False)
    c.prove('accepted: the text is of the last pass', r.attrs['result_text'] is not None and len(runs) <= 2)
    c.prove('flags: those given are not changed', given.d == fl)


# ------------------------------------------------------------ the pipeline
PE = 'parser.parse_and_exec'


@task('C17', 'compilation', [PE + ':compile_anydice', PE + ':build_lex_yacc', PE + ':do_lex', PE + ':do_yacc', PE + ':do_resolve'])
def _(ip):
    """each compilation has a lexer and a parser of its own; what they refuse is refused; the text is that of the tree under the given flags"""
    c = ip.c
    source = SStr([Hole('source', ('program', 0))])
    empty = c.fresh('empty', B)
    ip.text_eq = lambda ip, a, b: empty
    ip.models.TEXT_METHODS['strip'] = lambda ip, o, a, k: SStr([Hole('stripped', o.parts[0].info)])
    made, seen, kept = [], [], []
    tree = child(ip, 'root', sort='block')
    parsed = bool(c.choose(2))

    def errors(lex, attr, what):
        """the lexer writes what it refuses into its list"""
        if attr not in lex.attrs:
            raise PyRaise('AttributeError', attr)
        old = lex.attrs[attr]
        if not isinstance(old, VList) or not (isinstance(old.s, Lit) and not old.s.items):
            if any(old is x for x in kept):
                c.prove('compilation: what an earlier one refused is forgotten', False)
            raise Unsupported('refused characters are kept elsewhere')
        kept.append(old)
        m, w = c.fresh(what), c.binder('x')
        c.assume(m >= 0)
        c.set_loc(old, 's', Comp(m, w, Lit((SStr([Hole('error', (what, SNum(w)))]),))))
        counts[attr] = m

    counts = {}

    def build(ip, a, k):
        lex, yac = Obj(Class('lexer', [], {}, 'ghost')), Obj(Class('parser', [], {}, 'ghost'))

        def tokens(ip, a, k):
            if not seen or seen[-1] != ('input', lex):
                raise Unsupported('lexer without input')
            errors(lex, 'LEX_ILLEGAL_CHARS', 'illegal characters')
            return VList('iter', Lit((marker('token'),)))
        lex.attrs['input'] = PyFn('input', lambda ip, a, k: seen.append(('input', lex) if same_value(a[0], source) else ('other', lex)))
        lex.cls.ns['__iter__'] = PyFn('iter', tokens)

        def parse(ip, a, k):
            text, by = a[0] if a else k.get('input'), k.get('lexer', a[1] if len(a) > 1 else None)
            c.prove('compilation: the program is parsed, by the lexer of this compilation', same_value(text, source) and by is lex)
            errors(lex, 'YACC_ILLEGALs', 'illegal tokens')
            return tree if parsed else None
        yac.attrs['parse'] = PyFn('parse', parse)
        made.append((lex, yac))
        return (lex, yac)
    ip.contracts['parser.myparser:build_lex_yacc'] = build
    ip.contracts[KEY + '_check_nested_str'] = lambda ip, a, k: True
    log = []

    def resolve(ip, a, k):
        log.append(a[0])
        return None
    ip.contracts[KEY + 'resolve'] = resolve
    ip.contracts[KEY + 'get_text'] = lambda ip, a, k: SStr([Hole('compiled', ('of', log.index(a[0])))]) if any(a[0] is x for x in log) else NotImplemented
    names = ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK')
    some = bool(c.choose(2))
    fl = {k: SB(c.fresh(k, B)) for k in names}
    given = VDict(dict(fl)) if some else None
    if some:
        given.pre = True
    if c.choose(2):         # after another compilation, whatever came of it
        outcome(ip, glob(ip, PE, 'compile_anydice'), [source])
        for x in (made, seen, log, counts):
            x.clear()
    k, t = outcome(ip, glob(ip, PE, 'compile_anydice'), [source, given] if some else [source])
    lexed = [counts.get(x) for x in ('LEX_ILLEGAL_CHARS', 'YACC_ILLEGALs')]
    refused = z3.Or([empty, z3.BoolVal(not parsed)] + [m > 0 for m in lexed if m is not None])
    if k == 'raise':
        c.prove('compilation: an error of its own', t.exc_type == 'AssertionError')
        c.prove('compilation: refused only for what the lexer or the parser refuses', refused)
        return
    c.prove('compilation: nothing the lexer or the parser refuses is accepted', z3.And(z3.Not(refused), z3.BoolVal(None not in lexed)))
    c.prove('compilation: one lexer and parser of its own', len(made) == 1)
    r = log[-1] if log else None
    c.prove('compilation: the text is that of the tree', isinstance(t, SStr) and len(t.parts) == 1 and isinstance(t.parts[0], Hole) and t.parts[0].what == 'compiled' and len(log) == 1 and r.attrs['root'] is tree)
    if some:
        c.prove('compilation: under the given flags', all(same_value(r.attrs['_' + k], v) for k, v in fl.items()))
        c.prove('compilation: the flags are not changed', set(given.d) == set(fl) and all(given.d[x] is fl[x] for x in fl))
    else:
        c.prove('compilation: without flags only the check for unknown functions is on', [r.attrs['_' + k] for k in names] == [False, False, False, True])
    frame_ok(ip, ())


LIBRARY = {'absolute_X': 'funclib:absolute', 'X_contains_X': 'funclib:contains', 'count_X_in_X': 'funclib:count_in', 'explode_X': 'funclib:explode', 'highest_X_of_X': 'funclib:highest_N_of_D', 'lowest_X_of_X': 'funclib:lowest_N_of_D',
           'middle_X_of_X': 'funclib:middle_N_of_D', 'highest_of_X_and_X': 'funclib:highest_of_N_and_N', 'lowest_of_X_and_X': 'funclib:lowest_of_N_and_N', 'maximum_of_X': 'funclib:maximum_of', 'reverse_X': 'funclib:reverse',
           'sort_X': 'funclib:sort', 'true_div_X_X': 'utils:true_div', 'roll': 'roller:roll', 'myrange': 'roller:myrange', 'get_seq': 'factory:get_seq', 'settings_set': 'settings:settings_set', 'anydice_casting': 'decorators:anydice_casting',
           'myMatmul': 'utils:mymatmul', 'myLen': 'utils:mylen', 'myInvert': 'utils:myinvert', 'myAnd': 'utils:myand', 'myOr': 'utils:myor'}


@task('C17', 'library', [PE + ':_get_lib'])
def _(ip):
    """every name of the library and every helper of the generated code is the function it is called after"""
    c = ip.c
    k, d = outcome(ip, glob(ip, PE, '_get_lib'), [])
    if not c.prove('library: a dictionary', k == 'ok' and isinstance(d, VDict) and d.d is not None):
        return
    library = list(ip.as_sl(ip.getitem(glob(ip, MOD, 'CONST'), 'function library')).items)
    c.prove('library: every function that may be called is there', all(x in d.d for x in library))
    c.prove('library: every library function may be called', set(library) >= {x for x in LIBRARY if x.endswith('_X')})
    for name, where in LIBRARY.items():
        mod, f = where.split(':')
        c.prove('library: %s' % name, d.d.get(name) is not None and d.d.get(name) is glob(ip, mod, f))
    for name, typ in (('T_N', 'T_N'), ('T_S', 'T_S'), ('T_D', 'T_D')):
        c.prove('library: type %s' % name, name in d.d and (d.d[name] is glob(ip, 'typings', typ) or same_value(d.d[name], glob(ip, 'typings', typ))))


# ------------------------------------------------------------ the actions of the grammar
G = grammar.GMOD
task('C17', 'grammar: names', [G + ':' + n for n in ('p_funcname_def', 'p_funcname_def_impossibletocall', 'p_funcname_def_param', 'p_call_elements', 'p_call_elements_expr', 'p_term_call', 'p_var_name')])(lambda ip: grammar.action(ip, grammar.NAMES))
task('C17', 'grammar: texts', [G + ':p_string_instring', G + ':p_strvar_instring'])(lambda ip: grammar.action(ip, grammar.TEXTS))


@task('C17', 'words are told apart', [G + ':t_LOWERNAME'])
def _(ip):
    """a word in small letters is the roll operator, a reserved word or part of a name, and keeps its spelling"""
    c = ip.c
    words = [w.lower() for w in grammar.WORDS]
    k = c.choose(len(words) + 2)
    v = words[k] if k < len(words) else 'd' if k == len(words) else SStr([Hole('word', ('w', 0))])
    want = grammar.WORDS[k] if k < len(words) else 'D_OP' if k == len(words) else 'LOWERNAME'
    if want == 'LOWERNAME':
        def text_eq(ip, a, b):
            lit = a if isinstance(a, str) else b
            if not isinstance(lit, str):
                return None
            # a word of its own: none of the words of the language, perhaps any other
            return z3.BoolVal(False) if lit in words or lit == 'd' or not (lit.isascii() and lit.isalpha() and lit.islower()) else c.fresh('is_' + lit, B)
        ip.text_eq = text_eq
    t = Obj(Class('LexToken', [], {}, 'ghost'), {'value': v, 'type': 'LOWERNAME'})
    kind, r = outcome(ip, glob(ip, G, 't_LOWERNAME'), [t])
    c.prove('%s: is a token' % want, kind == 'ok' and r is t)
    c.prove('%s: of its type' % want, kind == 'ok' and t.attrs['type'] == want)
    c.prove('%s: keeps its spelling' % want, t.attrs['value'] is v or t.attrs['value'] == v)


@task('C17', 'numbers keep their digits', [G + ':t_NUMBER'])
def _(ip):
    c = ip.c
    v = SStr([Hole('digits', ('w', 0))])
    t = Obj(Class('LexToken', [], {}, 'ghost'), {'value': v, 'type': 'NUMBER'})
    kind, r = outcome(ip, glob(ip, G, 't_NUMBER'), [t])
    c.prove('number: is a token', kind == 'ok' and r is t and t.attrs['type'] == 'NUMBER')
    if not isinstance(t.attrs['value'], SStr):
        raise Unsupported('value of a number token %r' % (t.attrs['value'],))
    c.prove('number: keeps its digits', t.attrs['value'] is v)
