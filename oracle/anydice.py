"""AnyDice programs as trees of our own: printing them as program text, reading the compiled python in a free term
algebra, and the reference reading of the tree itself.  Nothing is shared with /repo's parser or resolver."""
import ast
import hashlib
import math
from .base import *

LEVEL = {'|': 0, '&': 1, '<': 2, '>': 2, '=': 2, '!=': 2, '<=': 2, '>=': 2, '+': 3, '-': 3, '*': 4, '/': 4, '^': 5, '@': 6}
PYOP = {'=': '==', '^': '**', '/': '//'}
WORDS = ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')
LIB = ('absolute X', 'X contains X', 'count X in X', 'explode X', 'highest X of X', 'lowest X of X', 'middle X of X', 'highest of X and X',
       'lowest of X and X', 'maximum of X', 'reverse X', 'sort X', 'true div X X')


# ------------------------------------------------------------------ printing

def show(e, ws, lvl=0, extra=None):
    """text of expression e in a context that needs at least level lvl"""
    k = e[0]
    own = 8
    if k == 'num':
        t = e[1]
    elif k == 'dec':
        t = e[1] + '.' + e[2]
    elif k == 'var':
        t = e[1]
    elif k == 'bin':
        own = LEVEL[e[1]]
        o = e[1] if e[1] not in ('<=', '>=') else e[1][0] + ws('') + '='
        t = show(e[2], ws, own, extra) + ws('') + o + ws('') + show(e[3], ws, own + 1, extra)
    elif k == 'dm':
        own, t = 7, 'd' + ws(' ') + show(e[1], ws, 8, extra)
    elif k == 'ndm':
        own, t = 7, show(e[1], ws, 8, extra) + ws(' ') + 'd' + ws(' ') + show(e[2], ws, 8, extra)
    elif k == 'un':
        t = e[1] + ws('') + show(e[2], ws, 8, extra)
    elif k == 'hash':
        t = '#' + ws('') + show(e[1], ws, 8, extra)
    elif k == 'seq':
        t = '{' + ws('') + (ws('') + ',' + ws('')).join(show(x, ws, 0, extra) for x in e[1]) + ws('') + '}'
    elif k == 'range':
        return show(e[1], ws, 0, extra) + ws('') + '..' + ws('') + show(e[2], ws, 0, extra)
    elif k == 'str':
        t = show_str(e)
    elif k == 'call':
        parts = []
        for i, x in enumerate(e[1]):
            if isinstance(x, str):
                parts.append(x)
            else:
                s = show(x, ws, 0, extra)
                if s[0] in '+-!d"(' and i:
                    s = '(' + s + ')' if not (s[0] == '(' and x[0] == 'par') else s
                parts.append(s)
        t = '[' + ' '.join(parts) + ']'
        # a binary operator directly after an argument would be read as part of it only if the argument text starts with one
    elif k == 'par':
        return '(' + ws('') + show(e[1], ws, 0, extra) + ws('') + ')'
    else:
        raise ValueError(e)
    if own < lvl or (extra and extra() and k not in ('range',)):
        return '(' + ws('') + t + ws('') + ')'
    return t


def show_str(e):
    return '"' + ''.join(x if isinstance(x, str) else '[' + x[1] + ']' for x in e[1]) + '"'


def show_stmts(body, ws, extra=None, ind=0):
    return '\n'.join(show_stmt(s, ws, extra, ind) for s in body)


def show_stmt(s, ws, extra, ind):
    p, k = '  ' * ind, s[0]

    def E(x):
        return show(x, ws, 0, extra)

    def B(b):
        return '{\n' + show_stmts(b, ws, extra, ind + 1) + ('\n' if b else '') + p + '}'
    if k == 'out':
        return p + 'output ' + E(s[1]) + (' named ' + show_str(s[2]) if s[2] else '')
    if k == 'assign':
        return p + s[1] + ws('') + ':' + ws('') + E(s[2])
    if k == 'loop':
        return p + 'loop ' + s[1] + ' over ' + E(s[2]) + ' ' + B(s[3])
    if k == 'if':
        t = ''
        for i, (c, b) in enumerate(s[1]):
            t += (p if i == 0 else ' else ') + 'if ' + E(c) + ' ' + B(b)
        if s[2] is not None:
            t += ' else ' + B(s[2])
        return t
    if k == 'func':
        return p + 'function: ' + ' '.join(x if isinstance(x, str) else x[0] + (':' + x[1] if x[1] else '') for x in s[1]) + ' ' + B(s[2])
    if k == 'result':
        return p + 'result: ' + E(s[1])
    if k == 'set':
        return p + 'set ' + show_str(s[1]) + ' to ' + E(s[2])
    raise ValueError(s)


# ------------------------------------------------------------------ terms

def flip(t):
    return hashlib.md5(repr(t).encode()).digest()[0] & 1 == 1


class T:
    """a term of the free algebra: every operator only records itself"""
    __slots__ = ('t', 's', 'n')
    SIZE = 4000

    def __init__(self, t):
        self.t = t
        self.n = 1 + sum(x.n for x in t if isinstance(x, T))
        if self.n > self.SIZE:      # keep very large terms comparable and small
            self.t = ('big', hashlib.md5(repr(self).encode()).hexdigest())
            self.n = 1

    def __repr__(self):
        return '(' + ' '.join(repr(x) if isinstance(x, T) else str(x) if isinstance(x, str) and i == 0 else repr(x) for i, x in enumerate(self.t)) + ')'

    def __hash__(self):
        return hash(repr(self))

    def __bool__(self):
        return flip(self.t)

    def __format__(self, spec):
        return '<' + hashlib.md5(repr(self).encode()).hexdigest()[:8] + '>'
    __str__ = lambda self: format(self)

    def __iter__(self):
        for i in range(2 if flip(self.t) else 3):
            yield T(('item', self, i))

    def __getattr__(self, a):
        raise AttributeError(a)


def lift(x):
    return x if isinstance(x, T) else T(('py', repr(x)))


def _ops():
    names = {'add': '+', 'sub': '-', 'mul': '*', 'floordiv': '//', 'truediv': '/', 'pow': '**', 'matmul': '@', 'and': '&', 'or': '|', 'xor': 'xor', 'mod': '%', 'lshift': '<<', 'rshift': '>>'}
    for n, o in names.items():
        setattr(T, '__%s__' % n, (lambda o: lambda a, b: T(('op', o, a, lift(b))))(o))
        setattr(T, '__r%s__' % n, (lambda o: lambda a, b: T(('op', o, lift(b), a)))(o))
    for n, o in {'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'eq': '==', 'ne': '!='}.items():
        setattr(T, '__%s__' % n, (lambda o: lambda a, b: T(('op', o, a, lift(b))))(o))
    for n, o in {'neg': '-', 'pos': '+', 'invert': '~'}.items():
        setattr(T, '__%s__' % n, (lambda o: lambda a: T(('un', o, a)))(o))


_ops()


def key(t):
    return repr(t)


# ------------------------------------------------------------------ reading the compiled python

class Wrap(ast.NodeTransformer):
    """constants and texts become terms; subscripts of dictionaries keep their plain keys"""

    def visit_Constant(self, n):
        if isinstance(n.value, (int, float, str)) and not isinstance(n.value, bool):
            return ast.copy_location(ast.Call(ast.Name('__K', ast.Load()), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v = ast.FormattedValue(self.visit(v.value), v.conversion, None)
            vals.append(v)
        return ast.copy_location(ast.Call(ast.Name('__K', ast.Load()), [ast.JoinedStr(vals)], []), n)

    def visit_Subscript(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_arguments(self, n):
        return n

    def visit_Call(self, n):
        n.func = n.func if isinstance(n.func, ast.Name) else self.visit(n.func)
        n.args = [self.visit(a) for a in n.args]
        n.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        return n


class Stop(Exception):
    pass


class Trace:
    """execute compiled python in the free algebra"""
    MAXCALLS = 400

    def __init__(self):
        self.log = []
        self.calls = 0
        self.depth = 0

    def run(self, code):
        tree = ast.fix_missing_locations(Wrap().visit(ast.parse(code)))
        g = self.env()
        try:
            exec(compile(tree, '<compiled>', 'exec'), g)
        except Stop:
            pass
        return self.log

    def env(self):
        log = self.log

        def K(v):
            return v if isinstance(v, T) else T(('str', v)) if isinstance(v, str) else T(('num', repr(v)))

        def fn(name):
            def f(*a, **k):
                a = [x for x in a if not isinstance(x, dict)]
                return T(('fn', name) + tuple(flat_args(a)) + tuple((kk, lift(v)) for kk, v in sorted(k.items())))
            return f

        def flat_args(a):
            out = []
            for x in a:
                if isinstance(x, (list, tuple)):
                    out.extend(flat_args(x))
                else:
                    out.append(lift(x))
            return out

        def roll(*a):
            return T(('fn', 'roll') + tuple(flat_args(a if len(a) > 1 else (T(('num', '1')),) + tuple(a))))

        def output(e, named=None):
            log.append(('output', key(lift(e)), None if named is None else key(lift(named))))
            if len(log) > 300:
                raise Stop()

        def settings_set(n, v):
            log.append(('set', key(lift(n)), key(lift(v))))
            if len(log) > 300:
                raise Stop()

        def casting(*_, **__):
            def deco(f):
                import inspect
                names = [p for p in inspect.signature(f).parameters]
                ann = f.__annotations__

                def w(*a):
                    self.calls += 1
                    if self.calls > self.MAXCALLS:
                        raise Stop()
                    if self.depth >= 3:
                        return T(('deep',))
                    self.depth += 1
                    try:
                        args = [T(('cast', str(ann[n]), lift(x))) if n in ann and not isinstance(x, dict) else x for n, x in zip(names, a)]
                        if len(a) != len(names):
                            raise Fail('compiled function called with %d arguments for %d parameters' % (len(a), len(names)))
                        r = f(*args)
                        return T(('none',)) if r is None else r
                    finally:
                        self.depth -= 1
                return w
            return deco
        env = {'__K': K, 'roll': roll, 'output': output, 'settings_set': settings_set, 'anydice_casting': casting, 'T_S': 'T_S', 'T_N': 'T_N', 'T_D': 'T_D'}
        for n in ('get_seq', 'myrange', 'myMatmul', 'myLen', 'myInvert', 'myAnd', 'myOr', 'len') + tuple(x.replace(' ', '_') for x in LIB):
            env[n] = fn(n)
        return env


# ------------------------------------------------------------------ reading our own tree

class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class Ref:
    """reference reading of a tree, producing the same kind of log"""

    def __init__(self, flags):
        self.on_int = flags.get('COMPILER_FLAG_OPERATOR_ON_INT', False)
        self.dyn = flags.get('COMPILER_FLAG_NON_LOCAL_SCOPE', False)
        self.log = []
        self.funcs = {}
        self.globals = {}
        self.calls = self.depth = 0

    def run(self, prog):
        try:
            self.body(prog, self.globals, None)
        except Stop:
            pass
        return self.log

    def lookup(self, name, env, loc):
        if loc is None or self.dyn:
            return env[name]
        return env[name] if name in loc else self.globals[name]

    def expr(self, e, env, loc):
        E = lambda x: self.expr(x, env, loc)
        k = e[0]
        if k == 'num':
            return T(('num', repr(int(e[1]))))
        if k == 'dec':
            return T(('num', repr(float(e[1] + '.' + e[2]))))
        if k == 'var':
            return self.lookup(e[1], env, loc)
        if k == 'str':
            return T(('str', ''.join(x if isinstance(x, str) else format(self.lookup(x[1], env, loc)) for x in e[1])))
        if k == 'par':
            return E(e[1])
        if k == 'bin':
            a, b = E(e[2]), E(e[3])
            if self.on_int and e[1] in '@&|':
                return T(('fn', {'@': 'myMatmul', '&': 'myAnd', '|': 'myOr'}[e[1]], a, b))
            return T(('op', PYOP.get(e[1], e[1]), a, b))
        if k == 'dm':
            return T(('fn', 'roll', T(('num', '1')), E(e[1])))
        if k == 'ndm':
            return T(('fn', 'roll', E(e[1]), E(e[2])))
        if k == 'un':
            a = E(e[2])
            if e[1] == '!':
                return T(('fn', 'myInvert', a)) if self.on_int else T(('un', '~', a))
            return T(('un', e[1], a))
        if k == 'hash':
            return T(('fn', 'myLen' if self.on_int else 'len', E(e[1])))
        if k == 'seq':
            return T(('fn', 'get_seq') + tuple(E(x) for x in e[1]))
        if k == 'range':
            return T(('fn', 'myrange', E(e[1]), E(e[2])))
        if k == 'call':
            args = [E(x) for x in e[1] if not isinstance(x, str)]
            name = ' '.join(x if isinstance(x, str) else 'X' for x in e[1])
            f = self.funcs.get(name)
            if f is None:
                return T(('fn', name.replace(' ', '_')) + tuple(args))
            self.calls += 1
            if self.calls > Trace.MAXCALLS:
                raise Stop()
            if self.depth >= 3:
                return T(('deep',))
            self.depth += 1
            try:
                params, body, assigned = f
                env2 = dict(env) if self.dyn else {}
                seen = set()
                for (n, ty), a in zip(params, args):
                    if ty:
                        a = T(('cast', {'n': 'T_N', 's': 'T_S', 'd': 'T_D'}[ty], a))
                    if n not in seen:       # with a repeated name the first one counts
                        env2[n] = a
                    seen.add(n)
                self.body(body, env2, assigned)
                return T(('none',))
            except _Ret as r:
                return r.v
            finally:
                self.depth -= 1
        raise ValueError(e)

    def emit(self, x):
        self.log.append(x)
        if len(self.log) > 300:
            raise Stop()

    def body(self, b, env, loc):
        for s in b:
            k = s[0]
            if k == 'out':
                v = self.expr(s[1], env, loc)
                self.emit(('output', key(v), key(self.expr(s[2], env, loc)) if s[2] else None))
            elif k == 'assign':
                env[s[1]] = self.expr(s[2], env, loc)
            elif k == 'loop':
                for x in self.expr(s[2], env, loc):
                    env[s[1]] = x
                    self.body(s[3], env, loc)
            elif k == 'if':
                for c, bb in s[1]:
                    if self.expr(c, env, loc):
                        self.body(bb, env, loc)
                        break
                else:
                    if s[2] is not None:
                        self.body(s[2], env, loc)
            elif k == 'func':
                params = [x for x in s[1] if not isinstance(x, str)]
                name = ' '.join(x if isinstance(x, str) else 'X' for x in s[1])
                self.funcs[name] = (params, s[2], assigned(s[2]) | {p[0] for p in params})
            elif k == 'result':
                raise _Ret(self.expr(s[1], env, loc))
            elif k == 'set':
                n = self.expr(s[1], env, loc)
                self.emit(('set', key(n), key(self.expr(s[2], env, loc))))


def assigned(body):
    out = set()
    for s in body:
        if s[0] == 'assign':
            out.add(s[1])
        elif s[0] == 'loop':
            out |= {s[1]} | assigned(s[3])
        elif s[0] == 'if':
            for _, b in s[1]:
                out |= assigned(b)
            if s[2]:
                out |= assigned(s[2])
    return out


# ------------------------------------------------------------------ generating

BINS = list(LEVEL)
TEXTS = ('a', 'ab c', 'x{y}', "it's", 'a\tb', '100%', 'é', '{}', '{{', 'a]b', '#1', 'n\\', '\\n', 'C:\\t\\x', '\\', 'a\rb', "'", '%s', '{0}', '\\"'[:1], ' pad ', ';', '$x', '[a', '[', '[]', '[A b]', '[1]')


class PGen:
    def __init__(self, r, words=None, texts=TEXTS):
        self.r = r
        self.texts = texts
        self.words = words or ('foo', 'bar', 'baz', 'add', 'x', 'of', 'and', 'the', 'to', 'set', 'result', 'if', 'else', 'over', 'named', 'loop', 'highest', 'f')
        self.funcs = []     # patterns: list of word / None

    def num(self):
        r = self.r
        return ('num', r.choice(('0', '1', '2', '3', '6', '10', '007', '00', '20', '12345678901234567890')))

    def atom(self, vs):
        r = self.r
        x = r.random()
        if vs and x < .5:
            return ('var', r.choice(vs))
        if x < .9:
            return self.num()
        if x < .94:
            return ('dec', r.choice(('0', '1', '12', '01')), r.choice(('5', '25', '0', '05')))
        return self.text(vs) if x > .97 else ('seq', [])

    def text(self, vs):
        r = self.r
        parts = [r.choice(self.texts) for _ in range(r.randint(1, 2))]
        if vs and r.random() < .5:
            parts.insert(r.randint(0, len(parts)), ('v', r.choice(vs)))
        out = []
        for p in parts:
            # keep each chunk what it looks like: "[A" + "]" must not become a variable
            out.append(p)
        t = ('str', out)
        import re
        flat_ = show_str(t)[1:-1]
        vs_here = re.findall(r'\[[A-Z_]+\]', flat_)
        if len(vs_here) != sum(not isinstance(p, str) for p in out):
            return ('str', ['t'])
        return t

    def expr(self, d, vs):
        r = self.r
        if d <= 0:
            return self.atom(vs)
        x = r.random()
        if x < .52:
            return ('bin', r.choice(BINS), self.expr(d - 1, vs), self.expr(d - 1 if r.random() < .8 else 0, vs))
        if x < .6:
            return ('ndm', self.expr(d - 1, vs), self.expr(d - 1, vs))
        if x < .64:
            return ('dm', self.expr(d - 1, vs))
        if x < .74:
            return ('un', r.choice('+-!-!'), self.expr(d - 1, vs))
        if x < .78:
            return ('hash', self.expr(d - 1, vs))
        if x < .85:
            els = []
            for _ in range(r.randint(0, 3)):
                els.append(('range', self.expr(d - 2, vs), self.expr(d - 2, vs)) if r.random() < .3 else self.expr(d - 2, vs))
            return ('seq', els)
        if x < .95:
            return self.call(d, vs)
        return self.atom(vs)

    def call(self, d, vs):
        r = self.r
        pats = self.funcs + [p.split() for p in LIB] if r.random() < .3 or not self.funcs else self.funcs
        p = r.choice(pats)
        return ('call', [self.expr(d - 2, vs) if x in ('X', None) else x for x in p])

    def body(self, d, vs, gl, infunc, n=None):
        """vs: names certainly bound here (grows); gl: names that may be read only (globals seen from a function)"""
        r = self.r
        out = []
        for _ in range(n if n is not None else r.randint(0, 3)):
            x = r.random()
            rd = vs + gl
            if x < .35:
                out.append(('out', self.expr(r.randint(0, 4), rd), self.text(rd) if r.random() < .3 else None))
            elif x < .6:
                e = self.expr(r.randint(0, 3), rd)
                v = r.choice(NAMES)
                if infunc and v in gl:
                    continue
                out.append(('assign', v, e))
                if v not in vs:
                    vs.append(v)
            elif x < .72 and d > 0:
                c = [(self.expr(2, rd), self.body(d - 1, list(vs), gl, infunc)) for _ in range(r.randint(1, 3))]
                out.append(('if', c, self.body(d - 1, list(vs), gl, infunc) if r.random() < .6 else None))
            elif x < .82 and d > 0:
                v = r.choice(NAMES)
                if infunc and v in gl:
                    continue
                e = self.expr(2, rd)
                out.append(('loop', v, e, self.body(d - 1, list(vs) + [v], gl, infunc)))
            elif x < .87 and infunc:
                out.append(('result', self.expr(3, rd)))
            elif x < .9:
                out.append(('set', self.text([]), r.choice((self.text(rd), self.expr(1, rd)))))
            elif not infunc and d == 2 and x < .97:
                out.append(self.func(gl + vs))
        return out

    def func(self, gl):
        r = self.r
        pat = []
        for _ in range(r.randint(1, 3)):
            pat.append(r.choice(self.words))
            if r.random() < .6:
                pat.append((r.choice(NAMES), r.choice((None, None, 'n', 's', 'd'))))
        params = [x[0] for x in pat if not isinstance(x, str)]
        sig = [x if isinstance(x, str) else None for x in pat]
        glob = [g for g in self.top if g not in params]
        recursive = r.random() < .15
        if recursive:
            self.funcs.append(sig)
        b = self.body(2, list(dict.fromkeys(params)), glob, True)
        b.append(('result', self.expr(3, list(dict.fromkeys(params)) + glob)))
        if not recursive:
            self.funcs.append(sig)
        return ('func', pat, b)

    def program(self, exprs=6):
        self.funcs = []
        self.top = []
        r = self.r
        prog = []
        vs = []
        for v in NAMES[:r.randint(0, 3)]:
            prog.append(('assign', v, self.expr(1, vs)))
            vs.append(v)
            self.top.append(v)
        vs = list(vs)
        prog += self.body(2, vs, [], False, r.randint(2, exprs))
        prog.append(('out', self.expr(5, vs), None))
        return prog


NAMES = ('A', 'B', 'C', 'FOO', 'X', 'N_M', '_Q')


def printer(r, fancy):
    """white space and comment choices"""
    if not fancy:
        return lambda d: d

    def ws(d):
        x = r.random()
        return d or '' if x < .5 else ' ' if x < .8 else '\t' if x < .85 else '\n' if x < .9 else ' \\ c, {"!\\ ' if x < .93 else '  '
    return ws


FLAGSETS = [{}, {'COMPILER_FLAG_OPERATOR_ON_INT': True}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, {'COMPILER_FLAG_OPERATOR_ON_INT': True, 'COMPILER_FLAG_NON_LOCAL_SCOPE': True},
            {'COMPILER_FLAG_FUNC_LIB_CONFLICT': True}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True, 'COMPILER_FLAG_FUNC_LIB_CONFLICT': True}]


def compare(prog, text, flags):
    P = sub('parser.parse_and_exec')
    try:
        code = P.compile_anydice(text, dict(flags))
    except AssertionError as e:
        raise Fail('program rejected: %s\n%s' % (str(e)[:200], text))
    want = Ref(flags).run(prog)
    try:
        got = Trace().run(code)
    except Fail:
        raise
    except Exception as e:
        raise Fail('compiled program fails: %s: %s\n--- anydice\n%s\n--- python\n%s' % (type(e).__name__, e, text, code))
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Fail('flags %r, event %d: compiled %s, program means %s\n--- anydice\n%s\n--- python\n%s' % (flags, i, got[i:i + 1], want[i:i + 1], text, code))
