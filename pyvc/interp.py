"""Symbolic interpreter for the Python subset used by /repo/src.

The functions are executed from their syntax tree, parsed from /repo's working tree on every run.  Branches on
symbolic conditions fork the path; loops over lists of symbolic length are summarised for an arbitrary iteration
(see Interp.summarize); calls to functions that have a contract use the contract.
"""
import ast
import itertools
import os
import z3
from . import terms as T
from .terms import I, R, B, real
from .values import *
from .values import _serial
from .core import Ctx, Env, UNDEF, Infeasible, RangeRule

SRC = os.environ.get('PYVC_SRC') or os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Star:
    """a *argument of symbolic length"""
    def __init__(self, s):
        self.s = s


class Lazy:
    """name imported from another module of the package, resolved on first use"""
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class ModVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


class Opaque:
    """anything the verifier knows nothing about"""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return '<opaque %s>' % self.what


class Type:
    """builtin type"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<type %s>' % self.name


RETRY = object()


class NoSummary(Exception):
    pass


class Poison:
    """loop-carried location whose value at the start of an iteration is not known yet"""
    def __init__(self, loc):
        self.loc = loc


def unpoisoned(vs):
    for v in vs:
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)


class Restart(Exception):
    """a concrete dict was turned into contribution form; explore the loop body again"""


class PoisonRead(Exception):
    def __init__(self, loc):
        self.loc = loc


NOTIMPL = Type('NotImplemented')

EXC = {'BaseException': None, 'Exception': 'BaseException', 'AssertionError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
       'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError', 'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'NameError': 'Exception',
       'UnboundLocalError': 'NameError', 'StopIteration': 'Exception', 'ModuleNotFoundError': 'ImportError', 'ImportError': 'Exception', 'RecursionError': 'RuntimeError', 'KeyboardInterrupt': 'BaseException', 'SyntaxError': 'Exception'}


def exc_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = EXC.get(a, 'Exception') if a != 'BaseException' else None
    return False


BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}
CMPOPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
REFL = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}

TRUNC = z3.Function('trunc', R, R)
FDIV = z3.Function('fdiv', R, R, R)
FMOD = z3.Function('fmod', R, R, R)
RPOW = z3.Function('rpow', R, R, R)
IPOW = z3.Function('ipow', R, I, R)
ROUND = z3.Function('round', R, R, R)
FLOORF = z3.Function('floorf', R, R)
CEILF = z3.Function('ceilf', R, R)
COMB = z3.Function('comb', I, I, I)
SQRT = z3.Function('sqrt', R, R)


class World:
    """the package: modules parsed from source, executed once at top level"""
    trees = {}

    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.funcs_seen = {}

    def path(self, name):
        return os.path.join(self.src, *name.split('.')) + '.py'

    def tree(self, name):
        if name not in self.trees:
            with open(self.path(name), encoding='utf8') as f:
                self.trees[name] = ast.parse(f.read())
        return self.trees[name]

    def exists(self, name):
        return os.path.exists(self.path(name))


class Interp:
    def __init__(self, world, ctx):
        self.w, self.c = world, ctx
        self.float_range = False  # conversions of integers to floats may overflow
        self.contracts = {}       # qualname -> fn(interp, args, kwargs)
        self.inline_only = None
        self.loop_rules = []      # fn(interp, node, env, module, list, body): invariants for loops with no derived summary
        self.depth = 0
        self.fixed_holes = set()
        self.used_contracts = set()
        self.executed = set()     # qualnames executed
        self.callhook = None
        from . import models
        self.models = models
        self.builtins = models.builtins(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.w.mods.get(name)
        if m is None:
            m = Env(None, name)
            m.fname = ''
            m.modname = name
            self.w.mods[name] = m
            m.vars['__name__'] = 'dice_calc.' + name
            c = self.c
            saved = c.trail, c.binders
            c.trail, c.binders = [], []
            try:
                for st in self.w.tree(name).body:
                    try:
                        self.exec_stmt(st, m, m)
                    except Unsupported as e:
                        for t in assigned_names(st):
                            m.vars[t] = Opaque('%s.%s: %s' % (name, t, e))
            finally:
                c.trail, c.binders = saved
            return m
        return m

    def resolve_lazy(self, v):
        if isinstance(v, Lazy):
            return self.getglobal(v.mod, v.name)
        return v

    def getglobal(self, mod, name):
        m = self.module(mod)
        if name in m.vars:
            v = m.vars[name]
            if isinstance(v, Lazy):
                v = self.resolve_lazy(v)
            return v
        if self.w.exists(name) and mod == '':
            return ModVal(name)
        raise Unsupported('name %s.%s' % (mod, name))

    def do_import(self, st, env, g):
        pkg = g.modname.rpartition('.')[0]
        if isinstance(st, ast.ImportFrom) and st.level:
            base = pkg
            for _ in range(st.level - 1):
                base = base.rpartition('.')[0]
            modname = '.'.join(x for x in (base, st.module) if x)
            for a in st.names:
                full = '.'.join(x for x in (modname, a.name) if x)
                if self.w.exists(full):
                    v = ModVal(full)
                elif modname and self.w.exists(modname):
                    v = Lazy(modname, a.name)
                else:
                    v = Opaque('import ' + full)
                env.vars[a.asname or a.name] = v
            return
        if isinstance(st, ast.ImportFrom):
            for a in st.names:
                env.vars[a.asname or a.name] = self.models.native_attr(self, st.module, a.name)
            return
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = ModVal('!' + a.name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env, g):
        for st in body:
            self.exec_stmt(st, env, g)

    def exec_stmt(self, st, env, g):
        k = type(st)
        if k is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return
            if isinstance(st.value, ast.Yield):
                v = self.eval(st.value.value, env, g)
                self.list_append(self.lookup('$yield', env, g), v)
                return
            if isinstance(st.value, ast.YieldFrom):
                v = self.eval(st.value.value, env, g)
                self.list_extend(self.lookup('$yield', env, g), self.as_sl(v))
                return
            self.eval(st.value, env, g)
        elif k is ast.Assign:
            v = self.eval(st.value, env, g)
            for t in st.targets:
                self.assign(t, v, env, g)
        elif k is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.eval(st.value, env, g), env, g)
        elif k is ast.AugAssign:
            self.augassign(st, env, g)
        elif k is ast.Return:
            raise Return(self.eval(st.value, env, g) if st.value is not None else None)
        elif k is ast.If:
            if self.c.branch(self.truth(self.eval(st.test, env, g))):
                self.exec_block(st.body, env, g)
            else:
                self.exec_block(st.orelse, env, g)
        elif k is ast.For:
            self.for_loop(st, env, g)
        elif k is ast.While:
            self.while_loop(st, env, g)
        elif k is ast.Assert:
            if not self.c.branch(self.truth(self.eval(st.test, env, g))):
                raise PyRaise('AssertionError')
        elif k is ast.Pass:
            pass
        elif k is ast.Break:
            raise Break()
        elif k is ast.Continue:
            raise Continue()
        elif k is ast.Raise:
            if st.exc is None:
                raise self.cur_exc
            v = self.eval(st.exc, env, g)
            raise PyRaise(v.name if isinstance(v, Type) else getattr(v, 'exc_name', 'Exception'), value=v)
        elif k in (ast.Import, ast.ImportFrom):
            self.do_import(st, env, g)
        elif k is ast.FunctionDef:
            f = self.make_func(st, env, g)
            for d in reversed(st.decorator_list):
                dv = self.eval(d, env, g)
                f = self.call(dv, [f], {})
            self.setname(st.name, f, env)
        elif k is ast.ClassDef:
            self.class_def(st, env, g)
        elif k is ast.Try:
            self.try_stmt(st, env, g)
        elif k is ast.Global:
            env.globals = set(env.globals) | set(st.names)
        elif k is ast.Nonlocal:
            env.nonlocals = set(env.nonlocals) | set(st.names)
        elif k is ast.Delete:
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.c.set_loc(env, t.id, UNDEF)
                else:
                    raise Unsupported('del')
        else:
            raise Unsupported('statement %s' % k.__name__)

    def try_stmt(self, st, env, g):
        try:
            try:
                self.exec_block(st.body, env, g)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        names = ['BaseException']
                    else:
                        tv = self.eval(h.type, env, g)
                        names = [x.name for x in (tv if isinstance(tv, tuple) else (tv,)) if isinstance(x, Type)]
                    if any(exc_sub(e.exc_type, n) for n in names):
                        if h.name:
                            self.setname(h.name, e.value if e.value is not None else Opaque('exception'), env)
                        old, self.cur_exc = getattr(self, 'cur_exc', None), e
                        try:
                            self.exec_block(h.body, env, g)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, g)
        except (PyRaise, Return, Break, Continue):
            self.exec_block(st.finalbody, env, g)
            raise
        else:
            self.exec_block(st.finalbody, env, g)

    def class_def(self, st, env, g):
        bases = [self.resolve_lazy(self.eval(b, env, g)) for b in st.bases]
        cenv = Env(env, st.name)
        cls = Class(st.name, bases, cenv.vars, g.modname, st)
        cls.is_enum = any(isinstance(b, Type) and b.name == 'Enum' for b in bases)
        cenv.cls = cls
        for x in st.body:
            self.exec_stmt(x, cenv, g)
        if cls.is_enum:
            for k, v in list(cenv.vars.items()):
                if not k.startswith('_') and not isinstance(v, Func):
                    m = Obj(cls, {'name': k, 'value': v})
                    cenv.vars[k] = m
        out = cls
        for d in reversed(st.decorator_list):
            out = self.call(self.eval(d, env, g), [out], {})
        self.setname(st.name, out, env)

    def make_func(self, node, env, g, name=None):
        nm = name or node.name
        q = (env.fname + '.' if env.fname else '') + nm
        f = Func(node, env, g, q)
        a = node.args
        f.defaults = [self.eval(d, env, g) for d in a.defaults]
        f.kw_defaults = [self.eval(d, env, g) if d is not None else None for d in a.kw_defaults]
        f.cls = getattr(env, 'cls', None)
        if not hasattr(node, '_locals'):
            node._locals = local_names(node)
            node._isgen = is_generator(node)
        return f

    # ------------------------------------------------------------ names
    def setname(self, name, v, env):
        if name in getattr(env, 'globals', ()):
            e = env
            while e.parent is not None:
                e = e.parent
            env = e
        elif name in getattr(env, 'nonlocals', ()):
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            env = e
        self.c.set_loc(env, name, v)

    def lookup(self, name, env, g):
        e = env
        while e is not None:
            v = e.vars.get(name, UNDEF)
            if v is not UNDEF:
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                if isinstance(v, Lazy):
                    v = self.resolve_lazy(v)
                return v
            if name in getattr(e, 'locals', ()) and name not in getattr(e, 'globals', ()):
                raise PyRaise('UnboundLocalError', name)
            e = e.parent
            while e is not None and getattr(e, 'cls', None) is not None:     # class scopes are not visible from methods
                e = e.parent
        if g is not None and name in g.vars:
            v = g.vars[name]
            if isinstance(v, Poison):
                raise PoisonRead(v.loc)
            return self.resolve_lazy(v)
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise('NameError', name)

    def assign(self, t, v, env, g):
        k = type(t)
        if k is ast.Name:
            self.setname(t.id, v, env)
        elif k in (ast.Tuple, ast.List):
            items = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts), t)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, g)
        elif k is ast.Attribute:
            o = self.eval(t.value, env, g)
            self.setattr(o, t.attr, v)
        elif k is ast.Subscript:
            o = self.eval(t.value, env, g)
            self.setitem(o, self.eval_index(t.slice, env, g), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, starred, t):
        v = self.force(v)
        s = self.as_sl(v)
        if isinstance(s, IfL):
            s = s.a if self.c.branch(s.c) else s.b
        if starred:
            if not isinstance(s, Lit):
                raise Unsupported('starred unpacking')
            i = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
            rest = len(s.items) - (n - 1)
            if rest < 0:
                raise PyRaise('ValueError')
            return list(s.items[:i]) + [VList('list', Lit(s.items[i:i + rest]))] + list(s.items[i + rest:])
        if isinstance(s, Lit):
            if len(s.items) != n:
                raise PyRaise('ValueError', 'unpack')
            return list(s.items)
        if not self.c.branch(slen(s) == n):
            raise PyRaise('ValueError', 'unpack')
        return [self.sl_get(s, z3.IntVal(i)) for i in range(n)]

    def augassign(self, st, env, g):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env, g)
            v = self.eval(st.value, env, g)
            old = self.force(old)
            if op == 'add' and isinstance(old, VList) and old.kind == 'list':
                self.list_extend(old, self.as_sl(v))
                return
            self.setname(t.id, self.binop(op, old, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, env, g))
            old = self.force(self.getattr(o, t.attr))
            v = self.eval(st.value, env, g)
            if op == 'add' and isinstance(old, VList) and old.kind == 'list':
                self.list_extend(old, self.as_sl(v))
                return
            self.setattr(o, t.attr, self.binop(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, g)
            i = self.eval_index(t.slice, env, g)
            old = self.getitem(o, i)
            self.setitem(o, i, self.binop(op, old, self.eval(st.value, env, g)))
        else:
            raise Unsupported('augmented assignment')

    # ------------------------------------------------------------ expressions
    def eval(self, e, env, g):
        k = type(e)
        if k is ast.Constant:
            if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
                return Opaque('constant')
            return e.value
        if k is ast.Name:
            return self.lookup(e.id, env, g)
        if k is ast.Attribute:
            return self.getattr(self.eval(e.value, env, g), e.attr)
        if k is ast.Call:
            return self.eval_call(e, env, g)
        if k is ast.BinOp:
            a = self.eval(e.left, env, g)
            return self.binop(BINOPS[type(e.op)], a, self.eval(e.right, env, g))
        if k is ast.UnaryOp:
            v = self.eval(e.operand, env, g)
            return self.unop(type(e.op), v)
        if k is ast.BoolOp:
            return self.boolop(e, env, g)
        if k is ast.Compare:
            return self.compare_chain(e, env, g)
        if k is ast.IfExp:
            c = self.truth(self.eval(e.test, env, g))
            if self.c.branch(c):
                return self.eval(e.body, env, g)
            return self.eval(e.orelse, env, g)
        if k is ast.Tuple or k is ast.List:
            parts = self.elts(e.elts, env, g)
            s = cat(parts)
            if k is ast.List:
                return VList('list', s)
            return s.items if isinstance(s, Lit) else VList('tuple', s)
        if k is ast.Set:
            return VList('set', cat(self.elts(e.elts, env, g)))
        if k is ast.Dict:
            d = {}
            for kk, vv in zip(e.keys, e.values):
                if kk is None:
                    o = self.force(self.eval(vv, env, g))
                    if not isinstance(o, VDict) or o.d is None:
                        raise Unsupported('dict unpacking')
                    d.update(o.d)
                else:
                    key = self.eval(kk, env, g)
                    d[self.hashable(key)] = self.eval(vv, env, g)
            return VDict(d)
        if k is ast.Subscript:
            o = self.eval(e.value, env, g)
            if isinstance(o, (Type, Opaque)):
                return Opaque('subscripted type')
            return self.getitem(o, self.eval_index(e.slice, env, g))
        if k is ast.JoinedStr:
            return self.joined(e, env, g)
        if k is ast.Lambda:
            node = e
            f = Func(node, env, g, (env.fname + '.' if env.fname else '') + '<lambda>')
            f.defaults = [self.eval(d, env, g) for d in e.args.defaults]
            f.kw_defaults = [self.eval(d, env, g) if d is not None else None for d in e.args.kw_defaults]
            if not hasattr(node, '_locals'):
                node._locals = {a.arg for a in node.args.args}
                node._isgen = False
            return f
        if k in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            s = self.comp(e.generators, 0, lambda en: Lit((self.eval(e.elt, en, g),)), env, g)
            if k is ast.ListComp and self.models.is_filtered(s):
                s = self.models.regular(self, s) or s
            return VList({ast.ListComp: 'list', ast.GeneratorExp: 'iter', ast.SetComp: 'set'}[k], s)
        if k is ast.DictComp:
            s = self.comp(e.generators, 0, lambda en: Lit(((self.eval(e.key, en, g), self.eval(e.value, en, g)),)), env, g)
            return self.models.dict_of_pairs(self, s)
        if k is ast.NamedExpr:
            v = self.eval(e.value, env, g)
            self.setname(e.target.id, v, env)
            return v
        if k is ast.Starred:
            raise Unsupported('starred')
        if k is ast.Slice:
            return self.eval_index(e, env, g)
        raise Unsupported('expression %s' % k.__name__)

    def elts(self, elts, env, g):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.as_sl(self.eval(x.value, env, g)))
            else:
                parts.append(Lit((self.eval(x, env, g),)))
        return parts

    def joined(self, e, env, g):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.eval(v.value, env, g))
                spec = self.joined(v.format_spec, env, g) if v.format_spec is not None else ''
                parts.append(self.models.fmt(self, x, spec, v.conversion))
        s = SStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return ''.join(s.parts)
        return s

    def boolop(self, e, env, g):
        is_and = isinstance(e.op, ast.And)
        vals = e.values
        v = self.eval(vals[0], env, g)
        for nx in vals[1:]:
            t = self.truth(v)
            # pure boolean operands of the solver can be combined without forking when the next operand is effect free
            if self.c.branch(t if is_and else (not t if isinstance(t, bool) else z3.Not(t))):
                v = self.eval(nx, env, g)
            else:
                return v
        return v

    def compare_chain(self, e, env, g):
        left = self.eval(e.left, env, g)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env, g)
            res = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.c.branch(self.truth(res)):
                return res
            left = right
        return res

    def eval_index(self, s, env, g):
        if isinstance(s, ast.Slice):
            return ('slice',) + tuple(self.eval(x, env, g) if x is not None else None for x in (s.lower, s.upper, s.step))
        return self.eval(s, env, g)

    def eval_call(self, e, env, g):
        f = self.eval(e.func, env, g)
        if isinstance(f, (ModVal,)):
            raise Unsupported('call of a module')
        if getattr(f, 'lazy_args', False):
            return f.lazy(self, e, env, g)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.as_sl(self.eval(a.value, env, g))
                if isinstance(s, IfL):
                    s = self.resolve_ifl(s)
                if isinstance(s, Lit):
                    args.extend(s.items)
                else:
                    args.append(Star(s))
            else:
                args.append(self.eval(a, env, g))
        for kw in e.keywords:
            if kw.arg is None:
                d = self.force(self.eval(kw.value, env, g))
                if not isinstance(d, VDict) or d.d is None:
                    raise Unsupported('** of a symbolic dict')
                unpoisoned(d.d.values())
                for kk, vv in d.d.items():
                    kwargs[kk] = vv
            else:
                kwargs[kw.arg] = self.eval(kw.value, env, g)
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.force(f)
        if isinstance(f, PyFn):
            return f.f(self, args, kwargs)
        if isinstance(f, BoundMethod):
            if isinstance(f.func, PyFn):
                return f.func.f(self, [f.obj] + args, kwargs)
            return self.call(f.func, [f.obj] + args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Class):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Type):
            return self.models.call_type(self, f, args, kwargs)
        if isinstance(f, Obj):
            m = self.find_method(f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs)
            raise PyRaise('TypeError', 'not callable')
        if f is None or is_num(f) or isinstance(f, (str, tuple, VList, VDict)):
            raise PyRaise('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def qual(self, f):
        return f.module.modname + ':' + f.qualname

    def call_func(self, f, args, kwargs):
        q = self.qual(f)
        h = self.contracts.get(q)
        if h is not None and self.inline_only != q:
            self.used_contracts.add(q)
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        return self.run_func(f, args, kwargs)

    def run_func(self, f, args, kwargs, env_hook=None):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion without a contract')
        inl, self.inline_only = self.inline_only, None
        q = self.qual(f)
        self.executed.add(q)
        try:
            env = self.bind(f, args, kwargs)
            if env_hook:
                env_hook(env)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env, f.module)
            gen = f.node._isgen
            if gen:
                out = VList('list', EMPTY)
                env.vars['$yield'] = out
            try:
                self.exec_block(f.node.body, env, f.module)
                r = None
            except Return as e:
                r = e.v
            if gen:
                return VList('iter', out.s)
            return r
        finally:
            self.depth -= 1

    def bind(self, f, args, kwargs):
        env = Env(f.env if f.env is not f.module else None, f.qualname)
        env.locals = f.node._locals
        if f.env is not f.module:
            env.parent = f.env
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        flat = list(args)
        i = 0
        rest = []
        while flat:
            x = flat.pop(0)
            if isinstance(x, Star):
                if i < len(pos):
                    raise Unsupported('*args of symbolic length for named parameters')
                rest.append(x.s)
            elif i < len(pos):
                vals[pos[i]] = x
                i += 1
            else:
                rest.append(Lit((x,)))
        if a.vararg is not None:
            s = cat(rest)
            vals[a.vararg.arg] = s.items if isinstance(s, Lit) else VList('tuple', s)
        elif rest:
            raise PyRaise('TypeError', 'too many arguments for %s' % f.qualname)
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in vals and k in pos:
                raise PyRaise('TypeError', 'multiple values for %s' % k)
            if k in pos or k in kwonly:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', 'unexpected keyword %s for %s' % (k, f.qualname))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = VDict(extra)
        nd = len(f.defaults)
        for j, p in enumerate(pos):
            if p not in vals:
                dj = j - (len(pos) - nd)
                if dj < 0:
                    raise PyRaise('TypeError', 'missing argument %s of %s' % (p, f.qualname))
                vals[p] = f.defaults[dj]
        for p, d in zip(kwonly, f.kw_defaults):
            if p not in vals:
                vals[p] = d
        env.vars.update(vals)
        return env

    def instantiate(self, cls, args, kwargs):
        q = cls.module + ':' + cls.name
        h = self.contracts.get(q)
        if h is not None and self.inline_only != q:
            self.used_contracts.add(q)
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if getattr(cls, 'is_enum', False):
            raise Unsupported('enum call')
        o = Obj(cls)
        init, _ = cls.lookup('__init__')
        if init is not None:
            inl = self.inline_only
            if inl == q:
                self.inline_only = None
            self.run_func(init, [o] + args, kwargs)
        return o

    # ------------------------------------------------------------ attributes
    def find_method(self, o, name):
        v, c = o.cls.lookup(name)
        if v is None:
            if 'opaque' in o.meta and name not in ('__bool__', '__eq__', '__ne__', '__hash__'):
                raise Unsupported('%s of an opaque object' % name)
            return None
        if isinstance(v, Func):
            if v.kind == 'static':
                return v
            if v.kind == 'classmethod':
                return BoundMethod(o.cls, v)
            return BoundMethod(o, v)
        return v

    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, ModVal):
            if o.name.startswith('!'):
                return self.models.native_attr(self, o.name[1:], name)
            return self.getglobal(o.name, name)
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                return v
            if name == '__class__':
                return o.cls
            v, c = o.cls.lookup(name)
            if v is None:
                if 'opaque' in o.meta:
                    raise Unsupported('attribute %s of an opaque object' % name)
                raise PyRaise('AttributeError', name)
            if isinstance(v, Func):
                if v.kind == 'property':
                    return self.call(v, [o], {})
                return self.find_method(o, name)
            return v
        if isinstance(o, Class):
            v, c = o.lookup(name)
            if v is None:
                if name == '__name__':
                    return o.name
                raise PyRaise('AttributeError', name)
            return v
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.qualname.rpartition('.')[2]
            raise Unsupported('attribute %s of a function' % name)
        if isinstance(o, PyFn) and o.name == 'itertools.chain' and name == 'from_iterable':
            def flat(ip, a, k):
                s = ip.as_sl(a[0])
                if not isinstance(s, Lit):
                    raise Unsupported('chain of a list of unknown length')
                return VList('iter', cat([ip.as_sl(ip.force(x)) for x in s.items]))
            return PyFn('itertools.chain.from_iterable', flat)
        m = self.models.builtin_method(self, o, name)
        if m is None:
            if is_num(o) or o is None or isinstance(o, (str, tuple, VList, VDict)):
                raise PyRaise('AttributeError', name)
            raise Unsupported('attribute %s of %r' % (name, o))
        return m

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if e.exc_type == 'AttributeError':
                return False
            raise

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Obj):
            self.c.set_loc(o, name, v)
            if o.g is not None and name in ('vals', 'probs'):
                o.g = None          # (the abstract view no longer applies)
        elif isinstance(o, Func):
            o.attrs[name] = v
        elif isinstance(o, Opaque):
            raise Unsupported('attribute of %r' % o)
        else:
            raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ values
    def force(self, v):
        while isinstance(v, Alt):
            cases = v.cases
            for c, x in cases[:-1]:
                if self.c.branch(c):
                    v = x
                    break
            else:
                v = cases[-1][1]
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        return v

    def truth(self, v):
        """python bool or z3 Bool"""
        v = self.force(v)
        if v is None:
            return False
        if isinstance(v, SB):
            return v.t
        if isinstance(v, (bool, int, float, str, tuple, Fraction)):
            return bool(v)
        if isinstance(v, SNum):
            return v.t != 0
        if isinstance(v, VList):
            s = v.s
            if v.kind == 'iter':
                return True
            return static_or(self.c.count_facts(slen(s)) > 0)
        if isinstance(v, VDict):
            if v.d is not None:
                return bool(v.d)
            return static_or(slen(v.contrib) > 0)
        if isinstance(v, Obj):
            m = self.find_method(v, '__bool__')
            if m is not None:
                return self.truth(self.call(m, []))
            m = self.find_method(v, '__len__')
            if m is not None:
                return self.truth(self.call(m, []))
            return True
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p or isinstance(p, Hole) and p.what in self.models.NOT_EMPTY for p in v.parts):
                return True
            h = getattr(self, 'text_eq', None)
            r = h(self, v, '') if h is not None else None
            return z3.Not(r) if r is not None else self.models.unknown_bool(self, 'text')
        if isinstance(v, (Func, Class, PyFn, BoundMethod, Type, ModVal)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def branch(self, v):
        return self.c.branch(self.truth(v))

    def unop(self, op, v):
        v = self.force(v)
        if op is ast.Not:
            t = self.truth(v)
            return mkbool(not t if isinstance(t, bool) else z3.Not(t))
        if isinstance(v, Obj):
            m = self.find_method(v, {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[op])
            if m is None:
                raise PyRaise('TypeError')
            return self.call(m, [])
        if is_num(v):
            if op is ast.USub:
                if not isinstance(v, (SNum, SB)):
                    return -v
                return mknum(-nt(v), join_tag(tag_of(v), 'int'))
            if op is ast.UAdd:
                return v if not isinstance(v, (SB, bool)) else mknum(nt(v))
            if op is ast.Invert and not isinstance(v, (SNum, SB)) and not isinstance(v, float):
                return ~int(v)
            if op is ast.Invert:
                if not self.c.branch(is_tag(v, 1, neg=True)):
                    raise PyRaise('TypeError')
                return mknum(-nt(v) - 1)
        raise PyRaise('TypeError', 'unary')

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.obj_binop(op, a, b)
        if is_num(a) and is_num(b):
            return self.num_bin(op, a, b)
        if op == 'add':
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return SStr([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            la, lb = kind_of(a), kind_of(b)
            if la == lb and la in ('list', 'tuple'):
                s = cat([self.as_sl(a), self.as_sl(b)])
                if la == 'list':
                    return VList('list', s)
                return s.items if isinstance(s, Lit) else VList('tuple', s)
        if op == 'mul':
            if isinstance(b, (VList, tuple, str, SStr)) and is_num(a):
                a, b = b, a
            if isinstance(a, (VList, tuple)) and is_num(b):
                return self.models.repeat(self, a, b)
            if isinstance(a, str) and is_num(b):
                if isinstance(b, int):
                    return a * b
                return SStr([Hole('repeat', (a, b))])
        if op == 'mod' and isinstance(a, str):
            args = list(b) if isinstance(b, tuple) else [b]
            ps = a.split('%s')
            if len(ps) == len(args) + 1 and not any('%' in p for p in ps) and all(isinstance(self.force(x), (str, SStr)) for x in args):
                r = SStr([x for p, y in zip(ps, args + ['']) for x in (p, self.force(y))])
                return ''.join(r.parts) if all(isinstance(p, str) for p in r.parts) else r
            return SStr([Hole('percent', (a, b))])
        if op in ('sub', 'or', 'and') and isinstance(a, VList) and a.kind == 'set':
            raise Unsupported('set operator')
        if isinstance(a, (Opaque, Poison)) or isinstance(b, (Opaque, Poison)):
            return Opaque('operator')
        if isinstance(a, (Type, Class)) and op == 'or':
            return Opaque('union type')
        raise PyRaise('TypeError', 'operator %s' % op)

    def obj_binop(self, op, a, b):
        names = {'and': '__and__', 'or': '__or__'}
        fn, rn = '__%s__' % op, '__r%s__' % op
        if isinstance(a, Obj):
            # reflected first for a subclass
            ma = self.find_method(a, fn)
            if isinstance(b, Obj) and b.cls is not a.cls and b.cls.issub(a.cls):
                mb, cb = b.cls.lookup(rn)
                _, ca = a.cls.lookup(rn)
                if mb is not None and cb is not ca:
                    r = self.call(BoundMethod(b, mb), [a])
                    if r is not NOTIMPL:
                        return r
            if ma is not None:
                r = self.call(ma, [b])
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Obj) and not (isinstance(a, Obj) and a.cls is b.cls):
            mb = self.find_method(b, rn)
            if mb is not None:
                r = self.call(mb, [a])
                if r is not NOTIMPL:
                    return r
        raise PyRaise('TypeError', 'operator %s' % op)

    def num_bin(self, op, a, b):
        if not isinstance(a, (SNum, SB)) and not isinstance(b, (SNum, SB)):
            try:
                return PYOPS[op](a, b)
            except ZeroDivisionError:
                raise PyRaise('ZeroDivisionError')
            except (TypeError, OverflowError) as e:
                raise PyRaise(type(e).__name__)
        ta, tb = nt(a), nt(b)
        tag = join_tag(tag_of(a), tag_of(b))
        if op in ('and', 'or', 'xor', 'lshift', 'rshift', 'matmul'):
            if op == 'matmul':
                raise PyRaise('TypeError')
            if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
                return mkbool({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](bt(a), bt(b)))
            return Opaque('bit operator')
        if op in ('floordiv', 'mod', 'truediv'):
            self.models.prod_facts(self, tb)
            if self.c.branch(tb == 0):
                raise PyRaise('ZeroDivisionError')
        if self.float_range:
            ia, ib = tag_of(a), tag_of(b)
            if ia in ('int', 'bool') and ib == 'float':
                self.float_guard(ta)
            elif ib in ('int', 'bool') and ia == 'float':
                self.float_guard(tb)
            elif op == 'truediv':
                self.float_guard(real(ta) / real(tb))
        if op == 'floordiv':
            for f in getattr(self.c, 'quotients', ()):
                q = f(self, ta, tb)
                if q is not None:
                    return mknum(q, 'int')
        if ta.sort() != tb.sort() or op == 'truediv':
            ta, tb = real(ta), real(tb)
        if op == 'add':
            return mknum(ta + tb, tag)
        if op == 'sub':
            return mknum(ta - tb, tag)
        if op == 'mul':
            return mknum(ta * tb, tag)
        if op == 'truediv':
            return mknum(ta / tb, 'float')
        if op == 'floordiv':
            if ta.sort() == I:
                q = self.models.exact_quotient(self, ta, tb)
                if q is not None:
                    return mknum(q, 'int')
                if self.c.holds(tb > 0):
                    return mknum(ta / tb, 'int')
                return mknum(z3.If(tb > 0, ta / tb, (-ta) / (-tb)), 'int')
            return SNum(FDIV(ta, tb), tag)
        if op == 'mod':
            if ta.sort() == I:
                if self.c.holds(tb > 0):
                    return mknum(ta % tb, 'int')
                return mknum(z3.If(tb > 0, ta % tb, -((-ta) % (-tb))), 'int')
            return SNum(FMOD(ta, tb), tag)
        if op == 'pow':
            e = b if isinstance(b, int) and not isinstance(b, bool) else None
            if e is not None and 0 <= e <= 3:
                r = z3.IntVal(1) if ta.sort() == I else z3.RealVal(1)
                for _ in range(e):
                    r = r * ta
                return mknum(r, tag)
            if tb.sort() == I and isinstance(tag_of(b), str) and tag_of(b) != 'float' and self.c.holds(tb >= 0):
                return SNum(IPOW(real(ta), tb), join_tag(tag_of(a), 'int'))
            return SNum(RPOW(real(ta), real(tb)), z3.Int('powtag'))
        raise Unsupported('numeric operator %s' % op)

    def float_guard(self, t):
        """an integer value (or quotient of integers) converted to a float: too large raises"""
        lim = z3.RealVal(2 ** 1024)
        if self.c.branch(z3.Or(real(t) >= lim, real(t) <= -lim)):
            raise PyRaise('OverflowError', 'int too large to convert to float')

    def compare(self, op, a, b):
        k = type(op)
        if k in (ast.Is, ast.IsNot):
            a, b = self.force(a), self.force(b)
            r = self.identical(a, b)
            return r if k is ast.Is else not r
        if k in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if k is ast.NotIn:
                r = not r if isinstance(r, bool) else z3.Not(r)
            return mkbool(r)
        return self.cmp(CMPOPS[k], a, b)

    def identical(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (Obj, VList, VDict, Func, Class, PyFn, Type)) or isinstance(b, (Obj, VList, VDict, Func, Class, PyFn, Type)):
            if isinstance(a, Obj) and isinstance(b, Obj) and (a.meta.get('generic') or b.meta.get('generic')):
                raise Unsupported('identity of generic objects')
            return False
        raise Unsupported('identity of %r and %r' % (a, b))

    def cmp(self, name, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                m = self.find_method(a, '__%s__' % name)
                if m is not None:
                    r = self.call(m, [b])
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, Obj):
                m = self.find_method(b, '__%s__' % REFL[name])
                if m is not None:
                    r = self.call(m, [a])
                    if r is not NOTIMPL:
                        return r
            if name in ('eq', 'ne'):
                return (a is b) if name == 'eq' else (a is not b)
            raise PyRaise('TypeError', 'comparison')
        if is_num(a) and is_num(b):
            return self.num_cmp(name, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return PYCMP[name](a, b)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.models.str_cmp(self, name, a, b)
        if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
            if kind_of(a) == kind_of(b) or name in ('eq', 'ne'):
                if kind_of(a) != kind_of(b):
                    return name == 'ne'
                return mkbool(self.seq_cmp(name, a, b))
        if isinstance(a, VDict) and isinstance(b, VDict):
            if a.hook is not None or b.hook is not None:
                return self.models.dict_cmp(self, name, a, b)
            if a.d is not None and b.d is not None:
                if set(a.d) != set(b.d):
                    return name == 'ne'
                r = z3.And([self.bterm(self.cmp('eq', a.d[k], b.d[k])) for k in a.d])
                return mkbool(r if name == 'eq' else z3.Not(r))
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if name not in ('eq', 'ne'):
                raise PyRaise('TypeError', 'comparison')
            codes = {'int': 0, 'float': 1, 'bool': 2}
            ts = [x.tag if isinstance(x, TypeOf) else z3.IntVal(codes.get(getattr(x, 'name', None), 9)) for x in (a, b)]
            return mkbool(ts[0] == ts[1] if name == 'eq' else ts[0] != ts[1])
        if name in ('eq', 'ne'):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('comparison of %r and %r' % (a, b))
            r = a is b
            return r if name == 'eq' else not r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of %r and %r' % (a, b))
        raise PyRaise('TypeError', 'comparison %s' % name)

    def equal_lengths(self, a, b):
        """two different counts that the sum prover shows equal"""
        ta, tb = nt(a), nt(b)
        ta, tb = self.c.reglen.get(ta.get_id(), (ta, ta))[1], self.c.reglen.get(tb.get_id(), (tb, tb))[1]
        if not (ta.sort() == I and tb.sort() == I and T.agg_of(ta) is not None and T.agg_of(tb) is not None):
            return False
        if not T.agg_range(ta).eq(T.agg_range(tb)):
            return False
        try:
            return self.c.sum_zero(ta - tb)
        except Unsupported:
            return False

    def num_cmp(self, name, a, b):
        if name in ("eq", "ne") and isinstance(a, SNum) and isinstance(b, SNum) and self.equal_lengths(a, b):
            return name == 'eq'
        for x, y, fl in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
                if isinstance(y, (int, float)):
                    return PYCMP[name](a, b)
                big = x > 0
                lt = (not big) if not fl else big     # a < b ?
                return {'eq': False, 'ne': True, 'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[name]
        if not isinstance(a, (SNum, SB)) and not isinstance(b, (SNum, SB)):
            return PYCMP[name](a, b)
        ta, tb = nt(a), nt(b)
        if ta.sort() != tb.sort():
            ta, tb = real(ta), real(tb)
        return mkbool({'eq': ta == tb, 'ne': ta != tb, 'lt': ta < tb, 'le': ta <= tb, 'gt': ta > tb, 'ge': ta >= tb}[name])

    def bterm(self, v):
        """z3 Bool of the truth of v"""
        t = self.truth(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def seq_cmp(self, name, a, b):
        sa, sb = self.as_sl(a), self.as_sl(b)
        if isinstance(sa, Lit) and isinstance(sb, Lit):
            if name in ('eq', 'ne'):
                if len(sa.items) != len(sb.items):
                    return name == 'ne'
                ts = [self.bterm(self.cmp('eq', x, y)) for x, y in zip(sa.items, sb.items)]
                r = z3.And(ts) if ts else z3.BoolVal(True)
                return r if name == 'eq' else z3.Not(r)
            # lexicographic
            strict = name in ('lt', 'gt')
            base = 'lt' if name in ('lt', 'le') else 'gt'
            n = min(len(sa.items), len(sb.items))
            la, lb = len(sa.items), len(sb.items)
            tail = (la < lb if base == 'lt' else la > lb) if la != lb else (not strict)
            r = z3.BoolVal(tail)
            for x, y in reversed(list(zip(sa.items[:n], sb.items[:n]))):
                r = z3.If(self.bterm(self.cmp('eq', x, y)), r, self.bterm(self.cmp(base, x, y)))
            return r
        if name in ('eq', 'ne'):
            if isinstance(sa, (IfL,)) or isinstance(sb, IfL):
                sa, sb = self.resolve_ifl(sa), self.resolve_ifl(sb)
            r = self.sl_eq(sa, sb)
            return r if name == 'eq' else (not r if isinstance(r, bool) else z3.Not(r))
        raise Unsupported('ordering of symbolic lists')

    def sl_eq(self, sa, sb):
        if same_sl(sa, sb):
            return True
        la, lb = slen(sa), slen(sb)
        i = self.c.binder('eq')
        n = la
        if isinstance(sa, Lit) or isinstance(sb, Lit):
            k = len(sa.items) if isinstance(sa, Lit) else len(sb.items)
            if not self.c.branch(la == lb):
                return False
            ts = [self.bterm(self.cmp('eq', self.sl_get(sa, z3.IntVal(j), safe=True), self.sl_get(sb, z3.IntVal(j), safe=True))) for j in range(k)]
            return z3.And(ts) if ts else z3.BoolVal(True)
        if not self.c.branch(la == lb):
            return False
        old = self.c.binders
        self.c.binders = old + [i]
        try:
            x, y = self.sl_get(sa, i, safe=True), self.sl_get(sb, i, safe=True)
            if isinstance(x, (Alt, Obj)) or isinstance(y, (Alt, Obj)):
                raise Unsupported('equality of lists of objects')
            t = self.bterm(self.cmp('eq', x, y))
        finally:
            self.c.binders = old
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < la), t))

    def contains(self, cont, x):
        cont = self.force(cont)
        x = self.force(x)
        if isinstance(cont, VDict):
            if cont.hook is not None:
                return cont.hook.contains(self, cont, x)
            if cont.d is not None:
                if isinstance(x, (SNum, SStr, SB)):
                    r = z3.BoolVal(False)
                    for k in cont.d:
                        r = z3.Or(r, self.bterm(self.cmp('eq', k, x)))
                    return r
                return self.hashable(x) in cont.d
            return self.models.dict_has(self, cont, x)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, (tuple, VList)):
            return self.sl_contains(self.as_sl(cont, consume=False), x)
        if isinstance(cont, Obj):
            m = self.find_method(cont, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [x]))
            return self.sl_contains(self.as_sl(cont), x)
        raise Unsupported('in %r' % (cont,))

    def sl_contains(self, s, x):
        if isinstance(s, Lit):
            r = False
            for v in s.items:
                t = self.truth(self.cmp('eq', v, x))
                if t is True:
                    return True
                if t is False:
                    continue
                r = t if r is False else z3.Or(r, t)
            return r
        if isinstance(s, Cat):
            out = False
            for p in s.parts:
                t = self.sl_contains(p, x)
                if t is True:
                    return True
                if t is False:
                    continue
                out = t if out is False else z3.Or(out, t)
            return out
        if isinstance(s, IfL):
            a, b = self.sl_contains(s.a, x), self.sl_contains(s.b, x)
            zb = lambda t: z3.BoolVal(t) if isinstance(t, bool) else t
            return z3.simplify(z3.If(s.c, zb(a), zb(b)))
        if isinstance(s, Comp):
            w = self.c.binder('in')
            chunk = subst_sl(s.chunk, [(s.var, w)])
            t = self.sl_contains(chunk, x)
            if isinstance(t, bool):
                if not t:
                    return False
                return s.n > 0
            # {k : cond(k)} membership of x:  k == x
            if is_num(x):
                xt = nt(x)
                for v in generic_elems(chunk):
                    if isinstance(v, SNum) and v.t.eq(w) and xt.sort() == I:
                        tt = z3.simplify(z3.substitute(t, (w, xt)))
                        return z3.And(xt >= 0, xt < s.n, tt)
            return z3.Exists([w], z3.And(w >= 0, w < s.n, t))
        raise Unsupported('membership in %r' % (s,))

    def hashable(self, k):
        k = self.force(k)
        if isinstance(k, (int, float, str, bool, type(None), Obj, Class, Type, Func, PyFn)):
            return k
        if isinstance(k, tuple) and all(isinstance(x, (int, float, str, bool, type(None))) for x in k):
            return k
        if isinstance(k, SNum):
            s = z3.simplify(k.t)
            if z3.is_int_value(s):
                return s.as_long()
        raise Unsupported('symbolic key %r in a concrete dict' % (k,))

    # ------------------------------------------------------------ lists
    def as_sl(self, v, consume=True):
        """list term of an iterable value (iterators are consumed)"""
        v = self.force(v)
        if isinstance(v, tuple):
            return Lit(v)
        if isinstance(v, VList):
            s = v.s
            if isinstance(s, Lit):
                unpoisoned(s.items)
            if v.kind == 'iter' and consume:
                self.c.set_loc(v, 's', EMPTY)
            return s
        if isinstance(v, str):
            return Lit(tuple(v))
        if isinstance(v, SStr):
            return self.models.str_iter(self, v)
        if isinstance(v, VDict):
            if v.d is not None:
                return Lit(tuple(v.d.keys()))
            return smap(self.models.dict_items(self, v), lambda kv: kv[0])
        if isinstance(v, Obj):
            m = self.find_method(v, '__iter__')
            if m is None:
                raise PyRaise('TypeError', 'not iterable')
            return self.as_sl(self.call(m, []))
        if isinstance(v, Class) and getattr(v, 'is_enum', False):
            return Lit(tuple(x for x in v.ns.values() if isinstance(x, Obj)))
        if v is None or is_num(v) or isinstance(v, (Func, PyFn, Class)):
            raise PyRaise('TypeError', 'not iterable')
        if isinstance(v, SL):
            return v
        raise Unsupported('iteration over %r' % (v,))

    def resolve_ifl(self, s):
        while isinstance(s, IfL):
            s = s.a if self.c.branch(s.c) else s.b
        return s

    def sl_get(self, s, i, safe=False):
        """element at index term i, known to be in range"""
        if isinstance(s, Lit):
            k = static_int(i)
            if k is not None:
                return s.items[k]
            if not s.items:
                raise Unsupported('index into an empty list')
            v = s.items[-1]
            for j in range(len(s.items) - 2, -1, -1):
                v = merge(i == j, s.items[j], v)
            return v
        if isinstance(s, Comp):
            if isinstance(s.chunk, Lit):
                k = len(s.chunk.items)
                if k == 1:
                    return subst(s.chunk.items[0], [(s.var, i)])
                q, r = z3.simplify(i / k), z3.simplify(i % k)
                v = subst(s.chunk.items[-1], [(s.var, q)])
                for j in range(k - 2, -1, -1):
                    v = merge(r == j, subst(s.chunk.items[j], [(s.var, q)]), v)
                return v
            raise Unsupported('index into a filtered or flattened list')
        if isinstance(s, Cat):
            off = z3.IntVal(0)
            for p in s.parts[:-1]:
                n = slen(p)
                c = i < off + n
                if self.c.branch(c):
                    return self.sl_get(p, z3.simplify(i - off), safe)
                off = z3.simplify(off + n)
            return self.sl_get(s.parts[-1], z3.simplify(i - off), safe)
        if isinstance(s, IfL):
            return self.sl_get(self.resolve_ifl(s), i, safe)
        if isinstance(s, UpdL):
            if self.c.branch(i == s.idx):
                return s.val
            return self.sl_get(s.base, i, safe)
        if isinstance(s, HoleL):
            if s.init is not None and s.front is not None and self.c.holds(i >= s.front):
                return self.sl_get(s.init, i, safe)
            raise PoisonRead(('list', s.hid))
        raise Unsupported('index into %r' % (s,))

    def getitem(self, o, i):
        o = self.force(o)
        if isinstance(o, Obj):
            m = self.find_method(o, '__getitem__')
            if m is None:
                raise PyRaise('TypeError')
            return self.call(m, [i])
        if isinstance(o, VDict):
            i = self.force(i)
            if o.hook is not None:
                return o.hook.get(self, o, i)
            if o.d is not None:
                if isinstance(i, (SNum, SStr, SB)) and not o.default:
                    for k in list(o.d):
                        if self.branch(self.cmp('eq', k, i)):
                            return o.d[k]
                    raise PyRaise('KeyError')
                try:
                    h = self.hashable(i)
                except Unsupported:
                    if not o.default:
                        raise
                    self.models.dict_symbolic(self, o)
                    return self.getitem(o, i)
                if h in o.d:
                    unpoisoned([o.d[h]])
                    return o.d[h]
                if o.default is not None:
                    if self.models.want_symbolic(self, o):
                        return self.getitem(o, i)
                    v = self.call(o.default, [], {})
                    self.setitem(o, i, v)
                    return v
                raise PyRaise('KeyError')
            return self.models.dict_get(self, o, i)
        if isinstance(o, (tuple, VList)):
            s = self.as_sl(o, consume=False)
            if isinstance(i, tuple) and i and i[0] == 'slice':
                r = self.slice_sl(s, i[1:])
                if kind_of(o) == 'tuple':
                    return r.items if isinstance(r, Lit) else VList('tuple', r)
                return VList('list', r)
            i = self.force(i)
            if not is_num(i):
                raise PyRaise('TypeError', 'index')
            return self.index_sl(s, i)
        if isinstance(o, (str, SStr)):
            if isinstance(o, str) and isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                raise PyRaise('IndexError')
            if isinstance(o, str) and isinstance(i, tuple) and all(x is None or isinstance(x, int) for x in i[1:]):
                return o[slice(*i[1:])]
            return self.models.str_index(self, o, i)
        if isinstance(o, (Type, Class, Opaque)):
            return Opaque('subscript')
        raise Unsupported('subscript of %r' % (o,))

    def index_sl(self, s, i):
        if isinstance(s, IfL):
            s = self.resolve_ifl(s)
        if not isinstance(i, (SNum, SB)) and isinstance(s, Lit):
            k = int(i)
            if isinstance(i, float):
                raise PyRaise('TypeError')
            if -len(s.items) <= k < len(s.items):
                return s.items[k]
            raise PyRaise('IndexError')
        t = nt(i)
        if t.sort() != I:
            raise Unsupported('real index')
        n = slen(s)
        if self.c.branch(z3.And(t >= 0, t < n)):
            return self.sl_get(s, z3.simplify(t))
        if self.c.branch(z3.And(t < 0, t >= -n)):
            return self.sl_get(s, z3.simplify(n + t))
        raise PyRaise('IndexError')

    def slice_sl(self, s, sl):
        lo, hi, st = sl
        if isinstance(s, IfL):
            return ifl(s.c, self.slice_sl(s.a, sl), self.slice_sl(s.b, sl))
        if isinstance(s, Lit) and all(x is None or isinstance(x, int) for x in sl):
            return Lit(s.items[slice(lo, hi, st)])
        if st == -1 and lo is None and hi is None:
            return reverse_sl(self, s)
        if st in (None, 1):
            n = slen(s)
            z = lambda x, d: d if x is None else nt(x)
            a, b = z(lo, z3.IntVal(0)), z(hi, n)
            if a.sort() != I or b.sort() != I:
                raise Unsupported('slice')
            cl = lambda x: z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            a, b = z3.simplify(cl(a)), z3.simplify(cl(b))
            m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            if is_idx(s):
                w = self.c.binder('sl')
                return Comp(m, w, subst_sl(s.chunk, [(s.var, w + a)]))
            if is_idx_like(s):
                w = self.c.binder('sl')
                old = self.c.binders
                self.c.binders = old + [w]
                try:
                    v = self.sl_get(s, w + a)
                finally:
                    self.c.binders = old
                return Comp(m, w, Lit((v,)))
        raise Unsupported('slice of a symbolic list')

    def setitem(self, o, i, v):
        o = self.force(o)
        if isinstance(o, Obj):
            m = self.find_method(o, '__setitem__')
            if m is None:
                raise PyRaise('TypeError')
            self.call(m, [i, v])
            return
        if isinstance(o, VDict):
            i = self.force(i)
            if o.hook is not None:
                o.hook.set(self, o, i, v)
                return
            if o.d is not None:
                try:
                    h = self.hashable(i)
                except Unsupported:
                    self.models.dict_symbolic(self, o)
                    self.models.dict_set(self, o, i, v)
                    return
                if self.models.want_symbolic(self, o):
                    self.models.dict_symbolic(self, o)
                    self.models.dict_set(self, o, i, v)
                    return
                d = dict(o.d)
                d[h] = v
                self.c.set_loc(o, 'dict', d)
                return
            self.models.dict_set(self, o, i, v)
            return
        if isinstance(o, VList) and o.kind == 'list':
            i = self.force(i)
            s = o.s
            if isinstance(i, tuple):
                raise Unsupported('slice assignment')
            if isinstance(s, Lit) and isinstance(i, int):
                if not -len(s.items) <= i < len(s.items):
                    raise PyRaise('IndexError')
                items = list(s.items)
                items[i] = v
                self.c.set_loc(o, 's', Lit(items))
                return
            t = nt(i)
            n = slen(s)
            if not self.c.branch(z3.And(t >= 0, t < n)):
                if not self.c.branch(z3.And(t < 0, t >= -n)):
                    raise PyRaise('IndexError')
                t = n + t
            self.c.set_loc(o, 's', UpdL(s, z3.simplify(t), v))
            return
        if isinstance(o, (tuple, str)) or isinstance(o, VList):
            raise PyRaise('TypeError')
        raise Unsupported('item assignment to %r' % (o,))

    def list_append(self, l, v):
        self.c.set_loc(l, 's', cat([l.s, Lit((v,))]))

    def list_extend(self, l, s):
        self.c.set_loc(l, 's', cat([l.s, s]))

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, VList):
            if v.kind == 'iter':
                raise PyRaise('TypeError')
            if v.kind == 'set' and not (isinstance(v.s, Lit) and len(v.s.items) <= 1):
                h = getattr(self, 'set_size', None)
                r = h(self, v.s) if h is not None else None
                if r is None:
                    raise Unsupported('size of a set')
                return r
            return mknum(self.c.count_facts(slen(v.s)))
        if isinstance(v, VDict):
            if v.d is not None:
                return len(v.d)
            raise Unsupported('size of a symbolic dict')
        if isinstance(v, Obj):
            m = self.find_method(v, '__len__')
            if m is None:
                raise PyRaise('TypeError')
            return self.call(m, [])
        if isinstance(v, SStr):
            return self.models.str_len(self, v)
        if v is None or is_num(v):
            raise PyRaise('TypeError', 'len')
        raise Unsupported('len of %r' % (v,))

    # ------------------------------------------------------------ comprehensions
    def comp(self, gens, k, leaf, env, g):
        if k == len(gens):
            return leaf(env)
        gen = gens[k]
        s = self.as_sl(self.eval(gen.iter, env, g))
        cenv = Env(env, env.fname)

        def each(v):
            en = Env(env, env.fname)
            self.assign_local(gen.target, v, en, g)
            for c in gen.ifs:
                if not self.branch(self.eval(c, en, g)):
                    return EMPTY
            return self.comp(gens, k + 1, leaf, en, g)
        return self.flatmap(s, each)

    def assign_local(self, t, v, env, g):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, self.unpack(v, len(t.elts), False, t)):
                self.assign_local(x, y, env, g)
        else:
            raise Unsupported('comprehension target')

    def flatmap(self, s, f):
        """concatenation of f(element) over the list term s"""
        if isinstance(s, Lit):
            return cat([f(v) for v in s.items])
        if isinstance(s, Cat):
            return cat([self.flatmap(p, f) for p in s.parts])
        if isinstance(s, IfL):
            return self.flatmap(self.resolve_ifl(s), f)
        if isinstance(s, Comp):
            w = self.c.binder('i')
            chunk = subst_sl(s.chunk, [(s.var, w)])
            return self.generic(s.n, w, lambda: self.flatmap(chunk, f))
        raise Unsupported('iteration over %r' % (s,))

    def generic(self, n, w, fn):
        """Comp(n, w, fn()) where fn is explored on all paths for a generic 0 <= w < n"""
        c = self.c
        old = c.binders

        def run():
            c.binders = old + [w]
            c.assume(z3.And(w >= 0, w < n))
            try:
                return ('ok', fn())
            except PyRaise as e:
                return ('raise', e)
            finally:
                c.binders = old
        outs = c.sub(run)
        conds = self.path_conds(outs)
        self.raise_paths(outs, conds, n, w)
        self.keep_facts(outs, n, w)
        good = [(cd, o[1]) for (en, o), cd in zip(outs, conds) if o[0] == 'ok']
        if not good:
            return EMPTY
        chunk = good[-1][1]
        for cd, ch in reversed(good[:-1]):
            chunk = merge_sl(cd, ch, chunk)
        return mkcomp(n, w, chunk)

    def path_conds(self, outs):
        res = []
        for entries, o in outs:
            bs = [f for k, f in entries if k == 'branch']
            res.append(z3.And(bs) if len(bs) > 1 else (bs[0] if bs else z3.BoolVal(True)))
        return res

    def raise_paths(self, outs, conds, n, w):
        """if some iteration can raise: either one does (the whole raises) or none does"""
        rs = [(cd, o) for (en, o), cd in zip(outs, conds) if o[0] == 'raise']
        if not rs:
            return
        cond = z3.Or([cd for cd, _ in rs]) if len(rs) > 1 else rs[0][0]
        ex = z3.Exists([w], z3.And(w >= 0, w < n, cond))
        if self.c.branch(ex):
            raise PyRaise(rs[0][1][1].exc_type, 'in a loop: ' + str(rs[0][1][1].msg))

    def keep_facts(self, outs, n, w):
        for entries, o in outs:
            if o[0] == 'raise':
                continue
            pre = [w >= 0, w < n]
            for k, f in entries:
                if k == 'branch':
                    pre.append(f)
                elif not is_range_fact(f, w, n):
                    if not T.occurs(w, f) and len(pre) == 2:
                        self.c.assume(z3.Implies(n > 0, f))
                    else:
                        self.c.assume(z3.ForAll([w], z3.Implies(z3.And(pre), f)))

    # ------------------------------------------------------------ loops
    def for_loop(self, st, env, g):
        it_ = self.eval(st.iter, env, g)
        it_ = self.force(it_)
        s = self.as_sl(it_)

        def body(v):
            self.assign(st.target, v, env, g)
            self.exec_block(st.body, env, g)
        if not isinstance(s, Lit):
            for rule in self.loop_rules:
                if rule(self, st, env, g, s, body) is not NotImplemented:
                    return
        try:
            self.loop_over(s, body)
        except Break:
            return
        if st.orelse:
            self.exec_block(st.orelse, env, g)

    def loop_over(self, s, body):
        if isinstance(s, Lit):
            for v in s.items:
                try:
                    body(v)
                except Continue:
                    pass
        elif isinstance(s, Cat):
            for p in s.parts:
                self.loop_over(p, body)
        elif isinstance(s, IfL):
            self.loop_over(self.resolve_ifl(s), body)
        elif isinstance(s, Comp):
            w = self.c.binder('l')
            chunk = subst_sl(s.chunk, [(s.var, w)])
            self.summarize(s.n, w, lambda: self.loop_over(chunk, body), again=lambda k: self.loop_over(subst_sl(s.chunk, [(s.var, k)]), body))
        else:
            raise Unsupported('loop over %r' % (s,))

    def while_loop(self, st, env, g):
        for rule in self.loop_rules:
            if rule(self, st, env, g, None, None) is not NotImplemented:
                return
        if self.search_while(st, env, g):
            return
        # concrete unrolling as long as the condition stays decided
        for _ in range(300):
            t = self.truth(self.eval(st.test, env, g))
            if isinstance(t, bool):
                pass
            elif self.c.holds(t):
                t = True
            elif self.c.holds(z3.Not(t)):
                t = False
            else:
                raise Unsupported('while loop without an invariant')
            if not t:
                self.exec_block(st.orelse, env, g)
                return
            try:
                self.exec_block(st.body, env, g)
            except Break:
                return
            except Continue:
                continue
        raise Unsupported('while loop without an invariant')

    def search_while(self, st, env, g):
        """a while loop as a loop over 0 .. N-1 that is left early; N is chosen beyond the bounds the loop tests, and
        that it is left before N is an obligation (termination).  False: not applicable"""
        if st.orelse or self.c.binders:
            return False
        c = self.c
        n, w = c.fresh('fuel'), c.binder('wl')

        def run():
            if not self.branch(self.eval(st.test, env, g)):
                raise Break()
            self.exec_block(st.body, env, g)
        mark, pcs = len(c.trail), len(c.pc)
        try:
            self.summarize(n, w, run, again=lambda k: run(), fuel=True)
        except Break:
            return True
        except NoSummary:
            return False
        return True

    def summarize(self, n, w, run, again=None, fuel=False):
        """state after running `run` for w = 0..n-1, by solving for the value of every modified location at an
        arbitrary iteration w"""
        c = self.c
        start = next(_serial)
        mods = {}            # (id, key) -> (container, key, initial value)
        known = {}           # (id, key) -> at(k) -> value
        solved_in = {}       # round -> its paths: values solved there mention symbols introduced there
        holes = {}           # (id, key) -> hole value
        lits = {}            # (id, key) -> keys of a literal list or dictionary that an iteration assigns
        nolit = set()
        unread = set()       # solved, and never read before written
        old = c.binders

        def iteration():
            c.binders = old + [w]
            c.assume(z3.And(w >= 0, w < n))
            for lk, (cont, key, init) in mods.items():
                if lk in known:
                    if lk in unread:        # every iteration so far overwrites it before reading it
                        c.set_loc(cont, key, Poison(('kept', lk)))
                    else:
                        c.set_loc(cont, key, known[lk](w))
                elif lk in holes:
                    c.set_loc(cont, key, holes[lk])
                elif lk in lits:
                    c.set_loc(cont, key, lit_with(init, {q: Poison(('item', lk)) for q in lits[lk]}))
                else:
                    c.set_loc(cont, key, Poison(lk) if isinstance(cont, (Env, Obj)) else self.list_hole(lk, cont, key, init, w, holes))
            mark = len(c.trail)
            try:
                try:
                    run()
                    kind = ('ok', None)
                except Continue:
                    kind = ('ok', None)
                except Break:
                    kind = ('break', None)
                except Return as e:
                    kind = ('return', e.v)
                except PyRaise as e:
                    kind = ('raise', e)
                post = {}
                for cont, key, oldv in c.trail[mark:]:
                    if cont.ser < start:
                        lk = (id(cont), key)
                        if lk not in post:
                            post[lk] = (cont, key, c.get_loc(cont, key))
                return (kind[0], kind[1], post)
            finally:
                c.binders = old
        c.probe += 1
        try:
            for rnd in range(14):
                ctr0 = next(c.counter)
                try:
                    outs = c.sub(iteration)
                except PoisonRead as e:
                    lk = e.loc
                    if isinstance(lk, tuple) and lk[0] == 'kept' and lk[1] in unread:
                        unread.discard(lk[1])
                        continue
                    if isinstance(lk, tuple) and lk[0] == 'item' and lk[1] in lits:
                        nolit.add(lk[1])
                        del lits[lk[1]]
                        continue
                    if lk in holes or lk not in mods:
                        raise Unsupported('loop-carried value cannot be summarised')
                    holes[lk] = self.make_hole(mods[lk][2])
                    continue
                except Restart:
                    for lk, (cont, key, init) in list(mods.items()):
                        if isinstance(cont, VDict) and isinstance(init, dict):
                            mods[lk] = (cont, key, c.get_loc(cont, key))
                    continue
                new = False
                for en, o in outs:
                    for lk, (cont, key, v) in o[2].items():
                        if lk not in mods:
                            mods[lk] = (cont, key, c.get_loc(cont, key))
                            new = True
                            lits[lk] = set()
                        if lk in lits and lk not in known:
                            ch = lit_changes(mods[lk][2], v)
                            if ch is None or lk in nolit:
                                del lits[lk]
                                new = True
                            elif not ch <= lits[lk]:
                                lits[lk] |= ch
                                new = True
                if new:
                    continue
                todo = [lk for lk in mods if lk not in known]
                if not todo:
                    break
                conds = self.path_conds(outs)
                progress = False
                for lk in todo:
                    at = self.solve_loc(lk, mods, holes, outs, conds, n, w, lits)
                    if at is RETRY:
                        h = holes[lk]
                        holes[lk] = HoleL(h.hid + 'g', self.c.havoc_const(I), h.init, h.front)
                        progress = True
                        break
                    if at is not None:
                        known[lk] = at
                        solved_in[rnd] = (outs, ctr0)
                        if lk not in holes and lk not in lits and isinstance(mods[lk][0], (Env, Obj)):
                            unread.add(lk)
                        progress = True
                if not progress:
                    if fuel:
                        raise NoSummary()
                    raise Unsupported('loop-carried state has no recognised form: %s' % ', '.join(str(mods[lk][1]) for lk in todo))
            else:
                raise Unsupported('loop summary does not converge')
        finally:
            c.probe -= 1
        try:
            outs = c.sub(iteration)
        except PoisonRead:
            unread.clear()
            outs = c.sub(iteration)
        conds = self.path_conds(outs)
        outs3 = [(en, (o[0], o[1])) for en, o in outs]
        self.raise_paths(outs3, conds, n, w)
        ex = [(cd, o) for (en, o), cd in zip(outs, conds) if o[0] in ('break', 'return')]
        if fuel and not ex:
            if c.holds(z3.BoolVal(False)):
                raise Infeasible()
            raise Unsupported('a loop without an exit')
        if ex:
            cond = z3.Or([cd for cd, _ in ex]) if len(ex) > 1 else ex[0][0]
        if fuel:
            # bounds tested by the exit conditions; beyond all of them the loop must have been left
            cand = [t for t in T.subterms(cond) if t.sort() == I and not T.occurs(w, t) and not any(z3.is_var(x) for x in T.subterms(t))][:12]
            for t in cand:
                c.assume(n > t)
            goal = z3.Or([z3.And(t >= 0, t < n, z3.substitute(cond, (w, t))) for t in cand])
            if not c.holds(goal):
                raise Unsupported('termination of a while loop')
            c.note('while loop: left before the bound (termination)')
            c.assume(z3.Exists([w], z3.And(w >= 0, w < n, cond)))
        if ex:
            k0 = c.fresh('exit')
            if c.branch(z3.Exists([w], z3.And(w >= 0, w < n, cond))):
                c.assume(z3.And(k0 >= 0, k0 < n))
                c.assume(z3.substitute(cond, (w, k0)))
                c.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < k0), z3.Not(cond))))
                for lk, (cont, key, init) in mods.items():
                    c.set_loc(cont, key, known[lk](k0))
                if again is not None:
                    again(k0)
                else:
                    self.run_at(run, w, k0)
                if c.holds(z3.BoolVal(False)):
                    raise Infeasible()
                raise Unsupported('loop exit')
        self.keep_facts(outs3, n, w)
        for os_, ctr0 in solved_in.values():
            kept = []
            for en, o in os_:
                if any(k == 'branch' and any(nm.startswith(('h!', 'hv!', 'hh!')) for nm in deep_symbols(f)) for k, f in en):
                    continue
                en = [(k, f) for k, f in en if k == 'branch' or fresh_fact(f, ctr0)]
                if any(k != 'branch' for k, _ in en):
                    kept.append((en, (o[0], o[1])))
            self.keep_facts(kept, n, w)
        for lk, (cont, key, init) in mods.items():
            c.set_loc(cont, key, known[lk](n))

    def run_at(self, run, w, k0):
        """execute the iteration k0 (an exit).  The closure mentions w; w is identified with k0 for the rest of the path"""
        self.c.assume(w == k0)
        old = self.c.binders
        self.c.binders = old + [w]
        try:
            run()
        finally:
            self.c.binders = old

    def make_hole(self, init):
        if isinstance(init, (SB, bool)):
            return SB(self.c.havoc_const(B))
        if is_num(init):
            t = nt(init)
            tag = tag_of(init)
            return SNum(self.c.havoc_const(t.sort()), tag if isinstance(tag, str) else self.c.havoc_const(I))
        if isinstance(init, (str, SStr)):
            return SStr([Hole('acc', self.c.havoc_const(I))])
        raise Unsupported('loop-carried value of kind %r' % (init,))

    def list_hole(self, lk, cont, key, init, w, holes):
        if init is None:
            raise Unsupported('loop over a concrete dict with symbolic state')
        if isinstance(init, dict):
            self.models.dict_symbolic(self, cont)
            raise Restart()
        if lk not in holes:
            # first attempt: the loop does not change the length
            h = holes[lk] = HoleL('%d!%s' % (lk[0], next(self.c.counter)), slen(init), init, w)
            self.fixed_holes.add(h.hid)
        return holes[lk]

    def solve_loc(self, lk, mods, holes, outs, conds, n, w, lits=None):
        cont, key, init = mods[lk]
        hole = holes.get(lk)
        c = self.c
        posts = []
        for (en, o), cd in zip(outs, conds):
            if o[0] != 'ok':
                continue
            if lk in o[2]:
                posts.append((cd, o[2][lk][2]))
            elif lk in (lits or ()):
                posts.append((cd, lit_with(init, {q: Poison(('item', lk)) for q in lits[lk]})))
            else:
                posts.append((cd, hole if hole is not None else Poison(lk)))
        for _, v in posts:
            if isinstance(v, Poison) and v.loc not in (lk, ('item', lk)):
                raise PoisonRead(v.loc)
        if not posts:
            return lambda k: init
        hs = set()
        for h in holes.values():
            if isinstance(h, SNum):
                hs.add(h.t.decl().name())
                if not isinstance(h.tag, str):
                    hs.add(h.tag.decl().name())
            elif isinstance(h, SB):
                hs.add(h.t.decl().name())
            elif isinstance(h, HoleL):
                if h.hid not in self.fixed_holes:
                    hs.add(h.n.decl().name())
                hs.add('hv!' + h.hid)
                hs.add('hh!' + h.hid)
        lists = isinstance(cont, (VList, VDict))
        if lk in (lits or ()):
            keys = lits[lk]
            if all(isinstance(v, Poison) or lit_changes(init, v) is None for _, v in posts):
                return None
            sure, maybe = {}, set()
            for q in keys:
                vs = [(cd, lit_item(v, q)) for cd, v in posts]
                if any(isinstance(x, Poison) for _, x in vs):
                    maybe.add(q)
                    continue
                x = vs[-1][1]
                for cd, y in reversed(vs[:-1]):
                    x = merge_any(cd, y, x)
                if mentions(x, hs):
                    return None
                sure[q] = x

            def at(k):
                if static_int(z3.simplify(k)) == 0:
                    return init
                m = {q: Poison(('conditional', key)) for q in maybe}
                for q, x in sure.items():
                    last = subst(x, [(w, z3.simplify(k - 1))])
                    m[q] = last if c.holds(k > 0) else merge_any(k > 0, last, lit_item(init, q))
                return lit_with(init, m)
            return at
        if lists:
            return self.solve_list(lk, cont, key, init, hole, posts, n, w, hs)
        if hole is None:
            # never read before written: last value
            if any(isinstance(v, Poison) for _, v in posts):
                keep = [(cd, v) for cd, v in posts if not isinstance(v, Poison)]
                if init is UNDEF:
                    return lambda k: Poison(('undefined', key)) if not (static_int(z3.simplify(k)) == 0) else init
                if not keep:
                    return lambda k: init
                # conditionally assigned: only usable if never read again
                return lambda k: (init if static_int(z3.simplify(k)) == 0 else Poison(('conditional', key)))
            v = posts[-1][1]
            for cd, x in reversed(posts[:-1]):
                v = merge_any(cd, x, v)
            if mentions(v, hs):
                return None
            def at(k, v=v):
                if static_int(z3.simplify(k)) == 0:
                    return init
                last = subst(v, [(w, z3.simplify(k - 1))])
                if c.holds(k > 0):
                    return last
                if init is UNDEF:
                    return last if not isinstance(last, (Obj, VList, VDict)) or True else last
                return merge_any(k > 0, last, init)
            return at
        if isinstance(hole, SStr):
            return self.solve_text(hole, init, posts, n, w, hs)
        v = posts[-1][1]
        for cd, x in reversed(posts[:-1]):
            v = merge(cd, x, v)
        if isinstance(v, Alt) or not is_num(v):
            return None
        tag = tag_of(v)
        if isinstance(hole, SB):
            t = bt(v) if isinstance(v, (SB, bool)) else None
            if t is None:
                return None
            if not mentions_t(t, hs):
                return lambda k: mkbool(z3.If(k > 0, z3.substitute(t, (w, k - 1)), bt(init)))
            # h or c(w) / h and c(w)
            t1 = z3.simplify(z3.substitute(t, (hole.t, z3.BoolVal(True))))
            t0 = z3.simplify(z3.substitute(t, (hole.t, z3.BoolVal(False))))
            if mentions_t(t1, hs) or mentions_t(t0, hs):
                return None
            u = c.binder('any')
            if z3.is_true(t1):
                return lambda k: mkbool(z3.Or(bt(init), z3.Exists([u], z3.And(u >= 0, u < k, z3.substitute(t0, (w, u))))))
            if z3.is_false(t0):
                return lambda k: mkbool(z3.And(bt(init), z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < k), z3.substitute(t1, (w, u))))))
            return None
        t = nt(v)
        h = hole.t
        d = linear_delta(t, h, hs)
        if d is not None:
            if not isinstance(tag, str) and mentions_t(tag, hs):
                tag = z3.Int('acctag%d' % next(c.counter))
            def at(k, d=d, tag=tag):
                if static_int(z3.simplify(k)) == 0:
                    return init
                u = c.binder('a')
                a0 = nt(init)
                s_ = T.mk_agg('sum', z3.simplify(k), u, z3.substitute(d, (w, u)))
                if a0.sort() != s_.sort():
                    a0, s_ = real(a0), real(s_)
                return mknum(z3.simplify(a0 + s_) if not T.has_agg(s_) else (s_ if static_zero(a0) else a0 + s_), tag)
            return at
        d = factor_delta(t, h, hs)
        if d is not None:
            def at(k, d=d, tag=tag):
                if static_int(z3.simplify(k)) == 0:
                    return init
                u = c.binder('a')
                a0 = nt(init)
                s_ = T.mk_agg('prod', z3.simplify(k), u, z3.substitute(d, (w, u)))
                if a0.sort() != s_.sort():
                    a0, s_ = real(a0), real(s_)
                return mknum(s_ if static_one(a0) else a0 * s_, tag)
            return at
        if not mentions_t(t, hs):
            def at(k, t=t, tag=tag):
                if static_int(z3.simplify(k)) == 0:
                    return init
                if c.holds(k > 0):
                    return mknum(z3.substitute(t, (w, z3.simplify(k - 1))), tag)
                return merge(k > 0, SNum(z3.substitute(t, (w, z3.simplify(k - 1))), tag), init)
            return at
        return None

    def solve_text(self, hole, init, posts, n, w, hs):
        chunks = []
        hp = hole.parts[0]
        for cd, v in posts:
            if not isinstance(v, SStr) or not v.parts or v.parts[0] is not hp:
                return None
            rest = v.parts[1:]
            if any(p is hp for p in rest):
                return None
            chunks.append((cd, rest))
        ch = Lit(tuple(chunks[-1][1]))
        for cd, r in reversed(chunks[:-1]):
            ch = ifl(cd, Lit(tuple(r)), ch)

        def at(k):
            if static_int(z3.simplify(k)) == 0:
                return init
            u = self.c.binder('tx')
            return SStr([init, Hole('join', Comp(z3.simplify(k), u, subst_sl(ch, [(w, u)])))])
        return at

    def solve_list(self, lk, cont, key, init, hole, posts, n, w, hs):
        c = self.c
        chunks = []
        upd = False
        for cd, v in posts:
            if v is hole:
                chunks.append((cd, EMPTY, None))
                continue
            parts = v.parts if isinstance(v, Cat) else (v,)
            if parts and parts[0] is hole:
                rest = cat(parts[1:])
                chunks.append((cd, rest, None))
                continue
            if isinstance(v, UpdL) and v.base is hole and c.z3_valid(v.idx == w, [w >= 0, w < n, cd], 3000)[0] == 'proved':
                chunks.append((cd, None, v.val))
                upd = True
                continue
            return None
        if upd:
            if any(r is not None and r is not EMPTY for _, r, _ in chunks):
                return None
            elem = subst_elem(self, init, w)
            v = None
            for cd, r, x in reversed(chunks):
                x = elem if r is EMPTY else x
                v = x if v is None else merge(cd, x, v)
            if mentions(v, hs):
                return None
            def at(k, v=v):
                if static_int(z3.simplify(k)) == 0:
                    return init
                u = c.binder('m')
                if k.eq(n) or c.holds(k == slen(init)):
                    return Comp(slen(init), u, Lit((subst(v, [(w, u)]),)))
                return HoleL('upd%d' % next(c.counter), slen(init), init, k)
            return at
        chunk = chunks[-1][1]
        for cd, r, _ in reversed(chunks[:-1]):
            chunk = merge_sl(cd, r, chunk)
        if mentions(chunk, hs):
            return None
        if hole is not None and hole.hid in self.fixed_holes and chunk is not EMPTY:
            return RETRY
        def at(k, chunk=chunk):
            if static_int(z3.simplify(k)) == 0:
                return init
            u = c.binder('ap')
            return cat([init, mkcomp(z3.simplify(k), u, subst_sl(chunk, [(w, u)]))])
        return at


# ---------------------------------------------------------------- helpers

def deep_symbols(f, seen=None):
    """uninterpreted symbols of a term, looking into sums"""
    from .core import symbols
    seen = set() if seen is None else seen
    for nm in symbols(f):
        if nm not in seen:
            seen.add(nm)
            d = T.AGGS.get(nm)
            if d is not None:
                deep_symbols(d.n, seen)
                deep_symbols(d.body, seen)
    return seen


def fresh_fact(f, ctr0):
    """the fact is about a symbol introduced after ctr0 and not about an unknown state"""
    new = False
    for nm in deep_symbols(f):
        if nm.startswith(('h!', 'hv!', 'hh!')):
            return False
        if nm.startswith(('b!', 'agg!', '$')):
            continue
        p = nm.rpartition('!')
        if p[1] and p[2].isdigit() and int(p[2]) >= ctr0:
            new = True
    return new


def lit_changes(a, b):
    """keys at which two literal lists (or dictionaries with text keys) of the same shape differ; None: other shapes"""
    if isinstance(a, Lit) and isinstance(b, Lit) and len(a.items) == len(b.items) and a.items:
        return {i for i, (x, y) in enumerate(zip(a.items, b.items)) if x is not y}
    if isinstance(a, dict) and isinstance(b, dict) and a and set(a) == set(b) and all(isinstance(k, str) for k in a):
        return {k for k in a if a[k] is not b[k]}
    return None


def lit_item(a, q):
    return a[q] if isinstance(a, dict) else a.items[q]


def lit_with(a, m):
    if isinstance(a, dict):
        return {k: m.get(k, v) for k, v in a.items()}
    return Lit(tuple(m.get(i, v) for i, v in enumerate(a.items)))


def subst_elem(ip, init, w):
    return ip.sl_get(init, w)


def merge_sl(c, a, b):
    if same_sl(a, b):
        return a
    if isinstance(a, Lit) and isinstance(b, Lit) and len(a.items) == len(b.items):
        return Lit(tuple(merge_any(c, x, y) for x, y in zip(a.items, b.items)))
    return ifl(c, a, b)


def merge_any(c, a, b):
    if isinstance(a, SL) and isinstance(b, SL):
        return merge_sl(c, a, b)
    return merge(c, a, b)


def static_or(t):
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def static_zero(t):
    t = z3.simplify(t)
    return z3.is_int_value(t) and t.as_long() == 0 or z3.is_rational_value(t) and t.as_fraction() == 0


def static_one(t):
    t = z3.simplify(t)
    return z3.is_int_value(t) and t.as_long() == 1 or z3.is_rational_value(t) and t.as_fraction() == 1


def join_tag(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return 'float' if 'float' in (a, b) else 'int'
    if a == 'float' if isinstance(a, str) else False:
        return 'float'
    if b == 'float' if isinstance(b, str) else False:
        return 'float'
    return z3.simplify(z3.If(z3.Or(tag_term(a) == 1, tag_term(b) == 1), z3.IntVal(1), z3.IntVal(0)))


def is_tag(v, k, neg=False):
    t = tag_of(v)
    if isinstance(t, str):
        r = TAGS[t] == k
        return r != neg
    return (t != k) if neg else (t == k)


def kind_of(v):
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, VList):
        return v.kind
    return None


def is_range_fact(f, w, n):
    return z3.is_and(f) and f.num_args() == 2 and T.occurs(w, f) and f.eq(z3.And(w >= 0, w < n))


def generic_elems(s):
    if isinstance(s, Lit):
        return list(s.items)
    if isinstance(s, Cat):
        return [x for p in s.parts for x in generic_elems(p)]
    if isinstance(s, IfL):
        return generic_elems(s.a) + generic_elems(s.b)
    if isinstance(s, Comp):
        return generic_elems(s.chunk)
    return []


def is_idx_like(s):
    if isinstance(s, Cat):
        return all(is_idx_like(p) for p in s.parts)
    return isinstance(s, Lit) or is_idx(s)


def reverse_sl(ip, s):
    if isinstance(s, Lit):
        return Lit(s.items[::-1])
    if isinstance(s, Cat):
        return cat([reverse_sl(ip, p) for p in reversed(s.parts)])
    if isinstance(s, IfL):
        return ifl(s.c, reverse_sl(ip, s.a), reverse_sl(ip, s.b))
    if isinstance(s, Comp):
        w = ip.c.binder('rev')
        r = Comp(s.n, w, reverse_sl(ip, subst_sl(s.chunk, [(s.var, z3.simplify(s.n - 1 - w))])))
        return r
    raise Unsupported('reverse')


def mentions_t(t, names):
    if not names:
        return False
    for x in T.subterms(t):
        if z3.is_app(x) and x.decl().name() in names:
            return True
        d = T.agg_of(x)
        if d is not None and mentions_t(d.body, names):
            return True
    return False


def mentions(v, names):
    if not names:
        return False
    if isinstance(v, SNum):
        return mentions_t(v.t, names) or (not isinstance(v.tag, str) and mentions_t(v.tag, names))
    if isinstance(v, SB):
        return mentions_t(v.t, names)
    if isinstance(v, tuple):
        return any(mentions(x, names) for x in v)
    if isinstance(v, VList):
        return mentions(v.s, names)
    if isinstance(v, Lit):
        return any(mentions(x, names) for x in v.items)
    if isinstance(v, Cat):
        return any(mentions(x, names) for x in v.parts)
    if isinstance(v, IfL):
        return mentions_t(v.c, names) or mentions(v.a, names) or mentions(v.b, names)
    if isinstance(v, Comp):
        return mentions_t(v.n, names) or mentions(v.chunk, names)
    if isinstance(v, HoleL):
        return True
    if isinstance(v, UpdL):
        return True
    if isinstance(v, Alt):
        return any(mentions_t(c, names) or mentions(x, names) for c, x in v.cases)
    if isinstance(v, SStr):
        return any(mentions(x, names) for x in v.parts)
    if isinstance(v, Hole):
        return mentions(v.info, names)
    if isinstance(v, Obj):
        return any(x is not v and mentions(x, names) for x in v.attrs.values())
    if isinstance(v, Poison):
        return True
    if z3.is_expr(v):
        return mentions_t(v, names)
    return False


def linear_delta(t, h, hs):
    """t - h if it does not depend on any hole"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = linear_delta(t.arg(1), h, hs), linear_delta(t.arg(2), h, hs)
        if a is None or b is None or mentions_t(t.arg(0), hs):
            return None
        if a.sort() != b.sort():
            a, b = real(a), real(b)
        return z3.If(t.arg(0), a, b)
    if t.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() == z3.Z3_OP_ITE:
        x = t.arg(0)
        return linear_delta(z3.If(x.arg(0), z3.ToReal(x.arg(1)), z3.ToReal(x.arg(2))), h, hs)
    p = T.poly(t)
    hid = h.get_id()
    if p.m.get((hid,)) != 1:
        return None
    out = []
    for mon, cf in p.m.items():
        if mon == (hid,):
            continue
        x = None
        for a in mon:
            at = p.atoms[a]
            if mentions_t(at, hs):
                return None
            x = at if x is None else mul2(x, at)
        out.append(scale(cf, x))
    if not out:
        return z3.IntVal(0) if t.sort() == I else z3.RealVal(0)
    if any(o.sort() == R for o in out) or t.sort() == R:
        out = [real(o) for o in out]
    return z3.simplify(z3.Sum(out)) if len(out) > 1 else out[0]


def mul2(a, b):
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a * b


def scale(cf, x):
    if x is None:
        return z3.IntVal(int(cf)) if cf.denominator == 1 else z3.RealVal(str(cf))
    if cf == 1:
        return x
    if x.sort() == I and cf.denominator == 1:
        return z3.IntVal(int(cf)) * x
    return z3.RealVal(str(cf)) * real(x)


def factor_delta(t, h, hs):
    """d with t == h * d, d independent of holes"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = factor_delta(t.arg(1), h, hs), factor_delta(t.arg(2), h, hs)
        if a is None or b is None or mentions_t(t.arg(0), hs):
            return None
        if a.sort() != b.sort():
            a, b = real(a), real(b)
        return z3.If(t.arg(0), a, b)
    p = T.poly(t)
    hid = h.get_id()
    out = []
    if not p.m:
        return None
    for mon, cf in p.m.items():
        if mon.count(hid) != 1:
            return None
        x = None
        for a in mon:
            if a == hid:
                continue
            if mentions_t(p.atoms[a], hs):
                return None
            x = p.atoms[a] if x is None else mul2(x, p.atoms[a])
        out.append(scale(cf, x))
    if any(o.sort() == R for o in out) or t.sort() == R:
        out = [real(o) for o in out]
    return z3.simplify(z3.Sum(out)) if len(out) > 1 else out[0]


def assigned_names(st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    out = []
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.extend(a.asname or a.name for a in n.names)
    return out


def local_names(node):
    a = node.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    glob = set()

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                out.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for x in ast.walk(ch):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                out.add(ch.id)
            if isinstance(ch, (ast.Global, ast.Nonlocal)):
                glob.update(ch.names)
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                out.update(x.asname or x.name.split('.')[0] for x in ch.names)
            if isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            walk(ch)
    walk(node)
    return out - glob


def is_generator(node):
    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(ch):
                return True
        return False
    return walk(node)


import operator as _op
PYOPS = {'add': _op.add, 'sub': _op.sub, 'mul': _op.mul, 'truediv': _op.truediv, 'floordiv': _op.floordiv, 'mod': _op.mod, 'pow': _op.pow, 'and': _op.and_, 'or': _op.or_, 'xor': _op.xor, 'lshift': _op.lshift, 'rshift': _op.rshift, 'matmul': _op.matmul}
PYCMP = {'eq': _op.eq, 'ne': _op.ne, 'lt': _op.lt, 'le': _op.le, 'gt': _op.gt, 'ge': _op.ge}
