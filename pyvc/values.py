"""Values of the symbolic interpreter.

Concrete Python numbers, strings, None and tuples stand for themselves.  Symbolic values:
  SNum  a number (z3 Int or Real term) with its Python type tag (0 int, 1 float, 2 bool)
  SB    a bool
  SStr  a text with holes (only concatenation is allowed on it)
  VList list / tuple / iterator of possibly symbolic length; its content is a list term (SL)
  VDict dict; Obj instance of an interpreted class; Func / BoundMethod / Class interpreted callables
List terms:  Lit(items) | Comp(n, var, chunk) = concatenation of chunk for var = 0..n-1 | Cat(parts) | IfL(cond, a, b)
"""
from fractions import Fraction
import itertools
import math
import z3
from . import terms as T
from .terms import I, R, B, real


class Unsupported(Exception):
    """the code (or the proof rule needed for it) is outside the verified subset"""


class PyRaise(Exception):
    """the interpreted code raised"""
    def __init__(self, exc_type, msg='', value=None):
        super().__init__(exc_type, msg)
        self.exc_type, self.msg, self.value = exc_type, msg, value


_serial = itertools.count()


TAGS = {'int': 0, 'float': 1, 'bool': 2}


class SNum:
    __slots__ = ('t', 'tag')

    def __init__(self, t, tag='int'):
        self.t, self.tag = t, tag

    def __repr__(self):
        return 'SNum(%s,%s)' % (self.t, self.tag)


class SB:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SB(%s)' % self.t


class SStr:
    """text = concatenation of literal strings and holes (any other object)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '' if isinstance(q, str) else True:
                    out.append(q)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class Hole:
    """an opaque piece of text, identified by what it is the text of"""
    __slots__ = ('what', 'info')

    def __init__(self, what, info=None):
        self.what, self.info = what, info

    def __repr__(self):
        return '<%s>' % (self.what,)


def is_num(v):
    return isinstance(v, (SNum, SB, bool, int, float, Fraction))


def numlit(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite float in a term')
        return z3.RealVal(str(Fraction(x)))
    raise Unsupported('not a number: %r' % (x,))


def nt(v):
    """z3 arithmetic term of a numeric value"""
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, SB):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return numlit(v)


def rt(v):
    return real(nt(v))


def it(v):
    t = nt(v)
    if t.sort() != I:
        raise Unsupported('integer expected')
    return t


def tag_of(v):
    """static tag name or z3 Int term"""
    if isinstance(v, SNum):
        return v.tag
    if isinstance(v, (SB, bool)):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, Fraction)):
        return 'float'
    raise Unsupported('tag of %r' % (v,))


def tag_term(tag):
    return z3.IntVal(TAGS[tag]) if isinstance(tag, str) else tag


def static_int(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def mknum(t, tag='int'):
    """SNum, or a concrete Python number when the term is a literal of static type"""
    t = z3.simplify(t) if T.free_consts(t) == [] else t
    if not isinstance(tag, str):
        return SNum(t, tag)
    if tag == 'int' and z3.is_int_value(t):
        return t.as_long()
    if tag == 'int' and z3.is_rational_value(t) and t.as_fraction().denominator == 1:
        return int(t.as_fraction())
    if tag == 'bool' and z3.is_int_value(t):
        return bool(t.as_long())
    return SNum(t, tag)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SB(t)


def bt(v):
    """z3 Bool of an already-boolean value"""
    if isinstance(v, SB):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported('bool expected, got %r' % (v,))


# ------------------------------------------------------------------ list terms

class SL:
    pass


class Lit(SL):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Lit%r' % (self.items,)


class Comp(SL):
    """concatenation of chunk(var) for var in 0..n-1"""
    __slots__ = ('n', 'var', 'chunk', 'ident')

    def __init__(self, n, var, chunk, ident=None):
        self.n, self.var, self.chunk = n, var, chunk
        self.ident = ident

    def __repr__(self):
        return 'Comp(%s<%s: %r)' % (self.var, self.n, self.chunk)


class Cat(SL):
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'Cat%r' % (self.parts,)


class IfL(SL):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'IfL(%s ? %r : %r)' % (self.c, self.a, self.b)


class HoleL(SL):
    """unknown list content (loop state before the loop has been summarised); elements at index >= front still are
    those of `init`"""
    __slots__ = ('hid', 'n', 'init', 'front')

    def __init__(self, hid, n, init=None, front=None):
        self.hid, self.n, self.init, self.front = hid, n, init, front

    def __repr__(self):
        return 'HoleL(%s)' % self.hid


class UpdL(SL):
    """list term with element idx replaced"""
    __slots__ = ('base', 'idx', 'val')

    def __init__(self, base, idx, val):
        self.base, self.idx, self.val = base, idx, val

    def __repr__(self):
        return 'UpdL(%r[%s]=%r)' % (self.base, self.idx, self.val)


class Alt:
    """a value of one of several kinds: cases [(z3 cond, value)], conditions exclusive and exhaustive"""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = tuple(cases)

    def __repr__(self):
        return 'Alt%r' % (self.cases,)


EMPTY = Lit(())


def cat(parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, Cat) else (p,)):
            if isinstance(q, Lit) and not q.items:
                continue
            if isinstance(q, Lit) and out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].items + q.items)
            else:
                out.append(q)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else Cat(out)


def is_idx(s):
    return isinstance(s, Comp) and isinstance(s.chunk, Lit) and len(s.chunk.items) == 1


def ifl(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Lit) and isinstance(b, Lit) and not a.items and not b.items:
        return EMPTY
    return IfL(c, a, b)


def slen(s):
    """z3 Int term"""
    if isinstance(s, Lit):
        return z3.IntVal(len(s.items))
    if isinstance(s, Cat):
        return z3.simplify(z3.Sum([slen(p) for p in s.parts]))
    if isinstance(s, IfL):
        return z3.If(s.c, slen(s.a), slen(s.b))
    if isinstance(s, Comp):
        if isinstance(s.chunk, Lit):
            k = len(s.chunk.items)
            return s.n if k == 1 else z3.simplify(s.n * k)
        return T.mk_agg('sum', s.n, s.var, slen(s.chunk))
    if isinstance(s, HoleL):
        return s.n
    if isinstance(s, UpdL):
        return slen(s.base)
    raise Unsupported('length of %r' % (s,))


def smap(s, f):
    """f: value -> value, applied to a generic element (f must be parametric in bound variables)"""
    return sflat(s, lambda v: Lit((f(v),)))


def sflat(s, f):
    if isinstance(s, Lit):
        return cat([f(v) for v in s.items])
    if isinstance(s, Cat):
        return cat([sflat(p, f) for p in s.parts])
    if isinstance(s, IfL):
        return ifl(s.c, sflat(s.a, f), sflat(s.b, f))
    if isinstance(s, Comp):
        return mkcomp(s.n, s.var, sflat(s.chunk, f))
    raise Unsupported('map over %r' % (s,))


def mkcomp(n, var, chunk):
    if isinstance(chunk, Lit) and not chunk.items:
        return EMPTY
    k = static_int(n)
    if k is not None and k <= 0:
        return EMPTY
    return Comp(n, var, chunk)


def ssum(s, phi):
    """z3 term: sum of phi(v) over the elements"""
    if isinstance(s, Lit):
        ts = [phi(v) for v in s.items]
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    if isinstance(s, Cat):
        ts = [ssum(p, phi) for p in s.parts]
        if any(t.sort() == R for t in ts):
            ts = [real(t) for t in ts]
        return z3.Sum(ts)
    if isinstance(s, IfL):
        a, b = ssum(s.a, phi), ssum(s.b, phi)
        if a.sort() != b.sort():
            a, b = real(a), real(b)
        return z3.If(s.c, a, b)
    if isinstance(s, Comp):
        body = ssum(s.chunk, phi)
        return T.mk_agg('sum', s.n, s.var, body)
    raise Unsupported('sum over %r' % (s,))


class VList:
    """list ('list'), tuple of symbolic length ('tuple'), iterator/generator ('iter'), range ('range'), set ('set')"""
    __slots__ = ('kind', 's', 'ser', 'meta', 'pre')

    def __init__(self, kind, s, meta=None):
        self.kind, self.s, self.ser = kind, s, next(_serial)
        self.meta = meta or {}
        self.pre = False

    def __repr__(self):
        return 'VList(%s,%r)' % (self.kind, self.s)


class VDict:
    """d: concrete python dict (insertion order), or None; then contrib is a list term of (key, weight) pairs and the
    dict maps x to the sum of the weights contributed under x (x is present iff some pair has key x)"""
    __slots__ = ('d', 'contrib', 'default', 'ser', 'hook', 'pre')

    def __init__(self, d=None, contrib=None, default=None, hook=None):
        self.d, self.contrib, self.default, self.hook = d, contrib, default, hook
        self.ser = next(_serial)
        self.pre = False

    def __repr__(self):
        return 'VDict(%r)' % (self.d if self.d is not None else self.contrib,)


class Class:
    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        if isinstance(other, Class):
            return other in self.mro()
        return any((b is other) or (isinstance(b, Class) and b.issub(other)) for b in self.bases)

    def __repr__(self):
        return '<class %s>' % self.name


class Obj:
    __slots__ = ('cls', 'attrs', 'meta', 'pre', 'ser', 'g')

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs, self.meta = cls, attrs or {}, {}
        self.pre = False
        self.g = None
        self.ser = next(_serial)

    def __repr__(self):
        return '<%s obj %x>' % (self.cls.name, id(self) & 0xffff)


class Func:
    def __init__(self, node, env, module, qualname, cls=None):
        self.node, self.env, self.module, self.qualname, self.cls = node, env, module, qualname, cls
        self.defaults = []
        self.kw_defaults = []
        self.kind = 'function'       # function / static / property / classmethod
        self.attrs = {}

    def __repr__(self):
        return '<func %s>' % self.qualname


class BoundMethod:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class PyFn:
    """a function implemented by the verifier (ghost / uninterpreted / builtin model): f(interp, args, kwargs)"""
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<pyfn %s>' % self.name


class Module:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


# ------------------------------------------------------------------ substitution / merging

class TypeOf:
    """type(x) for a number whose kind is symbolic (0 int, 1 float, 2 bool)"""
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'type(%s)' % self.tag


def subst(v, pairs, memo=None):
    """replace z3 constants in a value; pairs: list of (const, term)"""
    if not pairs:
        return v
    if memo is None:
        memo = {}
    if isinstance(v, SNum):
        tag = v.tag if isinstance(v.tag, str) else z3.substitute(v.tag, *pairs)
        return SNum(z3.substitute(v.t, *pairs), tag)
    if isinstance(v, SB):
        return SB(z3.substitute(v.t, *pairs))
    if isinstance(v, TypeOf):
        return TypeOf(z3.substitute(v.tag, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs, memo) for x in v)
    if isinstance(v, SL):
        return subst_sl(v, pairs, memo)
    if isinstance(v, VList):
        if id(v) not in memo:
            s2 = subst_sl(v.s, pairs, memo)
            w = VList(v.kind, s2, {k: subst(x, pairs, memo) for k, x in v.meta.items()})
            memo[id(v)] = v if same_sl(s2, v.s) else w
        return memo[id(v)]
    if isinstance(v, Alt):
        return Alt([(z3.substitute(c, *pairs), subst(x, pairs, memo)) for c, x in v.cases])
    if isinstance(v, SStr):
        return SStr([subst(p, pairs, memo) for p in v.parts])
    if isinstance(v, Hole):
        return Hole(v.what, subst(v.info, pairs, memo))
    if isinstance(v, Obj):
        if id(v) not in memo:
            w = Obj(v.cls)
            w.pre = v.pre
            memo[id(v)] = w
            changed = False
            for k, x in v.attrs.items():
                if x is v:
                    w.attrs[k] = w
                    continue
                y = subst(x, pairs, memo)
                w.attrs[k] = y
                if y is not x and not same_value(x, y):
                    changed = True
            for k, x in v.meta.items():
                y = x(pairs) if callable(x) and getattr(x, 'substable', False) else subst(x, pairs, memo)
                w.meta[k] = y
                if y is not x and not same_value(x, y):
                    changed = True
            if not changed:   # identity preserved when nothing depends on the replaced constants
                memo[id(v)] = v
        return memo[id(v)]
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    return v


def subst_sl(s, pairs, memo=None):
    if isinstance(s, Lit):
        return Lit(tuple(subst(x, pairs, memo) for x in s.items))
    if isinstance(s, Cat):
        return cat([subst_sl(p, pairs, memo) for p in s.parts])
    if isinstance(s, IfL):
        return ifl(z3.substitute(s.c, *pairs), subst_sl(s.a, pairs, memo), subst_sl(s.b, pairs, memo))
    if isinstance(s, Comp):
        # bound variables are globally unique, so no capture
        return Comp(z3.substitute(s.n, *pairs), s.var, subst_sl(s.chunk, pairs, memo))
    if isinstance(s, HoleL):
        return s
    if isinstance(s, UpdL):
        return UpdL(subst_sl(s.base, pairs, memo), z3.substitute(s.idx, *pairs), subst(s.val, pairs, memo))
    raise Unsupported('subst %r' % (s,))


def same_value(a, b):
    """syntactic identity (no solver)"""
    if a is b:
        return True
    if isinstance(a, SNum) and isinstance(b, SNum):
        return a.t.eq(b.t)
    if isinstance(a, SB) and isinstance(b, SB):
        return a.t.eq(b.t)
    if isinstance(a, TypeOf) and isinstance(b, TypeOf):
        return a.tag.eq(b.tag)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, VList) and isinstance(b, VList):
        return a.kind == b.kind and same_sl(a.s, b.s)
    if isinstance(a, Alt) and isinstance(b, Alt):
        return len(a.cases) == len(b.cases) and all(c.eq(d) and same_value(x, y) for (c, x), (d, y) in zip(a.cases, b.cases))
    if isinstance(a, SStr) and isinstance(b, SStr):
        return len(a.parts) == len(b.parts) and all(same_value(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Hole) and isinstance(b, Hole):
        return a.what == b.what and same_value(a.info, b.info)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls is b.cls and set(a.attrs) == set(b.attrs) and bool(a.meta.get('value')) and all(same_value(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) is type(b) and a == b
    return False


def same_sl(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Lit):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Cat):
        return len(a.parts) == len(b.parts) and all(same_sl(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, IfL):
        return a.c.eq(b.c) and same_sl(a.a, b.a) and same_sl(a.b, b.b)
    if isinstance(a, HoleL):
        return a.hid == b.hid
    if isinstance(a, Comp):
        if not a.n.eq(b.n):
            return False
        if a.var.eq(b.var):
            return same_sl(a.chunk, b.chunk)
        return same_sl(a.chunk, subst_sl(b.chunk, [(b.var, a.var)]))
    return False


def merge(c, a, b):
    """value of  a if c else b"""
    if a is b or same_value(a, b):
        return a
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return mkbool(z3.If(c, bt(a), bt(b)))
    if is_num(a) and is_num(b):
        ta, tb = nt(a), nt(b)
        if ta.sort() != tb.sort():
            ta, tb = real(ta), real(tb)
        ga, gb = tag_of(a), tag_of(b)
        tag = ga if isinstance(ga, str) and isinstance(gb, str) and ga == gb else z3.If(c, tag_term(ga), tag_term(gb))
        return SNum(z3.If(c, ta, tb), tag)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, VList) and isinstance(b, VList) and a.kind == b.kind and a.kind == 'tuple':
        return VList(a.kind, ifl(c, a.s, b.s))
    ca = [(z3.And(c, k), v) for k, v in a.cases] if isinstance(a, Alt) else [(c, a)]
    cb = [(z3.And(z3.Not(c), k), v) for k, v in b.cases] if isinstance(b, Alt) else [(z3.Not(c), b)]
    return Alt(ca + cb)
