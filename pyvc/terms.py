"""Logical terms: z3 terms plus a registry of big operators (sum, prod, all, gcd, ...) over index ranges.

A big operator is an uninterpreted z3 function application  agg_k(params)  whose definition
(kind, range n, bound variable, body) lives in a registry; two big operators with the same kind, range and body
(up to the name of the bound variable) are the same symbol.  The only laws used about 'sum' are in `prove_eq`:
congruence, linearity, exchange of nested ranges and the registered range-transfer rules (each rule is a lemma about
a permuted / grouped / normalised list; see DESIGN.md and lean/Sums.lean).
"""
import itertools
from fractions import Fraction
import re
import z3
from . import quant  # noqa: F401 (replaces z3.ForAll and z3.Exists)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

BINDER_PREFIXES = ('b!', 'h!')
_VAR = {}


class AggDef:
    __slots__ = ('kind', 'params', 'n', 'var', 'body', 'decl')

    def __init__(self, kind, params, n, var, body, decl):
        self.kind, self.params, self.n, self.var, self.body, self.decl = kind, params, n, var, body, decl


AGGS = {}        # decl name -> AggDef
_AGGKEY = {}     # key -> AggDef


def reset():
    AGGS.clear()
    _AGGKEY.clear()
    _fv_cache.clear()


_fv_cache = {}


def free_consts(t):
    """uninterpreted constants of a term, in order of first appearance"""
    key = t.get_id()
    hit = _fv_cache.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    seen, out, done = set(), [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    out.append(x)
            else:
                stack.extend(reversed(x.children()))
    _fv_cache[key] = (t, out)
    return out


def is_binder(c):
    return c.decl().name().startswith(BINDER_PREFIXES)


def subterms(t):
    done = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())


def agg_of(t):
    """AggDef if t is an application of a big operator"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return AGGS.get(t.decl().name())
    return None


def has_agg(t, kind=None):
    for x in subterms(t):
        d = agg_of(x)
        if d is not None and (kind is None or d.kind == kind):
            return True
    return False


def instantiate(app, var):
    """(n, body) of a big-operator application with its bound variable replaced by `var`"""
    d = AGGS[app.decl().name()]
    pairs = [(p, a) for p, a in zip(d.params, app.children())]
    n = z3.substitute(d.n, *pairs) if pairs else d.n
    body = z3.substitute(d.body, (d.var, var), *pairs)
    return n, body


def agg_range(app):
    d = AGGS[app.decl().name()]
    pairs = [(p, a) for p, a in zip(d.params, app.children())]
    return z3.substitute(d.n, *pairs) if pairs else d.n


_OUT = {'sum': None, 'prod': None, 'gcd': I, 'all': B, 'max': None, 'min': None}


def simp(t):
    return z3.simplify(t)


_NAMES = re.compile(r'b![A-Za-z_]*\d+')


def orient(t):
    """equations between numbers in a fixed order (whatever the names of bound variables)"""
    todo = []
    for x in subterms(t):
        if z3.is_eq(x) and x.arg(0).sort() in (I, R):
            a, b = x.children()
            ka, kb = _NAMES.sub('b', a.sexpr()), _NAMES.sub('b', b.sexpr())
            if (kb, len(kb)) < (ka, len(ka)):
                todo.append((x, b == a))
    return z3.substitute(t, *todo) if todo else t


def mk_agg(kind, n, var, body):
    if not z3.is_expr(n):
        n = z3.IntVal(n)
    n = simp(n)
    body = orient(simp(body))
    if kind == 'sum':
        if z3.is_int_value(body) and body.as_long() == 0 or z3.is_rational_value(body) and body.as_fraction() == 0:
            return body
        if not occurs(var, body):
            return simp(body * (z3.ToReal(n) if body.sort() == R else n))
        if z3.is_int_value(n) and n.as_long() <= 0:
            return z3.RealVal(0) if body.sort() == R else z3.IntVal(0)
    if kind == 'prod' and z3.is_int_value(n) and n.as_long() <= 0:
        return z3.RealVal(1) if body.sort() == R else z3.IntVal(1)
    if kind == 'all':
        if z3.is_true(body):
            return z3.BoolVal(True)
        if z3.is_int_value(n) and n.as_long() <= 0:
            return z3.BoolVal(True)
    actual = []
    seen = set()
    for c in free_consts(n) + free_consts(body):
        if is_binder(c) and not c.eq(var) and c.get_id() not in seen:
            seen.add(c.get_id())
            actual.append(c)
    v = z3.Const('$v', var.sort())
    params = [z3.Const('$p%d' % k, c.sort()) for k, c in enumerate(actual)]
    pairs = list(zip(actual, params))
    cn = z3.substitute(n, *pairs) if pairs else n
    cb = z3.substitute(body, (var, v), *pairs)
    key = (kind, cn.get_id(), cb.get_id())
    d = _AGGKEY.get(key)
    if d is None:
        out = _OUT[kind] or cb.sort()
        name = 'agg!%s!%d' % (kind, len(AGGS))
        decl = z3.Function(name, *([p.sort() for p in params] + [out]))
        d = AggDef(kind, params, cn, v, cb, decl)
        AGGS[name] = d
        _AGGKEY[key] = d
    return d.decl(*actual)


def occurs(c, t):
    return any(x.eq(c) for x in free_consts(t))


# ---------------------------------------------------------------- arithmetic helpers

def real(t):
    """coerce a z3 arithmetic term to sort Real, pushing ToReal to the atoms"""
    if t.sort() == R:
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    if z3.is_add(t):
        return z3.Sum([real(c) for c in t.children()])
    if z3.is_mul(t):
        return z3.Product([real(c) for c in t.children()])
    if z3.is_sub(t):
        cs = [real(c) for c in t.children()]
        r = cs[0]
        for c in cs[1:]:
            r = r - c
        return r
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        return -real(t.arg(0))
    if t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), real(t.arg(1)), real(t.arg(2)))
    return z3.ToReal(t)


class Poly:
    """polynomial over opaque z3 atoms; Int/Real distinction erased (ToReal stripped)"""
    __slots__ = ('m', 'atoms')

    def __init__(self):
        self.m = {}          # tuple(sorted atom ids) -> Fraction
        self.atoms = {}      # id -> z3 term

    @staticmethod
    def const(c):
        p = Poly()
        if c:
            p.m[()] = Fraction(c)
        return p

    @staticmethod
    def atom(t):
        p = Poly()
        p.m[(t.get_id(),)] = Fraction(1)
        p.atoms[t.get_id()] = t
        return p

    def add(self, o, k=1):
        p = Poly()
        p.atoms = {**self.atoms, **o.atoms}
        p.m = dict(self.m)
        for mon, c in o.m.items():
            c2 = p.m.get(mon, 0) + k * c
            if c2 == 0:
                p.m.pop(mon, None)
            else:
                p.m[mon] = c2
        return p

    def mul(self, o):
        p = Poly()
        p.atoms = {**self.atoms, **o.atoms}
        for m1, c1 in self.m.items():
            for m2, c2 in o.m.items():
                mon = tuple(sorted(m1 + m2))
                c = p.m.get(mon, 0) + c1 * c2
                if c == 0:
                    p.m.pop(mon, None)
                else:
                    p.m[mon] = c
        return p

    def term(self):
        if not self.m:
            return z3.RealVal(0)
        out = []
        for mon, c in self.m.items():
            fs = [real(self.atoms[a]) for a in mon]
            t = z3.RealVal(str(c))
            for f in fs:
                t = t * f
            out.append(t)
        return z3.Sum(out) if len(out) > 1 else out[0]


def int_poly_term(p):
    """the polynomial as an integer term when all its atoms and coefficients are integers, else None"""
    if any(c.denominator != 1 for c in p.m.values()) or any(p.atoms[a].sort() != I for mon in p.m for a in mon):
        return None
    out = []
    for mon in sorted(p.m):
        t = None
        for a in mon:
            t = p.atoms[a] if t is None else t * p.atoms[a]
        c = int(p.m[mon])
        out.append(z3.IntVal(c) if t is None else t if c == 1 else c * t)
    return z3.IntVal(0) if not out else out[0] if len(out) == 1 else z3.Sum(out)


def poly(t, depth=0):
    if z3.is_int_value(t):
        return Poly.const(t.as_long())
    if z3.is_rational_value(t):
        return Poly.const(t.as_fraction())
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            p = Poly()
            for c in t.children():
                p = p.add(poly(c))
            return p
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            p = poly(cs[0])
            for c in cs[1:]:
                p = p.add(poly(c), -1)
            return p
        if k == z3.Z3_OP_UMINUS:
            return Poly().add(poly(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            p = Poly.const(1)
            for c in t.children():
                p = p.mul(poly(c))
            return p
        if k == z3.Z3_OP_TO_REAL:
            return poly(t.arg(0))
        if k == z3.Z3_OP_DIV and t.sort() == R:
            d = t.arg(1)
            if z3.is_rational_value(d) and d.as_fraction() != 0:
                return poly(t.arg(0)).mul(Poly.const(Fraction(1) / d.as_fraction()))
            if not z3.is_rational_value(t.arg(0)):
                return poly(t.arg(0)).mul(Poly.atom(z3.RealVal(1) / d))
            return Poly.const(t.arg(0).as_fraction()).mul(Poly.atom(z3.RealVal(1) / d))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) or k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
            e = t.arg(1).as_fraction() if z3.is_rational_value(t.arg(1)) else t.arg(1).as_long()
            if e == int(e) and 0 <= e <= 4:
                p = Poly.const(1)
                for _ in range(int(e)):
                    p = p.mul(poly(t.arg(0)))
                return p
    return Poly.atom(t)


def ite_with_agg(t):
    """an if-then-else subterm (not inside a big operator) one of whose branches contains a sum"""
    for x in subterms(t):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and (has_agg(x.arg(1), 'sum') or has_agg(x.arg(2), 'sum')):
            return x
    return None


def occurs_term(x, t):
    return any(y.eq(x) for y in subterms(t))


def coef(t, x):
    """r with t == r * x and r free of x, or None"""
    if not occurs_term(x, t):
        return z3.RealVal(0) if (z3.is_int_value(t) or z3.is_rational_value(t)) and poly(t).m == {} else None
    if t.eq(x):
        return z3.RealVal(1)
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return coef(t.arg(0), x)
        if k == z3.Z3_OP_ITE:
            if occurs_term(x, t.arg(0)):
                return None
            a, b = coef(t.arg(1), x), coef(t.arg(2), x)
            return None if a is None or b is None else z3.If(t.arg(0), real(a), real(b))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            rs = [coef(c, x) for c in t.children()]
            if any(r is None for r in rs):
                return None
            rs = [real(r) for r in rs]
            if k == z3.Z3_OP_ADD:
                return z3.Sum(rs)
            out = rs[0]
            for r in rs[1:]:
                out = out - r
            return out
        if k == z3.Z3_OP_UMINUS:
            r = coef(t.arg(0), x)
            return None if r is None else -real(r)
        if k == z3.Z3_OP_MUL:
            cs = t.children()
            hit = [c for c in cs if occurs_term(x, c)]
            if len(hit) != 1:
                return None
            r = coef(hit[0], x)
            if r is None:
                return None
            out = real(r)
            for c in cs:
                if c is not hit[0]:
                    out = out * real(c)
            return out
        if k == z3.Z3_OP_DIV and t.sort() == R and not occurs_term(x, t.arg(1)):
            r = coef(t.arg(0), x)
            return None if r is None else real(r) / real(t.arg(1))
        d = agg_of(t)
        if d is not None and d.kind == 'sum':
            v = z3.Const('b!cf%d' % next(_cfc), d.var.sort())
            n, body = instantiate(t, v)
            if occurs_term(x, n):
                return None
            r = coef(body, x)
            return None if r is None else mk_agg('sum', n, v, r)
    return None


_cfc = itertools.count()
