"""C02: operators give the exact law of independent operands."""
import ast
from .objs import *

OPF = z3.Function('OP', R, R, R)
OPT = z3.Function('OPTAG', R, I, R, I, I)
BIN = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'pow', 'mod']
CMPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
LOGIC = ['or', 'and']


def abstract_op(ip):
    """an arbitrary operation on two numbers"""
    x, y, a, b = z3.Const('b!ox', R), z3.Const('b!oy', R), z3.Const('b!oa', I), z3.Const('b!ob', I)
    t = OPT(x, a, y, b)
    ip.c.assume(z3.ForAll([x, a, y, b], z3.And(t >= 0, t <= 2), patterns=[t]))

    def f(ip, args, kw):
        p, q = args
        return SNum(OPF(rt(p), rt(q)), OPT(rt(p), tag_term(tag_of(p)), rt(q), tag_term(tag_of(q))))
    return PyFn('op', f)


def pair_law(ip, a, b, op):
    """sum_i sum_j psi(op(a_i, b_j)) p_i q_j"""
    i, j = ip.c.binder('li'), ip.c.binder('lj')
    return T.mk_agg('sum', a.g.m, i, T.mk_agg('sum', b.g.m, j, PSI(op(rt(a.g.el(i)), rt(b.g.el(j)))) * real(a.g.P(i)) * real(b.g.P(j))))


def one_law(ip, a, op):
    i = ip.c.binder('li')
    return T.mk_agg('sum', a.g.m, i, PSI(op(rt(a.g.el(i)))) * real(a.g.P(i)))


def conv_task(reverse):
    def t(ip):
        c = ip.c
        use_rv(ip)
        a = rv_obj(ip, 'a')
        a.pre = True
        plain_add = bool(c.choose(2))
        from . import models
        op = models.native_attr(ip, 'operator', 'add') if plain_add else abstract_op(ip)
        F = (lambda x, y: x + y) if plain_add else OPF
        kinds = ['num', 'seq', 'list'] + ([] if reverse else ['rv', 'self'])
        k = kinds[c.choose(len(kinds))]
        G = (lambda x, y: F(y, x)) if reverse else F
        if k == 'rv' or k == 'self':
            b = rv_obj(ip, 'b') if k == 'rv' else a
            b.pre = True
            spec = pair_law(ip, a, b, G)
        else:
            if k == 'num':
                b = num(ip, 'y')
                y = rt(b)
            elif k == 'seq':
                b, _, _ = seq_obj(ip)
                y = real(ssum(b.attrs['_seq'].s, rt))
            else:
                b, _, _ = numlist(ip, 'l')
                b.pre = True
                y = real(ssum(b.s, rt))
            spec = one_law(ip, a, lambda x: G(x, y))
        kind, r = outcome(ip, glob(ip, 'randvar', 'RV').lookup('_rconvolve' if reverse else '_convolve')[0], [a, b, op])
        what = {'num': 'die and number', 'seq': 'die and sequence', 'list': 'die and list', 'rv': 'two dice', 'self': 'a die with itself'}[k]
        if not c.prove(what + ': does not raise', kind == 'ok'):
            return
        has_law(ip, what + ': exact law', r, spec)
        c.prove(what + ': a fresh die', fresh_die(ip, r))
        frame_ok(ip)
    return t


task('C02', 'pairwise combination', ['randvar:RV._convolve', 'randvar:_rdict.fast_convolve', 'randvar:_rdict.__fast_convolve_op_add', 'randvar:_rdict.__setitem__', 'randvar:_rdict.to_tuples'])(conv_task(False))
task('C02', 'reflected combination', ['randvar:RV._rconvolve'])(conv_task(True))


# ---------------------------------------------------------------- the operator methods hand the right operation over

SYM = {'or': lambda ip, u, v: mkbool(z3.Or(rt(u) != 0, rt(v) != 0)), 'and': lambda ip, u, v: mkbool(z3.And(rt(u) != 0, rt(v) != 0))}


def written(ip, o, u, v):
    """the value of `u o v` for two numbers"""
    if o in SYM:
        return SYM[o](ip, u, v)
    return ip.cmp(o, u, v) if o in CMPS else ip.binop(o, u, v)


def record_convolve(ip):
    made = []

    def h(rev):
        def f(ip, args, kw):
            if kw or len(args) != 3 or not isinstance(args[0], Obj):
                return NotImplemented
            if is_blank(ip, args[1]):
                return NotImplemented
            r = rv_obj(ip, 'conv', source=False)
            made.append((r, rev, args[0], args[1], args[2]))
            return r
        return f
    ip.contracts['randvar:RV._convolve'] = h(False)
    ip.contracts['randvar:RV._rconvolve'] = h(True)
    return made


METHODS = ['randvar:RV.__%s__' % n for n in ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv', 'rfloordiv', 'truediv', 'rtruediv', 'pow', 'rpow', 'mod', 'rmod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'or', 'ror', 'and', 'rand']] + \
    ['seq:Seq.__%s__' % n for n in ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv', 'rfloordiv', 'truediv', 'rtruediv', 'pow', 'rpow', 'mod', 'rmod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'or', 'ror', 'and', 'rand']] + ['seq:Seq._compare_to']


def operator_task(ops):
    def t(ip):
        c = ip.c
        use_rv(ip)
        made = record_convolve(ip)
        o = ops[c.choose(len(ops))]
        a = rv_obj(ip, 'a')
        a.pre = True
        kinds = ['num', 'seq', 'list', 'rv', 'self']
        k = kinds[c.choose(len(kinds))]
        left = True
        if k in ('num', 'seq', 'list'):
            left = bool(c.choose(2))
            b = num(ip, 'y') if k == 'num' else (seq_obj(ip) if k == 'seq' else numlist(ip, 'l'))[0]
        else:
            b = a if k == 'self' else rv_obj(ip, 'b')
        if isinstance(b, (Obj, VList)):
            b.pre = True
        l, r = (a, b) if left else (b, a)
        what = '%s, die and %s%s' % (o, {'num': 'number', 'seq': 'sequence', 'list': 'list', 'rv': 'die', 'self': 'itself'}[k], '' if left else ' (die on the right)')
        try:
            kind, res = 'ok', ip.cmp(o, l, r) if o in CMPS else ip.binop(o, l, r)
        except PyRaise as e:
            kind, res = 'raise', e
        if not c.prove(what + ': does not raise', kind == 'ok'):
            return
        hit = [m for m in made if m[0] is res]
        if not c.prove(what + ': is a combination of dice', len(hit) == 1):
            return
        _, rev, d, x, f = hit[0]
        # d is the die whose outcomes are drawn, x the other operand
        if k in ('rv', 'self'):
            if not c.prove(what + ': of these operands', d is l and x is r or d is r and x is l):
                return
            dl = d is l
        else:
            dl = left
            okx = d is a and (x is b or (k == 'num' and is_num(x)) or (k in ('seq', 'list') and (is_num(x) or isinstance(x, (Obj, VList)))))
            if not c.prove(what + ': of these operands', okx):
                return
            if x is not b:
                if is_num(x):
                    want = rt(b) if k == 'num' else real(ssum(ip.as_sl(b, consume=False) if k == 'list' else b.attrs['_seq'].s, rt))
                    c.prove_eq(what + ': a sequence counts as its sum', real(nt(x)), want)
                else:
                    c.prove(what + ': of these operands', False)
        u, v = num(ip, 'u'), num(ip, 'v')
        # u: outcome of d, v: draw of x
        try:
            gk, got = 'ok', ip.call(f, [v, u] if rev else [u, v])
        except PyRaise as e:
            gk, got = 'raise', e
        try:
            wk, want = 'ok', written(ip, o, u, v) if dl else written(ip, o, v, u)
        except PyRaise as e:
            wk, want = 'raise', e
        if not c.prove(what + ': raises only where the operator does', gk == wk):
            return
        if gk == 'ok':
            prove_same(ip, what + ': the operator in written order', got if is_num(got) else mkbool(bt(got)), want)
        frame_ok(ip)
    return t


task('C02', 'arithmetic operators 1', METHODS)(operator_task(['add', 'sub', 'mul']))
task('C02', 'arithmetic operators 2', METHODS)(operator_task(['floordiv', 'truediv', 'mod', 'pow']))
task('C02', 'comparison operators', METHODS)(operator_task(CMPS))
task('C02', 'boolean operators', METHODS)(operator_task(LOGIC))


UNARY = {'negation': (ast.USub, None, '__neg__'), 'absolute value': (None, ('builtins', 'abs'), '__abs__'), 'rounding': (None, ('builtins', 'round'), '__round__'),
         'floor': (None, ('math', 'floor'), '__floor__'), 'ceiling': (None, ('math', 'ceil'), '__ceil__'), 'truncation': (None, ('math', 'trunc'), '__trunc__')}


@task('C02', 'unary operators', ['randvar:RV.__%s__' % n for n in ['neg', 'abs', 'round', 'floor', 'ceil', 'trunc']] + ['randvar:RV._apply_operation', 'randvar:RV._rconvolve', 'randvar:RV.__rsub__'])
def unary(ip):
    c = ip.c
    use_rv(ip)
    a = rv_obj(ip, 'a', ints=bool(c.choose(2)))
    a.pre = True
    names = list(UNARY)
    nm = names[c.choose(len(names))]
    op, fn, _ = UNARY[nm]
    f = (lambda v: ip.unop(op, v)) if op else (lambda v: ip.call(ip.builtins[fn[1]] if fn[0] == 'builtins' else ip.models.native_attr(ip, fn[0], fn[1]), [v]))
    try:
        kind, r = 'ok', f(a)
    except PyRaise as e:
        kind, r = 'raise', e
    if not c.prove(nm + ': does not raise', kind == 'ok'):
        return
    i = c.binder('li')
    spec = T.mk_agg('sum', a.g.m, i, PSI(rt(f(a.g.el(i)))) * real(a.g.P(i)))
    has_law(ip, nm + ': law of the operator applied to one draw', r, spec)
    frame_ok(ip)


@task('C02', 'logical not and truth value', ['randvar:RV.__invert__', 'randvar:RV.__bool__', 'randvar:RV.__pos__', 'randvar:RV.from_const'])
def logical_not(ip):
    c = ip.c
    use_rv(ip)
    a = rv_obj(ip, 'a')
    a.pre = True
    try:
        kind, r = 'ok', ip.unop(ast.Invert, a)
    except PyRaise as e:
        kind, r = 'raise', e
    if not c.prove('not of a die: does not raise', kind == 'ok'):
        return
    zero = z3.And(a.g.m == 1, rt(a.g.el(z3.IntVal(0))) == 0)
    # canonical die: the only weight of a one-outcome die is 1 (or 0 when no weight at all)
    c.assume(z3.Implies(a.g.m == 1, z3.Or(a.g.P(z3.IntVal(0)) == 1, a.g.P(z3.IntVal(0)) == 0)))
    iszero = z3.And(zero, a.g.P(z3.IntVal(0)) == 1)
    has_law(ip, 'not of a die is 1 exactly for the constant 0', r, PSI(z3.If(iszero, z3.RealVal(1), z3.RealVal(0))))
    kind, e = outcome(ip, ip.builtins['bool'], [a])
    c.prove('a die is no truth value', kind == 'raise' and e.exc_type == 'TypeError')
    c.prove('plus leaves the die', ip.unop(ast.UAdd, a) is a)
    frame_ok(ip)
