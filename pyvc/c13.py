"""C13: every operator of the blank die, on either side, for every kind of operand."""
import ast
from .objs import *

ARITH = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'mod', 'pow']
CMPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
LOGIC = ['or', 'and']


def blank(ip, special=False):
    b = ip.call(glob(ip, 'blackrv', 'BlankRV'), [], {'_special_null': True} if special else {})
    b.pre = True
    return b


def operand(ip, kinds=('num', 'seq', 'list', 'rv', 'blank')):
    k = kinds[ip.c.choose(len(kinds))]
    if k == 'num':
        return k, num(ip, 'x')
    if k == 'seq':
        return k, seq_obj(ip)[0]
    if k == 'list':
        return k, numlist(ip, 'l')[0]
    if k == 'rv':
        o = rv_obj(ip)
        o.pre = True
        return k, o
    return k, blank(ip)


def sum_of(ip, x):
    s = ip.as_sl(x, consume=False) if isinstance(x, VList) else x.attrs['_seq'].s
    return ssum(s, rt)


def is_plain_blank(ip, r):
    return is_blank(ip, r) and same(r.attrs.get('_special_null'), False)


def gives_operand(ip, name, k, x, r, negated=False):
    c = ip.c
    if k == 'blank':
        return c.prove(name, is_plain_blank(ip, r))
    if k == 'rv':
        if negated:
            return c.prove(name, isinstance(r, Obj) and r.meta.get('neg_of') is x)
        return c.prove(name, r is x)
    if k == 'num':
        return c.prove(name, is_num(r) and rt(r) == (-rt(x) if negated else rt(x)) if is_num(r) else False)
    if r is x and not negated:
        return c.prove(name, True)
    if is_num(r):
        s = sum_of(ip, x)
        return c.prove_eq(name, nt(r), -s if negated else s)
    return c.prove(name, False)


def neg_contract(ip):
    def neg(ip, args, kw):
        o = rv_obj(ip, 'neg')
        o.meta['neg_of'] = args[0]
        return o
    ip.contracts['randvar:RV.__neg__'] = neg


def run(ip, f):
    try:
        return ('ok', f())
    except PyRaise as e:
        return ('raise', e)


def frame_ok(ip):
    bad = [(c, k) for c, k, v in ip.c.writes if k not in ('_sum', 'sum_probs')]
    ip.c.prove('operands unchanged', not bad)


@task('C13', 'binary operators', ['blackrv:BlankRV.__%s__' % n for n in ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv', 'rfloordiv', 'truediv', 'rtruediv', 'pow', 'rpow', 'mod', 'rmod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'or', 'ror', 'and', 'rand']])
def binary(ip):
    c = ip.c
    neg_contract(ip)
    ops = ARITH + CMPS + LOGIC
    o = ops[c.choose(len(ops))]
    side = c.choose(2)
    k, x = operand(ip)
    b = blank(ip)
    l, r = (b, x) if side == 0 else (x, b)
    kind, res = run(ip, lambda: ip.cmp(o, l, r) if o in CMPS else ip.binop(o, l, r))
    what = '%s %s' % (o, 'blank on the left' if side == 0 else 'blank on the right')
    if not c.prove(what + ': does not raise', kind == 'ok'):
        return
    if o in ('add', 'or') or o == 'sub' and side == 1:
        gives_operand(ip, what + ': gives the other operand', k, x, res)
    elif o == 'sub':
        gives_operand(ip, what + ': gives the negation', k, x, res, negated=True)
    else:
        c.prove(what + ': gives the blank die', is_plain_blank(ip, res))
    frame_ok(ip)


@task('C13', 'nothing-rolled blank', ['blackrv:BlankRV.__%s__' % n for n in ['add', 'sub', 'mul', 'eq', 'or', 'and']])
def special(ip):
    c = ip.c
    ops = ARITH + CMPS + LOGIC
    o = ops[c.choose(len(ops))]
    side = c.choose(2)
    k, x = operand(ip, ('num', 'seq', 'rv'))
    b = blank(ip, True)
    l, r = (b, x) if side == 0 else (x, b)
    kind, res = run(ip, lambda: ip.cmp(o, l, r) if o in CMPS else ip.binop(o, l, r))
    if not c.prove(o + ': does not raise', kind == 'ok'):
        return
    if o in CMPS or o in LOGIC:
        c.prove(o + ': gives 1', is_num(res) and rt(res) == 1 if is_num(res) else False)
    else:
        c.prove(o + ': absorbs', is_blank(ip, res) and same(res.attrs.get('_special_null'), True))
    frame_ok(ip)


@task('C13', 'unary operators', ['blackrv:BlankRV.__%s__' % n for n in ['pos', 'neg', 'invert', 'abs', 'round', 'floor', 'ceil', 'trunc', 'bool', 'len', 'matmul', 'rmatmul']])
def unary(ip):
    c = ip.c
    b = blank(ip)
    for n, f in (('pos', lambda: ip.unop(ast.UAdd, b)), ('neg', lambda: ip.unop(ast.USub, b)), ('not', lambda: ip.unop(ast.Invert, b)),
                 ('abs', lambda: ip.call(ip.builtins['abs'], [b])), ('round', lambda: ip.call(ip.builtins['round'], [b])),
                 ('floor', lambda: ip.call(ip.models.native_attr(ip, 'math', 'floor'), [b])), ('ceil', lambda: ip.call(ip.models.native_attr(ip, 'math', 'ceil'), [b])),
                 ('trunc', lambda: ip.call(ip.models.native_attr(ip, 'math', 'trunc'), [b]))):
        kind, r = run(ip, f)
        c.prove(n + ' of blank is blank', kind == 'ok' and is_plain_blank(ip, r))
    for sp in (False, True):
        kind, r = run(ip, lambda: ip.truth(blank(ip, sp)))
        c.prove('a blank die is no truth value', kind == 'raise' and r.exc_type == 'TypeError')
    kind, r = run(ip, lambda: ip.call(ip.builtins['len'], [b]))
    c.prove('a blank die has no rolls', kind == 'ok' and same(r, 0))
    k, x = operand(ip, ('num', 'seq', 'list'))
    kind, r = run(ip, lambda: ip.binop('matmul', b, x))
    c.prove('a blank die is no position selector', kind == 'raise' and r.exc_type == 'TypeError')
    kind, r = run(ip, lambda: ip.binop('matmul', x, b))
    c.prove('selecting from a blank die is blank', kind == 'ok' and is_plain_blank(ip, r))
    frame_ok(ip)


@task('C13', 'rolling blanks', ['roller:roll'])
def rolling(ip):
    c = ip.c
    roll = glob(ip, 'roller', 'roll')
    k, x = operand(ip, ('num', 'seq', 'rv', 'blank'))
    kind, r = run(ip, lambda: ip.call(roll, [x, blank(ip)]))
    c.prove('rolling a blank die is blank', kind == 'ok' and is_plain_blank(ip, r))
    empty = ip.call(glob(ip, 'seq', 'Seq'), [])
    kind, r = run(ip, lambda: ip.call(roll, [x, empty]))
    if k != 'blank':
        c.prove('rolling an empty sequence is blank', kind == 'ok' and is_plain_blank(ip, r))
    kind, r = run(ip, lambda: ip.call(roll, [blank(ip)]))
    c.prove('rolling a blank die is blank', kind == 'ok' and is_plain_blank(ip, r))
    d = num(ip, 'sides', 'int') if c.choose(2) else rv_obj(ip)
    kind, r = run(ip, lambda: ip.call(roll, [blank(ip), d]))
    c.prove('a blank number of dice gives the nothing-rolled blank', kind == 'ok' and is_blank(ip, r) and same(r.attrs.get('_special_null'), True))
    frame_ok(ip)
