"""C11: the depth limiter for an arbitrary depth, limit and wrapped function."""
from .verify import *


class Boom(Exception):
    pass


@task('C11', 'max_func_depth', ['decorators:max_func_depth'])
def limiter(ip):
    c = ip.c
    S = glob(ip, 'settings', 'SETTINGS')
    d, m = num(ip, 'depth', 'int'), num(ip, 'limit', 'int')
    c.assume(m.t > 0)
    c.assume(d.t >= 0)
    S.d = dict(S.d)
    S.d['INTERNAL_CURR_DEPTH'], S.d['maximum function depth'] = d, m
    S.d['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = (False, True)[c.choose(2)]
    others = {k: v for k, v in S.d.items() if not k.startswith('INTERNAL')}
    mode = c.choose(4)
    havoc = c.choose(2)
    calls = []
    value = [marker('result'), None, num(ip, 'r'), None][mode]
    a1, a2, kv = marker('a1'), marker('a2'), marker('kv')

    def body(ip, args, kw):
        calls.append((args, kw))
        c.prove('the body sees one more active call', nt(S.d['INTERNAL_CURR_DEPTH']) == d.t + 1)
        if havoc:
            # the body may change settings (also reset them); nested limited calls are covered by this very contract
            ip.setitem(S, 'INTERNAL_CURR_DEPTH', num(ip, 'havoc', 'int'))
            ip.setitem(S, 'maximum function depth', num(ip, 'havoc', 'int'))
        if mode == 3:
            raise PyRaise('ValueError', 'from the body', M.Opaque('the exception'))
        return value
    deco = ip.call(glob(ip, 'decorators', 'max_func_depth'), [])
    w = ip.call(deco, [ghost('func', body)])
    kind, r = outcome(ip, w, [a1, a2], {'k': kv})
    c.prove('depth afterwards is the depth before', nt(S.d['INTERNAL_CURR_DEPTH']) == d.t)
    if calls:
        c.prove('the body runs only below the limit', d.t < m.t)
        c.prove('the body runs once, with the given arguments', len(calls) == 1 and len(calls[0][0]) == 2 and calls[0][0][0] is a1 and calls[0][0][1] is a2 and set(calls[0][1]) == {'k'} and calls[0][1]['k'] is kv)
        if mode == 3:
            c.prove('an error of the body is passed on', kind == 'raise' and r.exc_type == 'ValueError' and r.msg == 'from the body')
        elif value is None:
            c.prove('no result becomes the blank die', kind == 'ok' and is_blank(ip, r) and same(r.attrs.get('_special_null'), False))
        else:
            c.prove('the result of the body is returned', kind == 'ok' and r is value)
        if not havoc:
            c.prove('public settings unchanged', all(S.d.get(k) is v for k, v in others.items()))
    else:
        c.prove('the body is skipped only at the limit', d.t >= m.t)
        c.prove('at the limit the result is the blank die', kind == 'ok' and is_blank(ip, r) and same(r.attrs.get('_special_null'), False))
        c.prove('public settings unchanged', all(S.d.get(k) is v for k, v in others.items()))


@task('C11', 'anydice_casting', ['decorators:anydice_casting'])
def casting(ip):
    c = ip.c
    log = []

    def deco_ghost(name):
        def outer(ip, args, kw):
            def inner(ip, a, k):
                g = ghost(name, lambda ip, x, y: ip.call(a[0], x, y))
                g.of = a[0]
                return g
            return ghost(name + '()', inner)
        return outer
    ip.contracts['decorators:max_func_depth'] = deco_ghost('limit')
    ip.contracts['decorators:anydice_type_casting'] = deco_ghost('cast')
    f = ghost('f', lambda ip, a, k: None)
    w = ip.call(ip.call(glob(ip, 'decorators', 'anydice_casting'), []), [f])
    x, chain = w, []
    while isinstance(x, PyFn) and hasattr(x, 'of'):
        chain.append(x.name)
        x = x.of
    if not isinstance(w, PyFn):
        raise Unsupported('the decorated function is not the result of the limiter')
    c.prove('the limiter wraps the casting of the function', chain == ['limit', 'cast'] and x is f)
