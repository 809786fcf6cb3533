"""C12: settings_set / settings_reset against the specification of the setting names and values."""
from .verify import *

PUBLIC = ['RV_TRUNC', 'RV_IGNORE_ZERO_PROBS', 'DEFAULT_OUTPUT_WIDTH', 'DEFAULT_PRINT_FN', 'position order', 'explode depth', 'maximum function depth']
INITIAL = {'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'DEFAULT_OUTPUT_WIDTH': 180, 'INTERNAL_CURR_DEPTH': 0,
           'INTERNAL_CURR_DEPTH_WARNING_PRINTED': False, 'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10}
PRIVATE = ['INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED']


class TextFacts:
    """an arbitrary text: equality with a literal is an uninterpreted truth value, at most one literal is equal"""
    def __init__(self, ip):
        self.seen = {}
        self.ip = ip

    def eq(self, ip, a, b):
        lit, s = (a, b) if isinstance(a, str) else (b, a)
        if not isinstance(lit, str) or not isinstance(s, SStr) or len(s.parts) != 1 or not isinstance(s.parts[0], Hole):
            return None
        key = (s.parts[0].what, id(s.parts[0].info))
        d = self.seen.setdefault(key, {})
        if lit not in d:
            v = ip.c.fresh('text_is_%s' % ''.join(ch for ch in lit if ch.isalnum()), B)
            for o in d.values():
                ip.c.assume(z3.Not(z3.And(o, v)))
            d[lit] = v
        return d[lit]


def state(ip):
    """arbitrary settings: every key holds an arbitrary object"""
    S, D = glob(ip, 'settings', 'SETTINGS'), glob(ip, 'settings', 'DEFAULT_SETTINGS')
    d = {k: marker('old ' + k) for k in D.d}
    S.d = dict(d)
    return S, d


def hooks(ip):
    tf = TextFacts(ip)
    ip.text_eq = tf.eq

    def lower(ip, o, name):
        if name != 'lower':
            raise Unsupported('upper')
        return SStr([Hole('lower', o.parts[0])])
    ip.lower_hook = lower
    return tf


def value(ip, tf):
    """(value, description, dict of facts used by the specification)"""
    k = ip.c.choose(11)
    c = ip.c
    if k == 0:
        v = num(ip, 'value', 'int')
        return v, dict(posint=v.t > 0)
    if k == 1:
        return num(ip, 'value', 'bool'), dict(isbool=True)
    if k == 2:
        return num(ip, 'value', 'float'), {}
    if k == 3:
        return None, {}
    if k == 4:
        h = Hole('anytext', marker('text'))
        s = SStr([h])
        eq = lambda lit: tf.eq(ip, s, lit)
        low = lambda lit: tf.eq(ip, SStr([Hole('lower', h)]), lit)
        return s, dict(text=True, order=lambda: z3.Or(eq('highest first'), eq('lowest first')), truth=lambda: low('true'), falsity=lambda: low('false'))
    if k == 5:
        return ghost('printer', lambda ip, a, kw: None), dict(callable=True)
    if k == 6:
        return marker('object'), {}
    if k == 7:
        return VList('list', Lit((num(ip, 'e', 'int'),))), {}
    if k == 8:
        return 'highest first', dict(text=True, order=lambda: True, truth=lambda: False, falsity=lambda: False)
    if k == 9:
        return 'lowest first', dict(text=True, order=lambda: True, truth=lambda: False, falsity=lambda: False)
    lits = ['TRUE', 'true', 'tRue', 'False', 'FALSE', 'Highest first', '', 'explode depth', '1']
    v = lits[ip.c.choose(len(lits))]
    return v, dict(text=True, order=lambda: False, truth=lambda: v.lower() == 'true', falsity=lambda: v.lower() == 'false')


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def spec(name, v, f):
    """(z3 Bool valid, stored value) or None where the property leaves the case open"""
    if name == 'position order':
        return zb(f['order']() if f.get('text') else False), v
    if name in ('explode depth', 'maximum function depth', 'DEFAULT_OUTPUT_WIDTH'):
        if f.get('isbool'):
            return None
        return zb(f.get('posint', False)), v
    if name in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'):
        if f.get('isbool'):
            return zb(True), v
        if f.get('text'):
            return z3.Or(zb(f['truth']()), zb(f['falsity']())), ('bool', zb(f['truth']()))
        return zb(False), v
    if name == 'DEFAULT_PRINT_FN':
        return zb(bool(f.get('callable'))), v
    return zb(False), v


@task('C12', 'settings_set', ['settings:settings_set'])
def settings_set(ip):
    c = ip.c
    tf = hooks(ip)
    f = glob(ip, 'settings', 'settings_set')
    S, old = state(ip)
    D = glob(ip, 'settings', 'DEFAULT_SETTINGS')
    dflt = dict(D.d)
    names = PUBLIC + PRIVATE + ['$text', '$int', '$none']
    k = c.choose(len(names))
    name = names[k]
    nm = name
    if name == '$text':
        nm = SStr([Hole('name', marker('name'))])
        # a text different from every public name
        for p in PUBLIC:
            c.assume(z3.Not(tf.eq(ip, nm, p)))
    elif name == '$int':
        nm = num(ip, 'name', 'int')
    elif name == '$none':
        nm = None
    v, facts = value(ip, tf)
    kind, r = outcome(ip, f, [nm, v])
    S2 = glob(ip, 'settings', 'SETTINGS')
    c.prove('the settings object is the same object', S2 is S)
    c.prove('defaults untouched', D.d == dflt and glob(ip, 'settings', 'DEFAULT_SETTINGS') is D)
    sp = spec(name, v, facts)
    others = [q for q in old if q != name]
    c.prove('other settings unchanged', all(S.d.get(q) is old[q] for q in others) and set(S.d) == set(old))
    if kind == 'raise':
        c.prove('a rejected value changes nothing', S.d.get(name) is old.get(name))
        if sp is not None:
            c.prove('only invalid values or names are rejected', z3.Not(sp[0]))
        return
    if sp is None:
        return
    c.prove('only valid values of public settings are accepted', sp[0])
    st = S.d.get(name)
    if isinstance(sp[1], tuple) and sp[1] and sp[1][0] == 'bool':
        okb = isinstance(st, (bool, SB))
        c.prove('the words true/false are stored as booleans', (bt(st) == sp[1][1]) if okb else False)
    else:
        c.prove('the value is stored under its name', same(st, sp[1]))


@task('C12', 'settings_reset', ['settings:settings_reset'])
def settings_reset(ip):
    c = ip.c
    f = glob(ip, 'settings', 'settings_reset')
    S, old = state(ip)
    D = glob(ip, 'settings', 'DEFAULT_SETTINGS')
    dflt = dict(D.d)
    k = c.choose(3)
    if k == 1:
        S.d['left over'] = marker('x')
    if k == 2:
        S.d.pop('position order')
    kind, r = outcome(ip, f, [])
    c.prove('reset does not raise', kind == 'ok')
    c.prove('the settings object is the same object', glob(ip, 'settings', 'SETTINGS') is S)
    c.prove('every setting has its default', S.d == dflt and S.d is not D.d and S is not D)
    c.prove('defaults untouched', D.d == dflt and glob(ip, 'settings', 'DEFAULT_SETTINGS') is D)


@task('C12', 'initial values', ['settings:SETTINGS'])
def initial(ip):
    c = ip.c
    S, D = glob(ip, 'settings', 'SETTINGS'), glob(ip, 'settings', 'DEFAULT_SETTINGS')
    pr = ip.builtins['print']
    want = dict(INITIAL, DEFAULT_PRINT_FN=pr)
    c.prove('initial settings are the documented defaults', all(k in S.d and S.d[k] == v and type(S.d[k]) is type(v) for k, v in want.items()))
    c.prove('initial settings equal the defaults, in a separate object', S.d == D.d and S is not D)


@task('C12', 'frame of the defaults', ['settings'])
def frame(ip):
    import ast
    bad = []
    for m in ['altcast', 'blackrv', 'decorators', 'factory', 'funclib', 'output', 'randvar', 'roller', 'seq', 'string_rvs', 'typings', 'utils', 'parser.myparser', 'parser.parse_and_exec', 'parser.python_resolver', '__init__']:
        for n in ast.walk(ip.w.tree(m)):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if nm == 'DEFAULT_SETTINGS':
                bad.append(m)
    if bad:
        raise Unsupported('the defaults are used outside the settings module: %s' % bad)
    ip.c.prove('no other module refers to the defaults', True)
    # SETTINGS entries are written only by the settings functions and by the depth limiter (its two private entries)
    writes = []
    for m in ['altcast', 'blackrv', 'decorators', 'factory', 'funclib', 'output', 'randvar', 'roller', 'seq', 'string_rvs', 'typings', 'utils', 'parser.myparser', 'parser.parse_and_exec', 'parser.python_resolver']:
        for n in ast.walk(ip.w.tree(m)):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in tg:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == 'SETTINGS':
                    if not isinstance(t.slice, ast.Constant):
                        raise Unsupported('a setting is written under a computed name')
                    key = t.slice.value
                    if key not in ('INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED'):
                        writes.append((m, key))
    ip.c.prove('no other module writes a public setting', not writes)
