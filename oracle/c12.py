"""C12 settings"""
from .base import *

NAMES = ['position order', 'explode depth', 'maximum function depth', 'RV_TRUNC', 'RV_IGNORE_ZERO_PROBS', 'DEFAULT_OUTPUT_WIDTH', 'DEFAULT_PRINT_FN']
VALUES = [0, 1, 2, 10, -1, -5, True, False, 1.0, 2.5, None, 'true', 'false', 'True', 'FALSE', 'TrUe', 'yes', '', '1', 'highest first', 'lowest first', 'Highest first', 'highest', 'fn:print', 'fn:len', [], [1], 100, 10 ** 9]
BADNAMES = ['', 'foo', 'INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED', 'position_order', 'Position order', 'rv_trunc', 'explode depth ', None, 3]


def val(v):
    if isinstance(v, str) and v.startswith('fn:'):
        return {'print': print, 'len': len}[v[3:]]
    return v


def valid(name, v):
    """(ok, stored)"""
    if name == 'position order':
        return (isinstance(v, str) and v in ('highest first', 'lowest first'), v)
    if name in ('explode depth', 'maximum function depth', 'DEFAULT_OUTPUT_WIDTH'):
        return (isinstance(v, int) and v > 0, v)
    if name in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'):
        if isinstance(v, bool):
            return True, v
        if isinstance(v, str) and v.lower() in ('true', 'false'):
            return True, v.lower() == 'true'
        return False, None
    if name == 'DEFAULT_PRINT_FN':
        return callable(v), v
    return False, None


def fixed(g):
    for n in NAMES + BADNAMES:
        for v in VALUES:
            yield [('set', n, v)]
    for n in NAMES:
        for v in VALUES:
            yield [('set', n, v), ('reset',), ('set', 'explode depth', 3)]


def random(g):
    r = g.r
    while True:
        out = []
        for _ in range(r.randint(1, 10)):
            if r.random() < .15:
                out.append(('reset',))
            else:
                v = r.choice(VALUES + [r.choice(g.ints), r.choice(g.strs), r.randint(-3, 300)])
                out.append(('set', r.choice(NAMES * 3 + BADNAMES + [r.choice(g.strs)]), v))
        yield out


def check(prog):
    S = sub('settings')
    S.settings_reset()
    init = dict(S.SETTINGS)
    want0 = {'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'DEFAULT_OUTPUT_WIDTH': 180, 'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10}
    for k, v in want0.items():
        need(init.get(k) == v and type(init.get(k)) is type(v), 'initial value of %r is %r' % (k, init.get(k)))
    cur = dict(init)
    for i, st in enumerate(prog):
        what = 'step %d of %r' % (i, prog)
        if st[0] == 'reset':
            S.settings_reset()
            cur = dict(init)
        else:
            v = val(st[2])
            ok, stored = valid(st[1], v)
            if st[1] in NAMES:
                pass
            try:
                S.settings_set(st[1], v)
                done = True
            except Exception:
                done = False
            need(done == ok, what + ': %r = %r was %s' % (st[1], st[2], 'accepted' if done else 'rejected'))
            if ok:
                cur[st[1]] = stored
        now = dict(S.SETTINGS)
        for k in set(now) | set(cur):
            need(k in now and k in cur and (now[k] is cur[k] or (now[k] == cur[k] and type(now[k]) is type(cur[k]))), what + ': setting %r is %r, expected %r' % (k, now.get(k), cur.get(k)))
    need(S.DEFAULT_SETTINGS is not S.SETTINGS, 'defaults are shared with the settings')
