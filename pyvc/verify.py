"""Tasks: one task = one function of /repo against its contract, for all inputs described by the task.

A task is a Python function t(ip) that builds symbolic inputs, runs the real function body through the interpreter and
states the postcondition as obligations.  It is executed once per path; an obligation is discharged when it is proved
on every path on which it arises."""
import os
import sys
import time
import traceback
import z3
from . import terms as T
from .terms import I, R, B, real
from .values import *
from .values import _serial
from .core import Ctx, Infeasible, Obligation, Stats, UNDEF, Env
from . import interp as M
from .interp import Interp, World

TASKS = {}        # property -> list of Task


class Task:
    def __init__(self, prop, name, fn, funcs, ms, max_paths):
        self.start = None
        self.prop, self.name, self.fn, self.funcs, self.ms, self.max_paths = prop, name, fn, funcs, ms, max_paths


def task(prop, name=None, funcs=(), ms=15000, max_paths=4000):
    def deco(fn):
        TASKS.setdefault(prop, []).append(Task(prop, name or fn.__name__, fn, list(funcs), ms, max_paths))
        return fn
    return deco


class Skip(Exception):
    """path not part of the task"""


def run_task(t, limit_s=600):
    """-> dict"""
    t0 = time.time()
    T.reset()
    stats = Stats()
    obs = {}
    executed, used = set(), set()
    paths = 0
    unsupported = None
    reach = 0
    stack = list(t.start) if t.start else [[]]
    assumed = set()
    while stack:
        if any(o['status'] == 'refuted' for o in obs.values()):
            break           # a violated obligation: no need to look further
        if paths >= t.max_paths or time.time() - t0 > limit_s:
            unsupported = 'exploration limit reached after %d paths, %.0f s' % (paths, time.time() - t0)
            break
        ctx = Ctx(stack.pop(), stats, prove_ms=t.ms)
        ctx.patient = not any(o['status'] != 'proved' for o in obs.values())
        ip = Interp(World(), ctx)
        ip.assumed = assumed
        paths += 1
        try:
            t.fn(ip)
            # vacuity: the facts of the path must not be contradictory
            if ctx.check(z3.BoolVal(True), 3000) != z3.unsat:
                reach += 1
        except (Infeasible, Skip):
            pass
        except Unsupported as e:
            unsupported = unsupported or str(e)[:400]
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
        except (M.PoisonRead, M.Restart) as e:
            unsupported = unsupported or 'value of a loop variable used after the loop: %s' % (getattr(e, 'loc', ''),)
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
        except (M.Return, M.Break, M.Continue) as e:
            unsupported = unsupported or 'control flow escape'
        except PyRaise as e:
            unsupported = unsupported or 'uncaught %s %s' % (e.exc_type, e.msg)
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
        except z3.Z3Exception as e:
            unsupported = unsupported or 'solver interface: %s' % str(e)[:300]
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            # a construct the engine has no case for: never a verdict about the code
            unsupported = unsupported or 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
        stack.extend(ctx.dec.alts)
        executed |= ip.executed
        used |= ip.used_contracts
        for o in ctx.obligations:
            k = t.name + ': ' + o.name
            p = obs.get(k)
            if p is None:
                obs[k] = dict(name=k, status=o.status, secs=o.secs, detail=o.detail, backend=o.backend, paths=1)
            else:
                p['paths'] += 1
                p['secs'] += o.secs
                rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
                if rank[o.status] > rank[p['status']]:
                    p['status'], p['detail'] = o.status, o.detail
    return dict(task=t.name, prop=t.prop, obligations=list(obs.values()), paths=paths, reachable=reach, unsupported=unsupported,
                executed=sorted(executed), contracts=sorted(used), rules=stats.rules, queries=stats.queries, solver_s=stats.secs,
                assumed=sorted(assumed), wall_s=time.time() - t0, funcs=t.funcs)


# ------------------------------------------------------------------------------------------------ helpers for tasks

def outcome(ip, f, args, kwargs=None):
    try:
        return ('ok', ip.call(f, list(args), kwargs or {}))
    except PyRaise as e:
        return ('raise', e)


def num(ip, name='x', tag=None):
    """an arbitrary number: int, float or bool (finite; floats are reals)"""
    x = ip.c.fresh(name, R)
    if tag == 'int' or tag == 'bool':
        i = ip.c.fresh(name, I)
        if tag == 'bool':
            ip.c.assume(z3.And(i >= 0, i <= 1))
        return SNum(i, tag)
    if tag is not None:
        return SNum(x, tag)
    t = ip.c.fresh(name + '_tag', I)
    ip.c.assume(z3.And(t >= 0, t <= 2))
    ip.c.assume(z3.Implies(t == 2, z3.Or(x == 0, x == 1)))
    ip.c.assume(z3.Implies(t == 0, z3.IsInt(x)))
    return SNum(x, t)


def anynum(ip, name='x'):
    """int | float | bool by case"""
    k = ip.c.choose(3)
    return num(ip, name, ('int', 'float', 'bool')[k])


class Marker(Obj):
    pass


_marker_cls = Class('object', [], {}, 'ghost')


def marker(name):
    """an object of an unrelated class (identity only)"""
    o = Obj(_marker_cls)
    o.meta['name'] = name
    return o


def same(a, b):
    return a is b or same_value(a, b)


def glob(ip, mod, name):
    return ip.getglobal(mod, name)


def ghost(name, f):
    return PyFn(name, f)


def is_blank(ip, v):
    return isinstance(v, Obj) and v.cls is glob(ip, 'blackrv', 'BlankRV')


def prove_same(ip, name, a, b):
    """obligation: the two values are equal (syntactically, or by the solver for numbers)"""
    c = ip.c
    if same(a, b):
        return c.prove(name, True)
    if is_num(a) and is_num(b):
        ta, tb = nt(a), nt(b)
        if T.has_agg(ta) or T.has_agg(tb):
            return c.prove_eq(name, ta, tb)
        return c.prove(name, real(ta) == real(tb))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all([prove_same(ip, name, x, y) for x, y in zip(a, b)])
    return c.prove(name, False)


def fail(ip, name, detail):
    t0 = time.time()
    return ip.c.record(name, 'refuted', t0, detail)


def ok(ip, name):
    return ip.c.prove(name, True)
