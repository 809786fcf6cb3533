"""Path exploration, facts, obligations and the sum prover."""
import itertools
import time
import z3
from . import terms as T
from .terms import I, R, B, real, poly
from .values import *
from .values import _serial
from .values import _serial


class Infeasible(Exception):
    pass


class Obligation:
    def __init__(self, name, status, secs, detail='', model=None, backend='z3'):
        self.name, self.status, self.secs, self.detail, self.model, self.backend = name, status, secs, detail, model, backend

    def asdict(self):
        return dict(name=self.name, status=self.status, secs=round(self.secs, 4), detail=self.detail, backend=self.backend)


class Dec:
    def __init__(self, prefix):
        self.prefix, self.taken, self.alts = list(prefix), [], []


class Stats:
    def __init__(self):
        self.queries = 0
        self.secs = 0.0
        self.rules = {}


class Env:
    __slots__ = ('vars', 'parent', 'ser', 'fname', 'locals', 'globals', 'nonlocals', 'cls', 'modname', 'pre')

    def __init__(self, parent=None, fname=''):
        self.vars, self.parent, self.ser, self.fname = {}, parent, next(_serial), fname
        self.locals = self.globals = self.nonlocals = ()
        self.cls = None
        self.modname = None
        self.pre = False


class RangeRule:
    """how a sum over the index range of a derived list is rewritten: fn(ctx, args, var, body) -> term or None"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Ctx:
    def __init__(self, prefix=(), stats=None, feas_ms=1000, prove_ms=15000):
        self.dec = Dec(prefix)
        self.solver = z3.Solver()       # all facts, instantiation by patterns only: for feasibility
        self.solver.set('auto_config', False)
        self.solver.set('mbqi', False)
        self.feas_ms, self.prove_ms = feas_ms, prove_ms
        self.pc = []              # ('branch'|'fact', formula)
        self.trail = []           # (container, key, old)
        self.binders = []
        self.counter = itertools.count()
        self.obligations = []
        self.probe = 0            # >0: obligations are not recorded
        self.rules = {}           # function name of a range constant -> RangeRule
        self.stats = stats or Stats()
        self.notes = []           # assumption / rule usage notes
        self.memo = {}
        self.prefixes = []       # running sums: (length, term, partial sum, element) as functions of the index
        self.writes = []          # writes to objects that existed before the call
        self.entry_ser = -1       # (frame checks) objects created before this serial number existed before the call
        self.frame_log = []
        self.frame_only = False   # only obligations named 'frame...' are decided
        self.events = Env()
        self.patient = True
        self.quotients = []
        self.gcds = []
        self.reglen = {}
        self.memo = {}            # holds(): same goal under the same facts
        self.products = []        # fn(x, y) -> term equal to x*y or None (definitional facts used on monomials)
        self.inputs = {}          # name -> symbolic input (for concretisation)

    # ---------------------------------------------------------------- fresh symbols
    def fresh(self, name, sort=I, extra=()):
        """fresh symbol depending on the loop variables in scope (and `extra` argument terms)"""
        args = list(self.binders) + list(extra)
        f = self.fresh_fn(name, [a.sort() for a in extra], sort, raw=True)
        return f(*args)

    def fresh_fn(self, name, sorts, out, raw=False):
        nm = '%s!%d' % (name, next(self.counter))
        bs = [b.sort() for b in self.binders]
        f = z3.Function(nm, *(bs + list(sorts) + [out]))
        if raw:
            return f
        bnd = list(self.binders)
        return lambda *a: f(*(bnd + list(a)))

    def binder(self, name='i', sort=I):
        return z3.Const('b!%s%d' % (name, next(self.counter)), sort)

    def havoc_const(self, sort):
        return z3.Const('h!%d' % next(self.counter), sort)

    # ---------------------------------------------------------------- state
    def note(self, s):
        self.stats.rules[s] = self.stats.rules.get(s, 0) + 1

    def get_loc(self, c, k):
        if isinstance(c, Env):
            return c.vars.get(k, UNDEF)
        if isinstance(c, Obj):
            return c.attrs.get(k, UNDEF)
        if isinstance(c, VList):
            return c.s
        if isinstance(c, VDict):
            return c.contrib if c.d is None else c.d
        raise Unsupported('location')

    def _raw_set(self, c, k, v):
        if isinstance(c, Env):
            d = c.vars
        elif isinstance(c, Obj):
            d = c.attrs
        elif isinstance(c, VList):
            c.s = v
            return
        elif isinstance(c, VDict):
            c.d, c.contrib = (v, None) if isinstance(v, dict) else (None, v)
            return
        else:
            raise Unsupported('location')
        if v is UNDEF:
            d.pop(k, None)
        else:
            d[k] = v

    def set_loc(self, c, k, v):
        if getattr(c, 'pre', False):
            self.writes.append((c, k, v))
        if c.ser < self.entry_ser and c is not self.events:
            self.frame_log.append((c, k, self.get_loc(c, k), v, len(self.pc), tuple(self.binders)))
        self.trail.append((c, k, self.get_loc(c, k)))
        self._raw_set(c, k, v)

    def rollback(self, mark, new=None):
        """undo the writes; objects created since the serial number `new` keep their state (they are part of the outcome)"""
        while len(self.trail) > mark:
            c, k, old = self.trail.pop()
            if new is None or c.ser < new:
                self._raw_set(c, k, old)

    def set_event(self, e):
        self.set_loc(self.events, 'e', self.events.vars.get('e', ()) + (e,))

    # ---------------------------------------------------------------- facts and branching
    def assume(self, f, kind='fact'):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        self.pc.append((kind, f))
        self.solver.add(f)

    def check(self, f, ms=None):
        t0 = time.time()
        self.solver.set('timeout', ms or self.feas_ms)
        r = self.solver.check(f)
        self.stats.queries += 1
        self.stats.secs += time.time() - t0
        return r

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for x in T.free_consts(cond):
            if T.is_binder(x) and not any(x.eq(b) for b in self.binders) and not (self.probe and x.decl().name().startswith('h!')):
                raise Unsupported('a case split on a bound variable: %s' % str(cond)[:200])
        self.sum_facts(cond)
        d = self.dec
        if len(d.taken) < len(d.prefix):
            v = d.prefix[len(d.taken)]
        else:
            ct = self.check(cond) != z3.unsat
            cf = self.check(z3.Not(cond)) != z3.unsat
            if ct and cf:
                v = True
                d.alts.append(d.taken + [False])
            elif ct:
                v = ('f', True)
            elif cf:
                v = ('f', False)
            else:
                raise Infeasible()
        d.taken.append(v)
        if isinstance(v, tuple):      # forced: implied by the path condition
            return v[1]
        self.assume(cond if v else z3.Not(cond), 'branch')
        return v

    def choose(self, m):
        """non-deterministic choice 0..m-1 (every option explored)"""
        d = self.dec
        if len(d.taken) < len(d.prefix):
            v = d.prefix[len(d.taken)]
        else:
            v = ('c', 0)
            for k in range(m - 1, 0, -1):
                d.alts.append(d.taken + [('c', k)])
        d.taken.append(v)
        return v[1]

    def feasible_or_stop(self):
        if self.check(z3.BoolVal(True)) == z3.unsat:
            raise Infeasible()

    def sub(self, fn):
        """explore all paths of fn from the current state; state and facts are restored afterwards.
        -> list of (entries, outcome)"""
        outer = self.dec
        stack, results = [[]], []
        n = 0
        while stack:
            n += 1
            if n > 400:
                raise Unsupported('too many paths in a loop body')
            self.dec = Dec(stack.pop())
            mark, pcm = len(self.trail), len(self.pc)
            new = next(_serial)
            self.solver.push()
            try:
                out = fn()
                results.append((self.pc[pcm:], out))
            except Infeasible:
                pass
            finally:
                stack.extend(self.dec.alts)
                self.rollback(mark, new)
                del self.pc[pcm:]
                self.solver.pop()
                self.dec = outer
        return results

    # ---------------------------------------------------------------- proving
    def z3_valid(self, goal, hyps=(), ms=None, full=True):
        """'proved' | 'refuted' | 'unknown' , model"""
        t0 = time.time()
        self.stats.queries += 1
        quant = any(has_quantifier(f) for _, f in self.pc) or has_quantifier(goal) or any(has_quantifier(h) for h in hyps)
        nl = [f for _, f in self.pc if nonlinear(f)]

        def run(facts, mbqi, ms, seed=0):
            s = z3.Solver()
            if not mbqi:
                s.set('auto_config', False)
                s.set('mbqi', False)
            if seed:
                s.set('random_seed', seed)
            s.set('timeout', ms)
            s.add(*facts)
            s.add(*hyps)
            s.add(z3.Not(goal))
            return s, s.check()
        ms = ms or self.prove_ms
        try:
            if quant:
                # fewer hypotheses and instantiation by patterns only: still sound when the answer is unsat
                everything = [f for _, f in self.pc]
                linear = [f for f in everything if not nonlinear(f)]
                near = relevant([goal] + list(hyps), linear, 2)
                plan = []
                if len(near) < len(linear):
                    plan.append((near, 1200, 0))
                plan += [(linear, 1500, 0), (everything, 1500, 0)] if nl else [(linear, 1500, 0)]
                if full or ms > 2000:
                    plan += [(near, 2500, 11), (linear, 3000, 17)] + ([(everything, 3000, 23)] if nl else []) + [(linear, 6000, 0)] + ([(everything, 8000, 0)] if nl else [])
                left = ms / 1000 * (2 if full else 1)
                decided = set()
                for facts, lim, seed in plan:
                    if left <= 0:
                        break
                    key = (len(facts), facts is everything)
                    if key in decided:
                        continue
                    t1 = time.time()
                    _, r = run(facts, False, int(min(lim, max(left * 1000, 100))), seed)
                    left -= time.time() - t1
                    if r == z3.unsat:
                        return 'proved', None
                    if time.time() - t1 < lim / 1000 * .9:
                        decided.add(key)      # saturated: another seed gives the same answer
                if not full:
                    return 'unknown', None
            s, r = run([f for _, f in self.pc], True, ms)
            if r == z3.unsat:
                return 'proved', None
            if r == z3.sat:
                return 'refuted', s.model()
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
            return 'unknown', m
        finally:
            self.stats.secs += time.time() - t0

    # rules for bounds of sums (induction on the range; lean/Sums.lean)
    def sum_bounds(self, n, var, body, lo=None, hi=None):
        """when lo <= body <= hi for every index, lo*n <= sum <= hi*n -> the sum term (facts assumed), or None"""
        rng = [var >= 0, var < n]
        fs = []
        lo = z3.RealVal(lo) if isinstance(lo, int) else lo
        hi = z3.RealVal(hi) if isinstance(hi, int) else hi
        if lo is not None:
            fs.append(real(body) >= real(lo))
        if hi is not None:
            fs.append(real(body) <= real(hi))
        s = T.mk_agg('sum', n, var, body)
        if not all(self.z3_valid(f, rng)[0] == 'proved' for f in fs):
            return None
        nn = z3.If(n >= 0, real(n), z3.RealVal(0))
        if lo is not None:
            self.assume(real(s) >= real(lo) * nn)
        if hi is not None:
            self.assume(real(s) <= real(hi) * nn)
        self.note('bounds of a sum')
        return s

    def count_facts(self, t):
        """facts about a length that is a sum of lengths of pieces: it is 0 exactly when every piece is empty
        (induction on the range; lean/Sums.lean)"""
        t = z3.simplify(t)
        for x in list(T.subterms(t)):
            d = T.agg_of(x)
            if d is None or d.kind != 'sum' or ('count', x.get_id()) in self.memo:
                continue
            if not self.binders:
                self.memo[('count', x.get_id())] = x
            v = self.binder('cf')
            n, body = T.instantiate(x, v)
            if self.z3_valid(body >= 0, [v >= 0, v < n])[0] != 'proved':
                continue
            w = self.fresh('wit')
            self.assume(x >= 0)
            self.assume(z3.Implies(x > 0, z3.And(w >= 0, w < n, z3.substitute(body, (v, w)) > 0)))
            self.assume(z3.Implies(x == 0, z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n), body == 0))))
            self.note('a sum of non-negative integers is 0 exactly when every term is')
            self.count_facts(body) if not T.occurs(v, body) else None
        return t

    def part_of_sum(self, n, var, body, j):
        """a term of a sum of non-negative terms is at most the sum"""
        if self.z3_valid(real(body) >= 0, [var >= 0, var < n])[0] != 'proved':
            return False
        s = T.mk_agg('sum', n, var, body)
        self.assume(z3.Implies(z3.And(j >= 0, j < n), real(z3.substitute(body, (var, j))) <= real(s)))
        self.note('a term of a sum of non-negative terms is at most the sum')
        return True

    def prefix_monotone(self, n, p, A):
        """partial sums of non-negative terms do not decrease (lean/Sums.lean)"""
        v, w = self.binder('pv'), self.binder('pw')
        if not self.nonneg(p(v), (v >= 0, v < n)):
            return False
        self.assume(z3.ForAll([v, w], z3.Implies(z3.And(v >= 0, v < w, w < n), A(v) <= A(w)), patterns=[z3.MultiPattern(A(v), A(w))]))
        self.note('partial sums of non-negative terms do not decrease')
        return True

    def prefix_below(self, n, p, A, t):
        """for non-negative p and t > 0: the terms whose partial sum is below t add up to less than t (lean/Sums.lean)"""
        v = self.binder('pv')
        if not self.nonneg(p(v), (v >= 0, v < n)) or not self.holds(t > 0):
            return None
        s = T.mk_agg('sum', n, v, z3.If(real(A(v)) < t, real(p(v)), z3.RealVal(0)))
        self.assume(s < t)
        self.note('terms with a partial sum below t add up to less than t')
        return s

    def record(self, name, status, t0, detail='', model=None):
        if not self.probe and (not self.frame_only or name.startswith('frame')):
            self.obligations.append(Obligation(name, status, time.time() - t0, detail, model))
        return status == 'proved'

    def prove(self, name, goal, hyps=()):
        if self.probe:
            return True
        if self.frame_only and not name.startswith('frame'):
            return goal is not False
        t0 = time.time()
        if goal is True:
            return self.record(name, 'proved', t0, '')
        if goal is False:
            # fails unless this path is impossible
            st, m = self.z3_valid(z3.BoolVal(False), hyps)
            r = self.record(name, 'proved' if st == 'proved' else 'refuted', t0, '' if st == 'proved' else 'constant false', m)
            if st == 'proved':
                raise Infeasible()
            return r
        self.sum_facts(goal)
        st, m = self.z3_valid(goal, hyps)
        if st == 'unknown' and self.patient:
            st, m = self.z3_valid(goal, hyps, 4 * self.prove_ms)
        return self.record(name, st, t0, '' if st == 'proved' else 'goal: %s' % str(goal)[:600], m)

    def holds(self, goal, hyps=(), ms=4000):
        if isinstance(goal, bool):
            return goal
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal) and not self.pc:
            return False
        key = (goal.get_id(), ms) + tuple(h.get_id() for h in hyps) + (0,) + tuple(f.get_id() for _, f in self.pc)
        m = self.memo.get(key)
        if m is None:
            m = self.memo[key] = (self.z3_valid(goal, hyps, ms, has_quantifier(goal))[0] == 'proved', goal, hyps, [f for _, f in self.pc])
        return m[0]

    def nonneg(self, t, hyps=()):
        """t >= 0, as a sum of products of non-negative factors"""
        p = poly(t)
        signs = {}
        for mon, cf in p.m.items():
            if cf < 0:
                return self.holds(t >= 0, hyps)
            for k in set(mon):
                if mon.count(k) % 2 and k not in signs:
                    signs[k] = self.nonneg_atom(p.atoms[k], hyps)
                    if not signs[k]:
                        return self.holds(t >= 0, hyps)
        return True

    def nonneg_atom(self, a, hyps):
        d = T.agg_of(a)
        if d is not None and d.kind == 'sum':
            v = self.binder('nn')
            n, body = T.instantiate(a, v)
            if self.nonneg(body, tuple(hyps) + (v >= 0, v < n)):
                self.note('a sum of non-negative terms is not negative')
                return True
        return self.holds(a >= 0, hyps)

    # sums
    def normal_sums(self, t, fuel=12):
        """apply range-transfer rules to every (outermost) sum of t until none applies"""
        for _ in range(fuel):
            changed = False
            for x in list(T.subterms(t)):
                d = T.agg_of(x)
                if d is None or d.kind != 'sum':
                    continue
                y = self._apply_rule(x)
                if y is not None:
                    t = z3.substitute(t, (x, y)) if y.sort() == x.sort() else self._subst_real(t, x, y)
                    changed = True
                    break
            if not changed:
                return t
        return t

    def _subst_real(self, t, x, y):
        """replace integer sum x by real term y inside t (t is turned real)"""
        tx = z3.ToReal(x)
        t2 = z3.substitute(real(t), (tx, y))
        if T.occurs_term(x, t2):
            raise Unsupported('integer sum inside an integer-only context')
        return t2

    def _apply_rule(self, app):
        n = T.agg_range(app)
        if not (z3.is_app(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return None
        rule = self.rules.get(n.decl().name())
        if rule is None:
            return None
        v = self.binder('s')
        _, body = T.instantiate(app, v)
        if T.has_agg(body, 'sum'):
            body = self.normal_sums(body)
        r = rule.fn(self, list(n.children()), v, body)
        if r is not None:
            self.note('range rule: ' + rule.name)
        return r

    def apply_products(self, p):
        if not self.products:
            return p
        for _ in range(8):
            hit = None
            for mon in p.m:
                ats = sorted(set(mon))
                for x in ats:
                    for y in ats:
                        if x == y:
                            continue
                        for f in self.products:
                            r = f(p.atoms[x], p.atoms[y])
                            if r is not None:
                                hit = (mon, x, y, r)
                                break
                        if hit:
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                return p
            mon, x, y, r = hit
            rest = list(mon)
            rest.remove(x)
            rest.remove(y)
            q = T.Poly()
            q.atoms = p.atoms
            q.m = {tuple(rest): p.m[mon]}
            p2 = T.Poly()
            p2.atoms = dict(p.atoms)
            p2.m = {k: v for k, v in p.m.items() if k != mon}
            p = p2.add(q.mul(poly(r)))
        return p

    def sum_zero(self, t, hyps=(), depth=0, why=None):
        """prove t == 0 for a term built from sums"""
        if depth > 14:
            return False
        why = [] if why is None else why
        t = self.normal_sums(t)
        it_ = T.ite_with_agg(t)
        if it_ is not None:
            c, a, b = it_.children()
            ok = True
            for cond, br in ((c, a), (z3.Not(c), b)):
                if self.z3_valid(z3.Not(cond), hyps, 3000, False)[0] == 'proved':
                    continue
                ok = self.sum_zero(z3.substitute(t, (it_, br)), tuple(hyps) + (cond,), depth + 1, why) and ok
                if not ok:
                    return False
            return ok
        p = self.apply_products(poly(t))
        if not p.m:
            return True
        sums = {k: a for k, a in p.atoms.items() if (d := T.agg_of(a)) is not None and d.kind == 'sum'}
        if self.products and sums:
            for mon, cf in p.m.items():
                ks = [k for k in mon if k in sums]
                if len(ks) != 1 or len(mon) < 2:
                    continue
                v = self.binder('q')
                n, body = T.instantiate(sums[ks[0]], v)
                f = z3.RealVal(str(cf))
                others = list(mon)
                others.remove(ks[0])
                for o in others:
                    f = f * real(p.atoms[o])
                b0 = poly(f * real(body))
                b1 = self.apply_products(b0)
                if b1 is not b0:
                    rest = T.Poly()
                    rest.atoms = p.atoms
                    rest.m = {k: x for k, x in p.m.items() if k != mon}
                    return self.sum_zero(rest.term() + T.mk_agg('sum', n, v, b1.term()), hyps, depth + 1, why)
        used = {k for mon in p.m for k in mon}
        sums = {k: a for k, a in sums.items() if k in used}
        if not sums:
            st, m = self.z3_valid(p.term() == 0, hyps)
            if st != 'proved':
                t2 = self.unify_sums(p.term(), hyps, depth)
                if t2 is not None and self.z3_valid(t2 == 0, hyps)[0] == 'proved':
                    return True
                why.append(('leaf', p.term(), hyps, m))
            return st == 'proved'
        # group monomials by the range of one of their sums; monomials without sums must cancel on their own
        rest = T.Poly()
        rest.atoms = p.atoms
        groups = []      # (range term, list of (monomial without the sum, coef, sum atom))
        for mon, c in p.m.items():
            ks = [k for k in mon if k in sums]
            if not ks:
                rest.m[mon] = c
                continue
            # canonical choice: smallest range by text
            ks.sort(key=lambda k: (str(T.agg_range(sums[k])), str(sums[k])))
            k = ks[0]
            others = list(mon)
            others.remove(k)
            n = T.agg_range(sums[k])
            for g in groups:
                if g[0].eq(n) or self.holds(g[0] == n, hyps, 2000):
                    g[1].append((tuple(others), c, sums[k]))
                    break
            else:
                groups.append((n, [(tuple(others), c, sums[k])]))
        ok = True
        lw = []
        if rest.m:
            st, m = self.z3_valid(rest.term() == 0, hyps)
            if st != 'proved':
                ok = False
                lw.append(('constant part', rest.term(), hyps, m))
        if ok:
            for n, mons in groups:
                v = self.binder('q')
                body = z3.RealVal(0)
                for others, c, s in mons:
                    f = z3.RealVal(str(c))
                    for o in others:
                        f = f * real(p.atoms[o])
                    _, b = T.instantiate(s, v)
                    body = body + f * real(b)
                if not self.sum_zero(body, tuple(hyps) + (v >= 0, v < n), depth + 1, lw):
                    ok = False
                    break
        if ok:
            self.note('sum congruence/linearity')
            return True
        # try exchanging nested sums into a canonical order once
        t2 = self._exchange(t)
        if t2 is not None and not t2.eq(t):
            self.note('exchange of summation order')
            if self.sum_zero(t2, hyps, depth + 1, lw):
                return True
        # last resort: opaque, with constant factors taken out of the sums
        lt = self.linear_out(p.term())
        st, m = self.z3_valid(lt == 0, hyps, 5000)
        if st == 'proved':
            return True
        lt2 = self.unify_sums(lt, hyps, depth)
        if lt2 is not None:
            q = poly(self.linear_out(lt2))
            if not q.m or self.z3_valid(q.term() == 0, hyps, 5000)[0] == 'proved':
                self.note('sum congruence/linearity')
                return True
        why.extend(lw or [('opaque', p.term(), hyps, m)])
        return False

    def unify_sums(self, t, hyps, depth):
        """sums below other functions: equal ones made identical -> the term, or None when nothing changed"""
        if depth > 4:
            return None
        seen, changed = [], False
        for x in outer_sums(t):
            v = self.binder('us')
            n, body = T.instantiate(x, v)
            for y, m in seen:
                if y.sort() != x.sort() or not (m.eq(n) or self.z3_valid(m == n, hyps, 2000)[0] == 'proved'):
                    continue
                _, b2 = T.instantiate(y, v)
                if self.sum_zero(real(body) - real(b2), tuple(hyps) + (v >= 0, v < n), depth + 1, []):
                    t = z3.substitute(t, (x, y))
                    changed = True
                    break
            else:
                seen.append((x, n))
        return t if changed else None

    def linear_out(self, t):
        """constant factors out of every outermost sum: sum(a*f + b*g) = a*sum(f) + b*sum(g)"""
        t = self.normal_sums(t)
        for x in outer_sums(t):
            v = self.binder('lo')
            n, body = T.instantiate(x, v)
            p = poly(body)
            y = z3.RealVal(0)
            for mon, c in p.m.items():
                f, g = z3.RealVal(str(c)), z3.RealVal(1)
                for k in mon:
                    if T.occurs(v, p.atoms[k]):
                        g = real(p.atoms[k]) if z3.is_rational_value(g) else g * real(p.atoms[k])
                    else:
                        f = f * real(p.atoms[k])
                q = T.int_poly_term(poly(g))
                y = y + f * real(T.mk_agg('sum', n, v, q if q is not None else g))
            y = z3.simplify(y)
            if y.eq(z3.simplify(real(x))):
                continue
            if x.sort() == I:
                try:
                    t = self._subst_real(t, x, y)
                except Unsupported:
                    continue
            else:
                t = z3.substitute(t, (x, y))
        return t

    def sum_facts(self, f):
        """state what the rules know about the closed sums of a formula"""
        if not self.rules or self.binders:
            return
        for x in outer_sums(f):
            if ('sumfact', x.get_id()) in self.memo or any(T.is_binder(c) for c in T.free_consts(x)):
                continue
            self.memo[('sumfact', x.get_id())] = x
            y = self.linear_out(real(x))
            if not z3.simplify(y).eq(z3.simplify(real(x))):
                self.assume(real(x) == y)
                self.sum_facts(y)

    def _exchange(self, t):
        """rewrite sum_i (c * sum_j f) with independent ranges so that the textually smaller range is outermost"""
        for x in list(T.subterms(t)):
            d = T.agg_of(x)
            if d is None or d.kind != 'sum':
                continue
            v = self.binder('e')
            n, body = T.instantiate(x, v)
            p = poly(body)
            if len(p.m) != 1:
                continue
            (mon, c), = p.m.items()
            ks = [k for k in mon if (dd := T.agg_of(p.atoms[k])) is not None and dd.kind == 'sum' and T.occurs(v, p.atoms[k])]
            if len(ks) != 1:
                continue
            inner = p.atoms[ks[0]]
            n2 = T.agg_range(inner)
            if T.occurs(v, n2) or str(n) <= str(n2):
                continue
            w = self.binder('e')
            _, b2 = T.instantiate(inner, w)
            f = z3.RealVal(str(c))
            for k in mon:
                if k != ks[0]:
                    f = f * real(p.atoms[k])
            new = T.mk_agg('sum', n2, w, T.mk_agg('sum', n, v, z3.simplify(f * real(b2))))
            if x.sort() == I:
                return self._subst_real(t, x, new)
            return z3.substitute(t, (x, new))
        return None

    def unify_products(self, t, hyps):
        """products over the same range with equal factors are equal"""
        seen = []
        for x in list(T.subterms(t)):
            d = T.agg_of(x)
            if d is None or d.kind != 'prod':
                continue
            v = self.binder('up')
            n, body = T.instantiate(x, v)
            for y, m in seen:
                if m.eq(n) and y.sort() == x.sort():
                    _, b2 = T.instantiate(y, v)
                    if self.z3_valid(body == b2, tuple(hyps) + (v >= 0, v < n))[0] == 'proved':
                        t = z3.substitute(t, (x, y))
                        self.note('product congruence')
                        break
            else:
                seen.append((x, n))
        return t

    def prove_eq(self, name, a, b, hyps=()):
        if self.probe or self.frame_only and not name.startswith('frame'):
            return True
        t0 = time.time()
        why = []
        try:
            q = poly(self.linear_out(real(a) - real(b)))
            ok = not q.m or len(q.m) <= 4 and self.z3_valid(q.term() == 0, hyps, 1500, False)[0] == 'proved'
            if ok:
                self.note('sum congruence/linearity')
                return self.record(name, 'proved', t0)
            ok = self.sum_zero(self.unify_products(real(a) - real(b), hyps), hyps, 0, why)
        except Unsupported as e:
            return self.record(name, 'unknown', t0, 'sum prover: %s' % e)
        if ok:
            return self.record(name, 'proved', t0)
        w = why[-1] if why else None
        status = 'refuted' if (w and w[3] is not None) else 'unknown'
        return self.record(name, status, t0, 'sums differ: %s' % (str(w[1])[:600] if w else ''), w[3] if w else None)


def outer_sums(t):
    """sums of t that are not inside another sum"""
    out, done, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        d = T.agg_of(x)
        if d is not None and d.kind == 'sum':
            out.append(x)
        elif not z3.is_quantifier(x):
            stack.extend(x.children())
    return out


_flags = {}


def _scan(f):
    k = f.get_id()
    hit = _flags.get(k)
    if hit is not None and hit[0].eq(f):
        return hit
    q = nl = False
    for x in T.subterms(f):
        if z3.is_quantifier(x):
            q = True
        elif z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
            n = sum(1 for c in x.children() if not z3.is_int_value(c) and not z3.is_rational_value(c))
            if n > 1 or x.decl().kind() == z3.Z3_OP_POWER:
                nl = True
    r = (f, q, nl)
    _flags[k] = r
    return r


_syms = {}


def symbols(f):
    k = f.get_id()
    hit = _syms.get(k)
    if hit is None or not hit[0].eq(f):
        out = set()
        done = set()
        stack = [f]
        while stack:
            x = stack.pop()
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                stack.extend(x.children())
        hit = _syms[k] = (f, out)
    return hit[1]


def relevant(goals, facts, depth):
    """facts connected with the goals through at most `depth` steps of shared symbols"""
    syms = set()
    for g in goals:
        syms |= symbols(g)
    keep = [False] * len(facts)
    for _ in range(depth):
        new = set()
        for i, f in enumerate(facts):
            if not keep[i] and (symbols(f) & syms or not symbols(f)):
                keep[i] = True
                new |= symbols(f)
        if not new - syms:
            break
        syms |= new
    return [f for f, k in zip(facts, keep) if k]


def has_quantifier(f):
    return _scan(f)[1]


def nonlinear(f):
    return _scan(f)[2]


class _Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = _Undef()
