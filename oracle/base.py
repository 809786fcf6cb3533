"""Executable side of the contracts: reference semantics, input generation, replay.

Nothing here is shared with /repo: laws are plain dictionaries outcome -> exact weight, built by naive enumeration.
"""
import ast
import importlib.util
import itertools
import json
import math
import os
import random
import sys
import time
import logging
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
logging.disable(logging.CRITICAL)


def load():
    """the real package, from /repo's current working tree"""
    if 'dice_calc' in sys.modules:
        return sys.modules['dice_calc']
    sys.dont_write_bytecode = True
    spec = importlib.util.spec_from_file_location('dice_calc', os.path.join(SRC, '__init__.py'),
                                                  submodule_search_locations=[SRC])
    m = importlib.util.module_from_spec(spec)
    sys.modules['dice_calc'] = m
    spec.loader.exec_module(m)
    return m


def sub(name):
    load()
    return importlib.import_module('dice_calc.' + name)


def mined():
    """integer and text constants of the current source: candidate trigger values"""
    ints, strs = set(), set()
    for root, _, files in os.walk(SRC):
        if 'ply' in root:
            continue
        for f in files:
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(root, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, bool):
                            pass
                        elif isinstance(n.value, int):
                            ints.add(n.value)
                        elif isinstance(n.value, float) and n.value == n.value and abs(n.value) < 1e9:
                            ints.add(int(n.value))
                            strs.add(repr(n.value))
                        elif isinstance(n.value, str) and 0 < len(n.value) <= 12:
                            strs.add(n.value)
    return sorted(ints, key=abs), sorted(strs)


class Fail(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


def need(cond, msg):
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


# ------------------------------------------------------------------ reference laws

class Law(dict):
    """outcome -> exact non-negative weight (int or Fraction); only proportions matter"""

    def norm(self):
        t = sum(self.values())
        return {k: Fraction(w) / t for k, w in self.items() if w} if t else {}

    @staticmethod
    def of(vals, probs):
        d = Law()
        for v, p in zip(vals, probs):
            if v is True or v is False:
                v = int(v)
            d[v] = d.get(v, 0) + p
        return d

    def map(self, f):
        d = Law()
        for v, w in self.items():
            x = f(v)
            d[x] = d.get(x, 0) + w
        return d

    def comb(self, other, f):
        d = Law()
        for v, w in self.items():
            for v2, w2 in other.items():
                x = f(v, v2)
                d[x] = d.get(x, 0) + w * w2
        return d

    def total(self):
        return sum(self.values())


def law_of(rv):
    """law of a real RV, with representation sanity"""
    return Law.of(rv.vals, rv.probs)


LIMIT = 10 ** 31


def same_law(got, want, what):
    """equality of laws; when the integer weights of `want` (naive total) exceed the documented limit the stored weights
    may be a scaled-down version, and every probability may differ by the documented bound"""
    a, b = got.norm(), want.norm()
    if a != b:
        ints = all(isinstance(w, int) for w in want.values())
        g = math.gcd(*want.values()) if ints and want else 1
        if ints and want.total() // (g or 1) > LIMIT or not ints and want_total_lb(want) > LIMIT:
            tol = Fraction(1000 * (len(b) + len(a)) ** 2, 10 ** 19)
            if all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b)):
                return
        ks = [k for k in list(a) + list(b) if a.get(k, 0) != b.get(k, 0)]
        raise Fail('%s: law differs at %s' % (what, ', '.join('%r: got %s want %s' % (k, a.get(k, 0), b.get(k, 0)) for k in ks[:3])))


def want_total_lb(law):
    """smallest integer total that represents a law with fractional weights"""
    n = law.norm()
    return math.lcm(*[w.denominator for w in n.values()]) if n else 1


def canonical(rv, what):
    v, p = rv.vals, rv.probs
    need(isinstance(v, tuple) and isinstance(p, tuple) and len(v) == len(p) and len(v) >= 1, '%s: vals/probs not matching tuples: %r %r' % (what, v, p))
    need(all(type(x) in (int, float) or hasattr(x, 'keys') for x in v), '%s: outcome type: %r' % (what, v))
    need(all(type(x) is int and x >= 0 for x in p), '%s: weights must be non-negative ints: %r' % (what, p))
    need(all(v[i] < v[i + 1] for i in range(len(v) - 1)), '%s: outcomes not strictly increasing: %r' % (what, v))


def pool_law_tuples(law, n):
    """sorted (descending) n-tuples of independent draws -> weight"""
    items = sorted(law.items(), key=lambda x: x[0], reverse=True)
    out = {(): 1}
    res = {}
    # multinomial enumeration
    def rec(i, left, tup, w):
        if i == len(items) - 1:
            v, p = items[i]
            t = tup + (v,) * left
            res[t] = res.get(t, 0) + w * p ** left
            return
        v, p = items[i]
        for c in range(left, -1, -1):
            rec(i + 1, left - c, tup + (v,) * c, w * math.comb(left, c) * p ** c)
    if n == 0:
        return {(): 1}
    if not items:
        return {}
    rec(0, n, (), 1)
    return res


def nfold(law, n):
    if n < 0:
        return nfold(law, -n).map(lambda v: -v)
    res = Law({0: 1})
    base = law
    first = True
    for _ in range(n):
        res = base if first else res.comb(base, lambda a, b: a + b)
        first = False
    return Law(res)


# ------------------------------------------------------------------ settings

class settings:
    """temporarily set SETTINGS entries of the real package"""

    def __init__(self, **kw):
        self.kw = {k.replace('__', ' '): v for k, v in kw.items()}

    def __enter__(self):
        s = sub('settings').SETTINGS
        self.s, self.old = s, dict(s)
        s.update(self.kw)

    def __exit__(self, *a):
        self.s.clear()
        self.s.update(self.old)


def reset_state():
    """a fresh history: default settings, empty caches"""
    sub('settings').settings_reset()
    for mod, name in (('roller', '_MEMOIZED_ROLLS'), ('utils', '_memoized')):
        d = getattr(sub(mod), name, None)
        if isinstance(d, dict):
            d.clear()


# ------------------------------------------------------------------ value descriptors

def build(d):
    """real object of a descriptor"""
    L = load()
    k = d[0]
    if k == 'num':
        return d[1]
    if k == 'rv':
        return L.RV(list(d[1]), list(d[2]))
    if k == 'srv':
        return L.RV.from_seq(L.get_seq(*d[1]))
    if k == 'seq':
        return L.Seq(*[build(x) if isinstance(x, (list, tuple)) else x for x in d[1]])
    if k == 'list':
        return [build(x) if isinstance(x, (list, tuple)) else x for x in d[1]]
    if k == 'tuple':
        return tuple(build(x) if isinstance(x, (list, tuple)) else x for x in d[1])
    if k == 'range':
        return range(d[1], d[2])
    if k == 'roll':
        return L.roll(d[1], build(d[2]))
    if k == 'blank':
        return L.BlankRV()
    if k == 'sblank':
        return L.BlankRV(_special_null=True)
    if k == 'none':
        return None
    if k == 'str':
        return d[1]
    raise ValueError(d)


def flat(d):
    """numbers of a seq/list descriptor in order, dice outcomes last"""
    nums, rvs = [], []

    def rec(x):
        if isinstance(x, (list, tuple)):
            if x[0] in ('seq', 'list', 'tuple'):
                if x[0] == 'seq':
                    nums.extend(flat(x))
                else:
                    for y in x[1]:
                        rec(y)
            elif x[0] == 'range':
                nums.extend(range(x[1], x[2]))
            elif x[0] == 'num':
                nums.append(x[1])
            elif x[0] in ('rv', 'roll'):
                rvs.append(x)
            elif x[0] == 'blank':
                pass
            else:
                raise ValueError(x)
        else:
            nums.append(x)
    for y in d[1]:
        rec(y)
    for r in rvs:
        nums.extend(sorted(ref(r)))
    return nums


def ref(d):
    """reference law of a die descriptor (n-fold for rolls)"""
    k = d[0]
    if k == 'num':
        return Law({d[1]: 1})
    if k == 'rv':
        return Law.of(d[1], d[2])
    if k in ('seq', 'list', 'tuple'):
        f = flat(d)
        return Law.of(f, [1] * len(f)) if f else Law({0: 1})
    if k == 'range':
        return Law.of(range(d[1], d[2]), [1] * (d[2] - d[1]))
    if k == 'roll':
        return nfold(side_law(d[2]), d[1])
    raise ValueError(d)


def side_law(d):
    """law of a die given as 'sides' argument of a roll"""
    if d[0] == 'num':
        k = d[1]
        if isinstance(k, float):
            return Law({k: 1})
        if k > 0:
            return Law({i: 1 for i in range(1, k + 1)})
        if k < 0:
            return Law({i: 1 for i in range(k, 0)})
        return Law({0: 1})
    return ref(d)


def pool_of(d):
    """(n, base law) of a die descriptor seen as a pool"""
    if d[0] == 'roll' and d[1] >= 2:
        return d[1], side_law(d[2])
    if d[0] == 'roll' and d[1] == 1 and d[2][0] in ('roll', 'rv'):
        return pool_of(d[2])
    return 1, ref(d)


# ------------------------------------------------------------------ generators

class Gen:
    def __init__(self, seed, tier):
        self.r = random.Random(seed)
        self.tier = tier
        self.ints, self.strs = mined()
        self.small = [0, 1, -1, 2, 3, -2, 4, 5, 6, 7, 10, -3]
        self.mid = [i for i in self.ints if abs(i) <= 60] or [1]
        self.mix = [i for i in self.ints if abs(i) <= 10 ** 9] or [1]     # next to floats: sums stay exact
        self.big = [i for i in self.ints if abs(i) <= 10 ** 40]

    def val(self, floats=True):
        x = self.r.random()
        if x < .6:
            return self.r.choice(self.small)
        if x < .75:
            return self.r.randint(-30, 30)
        if x < .85:
            return self.r.choice(self.mix if floats else self.big) + self.r.choice((0, 0, 1, -1))
        if x < .89 and not floats:
            return self.r.choice((1, -1)) * 10 ** self.r.randint(2, 25) * self.r.randint(1, 9) + self.r.choice((0, 0, 1))
        if floats and x < .91:
            return self.r.choice((1.0, -1.0)) * self.r.randint(1, 9) * 2.0 ** -self.r.randint(2, 16)
        if floats and x < .95:
            return self.r.choice((0.5, 1.5, -0.5, 2.0, 1.0, -1.0, 2.25, -2.5, 0.0, 0.125, 3.75))
        return self.r.randint(-1000, 1000)

    def ival(self):
        return self.val(floats=False)

    def weight(self):
        x = self.r.random()
        if x < .7:
            return self.r.randint(1, 6)
        if x < .78:
            return 0
        if x < .9:
            return abs(self.r.choice(self.mid))
        if x < .97:
            return self.r.randint(1, 10 ** 4)
        return self.r.choice((10 ** 9, 10 ** 15, 2 ** 31, 2 ** 53 + 1, 10 ** 12))

    def die(self, maxn=5, floats=True, positive=True, zero_ok=True):
        while True:
            n = self.r.randint(1, maxn)
            if maxn >= 5 and self.r.random() < .02:
                n = self.r.randint(20, 130)
            vals = [self.val(floats) for _ in range(n)]
            if self.r.random() < .3:
                vals = sorted(set(vals))
                n = len(vals)
            style = self.r.random()
            if style < .3:
                probs = [1] * n
            else:
                probs = [self.weight() for _ in range(n)]
                if not zero_ok:
                    probs = [p or 1 for p in probs]
            if style > .85 and n > 2:     # shapes: palindromes, a common factor with one exception
                if self.r.random() < .5:
                    probs = [min(i + 1, n - i) for i in range(n)]
                else:
                    f = self.r.choice((2, 3, 6, 10))
                    probs = [f * self.r.randint(1, 4) for _ in range(n)]
                    probs[self.r.choice((0, -1, n // 2))] += 1
            if not positive or sum(probs) > 0:
                return ('rv', vals, probs)

    def sdie(self, maxn=4, **k):
        """small die for pools"""
        while True:
            n = self.r.randint(1, maxn)
            vals = [self.r.choice(self.small) if self.r.random() < .8 else self.val(**k) for _ in range(n)]
            probs = [self.r.choice((1, 1, 2, 3, 5, 0, 4, 6)) for _ in range(n)]
            if sum(probs) > 0:
                return ('rv', vals, probs)

    def seq(self, maxn=5, floats=True):
        n = self.r.randint(0, maxn)
        return ('seq', [self.val(floats) for _ in range(n)])

    def size(self, hi=8):
        return self.r.randint(0, hi) if self.r.random() < .8 else min(abs(self.r.choice(self.mid)), 40)


# ------------------------------------------------------------------ driver

class Search:
    """run cases until the budget is used; first failure is shrunk and returned"""

    def __init__(self, module, seed, tier, budget, extra=(), shard=0, shards=1):
        self.shard, self.shards = shard, shards
        self.m, self.seed, self.tier, self.budget = module, seed, tier, budget
        self.extra = list(extra)
        self.n = 0
        self.nfixed = 0
        self.keys = set()
        self.samples = []

    def run_case(self, case, limit=20):
        try:
            reset_state()
            self.m.check(case)
            return None
        except Fail as e:
            return e.msg
        except RecursionError as e:
            return 'RecursionError: %s' % e
        except Exception as e:      # an unexpected exception of the real code is a failure of the case
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any('/src/' in f.filename for f in tb):
                raise
            return 'unexpected %s: %s at %s' % (type(e).__name__, str(e)[:200], [f.name for f in tb if '/src/' in f.filename][-3:])
        finally:
            reset_state()

    def go(self):
        t0 = time.time()
        g = Gen(self.seed * 1000 + self.shard, self.tier)
        fixed = itertools.chain(self.extra, self.m.fixed(Gen(1, self.tier)))
        mine = (c for i, c in enumerate(fixed) if i % self.shards == self.shard)
        rnd = self.m.random(g)
        limit = 6 * self.budget
        for is_rnd, case in itertools.chain(((0, c) for c in mine), ((1, c) for c in rnd)):
            if time.time() - t0 > (self.budget if is_rnd else limit):
                break
            self.nfixed += not is_rnd
            self.n += 1
            key = repr(case)
            self.keys.add(hash(key))
            if len(self.samples) < 5 and (self.n in (1, 7, 50, 300, 1000)):
                self.samples.append(key[:300])
            msg = self.run_case(case)
            if msg is not None:
                return dict(case=case, message=msg)
        return None
