seed('c01-gcd-window', 'C01', [('randvar.py', "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:48])  # plenty to find the common factor\n")], '''
rv = RV(range(60), [2] * 50 + [3] * 10)
check(law(rv)[59] == F(3, 130) and law(rv)[0] == F(2, 130), law(rv)[59])
''', 'a die with more than 48 outcomes whose first 48 weights share a factor the later ones lack', 'weights are divided by a factor that does not divide them, so probabilities change')
seed('c02-float-keys', 'C02', [('randvar.py', "        d[k1 + k2] = v1 * v2\n", "        k = k1 + k2\n        d[round(k, 9) if isinstance(k, float) else k] = v1 * v2  # 0.1 + 0.2 and 0.3 are the same outcome\n")], '''
r = RV([1e-10, 2e-10], [1, 1]) + RV([0.0, 1e-10], [1, 1])
check(len(r.vals) >= 3, r.vals)
''', 'adding dice whose outcomes differ by less than 1e-9', 'sums are rounded, so distinct outcomes are merged')
seed('c03-binomial-path', 'C03', [('roller.py', "  half = _roll_int_rv(n // 2, d)\n  full = half + half\n  if n % 2 == 1:\n    full = full + d\n", """  if n > 6 and len(d.vals) == 2:  # closed form for coins
    (a, b), (p, q) = d.vals, d.probs
    full = RV([b * i + a * (n - i) for i in range(n + 1)], [math.comb(n, i) * p**i * q**(n - i) for i in range(n + 1)])
  else:
    half = _roll_int_rv(n // 2, d)
    full = half + half
    if n % 2 == 1:
      full = full + d
""")], '''
r = law(roll(8, RV([0, 1], [3, 1])))
check(r[0] == F(3, 4) ** 8, r)
''', 'seven or more rolls of an uneven two-outcome die', 'the two weights are exchanged')
seed('c04-order-cache', 'C04', [('randvar.py', "    def get_x(xi, k):\n", """    key = (self.vals, self.probs[0], self.probs[-1], N, k)
    if key in _ORDER_CACHE:
      return RV(*_ORDER_CACHE[key])

    def get_x(xi, k):
"""), ('randvar.py', "    res = RV(self.vals, res_prob)\n", "    res = RV(self.vals, res_prob)\n    _ORDER_CACHE[key] = (res.vals, res.probs)\n"),
 ('randvar.py', "class RV(MetaRV):\n", "_ORDER_CACHE = {}\n\n\nclass RV(MetaRV):\n")], '''
a = 1 @ roll(2, RV([1, 2, 3], [1, 2, 1]))
b = 1 @ roll(2, RV([1, 2, 3], [1, 5, 1]))
check(law(b)[1] == F(1, 49), law(b))
''', 'two different dice with the same outcomes and end weights, selected from one after the other', 'the second selection returns the first die\'s result')
seed('c05-uniform-test', 'C05', [('randvar.py', "      for v in roll:\n        cur_roll_probs *= pdf_dict[v]\n", "      uniform = D.probs[0] == D.probs[-1]\n      for v in roll:\n        if not uniform:\n          cur_roll_probs *= pdf_dict[v]\n")], '''
v, p = roll(2, RV([1, 2, 3], [1, 2, 1]))._get_expanded_possible_rolls()
d = {s._seq: w for s, w in zip(v, p)}
check(F(d[(2, 2)], sum(p)) == F(4, 16), d)
''', 'expanding a pool of a symmetric but uneven die', 'the weights of the rolls ignore the middle outcomes')
seed('c06-merge-duplicates', 'C06', [('randvar.py', "    prob_sums = tuple(sum(r.probs)", """    merged = {}  # the same die several times: add the weights
    for w, r in zip(weights, rvs):
      k = hash(r) if isinstance(r, RV) else id(r)
      merged[k] = (merged[k][0] + w, merged[k][1]) if k in merged else (w, r)
    weights, rvs = zip(*merged.values())
    prob_sums = tuple(sum(r.probs)""")], '''
r = RV.from_rvs([RV([-1, 3], [1, 1]), RV([-2, 3], [1, 1])], [1, 1])
check(law(r) == {-2: F(1, 4), -1: F(1, 4), 3: F(1, 2)}, law(r))
''', 'mixing dice whose hashes collide, such as outcomes -1 and -2', 'two different dice are taken for the same one')
seed('c07-single-face', 'C07', [('decorators.py', "        elif expected_type == T_S and isinstance(arg_val, MetaRV):\n", "        elif expected_type == T_S and isinstance(arg_val, MetaRV) and len(arg_val.vals) == 1:  # nothing to enumerate\n          new_val = get_seq(arg_val.vals)\n        elif expected_type == T_S and isinstance(arg_val, MetaRV):\n")], '''
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def size(A: T_S):
    return len(A)
r = size(roll(3, RV([4], [1])))
r = r if isinstance(r, int) else r.vals[0]
check(r == 3, r)
''', 'a pool of a die with a single outcome passed to a sequence parameter', 'the function sees one number, not one per die')
seed('c08-fill', 'C08', [('seq.py', "fillvalue=float('-inf')", "fillvalue=-10**9")], '''
check(bool(Seq(1) == Seq(1, -10**9)) is False)
check(bool(Seq(1) >= Seq(1, -2 * 10**9)) is False)
''', 'comparing sequences of different lengths with entries at or below -10**9', 'a missing entry no longer counts as smaller than every number')
seed('c09-tie-order', 'C09', [('randvar.py', "key=lambda x: x[1])\n", "key=lambda x: (x[1], x[0]))  # ties by value\n")], '''
from dice_calc.factory import get_seq
r = RV.from_seq(get_seq([1, 1, 1, 'x', 'y', 2]))
try:
    vp = r.get_vals_probs(0.2)
except TypeError as e:
    check(False, e)
check(len(vp) == 3, vp)
''', 'a cut on a die that mixes number and text outcomes of equal probability', 'the query raises instead of answering')
seed('c10-caller-list', 'C10', [('randvar.py', "    vals, probs = list(vals), tuple(probs)\n", "    vals, probs = vals if isinstance(vals, list) else list(vals), tuple(probs)\n")], '''
v = [True, 2, False]
RV(v, [1, 1, 1])
check(v[0] is True and v[2] is False, v)
''', 'building a die from a list that contains truth values', 'the list of the caller is rewritten')
seed('c11-depth-setting', 'C11', [('settings.py', "  SETTINGS[name] = value\n", "  if name == 'maximum function depth':\n    SETTINGS['INTERNAL_CURR_DEPTH'] = 0  # start counting for the new limit\n  SETTINGS[name] = value\n")], '''
from dice_calc.decorators import max_func_depth
from dice_calc.settings import settings_set, SETTINGS
seen = []
@max_func_depth()
def f(n):
    if n == 1:
        settings_set('maximum function depth', 3)
    seen.append(n)
    return f(n + 1)
f(0)
check(seen == [0, 1, 2], seen)
''', 'changing the limit from inside a running function', 'the calls already running are no longer counted')
seed('c12-substring', 'C12', [('settings.py', "assert value.lower() in ('true', 'false')", "assert value.lower() in 'true, false'")], '''
from dice_calc.settings import settings_set
for bad in ('', 'e', 'true, false', 'als'):
    try:
        settings_set('RV_TRUNC', bad)
    except AssertionError:
        continue
    check(False, bad)
''', 'a text value that is a part of "true, false"', 'invalid texts are accepted and stored as False')
seed('c13-select-blank', 'C13', [('blackrv.py', "      return 0 if other != 1 else self\n", "      return self if other == 1 else 0\n")], '''
r = Seq(1, 2) @ BlankRV(_special_null=True)
check(not isinstance(r, BlankRV) and r == 0, r)
''', 'selecting several positions, the first among them, from a roll of a blank number of dice', 'the blank is returned in place of 0')
seed('c14-middle', 'C14', [('funclib.py', "    FROM = 1 + (len(DICE) - NUMBER) // 2\n", "    FROM = 1 + round((len(DICE) - NUMBER) / 2)\n")], '''
from dice_calc.funclib import middle_N_of_D
d = roll(5, 3)
check(law(middle_N_of_D(2, d)) == law(Seq(2, 3) @ d))
''', 'the middle of a pool where the number left out is 3, 7, 11, ...', 'the selected window is shifted by one die')
seed('c15-casefold', 'C15', [('string_rvs.py', "    self.keys = tuple(sorted(keys))\n", "    self.keys = tuple(sorted(keys, key=str.lower))\n")], '''
from dice_calc.string_rvs import StringVal
a, b = StringVal.from_str('a'), StringVal.from_str('A')
check((a + b) == (b + a))
''', 'adding texts that differ only in case', 'the sum depends on the order')
seed('c18-stale-sum', 'C18', [('randvar.py', "  rv._get_sum_probs(force=True)  # force update sum\n", "  rv._get_sum_probs()  # update sum\n")], '''
r = RV([0, 1], [1, 10**20]) + RV([0, 1], [1, 10**20])
m = r.mean()
check(abs(m - 2) < 1e-6, m)
''', 'totals beyond the weight limit', 'statistics divide by the total before the reduction')
seed('c19-empty-name', 'C19', [('output.py', "    result += named + ' '\n\n  try:", "    result += (named + ' ').lstrip()\n\n  try:")], '''
from dice_calc.output import output
t = output(RV([1, 2], [1, 1]), named='  indented', print_=False)
check(t.startswith('  indented '), t)
''', 'a name that begins with blanks', 'the name is printed without them')
AD = '''
from dice_calc.parser.parse_and_exec import compile_anydice
'''
seed('c16-group-elision', 'C16', [('parser/python_resolver.py', "            return f'({self.resolve_node(node.val)})'\n", """            if node.val.type in (NodeType.GROUP, NodeType.UNARY, NodeType.HASH, NodeType.CALL):  # needs no parentheses of its own
                return self.resolve_node(node.val)
            return f'({self.resolve_node(node.val)})'
""")], AD + '''
from dice_calc.parser import parse_and_exec
import inspect
code = compile_anydice('output (-2)^2')
code = code if isinstance(code, str) else code[0]
line = [l for l in code.split(chr(10)) if l.startswith('output(')][0]
got = eval(line[len('output'):])
check(got == 4, code)
''', 'a parenthesized negation raised to a power', 'the sign is applied after the power')
seed('c17-tab', 'C17', [('parser/myparser.py', "t_instring_ignore = ''", "t_instring_ignore = '\\t'")], AD + '''
code = compile_anydice('A: 1 output 1 named "x[A]' + chr(9) + 'y"')
out = []
exec(code, dict(output=lambda *a, **k: out.append(k['named'])))
check(out == ['x1' + chr(9) + 'y'], out)
''', 'a text with a tab at its start or right after a variable', 'the tab is lost')
C20 = AD + '''
def compiled(t):
    try:
        return compile_anydice(t)
    except Exception:
        return None
'''
seed('c20-open-comment', 'C20', [('parser/myparser.py', "    r'\\\\(.|\\n)*?\\\\'\n", "    r'\\\\(.|\\n)*?(\\\\|\\Z)'\n")], C20 + '''
check(compiled('output 1 ' + chr(92) + 'x' + chr(92)) is not None, 'comment')
check(compiled('output 1 ' + chr(92) + ' output 2 + ') is None, 'open comment')
''', 'a comment that is never closed', 'everything after it is silently left out')
seed('c20-equality-tier', 'C20', [('parser/myparser.py', "  ('left', 'LESS', 'GREATER', 'EQUALS', 'NOTEQUALS'),  # Comparison operators\n", "  ('left', 'EQUALS', 'NOTEQUALS'),  # Comparison operators\n  ('left', 'LESS', 'GREATER'),\n")], C20 + '''
import ast
t = [l for l in compile_anydice('A: 2 output A = 1 < 3 named "x"').splitlines() if l.startswith('output')][0]
u = [l for l in compile_anydice('A: 2 output (A = 1) < 3 named "x"').splitlines() if l.startswith('output')][0]
n = {'vars': 0}
shape = lambda s: ast.dump(ast.parse(s).body[0].value.args[0])
check(shape(t) == shape(u), t, u)
''', 'an equality followed by an order comparison without parentheses', 'the comparison binds tighter than the equality')
seed('c20-recover', 'C20', [('parser/ply/yacc.py', "                if errorcount == 0 or self.errorok:\n", "                if lookahead.type == '$end' and len(statestack) > 1 and '$end' in actions[statestack[1]] and symstack[1].type == 'multiline_code':\n                    # the end of the input inside an unfinished last statement: keep what is complete\n                    del statestack[2:]\n                    del symstack[2:]\n                    state = statestack[-1]\n                    continue\n                if errorcount == 0 or self.errorok:\n")], C20 + '''
check(compiled('output 1') is not None, 'plain')
check(compiled('output 1 output 2 +') is None, 'unfinished')
check(compiled('output 1 if 1 {') is None, 'unfinished')
''', 'a last statement that is not finished, after complete ones', 'it is dropped silently')
seed('c17-param-word', 'C17', [('parser/myparser.py', "        if len(p) == 3:  # var_name\n            param = Node(NodeType.PARAM, p[2])\n        else:  # var_name COLON dtype\n            param = Node(NodeType.PARAM_WITH_DTYPE, p[2], p[4])\n        p[0] = p[1].with_child(param)\n", "        if len(p) == 3:  # var_name\n            param = Node(NodeType.PARAM, p[2])\n        else:  # var_name COLON dtype\n            param = Node(NodeType.PARAM_WITH_DTYPE, p[2], p[4])\n        if not isinstance(p[1].vals[-1], str):  # keep neighbouring parameters together\n            p[1].vals.insert(len(p[1].vals) - (len(p) == 3), param)\n            p[0] = p[1]\n        else:\n            p[0] = p[1].with_child(param)\n")], AD + '''
code = compile_anydice('function: f A B:n { result: A } output [f 1 2]')
check('f' in code, code)
code = compile_anydice('function: f A:n B x { result: A } output [f 1 2 x]')
d = [l for l in code.splitlines() if l.startswith('def ')][0]
check(d.index('A') < d.index('B'), d)
''', 'an untyped parameter right after another parameter', 'the two parameters change places')
seed('c16-elif-merge', 'C16', [('parser/myparser.py', "        p[0] = [*p[1], Node(NodeType.ELSEIF, p[4], p[6])]\n", "        if repr(p[1][-1].vals[1]) == repr(p[6]):  # same body: one condition for both\n            p[1][-1].vals[0] = Node(NodeType.EXPR_OP, '|', p[1][-1].vals[0], p[4])\n            p[0] = p[1]\n        else:\n            p[0] = [*p[1], Node(NodeType.ELSEIF, p[4], p[6])]\n")], AD + '''
code = compile_anydice('A: 1 if A = 5 { output 1 } else if A { output 2 } else if A { output 2 } else { output 3 }')
import ast
ifs = [n for n in ast.walk(ast.parse(code)) if isinstance(n, ast.If)]
check(len(ifs) == 3, code)
''', 'two neighbouring else-if branches with the same body', 'their conditions are merged into a boolean expression, evaluated with another meaning')
