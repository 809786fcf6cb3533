#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Construction is exact and canonical',
     "Building a random variable from any list of outcomes and non-negative integer weights gives strictly increasing, duplicate-free outcomes with integer weights free of a common factor, in which every outcome's weight is proportional to the total weight the input gave that outcome (booleans count as 0/1, and outcomes are truncated towards zero first when truncation is requested or switched on). Every listed outcome is kept, zero-weight ones included unless the ignore-zero setting is on, and an empty list gives the constant 0. Lists of different lengths and negative weights are rejected.",
     ['inputs', 'configurations'], 'all finite outcome lists and weight lists, all truncation / ignore-zero settings',
     'the suite builds about twenty hand-picked lists of length <= 5; the claim is about every list, including runs of equal outcomes of any length and weights of any size',
     ['src/randvar.py'], [('RV constructor', 'src/randvar.py RV.__init__'), ('sort / merge / normalise', 'src/randvar.py RV._sort_and_group, _get_zip, _get_new_zipped, _get_normalized'), ('constant and sequence dice', 'src/randvar.py RV.from_const, RV.from_seq')],
     [('vals / probs', 'outcomes and integer weights', 'src/randvar.py RV')], ['RV.vals', 'RV.probs'])
prop('C02', 'Operators give the exact law of independent operands',
     "For every arithmetic, comparison and boolean operator, combining a die with a die, a number or a sequence (on either side) gives exactly the distribution of applying that operator, in the written operand order, to independent draws, where a sequence counts as its sum. Unary operators (negation, absolute value, rounding, floor, ceiling, truncation) give the distribution of the operator applied to one draw, and logical not of a die is the constant 1 exactly for the constant-0 die and the constant 0 otherwise. Results are exact as long as the total weight stays within the documented 10^31 limit.",
     ['inputs'], 'all pairs of dice with any number of outcomes, all numbers and sequences, all operators, both operand orders',
     'tests compare a few dozen small dice sums; a slip in one reflected operator, in one accumulation branch or only for colliding outcomes passes them',
     ['src/randvar.py', 'src/seq.py'], [('pairwise combination', 'src/randvar.py RV._convolve, RV._rconvolve, _rdict.fast_convolve, _rdict.__setitem__, _rdict.to_tuples'), ('operator methods', 'src/randvar.py RV.__add__ .. RV.__trunc__'), ('sequence operators', 'src/seq.py Seq.__add__ .. Seq.__rand__')],
     observe=['RV.vals', 'RV.probs'])
prop('C03', 'Rolling n dice is the law of n independent dice',
     "Rolling n copies of a die gives exactly the distribution of the sum of n independent copies (0 copies give the constant 0, a negative count the negated sum, a sequence count its sum, and a die as count the mixture over its outcomes), within the 10^31 weight limit. A positive number of sides k is the uniform die 1..k, a negative one the uniform die k..-1, zero the constant 0, and a sequence the die drawing uniformly from its entries. The result depends only on the count and the die, not on anything rolled before.",
     ['inputs', 'histories'], 'all counts, all dice, all previously rolled pools (the roll cache)',
     'tests roll a handful of pools in a fixed order; halving, odd-count and cache-key mistakes show only for particular counts, dice and histories',
     ['src/roller.py', 'src/randvar.py'], [('repeated doubling', 'src/roller.py _roll_int_rv'), ('argument normalisation', 'src/roller.py roll, _roll, _parse_from_str'), ('cache', 'src/roller.py _MEMOIZED_ROLLS')],
     [('roll cache', 'count and die -> pool', 'src/roller.py _MEMOIZED_ROLLS')], ['roll(n, d)'])
prop('C04', 'Selecting positions from a pool is the exact order statistic',
     "Selecting position k from a pool of n dice gives exactly the distribution of the k-th highest (or k-th lowest when the position order setting says so) of n independent draws, and the number 0 when k is not between 1 and n. Selecting several positions gives exactly the distribution of the sum of those positions of the sorted draw. Every pool is selectable whatever its size or weights.",
     ['inputs', 'configurations'], 'all dice and weights, all pool sizes, all positions, both position orders',
     'tests check small fair pools; non-uniform weights, ties, large pools and the lowest-first order are sampled at one or two points',
     ['src/randvar.py', 'src/decorators.py'], [('order statistic formula', 'src/randvar.py RV._get_kth_order_statistic'), ('selection entry point', 'src/randvar.py RV.__rmatmul__, _sum_at'), ('cumulative weights', 'src/randvar.py RV.get_cdf')],
     observe=['k @ pool'])
prop('C05', 'A pool expands to every sorted roll with its multinomial weight',
     "When a pool of n dice is passed where a sequence is expected, the function sees each possible sorted roll exactly once, highest first, with weight equal to the total weight of the ordered rolls that sort to it. The weights therefore add up to the n-th power of the die's total weight.",
     ['inputs'], 'all dice with any weights, all pool sizes',
     'tests expand pools of at most three fair dice; the multiplicity of repeated faces and non-uniform weights is barely sampled',
     ['src/randvar.py', 'src/utils.py'], [('expansion', 'src/randvar.py RV._get_expanded_possible_rolls'), ('factorial cache', 'src/utils.py factorial')],
     observe=['functions taking a sequence parameter'])
prop('C06', 'Mixing dice follows the law of total probability',
     "Merging any list of dice and numbers with non-negative integer weights gives exactly the mixture in which each entry is chosen with probability proportional to its weight and then drawn, whatever the scale of each entry's own weights. Missing and blank entries are left out together with their weight, and a list with nothing else gives the blank die.",
     ['inputs'], 'all lists of dice, numbers, blanks and None, all weights',
     'only the callers are tested; scaling of entries with different total weights and the alignment of weights with dropped entries is not',
     ['src/randvar.py', 'src/factory.py'], [('mixture', 'src/randvar.py RV.from_rvs'), ('entry point', 'src/factory.py merge_rvs')], observe=['merge_rvs', 'RV.from_rvs'])
prop('C07', 'Function casting enumerates exactly the joint rolls',
     "Calling a cast function gives each annotated parameter the declared kind: a number parameter receives a number, a sequence parameter a sequence, a die parameter a die; a number becomes a one-element sequence or a constant die, and a sequence becomes its sum or the die of its entries. When dice meet number or sequence parameters the result is exactly the mixture of the function's results over all joint outcomes of those independent dice, weighted by the product of their weights, with every other argument passed unchanged. A blank die passed where a number or sequence is expected skips the call and gives a blank result.",
     ['inputs', 'programs'], 'all functions, all argument kinds in positional and keyword position, all dice',
     'tests call about ten functions; the 3x3 casting table, keyword arguments and joint enumeration are sampled, not covered',
     ['src/decorators.py', 'src/factory.py'], [('casting wrapper', 'src/decorators.py anydice_type_casting'), ('conversion', 'src/factory.py get_seq, get_rv, merge_rvs')], observe=['decorated functions'])
prop('C08', 'Sequences behave as documented for every content',
     "A sequence built from numbers, nested iterables and dice holds the numbers in order, followed by the outcomes of the dice. Position i is the i-th element counted from 1 and 0 outside; selecting with a sequence of positions adds the selected elements; arithmetic uses the sum; comparing with a number counts the matching elements; comparing two sequences holds exactly when it holds at every position with missing elements lowest, and different means not equal. Selecting from a whole number selects its decimal digits, ranges include both ends, and logical and/or/not treat a sequence as true exactly when its sum is non-zero.",
     ['inputs'], 'all sequence contents and lengths, all indices and numbers',
     'tests list small literal sequences; lengths, padding, out-of-range indices and operand order are only sampled',
     ['src/seq.py', 'src/factory.py', 'src/utils.py', 'src/roller.py'], [('sequence type', 'src/seq.py Seq'), ('construction', 'src/factory.py get_seq, src/utils.py flatten'), ('integer operators', 'src/utils.py mymatmul, mylen, myinvert, myand, myor'), ('ranges', 'src/roller.py myrange')], observe=['Seq'])
prop('C09', 'Statistics and queries are those of the distribution',
     "Mean and standard deviation are those of the distribution, and the reported outcome probabilities are the weights divided by the total weight, so they add up to 1. The cumulative query assigns to each outcome the weight of all outcomes up to it; filtering removes exactly the listed outcomes and leaves the others' relative weights unchanged; a cut removes only the least likely outcomes, with total probability below the cut. Random rolling draws among the outcomes with their weights.",
     ['inputs'], 'all dice',
     'tests check literals rounded to two digits; the claim covers every die, filter and cut',
     ['src/randvar.py', 'src/roller.py'], [('statistics', 'src/randvar.py RV.mean, RV.std'), ('queries', 'src/randvar.py RV.get_vals_probs, RV.get_cdf, RV.filter'), ('sampling', 'src/roller.py roller')], observe=['mean()', 'std()', 'get_vals_probs()', 'filter()', 'get_cdf()', 'roller()'])
prop('C10', 'No operation changes the dice or sequences it is given',
     "No operator, roll, selection, query, merge or cast call changes the outcomes, weights, pool origin or displayed name of a die it was given or of any die obtained earlier, nor the contents of a sequence. Equal calls made at different times give equal results and equal displayed names.",
     ['histories', 'inputs'], 'all operation sequences over shared dice, including repeated rolls served from the cache',
     'tests build every object afresh and compare values once; aliasing needs two operations on one object and a look at the first one afterwards',
     ['src/roller.py', 'src/randvar.py', 'src/seq.py'], [('fresh results', 'src/randvar.py RV operators build new objects'), ('cache', 'src/roller.py _MEMOIZED_ROLLS'), ('display name', 'src/roller.py roll / _setup_str_LHS_RHS')],
     [('roll cache', 'shared pools', 'src/roller.py'), ('display name', 'left/right part of NdM', 'src/randvar.py RV._str_LHS_RHS')], ['str(die)', 'RV.vals', 'RV.probs', '#die'])
prop('C11', 'The function-depth limit is exact and always released',
     "A depth-limited function runs its body exactly when fewer than the configured maximum of such calls are active, and otherwise gives the blank die without running. Whatever a call does - return a value, return nothing, raise an error or recurse - the number of active calls afterwards is what it was before, so limits never leak into later calls; a call that returns nothing gives the blank die.",
     ['histories', 'inputs'], 'all call trees, depths, return values and exceptions at any point',
     'tests recurse normally; the balance after an exception or after the limit is hit needs a second call to observe',
     ['src/decorators.py', 'src/settings.py'], [('depth guard', 'src/decorators.py max_func_depth'), ('composition', 'src/decorators.py anydice_casting')], [('current depth', 'number of active limited calls', 'src/settings.py SETTINGS')], ['decorated functions'])
prop('C12', 'Settings accept only valid values and change atomically',
     "Setting a name stores the value exactly when the name is a public setting and the value is valid for it (position order highest/lowest first; positive integer depths and width; booleans, or the words true/false in any case, for the switches; a callable printer), and otherwise raises and leaves every setting unchanged. Setting one name never changes another, and resetting restores every setting to its initial value.",
     ['inputs', 'histories'], 'all names and values, all sequences of set / reset',
     'tests set three or four valid values; rejection, atomicity and reset after arbitrary histories are not exercised',
     ['src/settings.py'], [('validation', 'src/settings.py settings_set'), ('reset', 'src/settings.py settings_reset')], [('settings table', 'name -> value', 'src/settings.py SETTINGS')], ['settings_set', 'settings_reset'])
prop('C13', 'The blank die is neutral or absorbing exactly as defined',
     "Adding a blank die to anything gives the other operand, subtracting it gives the other operand and subtracting from it gives the negation; products, quotients, powers, remainders and comparisons with it are blank; 'or' with it gives the other operand and 'and' with it is blank. These hold with the blank die on either side and for number, sequence, die and blank operands, and a blank die is never used as a truth value.",
     ['inputs'], 'all operators, both sides, all operand kinds',
     'tests exercise a few additions; each operator/side/operand-kind combination is its own code path',
     ['src/blackrv.py', 'src/randvar.py'], [('blank operators', 'src/blackrv.py BlankRV'), ('hand-over from dice', 'src/randvar.py RV._convolve, _rconvolve')], observe=['BlankRV operators'])
prop('C14', 'Library functions compute what the AnyDice library documents',
     "For every argument: absolute is |n|; contains is 1 exactly when the sequence has the number; count adds, over the listed values, how often each occurs in the sequence; reverse and sort give the reversed and the descending sequence; maximum is the largest face; highest/lowest of two numbers is the larger/smaller. Highest, lowest and middle N of a pool add exactly the positions documented for that selection, and exploding a die re-rolls and adds on its maximum face at most the configured number of times. Dice arguments to number or sequence parameters give the distribution of these results.",
     ['inputs', 'configurations'], 'all numbers, sequences, dice, depths',
     'tests replay the documentation examples; other lengths, duplicates, zero/negative counts and depths are open',
     ['src/funclib.py'], [('library', 'src/funclib.py')], observe=['absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'maximum_of_X', 'reverse_X', 'sort_X'])
prop('C15', 'Text outcomes are totally ordered and combine consistently',
     "Text outcomes are totally ordered: exactly one of less, equal, greater holds for any two, the order is transitive, and <=, >=, != agree with it. Equal outcomes have equal hashes, adding is commutative and adds coefficients label by label, so no outcome is listed twice however it was reached.",
     ['inputs'], 'all text outcomes with any labels and coefficients',
     'tests add two or three labels; order laws and hash agreement need arbitrary pairs and triples',
     ['src/string_rvs.py'], [('text value', 'src/string_rvs.py StringVal')], observe=['dice over strings'])
prop('C16', 'Compiled code groups every expression as AnyDice does',
     "For every parsed program the compiled Python evaluates each expression with exactly the operator, operand order and grouping of the AnyDice parse tree, for every nesting of operators, unary signs, selections, rolls, sequences, ranges and calls, and with every compiler flag. Statements, branches and loop bodies are kept, in order, in the same block structure.",
     ['programs', 'configurations'], 'all programs (parse trees of any depth), all compiler flags',
     'tests run some fifty programs; pairs of adjacent operators with different Python and AnyDice precedence are mostly absent',
     ['src/parser/python_resolver.py', 'src/parser/myparser.py'], [('code generator', 'src/parser/python_resolver.py PythonResolver.resolve_node, _indent_resolve')], observe=['compile_anydice'])
prop('C17', 'Compiled names and texts keep their meaning',
     "In compiled programs a call reaches exactly the function the AnyDice program defines under that name and parameter positions, or the library function of that name; calling anything undefined and programs without output are rejected, and a program's own function names never replace the helpers the generated code itself uses. Texts come out character for character as written, with only bracketed variable names replaced by their values. Compiling the same program twice gives the same code and no compilation changes a later one.",
     ['programs', 'histories'], 'all programs, names, texts and compilation histories',
     'tests define a few functions with ordinary names and texts',
     ['src/parser/python_resolver.py', 'src/parser/parse_and_exec.py'], [('names', 'src/parser/python_resolver.py resolve, resolve_node FUNCTION/CALL/STRING'), ('pipeline', 'src/parser/parse_and_exec.py compile_anydice')], observe=['compile_anydice', 'executing the compiled code'])
prop('C18', 'Weight reduction is invisible or negligibly small',
     "When the total weight of a result is at most 10^31 nothing is changed. Above it the weights are scaled down together so that every outcome keeps its place, weights stay non-negative integers, and each probability moves by at most (number of outcomes) x 10^-19. Totals of any size are handled without error.",
     ['inputs'], 'all weight vectors of any length and magnitude',
     'no test reaches the limit with a value check',
     ['src/randvar.py'], [('limiter', 'src/randvar.py _INTERNAL_PROB_LIMIT_VALS')], observe=['dice with huge total weight'])
prop('C19', 'The printed report lists the distribution faithfully',
     "The textual report of a die has one line per outcome, in order, showing that outcome and its probability in percent to two decimals, preceded by the name (if given), mean and standard deviation. Blank dice and empty sequences are reported with no outcome line, and the report is returned, printed or handed to the given printer, exactly once, with the same text.",
     ['inputs', 'configurations'], 'all dice, names, widths and print settings',
     'tests call the printer without looking at the text',
     ['src/output.py'], [('report', 'src/output.py output, _output_blank')], observe=['output(...)'])
prop('C20', 'The parser accepts exactly the AnyDice grammar',
     "Every text of the AnyDice grammar is accepted with the documented precedence and associativity, every other text is rejected with an error and never silently truncated, and comments and white space do not change the result.",
     ['programs'], 'all texts',
     'tests parse some fifty programs',
     ['src/parser/myparser.py', 'src/parser/ply/lex.py', 'src/parser/ply/yacc.py'], [('grammar', 'src/parser/myparser.py'), ('LALR engine', 'src/parser/ply/yacc.py')], observe=['compile_anydice'])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')
