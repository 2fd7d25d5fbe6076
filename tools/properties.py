"""Writes /verif/properties.jsonl."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe or ['the special value, primer and symbols of the returned number'], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


H, C, R, S, K, L, CO = ('src/strategy/homographic.rs', 'src/strategy/combine.rs', 'src/strategy/ratio.rs',
                        'src/strategy/support.rs', 'src/strategy/consume.rs', 'src/lib.rs', 'src/compare.rs')

prop('C01', 'A homographic transformation yields exactly (a x + b) / (c x + d)',
     'For every number x and integers a, b, c, d with c x + d not zero, the number returned by the homographic transformation is '
     'exactly (a x + b) / (c x + d): its special value or primer and every symbol of its expansion are those of that value. '
     'Whether the operand is special, which primer it has and how long its expansion is make no difference. '
     'The only permitted alternative is a panic, when machine integers do not suffice.',
     ['inputs', 'programs'], 'all operands and all coefficient quadruples',
     'The tests try a few hand-picked coefficient sets on operands such as 1/2, 2 and -1/3; a wrong boundary in an image test or a '
     'sign error in one normalisation step shows only for particular combinations of operand and coefficients.',
     [H, S], [('coefficient update on reading a symbol', H), ('range tests before a symbol or primer is issued', H + ', ' + S)],
     [('nx, n, dx, d', 'coefficients of what is still to be computed', H)])

prop('C02', 'A combine yields exactly the bilinear fraction of its two operands',
     'For all numbers x and y and integer coefficients, the number returned by combine is exactly '
     '(a x y + b x + c y + d) / (e x y + f x + g y + h) whenever that is defined, symbol by symbol; sums, differences, products and '
     'quotients are instances. It does not matter which operand is special, which primers they have or which ends first. '
     'The only permitted alternative is a panic, when machine integers do not suffice.',
     ['inputs', 'programs'], 'all pairs of operands and all coefficient octuples',
     'Eight coefficients, two operands with seven kinds each, and an order of reading decided by the code: the tests touch a few dozen '
     'points of that space.',
     [C, H, S], [('updates on reading a symbol of either operand', C), ('corner tests of the unit square', C + ', ' + S),
                 ('hand-over to the one-operand transformation', C)],
     [('nxy, nx, ny, n, dxy, dx, dy, d', 'coefficients of what is still to be computed', C)])

prop('C03', 'Arithmetic stays exact when results are operands of further arithmetic',
     'An expression built from ratios by any nesting of homographic transformations and combines has exactly the value of the same '
     'expression in rational arithmetic, symbol by symbol. Operands that are themselves lazily computed results behave '
     'as ratios of the same value do. A panic because machine integers do not suffice is the only alternative.',
     ['inputs', 'programs'], 'nests of operations over all operands and coefficients',
     'The tests feed operations with ratios only, whose expansion source is a different one from that of a computed result.',
     [H, C, R, L], [('expansion sources behind one interface', L), ('end of a computed expansion', H + ', ' + C)])

prop('C04', 'Comparison of two numbers agrees with their numerical order',
     'Comparing two numbers reports less, equal or greater exactly as their values are ordered, for all signs and magnitudes, however '
     'long their expansions agree, and whether one expansion ends where the other goes on. '
     'A comparison which sign and magnitude relative to one decide does not fail because the expansions could not be read further.',
     ['inputs'], 'all pairs of numbers',
     'The tests compare eleven fixed numbers pairwise; the longest common prefix among them is one symbol, so the alternation of the '
     'order along an expansion is hardly exercised.',
     [CO], [('order of primers', CO), ('polarity of the order along the expansion', CO)],
     observe=['the reported ordering'])

prop('C05', 'A ratio of any two machine integers is represented exactly',
     'For all machine integers p and q with q not zero, including the most negative one, and likewise for unsigned integers with a sign '
     'flag, the constructed number has exactly the value p/q: the right special value, or the right primer and then the right symbols. '
     'Construction and reading never fail.',
     ['inputs', 'configurations'], 'all pairs of 64-bit words, signed and unsigned, with and without overflow checks',
     'The tests use about thirty small ratios; the 2^128 input pairs include the ends of the range, where the step arithmetic can overflow.',
     [R, L], [('classification into special values and primers', R), ('symbol step', R), ('sign handling', L + ', ' + R)])

prop('C06', 'The expansion of every rational result ends, and stays ended',
     'Reading the expansion of a ratio, or of a result of arithmetic on ratios, reaches the end after finitely many symbols, exactly when '
     'one half is left. Every further read reports the end again.',
     ['inputs', 'histories'], 'all small ratios, operands and coefficients, read to the end and beyond',
     'Tests read a known number of symbols and stop; whether the end comes, comes at the right place and is final for all inputs is '
     'a statement about whole expansions.',
     [R, H, C], [('end state of the expansion sources', R + ', ' + H + ', ' + C)])

prop('C07', 'Undefined results are refused, never returned',
     'A ratio with denominator zero, a transformation whose denominator is zero at its operands, and one whose denominator coefficients '
     'are all zero are refused with a panic when they are constructed. '
     'No number is returned for them, at any magnitude of the coefficients and at any depth of nesting.',
     ['inputs'], 'all operands and coefficients whose denominator vanishes',
     'The singular inputs form a thin set (c x + d = 0) that fixed examples touch in two or three points and random ones miss.',
     [R, H, C], [('zero denominator test', R + ', ' + H), ('value of an ended operand', H + ', ' + C)],
     observe=['panic or return of the constructor'])

prop('C08', 'Overflow never turns into a wrong value, in any build profile',
     'With coefficients anywhere in the range of machine integers, arithmetic either gives the exact value or panics. '
     'This holds in builds with overflow checks and in builds without, where plain machine arithmetic wraps silently.',
     ['inputs', 'configurations'], 'all coefficients in the full 64-bit range; development and release builds',
     'Tests run one profile with small numbers; wrap-around happens only near the ends of the range and only without overflow checks.',
     [H, C, S], [('checked operations', H + ', ' + C + ', ' + S)])

prop('C09', 'Arithmetic on small operands with moderate coefficients never fails',
     'When the operands are ratios of integers up to five and the coefficients are at most a million in magnitude, every '
     'homographic transformation or combine whose result is defined returns a number that can be read to its end. '
     'It does not panic or run forever.',
     ['inputs'], 'all operands with terms up to five and all coefficients up to twenty bits',
     'A needless failure shows for particular coefficient combinations only, which a fixed list of examples misses.',
     [H, C, S], [('halving of even coefficients', H + ', ' + C), ('choice of operand to read', C)],
     observe=['panic or return while constructing and reading'])

prop('C10', 'Taking information out of a number loses none of it',
     'Consuming a number x yields coefficients a, b, c, d and a remaining number y such that x = (a y + b) / (c y + d) exactly; if no '
     'number remains, y stands for one half. This holds for expansions of any length, including those that do not fit '
     'the coefficients, and without overflow.',
     ['inputs'], 'ratios with short expansions and expansions up to and past the size of the coefficients',
     'The tests consume a few short expansions, none of them long enough to reach the limit where consumption must stop.',
     [K], [('coefficient update', K), ('stop before overflow', K)],
     [('nx, n, dx, d', 'information taken so far', K)], observe=['the returned coefficients and the expansion of what remains'])

prop('C11', 'Equal values have identical representations',
     'Two numbers of the same value, however they were constructed, show the same special value, or the same primer and the same symbols '
     'up to the same end. So a result of arithmetic cannot be told apart from the ratio of its value.',
     ['inputs', 'programs'], 'pairs of constructions of one value',
     'Relates two runs of the code over all inputs; the tests compare single outputs with literals.',
     [R, H, C], [('range tests before a symbol is issued', H + ', ' + C), ('classification', R)])

prop('C12', 'Numbers are independent of each other and of the order of reading',
     'Numbers alive at the same time do not influence each other: in every interleaving of reads from two numbers, with '
     'further numbers constructed and dropped in between, each shows the symbols it shows when read alone.',
     ['histories', 'inputs'], 'all interleavings of bounded length over two lazily computed numbers',
     'The tests read one number at a time from start to end.',
     [L, H, C, R], [('state owned by each number', L)])

prop('C13', 'The library writes nothing to standard output',
     'Constructing, reading, comparing and consuming numbers produces no output on standard output, whether the operation succeeds or '
     'panics.',
     ['inputs'], 'all paths of the operations within the bounds of the other properties',
     'Test output is captured by the test runner, so a forgotten debugging line goes unnoticed; it may sit on a rarely taken path.',
     [H, C, R, CO, K], [('absence of printing in library code', 'src')], observe=['standard output'])

prop('C14', 'Unwrapping a number gives its content or panics, by its value',
     'Asking a number for its special content returns the right one of -1, 0 and 1 exactly when the value is one of these, and panics '
     'otherwise. Asking for its primer and expansion returns them exactly when it is none of these, and panics otherwise.',
     ['inputs'], 'all ratios of machine integers and results of arithmetic',
     'Which of the two kinds a computed result has depends on a value hitting -1, 0 or 1 exactly, which happens for few inputs.',
     [L, H, C, R], [('kind of a number', L)], observe=['the returned content or the panic'])

prop('C15', 'What is left of an expansion after reading symbols is a number in its own right',
     'After any number of symbols have been read from an expansion, what is left, put together with any primer into a number again, has '
     'exactly the value the symbols read so far leave over. As an operand of arithmetic, in comparisons and when consumed it behaves as a '
     'ratio of that value does, whether the expansion was that of a ratio or of a result of arithmetic.',
     ['inputs', 'programs', 'histories'], 'all numbers, all counts of symbols read, all primers and all uses of what is left',
     'The tests always use freshly made operands; whether a half-read ratio, transformation or combine is still a faithful operand is '
     'never asked, and depends on every piece of state being kept up to date on every read.',
     [L, H, C, R, K, CO], [('state kept while an expansion is read', R + ', ' + H + ', ' + C), ('use of an expansion as operand', H + ', ' + C)])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
