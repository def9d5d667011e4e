import f05_gen
import f04_gen
import cm_gen
import t01_gen
import p01_gen, p32_gen
import s09_gen
import s08_gen
import s12_gen
from gen import Composite, GenCheck
from vrun import PbtCheck, SAN, OPT, CLANG

STD17 = ['-std=gnu++17']
BOTH = [dict(name='san', flags=STD17 + SAN, scale=0.3, scale_thorough=0.3),
        dict(name='opt', flags=STD17 + OPT)]
SAN0 = [x for x in SAN if x != '-O1'] + ['-O0']
BOTH0 = [dict(BOTH[0], flags=STD17 + SAN0, scale=0.15, scale_thorough=0.15), BOTH[1]]
CHECKS = {}

CHECKS['B01'] = PbtCheck('B01.cpp',
    'A case is a capacity (0..300), a start state (first, count), an element type and a history of up to 160 '
    'operations, compared with std::deque after every step; non-trivial: it both inserted and removed elements and '
    'the contents wrapped around the physical end or the buffer was full. Plus all 4-operation histories from all '
    'states of capacity 1..6.', BOTH)
CHECKS['B02'] = PbtCheck('B02.cpp',
    'A case is a buffer state (capacity 0..300, first, count), an element type and a history of bulk copies with any '
    'allowed counts and sub-ranges mixed with single-element operations; non-trivial: elements were copied in and out '
    'and at least one copied run crossed the physical end. Plus every operation and count in all states of capacity '
    '1..10.', BOTH)
CHECKS['B03'] = PbtCheck('B03.cpp',
    'A case is a buffer state reached by construction or by operations; all iterator kinds and the random-access laws '
    'over pairs of positions (all pairs up to 6 elements), or a sequence of standard algorithms, are compared with '
    'std::deque; non-trivial: at least 2 (3 for algorithms) elements. Plus all states of capacity 1..7 with all pairs.',
    BOTH)
CHECKS['B04'] = PbtCheck('B04.cpp',
    'A case is a buffer state and a history of operations of every kind; after each one the whole backing memory and '
    'its guards are compared byte by byte and the addresses of all elements and of held iterators are verified; '
    'non-trivial: held iterators survived operations and the contents wrapped.', BOTH)
CHECKS['B05'] = PbtCheck('B05.cpp',
    'A case is a history in which the adapter is dropped at arbitrary points and re-attached (in place or to a copy '
    'of the memory) from (raw_index(begin()), size()), all copies continuing in lockstep with the model; non-trivial: '
    'operations followed a re-attachment and the contents wrapped or the buffer was full. Plus all states of capacity '
    '1..9.', BOTH)
CHECKS['B06'] = PbtCheck('B06.cpp',
    'A case is an element type (copy+move, move-only, copy-only, in-place-only, destructor-only), a state and a '
    'history; the exact set of lifetime events of each operation is compared; non-trivial: a counted pop of several '
    'elements happened and the contents wrapped. Plus insertions in every constructor form of standard types, of a '
    'class with 14 constructors and of one with its own operator new, against std::deque.', BOTH)
CHECKS['B07'] = PbtCheck('B07.cpp',
    'A case is a history in which construction faults are injected at random insertions; sizes, contents, addresses '
    'and lifetimes are compared after every step; non-trivial: a fault was followed by a successful insertion. Plus '
    'all states of capacity 1..8 with each failing insertion and next operation.', BOTH)

CHECKS['V01'] = PbtCheck('V01.cpp',
    'A case is a value of one of 12 integer types (boundary-heavy), the bytes that follow its encoding and a choice '
    'of iterator kinds, or a stream of values; non-trivial: the encoding has several bytes (or the case enumerates '
    'values). All values of the 8 and 16 bit types and all neighbours of powers of two are enumerated.', BOTH)
CHECKS['V02'] = PbtCheck('V02.cpp',
    'A case is a byte string (continuation runs around the maximum length, padded/mutated/truncated encodings, runs, '
    'noise) decoded as one of 12 integer types through several iterator kinds; non-trivial: at least two bytes. All '
    'byte strings of up to 2 bytes, a sixteenth of those of 3, and all final bytes after runs of continuation bytes '
    'are enumerated.', BOTH0)
CHECKS['V03'] = PbtCheck('V03.cpp',
    'A case is a value, an amount of space and a choice of iterator kinds, or a buffer filled with encodings until '
    'one is rejected; non-trivial: the encoding has several bytes or there is no space. All values of the 8 and 16 '
    'bit types in all amounts of space are enumerated.', BOTH)

CHECKS['F01'] = PbtCheck('F01.cpp',
    'A case is one of ~270 signatures with up to 17 parameters of all value categories, up to 3 wrappers and a '
    'history of calls, moves and swaps; or one of 17 kinds of callables compared with direct calls; or a random call '
    'graph; non-trivial: several calls or moves with parameters / several calls / a recursive graph.', BOTH0)
CHECKS['F02'] = PbtCheck('F02.cpp',
    'A case is a history of up to 60 operations (construct, assign callables of 5 kinds, move-construct, move-assign '
    'incl. self, nullptr, swap, destroy, relocate, wrap into an owning target, assign from/to owned wrappers, call) '
    'over 4 wrappers; every live target is tracked by address; non-trivial: a target was moved and one was replaced.',
    BOTH)
CHECKS['F03'] = PbtCheck('F03.cpp',
    'A case is a history of calls with random outcomes (6 kinds of exceptions), assignments and moves over 3 wrappers; '
    'or a sequence of wrapped (null) member pointers of 15 kinds compared with direct use on a twin object; or nested '
    'wrappers failing at a random depth; non-trivial: an empty wrapper was called or a target was used after it '
    'failed / several members accessed.', BOTH)
CHECKS['F04'] = Composite(
    ('placement', PbtCheck('F04.cpp',
        'A case is one of 35 Capacity/Alignment/constness combinations and a history of placing targets of fitting '
        'sizes and alignments, moving, swapping and calling; positions, all bytes, surrounding memory and allocations '
        'are checked; non-trivial: moves and calls happened.', BOTH0)),
    ('rejection', GenCheck(f04_gen.generate,
        'A program wraps one target that fits exactly (must compile) or violates one of size, alignment, nothrow move '
        '(must be rejected).', part='rejection')))
CHECKS['F05'] = GenCheck(f05_gen.generate,
    'An item is a generated callable type (functors with 1-3 overloads of all qualifiers, function pointers, lambdas, '
    'templates, move-only, inherited, non-callable) with one signature (traits, call operator selection) or two '
    '(overload resolution), expectations taken from the std traits and direct calls; every item counts as '
    'non-trivial.', part='callables')

CHECKS['W01'] = PbtCheck('W01.cpp',
    'A case is a history of up to 30 constructions, copies, moves, captures, container growth, by-value passing and '
    'destructions of wrappers of move-only or copyable values whose move may fail; moves, copies and lifetimes are '
    'counted exactly; non-trivial: at least two transfers.', BOTH)
CHECKS['L01'] = PbtCheck('L01.cpp',
    'A case is a random block structure of nested guards over 4 mutexes with returns, exceptions, failing lock() and '
    'loops, compared event by event; or 2-5 threads (sampled schedules) in critical sections; non-trivial: several '
    'guards and a non-local exit.', [
        dict(name='san', flags=STD17 + SAN + ['-pthread'], scale=0.3, scale_thorough=0.3),
        dict(name='opt', flags=STD17 + OPT + ['-pthread'])],
    assumptions=['thread schedules are sampled, not enumerated'])

def shards(n, extra=(), scale=0.3, san=SAN, opt=OPT):
    """One san and one opt binary per shard of a large template instantiation set."""
    out = []
    for i in range(n):
        d = ['-DSHARD=%d' % i] + list(extra)
        out += [dict(name='san-%d' % i, flags=STD17 + san + d, scale=scale, scale_thorough=scale),
                dict(name='opt-%d' % i, flags=STD17 + opt + d)]
    return out


CONST_RULE = ('An item is a random expression over the library evaluated by the compiler, at run time from opaque '
              'operands and, where exact, by an independent model; every item counts as non-trivial.')
CHECKS['M01'] = Composite(
    ('run-time', PbtCheck('M01.cpp',
        'A case is an element type (int, int64, double, complex, keyed struct), a size (0..8, 12, 17, 40, 301) and contents; '
        'all operations are compared with loops over std::vector, operands are compared with copies; non-trivial: at '
        'least 2 elements.',
        shards(5) + [dict(name='wide', flags=STD17 + ['-O0', '-DSHARD=5'])])),
    ('constant', GenCheck(cm_gen.generator('M01'), CONST_RULE, part='constant')))
CHECKS['M02'] = Composite(
    ('run-time', PbtCheck('M02.cpp',
        'A case is a pair of operands (all magnitudes away from overflow/underflow; or integer-valued, compared '
        'exactly) or a vector of them, compared with std::complex<long double>; non-trivial: both parts non-zero.',
        BOTH)),
    ('constant', GenCheck(cm_gen.generator('M02'), CONST_RULE, part='constant')))
CHECKS['M03'] = Composite(
    ('run-time', PbtCheck('M03.cpp',
        'A case is a pair of operands of sizes 1..8 (also 20x3, 2x17) or up to 16 zeros of type int64, double, float '
        'or complex, compared with the definition (exactly for integers); non-trivial: more than one coefficient.',
        shards(4))),
    ('constant', GenCheck(cm_gen.generator('M03'), CONST_RULE, part='constant')))


def signal_configs(shard_ids, san_ids=(0,), extra=(), scale=0.1):
    out = []
    for i in shard_ids:
        d = ['-DSHARD=%d' % i, '-Wno-format-truncation'] + list(extra)
        out.append(dict(name='opt-%d' % i, flags=STD17 + ['-O1'] + d))
        if i in san_ids:
            out.append(dict(name='san-%d' % i, flags=STD17 + SAN + d, scale=scale, scale_thorough=scale))
    return out


RESPONSE_RULE = ('A case is an order, lowpass/highpass, sample rate (1e-3..1e7), cutoff ratio (0.002..0.498; 0.004..0.496 '
                 'above order 12; 0.02..0.48 in single precision) and %s; coefficients are compared with those of the '
                 'analytic poles/zeros, both section modes and the polynomial with the analytic complex response and '
                 'the closed-form magnitude at 15-17 frequencies, within a rounding-error bound; non-trivial: order '
                 'above 1.')
CHECKS['S01'] = PbtCheck('S_response.cpp', RESPONSE_RULE % 'types (orders 1..22, 24, 31, 40, 48)',
                         signal_configs([3, 2, 1, 0], extra=['-DFAM=BUTTER']))
CHECKS['S02'] = Composite(
    ('type I', PbtCheck('S_response.cpp', RESPONSE_RULE % 'types and ripple 0.01..12 dB (orders 1..22, 24, 31, 40, 48)',
                        signal_configs([3, 2, 1, 0], extra=['-DFAM=CHEBY1']))),
    ('type II', PbtCheck('S_response.cpp', RESPONSE_RULE % 'types and attenuation 0.5..200 dB (orders 1..22, 24, 31, 40, 48)',
                         signal_configs([3, 2, 1, 0], extra=['-DFAM=CHEBY2']))))
CHECKS['S03'] = PbtCheck('S_response.cpp', RESPONSE_RULE % 'types (all orders 1..49)',
                         signal_configs([6, 5, 4, 2, 1, 0], extra=['-DFAM=BESSEL']),
                         assumptions=['the reference poles were computed with mpmath (tools/gen_bessel.py)'])

CHECKS['S04'] = PbtCheck('S04.cpp',
    'A case is a family, order (1..12, 13, 16, 19, 24, 35), lowpass/highpass, output type, sample rate, cutoff ratio '
    'and parameter; coefficients are checked for finiteness, form, stability (Jury) and the simulated impulse and '
    'bounded-input responses for decay; non-trivial: order above 1.', signal_configs([4, 5, 6, 7, 0, 1, 2, 3], (0,)))
CHECKS['S05'] = PbtCheck('S05.cpp',
    'A case is a design specification as in S04; the products of the sections of both gain modes are compared with the '
    'polynomial coefficient-wise, the gain structure and the rounding to float are checked; non-trivial: order above '
    '1.', signal_configs([4, 5, 6, 7, 0, 1, 2, 3, 8], (2,)))
CHECKS['S06'] = PbtCheck('S06.cpp',
    'A case is 1..3 designs, one of the forms and a history of up to 80 interleaved operations (process, create, copy, '
    'assign) on up to 6 instances, compared with the recurrence of the reported coefficients - exactly, over residues '
    'modulo 3, 7 and 2^61-1 as value type, or within a rounding-error bound; non-trivial: several instances with more than 3 '
    'inputs.', signal_configs([1, 2, 0], (0, 2)))
CHECKS['S07'] = PbtCheck('S07.cpp',
    'A case is a design specification as in S04 with its scaled (powers of two, any factor), mirrored, repeated and '
    'copied variants; non-trivial: order above 1.', signal_configs([4, 5, 6, 7, 0, 1, 2, 3], (1,)))

CHECKS['S10'] = PbtCheck('S10.cpp',
    'A case is a family, order (1..10, 15, 20, 24), lowpass/highpass, cutoff, gain mode, a fixed-point format (32 bit '
    'with 28, 20 (products rounded down) or 16 fraction bits, 64 bit with 40) of a type with explicit conversions only and an indeterminate default '
    'value, and a history of operations on up to 4 instances in dirty memory, compared bit by bit with the recurrence of the '
    'reported coefficients in that type, and with the exact one within the rounding of the products; non-trivial: several inputs and outputs above the '
    'tolerance.', signal_configs([0, 1, 2, 3], (0, 2)))

CHECKS['S11'] = PbtCheck('S11.cpp',
    'A case is a design specification as in S04 or a prototype as in S14 (orders 3..8); from the reported sections of both gain modes, the order by closeness '
    'of the poles to the unit circle and the pairing with the nearest zeros are verified; non-trivial: order above 2.',
    signal_configs([4, 5, 6, 7, 0, 1, 2, 3, 8], (2,)))

CHECKS['S13'] = PbtCheck('S13.cpp',
    'A case is a prototype (family, order 1..16, 19, 24, 31, 40, 49, ripple or attenuation) in float, double or long '
    'double; poles, zeros, gain, zpk and ripple factor are compared with the closed forms (Bessel: reference poles); '
    'non-trivial: order above 1.', signal_configs([0, 1, 2, 3], (1,)),
    assumptions=['the reference poles of the Bessel prototypes were computed with mpmath (tools/gen_bessel.py)'])

CHECKS['S14'] = PbtCheck('S14.cpp',
    'A case is a prototype written as a specification class - up to 13 poles in the left half plane and as many zeros '
    'anywhere (real, imaginary, complex, at the origin; repeated in every third case), closed under conjugation, in '
    'random order - with a gain, a sample rate and a cutoff, as lowpass or highpass in float, double or long double; '
    'the polynomial and the products of the sections in both gain modes are compared with the coefficients of the '
    'transformed zeros and poles within a rounding-error bound; non-trivial: order above 1.',
    signal_configs([0, 1, 2, 3], (0, 2)))

CHECKS['T01'] = GenCheck(t01_gen.generate,
    'An item is one instantiation (sequences and ranges up to 200 long of 15 integer types; packs of up to 150 boolean '
    'types with non-instantiable ones behind the first false; type lists; callable x arguments x result) compared as '
    'types with the expectation computed by the generator or the standard library; every item counts as non-trivial.',
    part='types')

CHECKS['N01'] = PbtCheck('N01.cpp',
    'A case is a history of operations on one component (circular buffer, varint, function, move_wrapper, lock_guard, '
    'vector/complex/poly math, filter design and processing) executed with malloc, calloc, realloc, aligned '
    'allocation and operator new replaced by counting versions; non-trivial: the history mixed several operations or '
    'wrapped around.', [dict(name='O2', flags=STD17 + OPT), dict(name='O0', flags=STD17 + ['-O0'], scale=0.2, scale_thorough=0.2)],
    assumptions=['memory obtained other than through the C and C++ allocation functions is not seen'])

CHECKS['R01'] = PbtCheck('R01.cpp',
    'A case is a filter design, circular buffer, function, vector/complex/move_wrapper value, copy source or encoded '
    'number placed in write-protected pages ending at an inaccessible one and used by a history of const operations, '
    'compared with the same on ordinary memory; or shared by 2..4 threads under the thread sanitizer; non-trivial: '
    'more than a few inputs, wrapped contents, several bytes.', [
        dict(name='san', flags=STD17 + SAN + ['-pthread'], scale=0.3, scale_thorough=0.3),
        dict(name='opt', flags=STD17 + OPT + ['-pthread']),
        dict(name='threads', flags=STD17 + ['-O1', '-g1', '-fsanitize=thread', '-DTHREADS', '-pthread'])],
    assumptions=['thread schedules are sampled; races are found by the thread sanitizer'])

CHECKS['O01'] = PbtCheck('O01.cpp',
    'A case is a value (complex, vector or std::array of size 0..8, nested ones, section, zero/pole/gain set, whole '
    'design; components incl. signed zeros, infinities, NaN) and stream settings; the text is read back component by '
    'component as the stream prints components, and the settings are compared; non-trivial: the value has components.',
    [dict(name='san', flags=STD17 + SAN, scale=0.3, scale_thorough=0.3), dict(name='opt', flags=STD17 + ['-O1'])])

CHECKS['S08'] = GenCheck(s08_gen.generate,
    'An item is a family, order (1..16; thorough up to 48), lowpass/highpass, sample rate, cutoff, parameter, '
    'computation and output type and form, as a constexpr variable and from volatile operands; compared within '
    'rounding errors; every item counts as non-trivial.', part='designs')

CHECKS['S09'] = GenCheck(s09_gen.generate,
    'An item is one debug record (design of any family, order 1..12, value type and form, or another record of the '
    'same design; name of 0..300 arbitrary characters, default name, unterminated array) in a program of 1..14 records '
    'in up to 3 translation units; the section of the executable is parsed and compared bit by bit with what the '
    'designs report; every item counts as non-trivial.', part='records')

CHECKS['S12'] = GenCheck(s12_gen.generate,
    'An item is one debug record as in S09 (float and double) in a program of 1..14 records; scripts/parse-filter-coefs.py '
    'is run on the executable or the object files and its output compared with what the designs report; every item counts '
    'as non-trivial.', part='script')

CHECKS['P01'] = Composite(('configurations', GenCheck(p01_gen.generate,
    'An item is a random workload on one component (or a header on its own); programs of 14 workloads in two '
    'translation units are built in 8 (thorough: 24) random configurations of language mode, exceptions, RTTI, '
    'optimisation, assertions, code generation options and compiler, each without diagnostics, and have to print what '
    'the baseline configuration prints; every item counts as non-trivial.', part='configurations')),
    ('narrow', GenCheck(p32_gen.generate,
    'An item is a workload on buffers (up to 70000 slots), varints, functions, vectors or a filter designed at compile time; programs '
    'of 14 run as 32-bit processes (3 builds each, thorough 8) and have to print, to the last bit, what the 64-bit program prints; every '
    'item counts as non-trivial.', part='narrow')))
