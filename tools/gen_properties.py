#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
CBA='include/embedded/circular_buffer_adapter.h'; CBI='include/embedded/detail/circular_buffer_adapter.h'
VAR='include/embedded/varint.h'; FUN='include/embedded/function.h'; INV='include/embedded/type_traits/is_invocable.h'
FLT='include/embedded/signal/filter.h'; FLTD='include/embedded/signal/detail/filter.h'; SOS='include/embedded/signal/sos.h'; POLY='include/embedded/signal/poly.h'
VEC='include/embedded/constexpr_math/vector.h'; CPX='include/embedded/constexpr_math/complex.h'; CONV='include/embedded/constexpr_math/convolve.h'; CPOLY='include/embedded/constexpr_math/poly.h'
ring=[('first_, last_, size_','first slot, slot after the last, element count; empty and full differ only in size_',CBA)]

p('B01','Circular buffer behaves as a bounded double-ended queue',
 'For every capacity, every starting position and every sequence of push/emplace/pop (single and counted, at both ends), clear, element access and element assignment that respects the documented preconditions, a circular_buffer_adapter holds exactly the elements, in exactly the order, that std::deque would hold after the same operations. size(), capacity(), remaining(), empty() and full() agree with that model after every step, at() throws std::out_of_range exactly for positions >= size(), and moving the adapter object carries the whole contents over.',
 ['histories','inputs'],'all operation histories over all capacities (0 upwards), all initial first positions and fill levels, several element types',
 'The tests run one scripted history on a few small fixed capacities; wrap-around of first/last in every phase relative to the capacity, capacity 0/1, counted pops across the end and refill after wrap need generated histories.',
 [CBA],[('inc/dec/add/sub wrap-around','circular_buffer_adapter.h private helpers'),('size_ disambiguates empty and full','circular_buffer_adapter.h')],['size()','operator[]','at()','front()/back()','iteration'],ring)
p('B02','Bulk copies into and out of the buffer equal element-wise operations',
 'For every buffer state and every count, copy_in_back/copy_in_front append/prepend exactly the given run in its given order, copy_out_front/copy_out_back remove exactly that many elements from that end and deliver them in buffer order, and copy_in/copy_out over an iterator range overwrite/read exactly the elements of that range and leave the rest of the contents unchanged. The source run is never modified and nothing outside the destination run is written, whether or not the run crosses the physical end of the memory.',
 ['histories','inputs'],'all buffer states (position, fill), all counts including 0 and everything that fits, all sub-ranges, interleaved with the other operations',
 'The tests exercise one scripted history of counts; the split at the physical end depends on position, count and capacity together.',
 [CBA],[('copy_in_impl/copy_out_impl split in two memcpy runs',CBA)],['destination arrays','operator[] after the call','size()'],ring)
p('B03','Iterators are a faithful random-access view of the buffer',
 'At every reachable state all iterator kinds (mutable, const, reverse, const reverse) visit exactly the elements 0..size()-1 in (reverse) order, and ++, --, +n, -n, +=, -=, [], difference, comparison, copying and mutable-to-const conversion obey the random-access iterator laws for every pair of positions including end(). Standard algorithms run through these iterators produce what they produce on an equivalent std::deque.',
 ['histories','inputs'],'all buffer states (position, fill, capacity) x all pairs of iterator positions x all offsets that stay in range',
 'The tests iterate only over contents built by one scripted history; end() is a special position whose arithmetic depends on wrap-around and on the buffer being empty or full.',
 [CBI,CBA],[('null pointer encodes end()',CBI),('index()/realiter()',CBI)],['iterator operators','std algorithms over the iterators'],ring)
p('B04','Only the buffer\'s own slots are written, and elements never move',
 'No operation reads or writes memory outside [begin, begin+capacity); inserting writes only the slots of the inserted elements; popping, clearing and reading write nothing to trivial elements\' memory; and an element keeps its address from its insertion until it is popped. Consequently references, pointers and iterators to surviving elements stay valid across operations at either end.',
 ['histories','inputs'],'all operation histories; byte-for-byte comparison of the whole surrounding memory after each step',
 'Tests look at values only through the adapter; stray writes to slots that happen to be free, or element relocation, stay invisible to them, yet matter for EEPROM-backed and shared memory.',
 [CBA],[('placement new in exactly the new slot',CBA),('pops only adjust indices',CBA)],['raw backing memory','addresses of elements'],ring)
p('B05','Persisted buffers can be re-attached from index and count',
 'raw_index() of the iterator to element i is (first + i) modulo capacity for every state (for end() of a non-full buffer, the slot the next push_back will use), and constructing a new adapter over the same memory from (capacity, raw index of begin(), size()) - with pointers or with indices - yields a buffer with identical contents that behaves identically to the original under every continuation of operations.',
 ['histories','crash_points'],'all histories, cut after any operation ("power loss" and re-attach at every point), all continuations',
 'The tests construct adapters from a handful of fixed index/count pairs and never continue a history on a re-attached adapter.',
 [CBA],[('constructor (data, capacity, first_index, item_count)',CBA),('raw_index',CBA)],['raw_index(begin())','contents after re-attach'],ring)
p('B06','Object lifetimes are exact for non-trivial element types',
 'For every history each inserted element is constructed exactly once in a slot holding no live object, using precisely the requested construction (copy for lvalues, move for rvalues, direct initialisation in place for emplace) with no extra temporaries, and destroyed exactly once when it is popped or cleared; the adapter never assigns, copies or moves elements on its own and never destroys elements in its own destructor.',
 ['histories'],'all operation histories over element types that are copy-only, move-only, have only a non-trivial destructor, or are constructible in place only',
 'Tests count operations for one scripted history of one type; a skipped or doubled destructor in a counted pop over the wrap point or in clear() needs generated states.',
 [CBA],[('destroy() overloads for trivial and non-trivial types',CBA),('placement new',CBA)],['constructor/destructor/assignment events of the element type'],ring)
p('B07','Throwing element construction leaves the buffer unchanged',
 'If constructing an element throws during push_front, push_back, emplace_front or emplace_back, the exception reaches the caller and the buffer is observably unchanged: same size, same elements at the same addresses, no object leaked or destroyed twice, and every later operation behaves as if the failed call had never been made.',
 ['fault_sequences','histories'],'a construction fault injected at any insertion in any history, any number of times',
 'The test injects one failure at one state; the guarantee must hold at every position incl. just before wrap and for repeated faults.',
 [CBA],[('construct before updating first_/last_/size_',CBA)],['size(), contents and addresses after the exception'],ring)
p('V01','varint encoding round-trips and is canonical and minimal',
 'For every integer type and every value, encode() writes exactly the documented byte sequence (7-bit groups, least significant first, MSB set on all but the last; zig-zag for signed types), its length equals size() and is the minimum possible, and decode() of those bytes - also when followed by arbitrary bytes - returns that value and the position just past the encoding. This holds for every kind of iterator (pointers, forward-only, circular buffer iterators, back inserters) and during constant evaluation of size().',
 ['inputs'],'all values of all 8/16/32/64-bit signed and unsigned integer types, all supported iterator kinds',
 'Tests use fixed lists of values for six types and pointer iterators.',
 [VAR],[('encode_impl/decode loops',VAR),('zig_zag_encode/zig_zag_decode',VAR)],['bytes written','returned iterator','decoded value'])
p('V02','varint decoding of arbitrary bytes is safe and exact',
 'For every byte sequence, decode() never reads at or past the end of the input nor past the first byte without continuation bit, and returns either an iterator to just past that terminating byte with exactly the encoded value - which must fit the target type - or begin when the input is truncated or the value does not fit. Padded (non-minimal) encodings that fit into the maximum encoded length decode to their value, and no truncated or out-of-range input is ever accepted with a wrong value.',
 ['inputs'],'all byte sequences of any length for all integer types',
 'Tests decode a fixed list of malformed inputs; the overflow check depends on the bits of the last byte for each type width.',
 [VAR],[('max_shift bound and excess bit check',VAR)],['returned iterator','decoded value','bytes accessed'])
p('V03','varint bounded encoding never overruns its buffer',
 'For every value and every available space, the range-checked encode() writes only within [begin, end) and touches no byte after the encoding; it returns begin if and only if the space is less than size(value), and otherwise the end of the encoding.',
 ['inputs'],'all values x all buffer sizes 0..max+2 x iterator kinds',
 'Tests only try a few space/value combinations.',
 [VAR],[('check_iter before every byte',VAR)],['bytes around the buffer','returned iterator'])
p('F01','Calling a function wrapper is calling its target',
 'For every signature and callable that the wrapper accepts, a call invokes the stored target exactly once, passes each argument with its exact value category and identity (references alias, rvalues are moved from at most once, move-only arguments work), and returns exactly what the target returned (by value, by reference, or discarded for void). State kept in a mutable target persists across calls, and re-entrant and nested calls behave as with a direct call.',
 ['inputs','programs','histories'],'all combinations of signatures (by value, const/non-const reference, rvalue reference, move-only, pointers, aggregates), target kinds (lambda, functor, function pointer, member pointer), storage capacities and call sequences',
 'function.cpp is not even built in the baseline and has only a handful of calls with ints.',
 [FUN,INV],[('vtbl::vt_call',FUN),('function_traits::operator()',FUN)],['arguments seen by the target','returned value/reference'])
p('F02','A function wrapper owns exactly one target through any history of moves',
 'Over any history of construction, move construction, move assignment (including self-assignment and assignment from a wrapper owned by the current target), assignment of new callables, nullptr assignment, swaps and destruction, every target object that was created is destroyed exactly once, the replaced target is destroyed by the assignment, the moved-from wrapper becomes empty, and the target that is called afterwards is the one moved in with its state intact.',
 ['histories'],'all histories over a pool of wrappers (incl. containers of wrappers that relocate them) with lifetime-tracked targets',
 'No built test moves a wrapper; leaks, double destruction and stale targets depend on the history.',
 [FUN],[('vt_proc move/destroy',FUN),('operator=(function&&)',FUN)],['live target count','operator bool','call results'],[('vtbl_','operations table; the empty table means no target',FUN)])
p('F03','Empty wrappers, failing targets and member pointers behave as documented',
 'A wrapper converts to true exactly when it holds a target (not when default-constructed, nullptr-constructed or assigned, moved-from or built from a null member pointer); calling an empty one throws std::bad_function_call and leaves it unchanged. An exception thrown by a target, in its call or while it is copied into a wrapper, reaches the caller unchanged and leaves the wrapper and its target usable; wrappers built from pointers to member functions or data access that member of the object passed as first argument.',
 ['histories','fault_sequences'],'all histories of construction/assignment/move x calls in the empty and throwing states',
 'No built test calls an empty wrapper or one with a throwing target.',
 [FUN],[('empty_vtbl',FUN),('member pointer constructor/assignment',FUN)],['operator bool','exceptions','members accessed'])
p('F04','Function targets live in place with correct size and alignment',
 'For every Capacity/Alignment choice, any nothrow-movable target with size up to Capacity and alignment dividing Alignment is stored inside the wrapper object itself at an address satisfying its alignment, in every wrapper it is moved to; its bytes never overlap other state and survive moves unchanged. No heap memory is ever used, and targets exceeding the capacity or alignment, or whose move may throw, are rejected at compile time.',
 ['configurations','programs'],'all capacities 1..256 and alignments 1..64 and targets of every size/alignment, at arbitrary addresses of suitably aligned wrappers',
 'Tests check sizeof for the default configuration only.',
 [FUN],[('storage_ with alignas(Alignment)',FUN),('static_asserts in the constructor',FUN)],['address and contents of the target as seen by its call operator'])
p('F05','Function wrappers are const-correct and reject unsuitable callables',
 'A wrapper with a const signature is callable through const access and always runs the target\'s const call operator; one with a non-const signature is not callable through const access and runs the non-const one. Construction from a callable is possible exactly when the target (const for const signatures) is invocable with the signature\'s arguments and its result converts to the signature\'s result (anything for void); wrappers are never copyable, and overload sets taking different signatures resolve accordingly.',
 ['programs'],'all combinations of callable properties (const/non-const/overloaded operators, argument and result types) and signatures',
 'One const and one mutable lambda are tried in a test that is not built.',
 [FUN,INV],[('function_traits for const and non-const signatures',FUN),('is_invocable_r',INV)],['is_constructible/is_invocable traits','which overload runs'])
p('W01','move_wrapper transfers its value exactly once per copy or move',
 'Copying or moving a move_wrapper moves the wrapped value (exactly one move construction, no copy, no assignment) into the new wrapper and leaves the source\'s value moved-from; dereferencing gives access to the wrapped value with the constness of the access. Move-only values therefore travel intact through any chain of captures, copies and containers, exceptions from the value\'s move propagate, every value is destroyed exactly once, and copies and moves of the wrapper are noexcept exactly when the move of the value is.',
 ['histories'],'all chains of copies/moves/captures over move-only and tracked value types incl. throwing moves',
 'Two cases with unique_ptr.',
 ['include/embedded/move_wrapper.h'],[('copy constructor that moves',"include/embedded/move_wrapper.h")],['operator* / operator->','lifetime events of the value'])
p('L01','lock_guard holds its mutex exactly for its scope',
 'A lock_guard locks the given mutex exactly once on construction and unlocks that same mutex exactly once on destruction, on every exit path including exceptions and early returns, in LIFO order for nested guards. If lock() throws, no unlock happens; the guard never copies the mutex and cannot itself be copied, and code under guards of one mutex is mutually exclusive.',
 ['histories','schedules','fault_sequences'],'all nestings of scopes over several mutexes with exits by fall-through, return and exception; thread interleavings by sampling',
 'One scope on one mutex.',
 ['include/embedded/mutex.h'],[('constructor/destructor',"include/embedded/mutex.h")],['lock()/unlock() events'])
p('M01','Compile-time vector operations equal their element-wise definitions',
 'For every size and contents, the constexpr vector\'s construction, conversion, transform, reduce, append, subvector, erase, swap, swappop, sort, argmin, count, equality and scalar/element arithmetic return exactly what the obvious loop over a std::vector returns, with sort a sorted permutation and argmin the first minimal index. They never modify their operands and give the same result in constant evaluation as at run time.',
 ['inputs'],'all contents of all sizes 0..16 (larger sampled), integer, floating point and complex elements',
 'Tests use a few literal vectors.',
 [VEC],[('index_sequence expansion and recursive helpers',VEC)],['returned vectors/values'])
p('M02','Compile-time complex arithmetic is correct',
 'For all finite operands (away from overflow/underflow) the constexpr complex operators + - * /, mixed real/complex operations, negation, conjugate, norm, abs, distance, exp, equality and is_real agree with std::complex within rounding error, and exactly for integer-valued operands of + - *. The vector-valued real/imag/norm/abs/exp/prod functions are the element-wise versions of these.',
 ['inputs'],'all finite float/double/long double operands of moderate exponent',
 'Tests use a few literal values.',
 [CPX],[('operator definitions',CPX)],['returned values'])
p('M03','Polynomial construction and convolution are exact',
 'convolve_full(a,b) is the full discrete convolution of its operands (length |a|+|b|-1, commutative, identity [1]) and poly(zeros) is the monic polynomial with exactly these zeros, highest power first, for every operand; results are exact for integer arithmetic and within rounding error for floating point and complex operands.',
 ['inputs'],'all sizes 1..12 x 1..12 and contents; exact integer, complex and floating point elements',
 'Tests use a few literal vectors.',
 [CONV,CPOLY],[('convolve_single recursion',CONV),('poly_rec',CPOLY)],['returned vectors'])
SIGF=[FLT,FLTD,POLY,SOS]
p('S01','Butterworth designs have the Butterworth response',
 'For every order, sample rate and cutoff below half the sample rate, the lowpass and highpass Butterworth designs have, as polynomial and as second-order sections, the complex frequency response of the analog Butterworth prototype under the bilinear transform prewarped at the cutoff. In particular the magnitude is 1/sqrt(2) at the cutoff, 1 at DC (lowpass) or half the sample rate (highpass), 0 at the opposite end, and monotonic in between.',
 ['inputs','configurations'],'orders 1..48, all cutoff/sample-rate ratios in (0, 0.5), low- and highpass, float/double output',
 'Tests compare against stored coefficients for fs=1000, f=40 and seven orders only.',
 ['include/embedded/signal/butterworth.h']+SIGF,[('butterworth_poles / lowpass_zpk / highpass_zpk / bilinear_zpk',FLTD)],['b(), a(), sos() coefficients evaluated on the unit circle'])
p('S02','Chebyshev type I and II designs have the Chebyshev response',
 'For every order, ripple/attenuation, sample rate and cutoff, the type I designs have the equiripple passband (gain between -ripple dB and 0 dB, exactly -ripple dB at the cutoff) and the type II designs the equiripple stopband (at most -attenuation dB, reached exactly at the cutoff, zeros on the unit circle) of the analog Chebyshev prototypes under the prewarped bilinear transform. This holds for lowpass and highpass, for polynomial and second-order-section forms, over the whole frequency axis.',
 ['inputs','configurations'],'orders 1..48, ripples 0.01..10 dB, attenuations 0.5..200 dB, all cutoff ratios, low- and highpass',
 'Tests use ripple 0.5/3 and 20/80 at one cutoff.',
 ['include/embedded/signal/chebyshev.h']+SIGF,[('poles()/zeros()/gain() of the specifications','include/embedded/signal/chebyshev.h')],['b(), a(), sos() coefficients evaluated on the unit circle'])
p('S03','Bessel designs have the Bessel response',
 'For every supported order (1 to 49), sample rate and cutoff, the Bessel designs have the complex frequency response of the phase-normalised analog Bessel prototype (reverse Bessel polynomial scaled so that its asymptotes match a Butterworth filter of the same order) under the prewarped bilinear transform, with unit gain at DC (lowpass) or half the sample rate (highpass).',
 ['inputs','configurations'],'orders 1..49, all cutoff ratios, low- and highpass',
 'Tests cover seven orders at one frequency; most rows of the pole table are never used.',
 ['include/embedded/signal/bessel.h','include/embedded/signal/detail/bessel_poles.h']+SIGF,[('bessel_poles table','include/embedded/signal/detail/bessel_poles.h')],['b(), a(), sos() coefficients evaluated on the unit circle'])
p('S04','Every designed filter is stable and well-formed',
 'For every family, order, cutoff and parameter in range, all coefficients are finite, the leading denominator coefficients are 1, every second-order section has its poles strictly inside the unit circle, the number of sections is ceil(order/2) with the numerators/denominators of odd orders degenerating to first order in exactly one section, and bounded input yields bounded output with a decaying impulse response.',
 ['inputs','configurations'],'all families x orders 1..24 (and selected to 48) x cutoffs in (0.001, 0.499) fs x ripple parameters',
 'Tests only filter one design per order for a fixed number of samples.',
 SIGF,[('zpk_to_sos pairing of poles with conjugates',FLTD)],['sos() and a() coefficients','impulse responses'])
p('S05','Polynomial, section and gain-mode representations are equivalent',
 'For every design the product of the second-order sections equals the polynomial transfer function, for either gain mode; with first_section gain all sections but the first have a leading numerator coefficient of 1, with distributed gain all sections have the same one. Output types differ only by rounding to that type.',
 ['inputs','configurations'],'all families x orders x cutoffs x gain modes x output types',
 'The distributed mode is never tested; tests never relate the representations to one another.',
 [SOS,POLY,FLTD,FLT],[('build_sos/zpk_to_sos',SOS)],['b(), a(), sos() coefficients'])
p('S06','Filtering implements the difference equation of the coefficients',
 'For every design and input history, an instance\'s output is the response of the recurrence defined by the reported coefficients (cascade of the sections in order, or the direct polynomial form) from a zero initial state; processing is linear and time-invariant, depends only on that instance\'s own past input, and instances of one design never influence each other or the design.',
 ['histories','inputs'],'all designs, all input histories, any interleaving of any number of instances, float/double/exact modular arithmetic value types',
 'Tests compare floating-point output of a few inputs with tolerances that hide small state errors.',
 [SOS,POLY,FLTD],[('transposed direct form II state update','sos.h filter(), poly_df2t_update'),('filter_chain',FLTD)],['operator() of instances','state()'],[('state_ / y_','delay line per instance',SOS)])
p('S07','Designs depend on the frequency ratio only and mirror low-/highpass',
 'Scaling sample rate and cutoff by the same factor does not change a design; the highpass design at cutoff f is the spectral mirror of the lowpass design at fs/2 - f (numerator and denominator coefficients agree up to the sign alternation of z -> -z); designing twice gives identical coefficients, and design objects can be copied and used independently.',
 ['inputs','configurations'],'all families x orders x cutoffs x scale factors',
 'All tests use fs=1000, f=40.',
 [FLT,FLTD],[('warp / warp_frequency',FLT),('highpass_zpk',FLTD)],['b(), a(), sos() coefficients'])
p('S08','Compile-time designs equal run-time designs',
 'Evaluating a filter design in a constant expression gives the same coefficients as evaluating it at run time up to rounding of the elementary functions, for every family, order, parameter and representation, and every such design is a valid constant expression.',
 ['programs','inputs'],'generated programs with literal parameters over families, orders 1..16, cutoffs, ripples, output types, gain modes',
 'Tests only evaluate a fixed list of designs at compile time.',
 SIGF+['include/embedded/constexpr_math/functions.h'],[('constexpr throughout',FLTD)],['constexpr coefficients vs run-time coefficients'])
p('S09','Filter debug records describe the design faithfully',
 'The record emitted for a design starts with the documented 128-byte header (magic, total length in bytes, version, structure, value type, NUL-terminated name truncated to fit) followed by exactly the coefficients of the design in its value type - per section b0 b1 b2 a1 a2, or b[] then a[] - so a reader of the section recovers every design of a program, in full, whatever their number, order, type and names.',
 ['programs'],'generated programs with random sets of designs, value types and names of every length',
 'The headers are never compiled by any test.',
 ['include/embedded/signal/detail/debug_filter_coefs.h','include/embedded/signal/debug_filter_coefs.h','include/embedded/preprocessor.h'],[('filter_design_debug','include/embedded/signal/detail/debug_filter_coefs.h')],['bytes of the ELF section'])
p('S10','Fixed-point value types filter like their floating-point design',
 'Section filters over a fixed-point value type (explicit conversions only, indeterminate when default constructed, as fpm::fixed) have the design\'s coefficients correctly converted, start from a zero state, compute exactly the recurrence of these coefficients in that type\'s arithmetic, and so stay within the accumulated rounding of the type of what the floating-point design yields, for every design whose coefficients and signals are in range.',
 ['inputs','histories'],'fixed-point formats of different precision x families x orders x cutoffs x gain modes x input histories',
 'The fpm submodule is empty here and its test filters one signal with one design.',
 [SOS,FLT],[('sos_state initialisation and coefficient conversion',SOS)],['coefficients','filter output'])
p('S11','Sections pair the nearest roots and run in order of growing resonance',
 'In every design as second-order sections each complex pole is in one section with its own conjugate (a real one with the real pole that is nearest to the unit circle of those left), and the sections are ordered so that the pole nearest the unit circle is in the last one. Counting from the last, each section has, of the zeros remaining, the nearest to its leading pole (two at a time where they are real; a first-order section counts as having a further root at 0), so that no intermediate signal is amplified more than this standard arrangement requires.',
 ['inputs','configurations'],'all families x orders x cutoffs x low- and highpass x gain modes',
 'Tests only compare the response of the whole cascade, or the sections of a few designs at one cutoff.',
 [FLT,FLTD],[('zpk2sos section arrangement',FLTD)],['coefficients of each section'])
p('S12','The coefficient extraction script reports every record',
 'scripts/parse-filter-coefs.py, run on an executable or object files containing debug records of the library, prints every record: its name (truncated as stored), its form, value type, size and exactly its coefficients in order, whatever the number, order, type and name of the designs, and terminates normally.',
 ['programs'],'generated programs with random sets of float and double designs, forms and names (any characters), linked or as objects',
 'No test runs the script.',
 ['scripts/parse-filter-coefs.py','include/embedded/signal/detail/debug_filter_coefs.h'],[('header unpacking and section walk','scripts/parse-filter-coefs.py')],['text printed by the script'])
p('S13','Analog prototypes have the textbook poles, zeros and gain',
 'For every family, order, ripple or attenuation and value type the specification reports exactly the poles, zeros and gain of the normalised analog prototype (Butterworth, Chebyshev I and II, phase-normalised Bessel), closed under conjugation, with the combined zero/pole/gain set identical to the separate functions and the ripple factor that of the definition, within the rounding of the value type.',
 ['inputs'],'families x orders 1..49 x ripples/attenuations x float, double, long double',
 'Tests compare the specifications of a few orders and two parameters in double.',
 ['include/embedded/signal/butterworth.h','include/embedded/signal/chebyshev.h','include/embedded/signal/bessel.h'],[('poles(), zeros(), gain(), zpk(), rf()','include/embedded/signal/*.h')],['poles()','zeros()','gain()','zpk()','rf()'])
p('S14','Any prototype given as a specification is designed as what it is',
 'For every analog prototype that a user describes by a specification class of their own - any conjugate-closed set of zeros and poles (no more zeros than poles, poles in the left half plane), in any order, with any gain - the lowpass and highpass designs have exactly the zeros, poles and gain of the prototype under the prewarped bilinear transform, as polynomial and as second-order sections. Several real poles or zeros, repeated ones and zeros anywhere in the plane are no exception; every section is stable and conjugate or real roots are never torn apart.',
 ['inputs'],'all numbers of poles and zeros (up to 13), all positions in the plane incl. several real and repeated ones, all orders of listing, lowpass and highpass, all cutoffs, three precisions',
 'The tests use the built-in families only, which have at most one real pole, zeros on the imaginary axis and a fixed order of roots.',
 [FLT,FLTD,SOS,POLY],[('lowpass_zpk/highpass_zpk/bilinear_zpk',FLTD),('zpk_to_sos pairing of real and conjugate roots',FLTD)],['sos()','poly() a() b()'])
p('R01','Constant objects work in read-only memory and from several threads',
 'Designs, specifications, wrapped constant functions, constant buffers and constant math values never write to themselves through const operations, and components share no hidden state: constant objects placed in read-only memory (flash) work, and separate instances or concurrent const uses of one object from several threads do not interfere.',
 ['schedules','inputs','histories'],'all const operations of all components on objects in write-protected memory; random concurrent use of shared constants and separate instances',
 'Tests keep all objects in ordinary memory and use one thread.',
 [FLT,SOS,POLY,FUN,CBA,VAR],[('const operations without mutable state',FLT),('instances hold all state','include/embedded/signal/sos.h')],['page faults','data races','results'])
p('T01','Type-level utilities match their standard counterparts',
 'integer_sequence, make_integer_sequence, make_integer_range, index_sequence_for, conjunction, typelist and is_invocable_r compute exactly what their later-standard counterparts (or std definitions) compute, for every instantiation and in every language mode from C++11.',
 ['programs'],'generated instantiations: lengths 0..200, ranges, boolean packs of all lengths and value types, callables x argument lists x result types',
 'A handful of static instantiations, only in C++17 mode where the back-ports are bypassed.',
 ['include/embedded/utility/integer_sequence.h','include/embedded/type_traits/conjunction.h',INV,'include/embedded/typelist.h'],[('recursive templates','include/embedded/utility/integer_sequence.h')],['types and constants of generated instantiations'])
p('O01','Stream output represents the value',
 'Streaming a complex number, vector, std::array, zero/pole/gain set, filter section or fixed-point number of the fpm library (its value followed by its raw value in parentheses) writes a text from which all components can be read back in order at the stream\'s precision, in the bracketed/comma-separated notation, for every value including negative, zero and empty ones, and leaves the stream\'s format settings as they were.',
 ['inputs'],'all sizes 0..8 and values, stream precisions and flags',
 'ostream_ops.h is never compiled by the built tests.',
 ['include/embedded/ostream_ops.h'],[('operator<< overloads','include/embedded/ostream_ops.h')],['characters written'])
p('P01','The library works in every supported build configuration',
 'The whole library compiles without diagnostics as C++11, C++14, C++17 and C++20, with and without exceptions and RTTI, at every optimisation level, with GCC and with Clang, as 32-bit and as 64-bit programs, and with the constexpr mathematical functions taken from the GCC library or from gcem; and the same program computes the same results in all of these configurations. (How much a constexpr function may contain is not judged: C++11 allows one return statement only.)',
 ['configurations','programs','inputs'],'language modes x exceptions/RTTI x optimisation x generated workloads',
 'The baseline builds one 64-bit configuration; scripts/soak.sh builds with -m32 too.',
 ['include/embedded/config.h','include/embedded']+[],[('LIBEMB_HAS_EXCEPTIONS',"include/embedded/config.h"),('C++11 fallbacks','type_traits/is_invocable.h, constexpr_math/functions.h')],['digest of results of one generated workload per configuration'])
p('N01','The library never allocates dynamic memory',
 'No operation of circular_buffer_adapter, varint, function, move_wrapper, lock_guard, the compile-time math library or the filters (design at run time, instantiation, processing) allocates dynamic memory, whatever the inputs and history, as long as user-supplied types do not.',
 ['histories','inputs'],'generated histories over all components with allocation monitored',
 'No test observes allocation.',
 ['include/embedded'],[('in-place storage, caller-provided memory, fixed arrays','include/embedded')],['malloc/operator new calls'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
ids=set()
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title'])); assert x['id'] not in ids; ids.add(x['id'])
        f.write(json.dumps(x)+'\n')
print(len(P))
