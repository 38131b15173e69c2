"""The properties, with what decides each of them.  meta/gen.py writes properties.jsonl and MANIFEST.json from this table."""

I, S, H, Cf, Pr = 'inputs', 'schedules', 'histories', 'configurations', 'programs'


def P(id, title, statement, over, text, why, files, mech, technique, bounds=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, bounds=bounds)


INC = 'include/obake/'
PROPS = [
    P('U01', 'The random generator follows its recurrence for every state and type',
      'Seeded with any pair of 64-bit words, the pseudo-random generator emits the xoroshiro128+ (24, 16, 37) sequence, whichever way '
      'the next word is requested. A random integer of any integral type is the next output reduced to that type, except for 128-bit types, '
      'which take two successive outputs with the first one most significant.',
      [I], 'every seed; every integral type, including the 128-bit ones', 'The tests look at a few draws of fixed seeds.',
      [INC + 'detail/xoroshiro128_plus.hpp'], [('state update and output', 'xoroshiro128_plus::next'), ('per-type draw', 'xoroshiro128_plus::random')],
      'value numbering of the instantiated code: symbolic summaries as normal forms, compared with the reference recurrence'),
    P('U02', 'Integers print as their exact decimal form',
      'Converting any value of any integral type (including the 128-bit ones) to text yields exactly its decimal digits, most significant first, '
      'preceded by a minus sign exactly when it is negative. No character is written outside the local buffer, whatever the value. Printing a '
      '128-bit coefficient to a stream inserts exactly that text.',
      [I], 'every value of every integral type', 'The tests compare random samples; extreme values and the buffer bound need all values.',
      ['src/detail/to_string.cpp', 'src/cf/cf_stream_insert.cpp', INC + 'detail/to_string.hpp'],
      [('digit loop into a fixed buffer', 'src/detail/to_string.cpp'), ('stream insertion of 128-bit integers', 'src/cf/cf_stream_insert.cpp')],
      'loop summaries (transition relation, exit test, store pattern) and exact capacity arithmetic on the type bounds'),
    P('U03', 'Atomic flag guard and flag array: mutual exclusion and exact capacity',
      'The flag guard leaves its constructor only after having atomically acquired the flag, with acquire ordering, and releases it exactly '
      'once, with release ordering, on scope exit. An atomic flag array of n flags holds n distinct flags, all clear after construction; a size that cannot '
      'be allocated is refused with an error, and no access touches memory outside the n slots.',
      [S, I], 'every schedule of threads using the guard; every array size', 'Thread tests sample schedules; size overflow cannot be reached by a test.',
      [INC + 'detail/atomic_lock_guard.hpp', INC + 'detail/atomic_flag_array.hpp', 'src/detail/atomic_flag_array.cpp'],
      [('spin acquisition', 'atomic_lock_guard'), ('raw storage and placement construction', 'atomic_flag_array')],
      'typestate over the event trace of construction and destruction; memory-order lattice; symbolic allocation size against construction loop'),
    P('U04', 'Process-wide per-type storage is created once and always under the lock',
      'Concurrent requests for the process-wide object of a type all get the address of one single object, whose storage is created by the first request only and has the '
      'requested size. The table of objects is read and written only while its mutex is held, a failed creation leaves no entry behind, and every object '
      'created is cleaned up at program exit.',
      [S, 'fault_sequences'], 'every interleaving of requests; every allocation failure', 'The tests make single-threaded requests without failures.',
      ['src/detail/fw_utils.cpp', INC + 'detail/fw_utils.hpp'], [('locked table of storage', 'src/detail/fw_utils.cpp'), ('instance accessor', 'fw_utils.hpp')],
      'lock-set analysis and ordering rules over the event trace of the storage accessor, with exceptional edges'),
    P('U05', 'The number of worker threads is never zero',
      'The reported hardware concurrency is at least one on every platform, and equals the value of the system whenever that value is known.',
      [Cf], 'every value the system may report', 'The test machine reports one value.', ['src/detail/hc.cpp'], [('fallback for an unknown value', 'src/detail/hc.cpp')],
      'symbolic summary of every path, implication checked over all orderings'),
    P('U07', 'Visiting a tuple calls the visitor once per element, in order',
      'Visiting a tuple applies the visitor exactly once to every element, in element order, and passes the element itself (an lvalue as an '
      'lvalue, an rvalue as an rvalue).', [Pr, I], 'every tuple and visitor', 'The tests use a few tuples whose visitor results do not reveal order or duplicates.',
      [INC + 'detail/tuple_for_each.hpp'], [('pack expansion over the elements', 'tuple_for_each')], 'event trace with an opaque visitor'),
    P('U08', 'Powers of floating-point values are computed in the wider of the two types',
      'Raising an arithmetic value to an arithmetic power, where at least one of the two is a floating-point number, is the standard power function applied to '
      'the unchanged arguments in their common floating-point type; an integral argument takes the type of the other one.', [I], 'all arithmetic argument type pairs and values',
      'The tests compare a few values.', [INC + 'math/pow.hpp'], [('dispatch on the argument types', 'math/pow.hpp')], 'resolved callee and argument flow of each instantiation'),
    P('U13', 'Raising an error throws exactly the requested exception with the message',
      'The error-raising facility always throws exactly the requested exception type and never returns; the exception carries the whole message given, together with the name of the type and the current stack trace, and receives the other arguments unchanged. '
      'A stack trace is generated exactly when stack traces are enabled, and the query reports what the setter stored.', [I, H], 'every exception type and message, every setting',
      'The tests use one exception type.', [INC + 'exceptions.hpp', INC + 'stack_trace.hpp', 'src/stack_trace.cpp'],
      [('exception construction', 'exceptions.hpp'), ('switch', 'src/stack_trace.cpp')], 'exceptional-exit analysis and event trace'),
    P('U18', 'Stack traces list every frame once, aligned, starting where requested',
      'A stack trace has one line per frame, outermost first, with the index, the source location and the name of the frame, and a line break between lines only. It starts after the requested number of frames, goes as deep as the stack, '
      'and the width of each column is the largest one, so the length of the padding never underflows; nothing is generated when traces are disabled.',
      [I], 'every call stack and number of skipped frames', 'The tests only look at whether the text is empty.', ['src/boost_stack_trace.cpp', INC + 'stack_trace.hpp'],
      [('trace generation', 'src/boost_stack_trace.cpp')],
      'summary of the trace generator: rows stored, running maxima, text of a line, compared with the required ones'),
    P('K01', 'Packing refuses exactly the values and sizes it cannot represent',
      'A packer for n values refuses n when it is larger than the maximum size of the type, refuses a value exactly when it lies outside the representable range '
      'for n components, and refuses an (n+1)-th value; a refusal is an error that leaves the packer unchanged. The packed value of the components '
      'inserted so far is their positional sum in the base for n components.', [I, H], 'every packable type, size and sequence of values',
      'The tests draw random values far from the limits of most sizes.', [INC + 'kpack.hpp', 'src/kpack.cpp'], [('size and range checks', 'kpacker::kpacker, kpacker::operator<<')],
      'symbolic summaries; throw conditions compared by deciding equivalence over all orderings of the values'),
    P('K02', 'Unpacking refuses exactly the coded values and extractions that are invalid',
      'An unpacker refuses a size larger than the maximum, a nonzero code of size zero, and a code outside the range of codes for that size; it refuses to extract '
      'more components than its size. A refusal is an error that modifies nothing.', [I, H], 'every packable type, size, code and number of extractions',
      'The tests try single examples of each refusal.', [INC + 'kpack.hpp', 'src/kpack.cpp'], [('size and range checks', 'kunpacker::kunpacker, kunpacker::operator>>')],
      'symbolic summaries; throw conditions compared by deciding equivalence over all orderings of the values'),
    P('K03', 'Unpacking returns exactly the components that were packed',
      'For every packable type, every size up to the maximum and every sequence of components accepted by the packer, unpacking the packed value returns the same components in the same order. '
      'No intermediate value overflows.', [I], 'every type, size and sequence of components', 'Random tests cannot cover the value space, and a wrong constant of one size shows only at specific values.',
      [INC + 'kpack.hpp', 'src/kpack.cpp'], [('constants', 'src/kpack.cpp'), ('division by multiplication and shifts', 'kunpacker::operator>>')],
      'symbolic summaries in normal form modulo the word size; exact arithmetic over every entry of the evaluated constant tables'),
    P('U06', 'Customisable operations dispatch to the highest-priority implementation',
      'A customisable operation invoked on arguments of any type uses, in this order, the implementation registered externally for the type, the one found by argument-dependent lookup, '
      'the one the library keeps internally, and the default where one exists; when none exists the call is rejected at compile time and the corresponding type query is false. '
      'The arguments are forwarded unchanged, in their order and value category, the result or the exception of the implementation reaches the caller unchanged, and every query agrees with what the call accepts.',
      [Pr], 'every combination of available implementations, for every operation', 'A test picks single combinations; dispatch is a property of all programs using it.',
      [INC + 'math/', INC + 'byte_size.hpp', INC + 'cf/', INC + 'key/', INC + 'hash.hpp'], [('dispatch chains', 'include/obake/math/*.hpp, include/obake/key/*.hpp, include/obake/cf/*.hpp')],
      'resolution of each call by the front end over generated archetypes, followed through the call graph to the implementation reached; evaluated type queries'),
    P('U09', 'Number-type classification, unsigned counterparts and limits match the language',
      'The queries for integral, arithmetic and signed types are true exactly for the types of their definition, including the 128-bit integers and excluding references, pointers and '
      'cv-qualified variants where the definition does. The unsigned counterpart of each integral type keeps its qualifiers, and the minimum, maximum and digit count reported for each type are exact.',
      [Pr], 'every fundamental type under every qualification', 'The tests check some of the combinations.', [INC + 'type_traits.hpp', INC + 'detail/limits.hpp'],
      [('type queries', 'type_traits.hpp'), ('limits', 'detail/limits.hpp')], 'compile-time witnesses: constant evaluation of each query by the front end, compared with the definition'),
    P('U10', 'Non-throwing conversions succeed exactly when the value is representable',
      'Converting an integer of any type to any other integral type succeeds exactly when the value is representable in the target, and then stores exactly that value; otherwise it reports failure, throws nothing, '
      'and leaves the target unchanged. Conversions between multiprecision numbers and integers behave in the same way, a rational converting to an integer only if its denominator is one.',
      [I], 'every value, every pair of types', 'The tests sample values of some pairs.', [INC + 'math/safe_convert.hpp'], [('range comparison', 'detail::safe_convert')],
      'value-range analysis: symbolic summary of each instance decided on every region of the source value space'),
    P('U11', 'Checked casts return the exact value or raise the documented error',
      'A checked cast returns exactly the value of its argument when the target type can represent it, and otherwise always raises the documented conversion error; it never returns an altered value. '
      'A cast to the type of the argument returns the argument.', [I], 'every value and pair of types', 'The tests sample values.', [INC + 'math/safe_cast.hpp'],
      [('cast built on the conversion', 'safe_cast')], 'symbolic summaries: throw condition against the failure of the conversion, returned value'),
    P('U12', 'Checked integer addition and subtraction never overflow',
      'The checked addition and subtraction of integers of the same type return the exact result whenever it is representable and raise an overflow error otherwise, for every signed and unsigned type including the 128-bit ones. '
      'No intermediate computation overflows.', [I], 'every pair of values of every integral type', 'The tests use a few values near the limits.', [INC + 'detail/safe_integral_arith.hpp'],
      [('overflow guards', 'safe_int_add, safe_int_sub (detail/safe_integral_arith.hpp)')], 'symbolic summaries; guard decided over the regions of the value pairs, in modular arithmetic'),
    P('U14', 'Symbol sets are merged, intersected, printed and saved without losing symbols',
      'Merging two symbol sets yields their sorted union and, for each input, a map telling exactly which symbols must be inserted before which position to turn it into the union. The positional intersection of a set or map '
      'with a reference set lists exactly the positions of the common symbols, with their mapped values. The hash depends on every symbol, the printed form lists every symbol once and in order, and loading a saved set restores it.',
      [I], 'every pair of symbol sets', 'The tests use sets of a few symbols.', ['src/symbols.cpp', INC + 'symbols.hpp'],
      [('union and insertion maps', 'merge_symbol_sets'), ('positional intersections', 'ss_intersect_idx, sm_intersect_idx'), ('serialization', 'symbols.hpp')],
      'loop summaries (transition relations, guards, insertions) compared with the required relations'),
    P('U15', 'Type requirements accept exactly the types that meet every clause',
      'The queries for operators, streams, iterators, ranges, string-likes, callables, semi-regular types and the like are true for a type meeting every clause of their definition and false for a type missing any one clause.',
      [Pr], 'every type; witnessed by one archetype per missing clause', 'The tests exercise a few archetypes.', [INC + 'type_traits.hpp', INC + 'ranges.hpp', INC + 's11n.hpp'],
      [('type queries', 'type_traits.hpp, ranges.hpp, s11n.hpp')], 'compile-time witnesses: archetypes differing in one clause, evaluated by the front end'),
    P('U16', 'Iterator differences, ranges and arrays are built without loss',
      'The distance between two iterators is obtained exactly or an error is raised. A range made from two iterators begins and ends where they say, range access finds the same begin and end as the language does, '
      'and an array made from values holds all of them in order.', [I, Pr], 'every iterator pair, every argument list', 'The tests use small containers.',
      [INC + 'detail/it_diff_check.hpp', INC + 'ranges.hpp', INC + 'detail/make_array.hpp'], [('difference check', 'it_diff_check'), ('range access', 'ranges.hpp')],
      'symbolic summaries of the instances compared with the required values'),
    P('U17', 'Basic coefficient operations are exact',
      'The derivative of a numerical coefficient is zero, negation in place replaces a value by its opposite, fused multiply-add adds the product of its last two arguments to the first, and the byte size of a number '
      'accounts for its storage. The TeX form of a rational or 128-bit integer denotes exactly its value, sign included.', [I], 'every value', 'The tests sample values.',
      [INC + 'math/', INC + 'cf/cf_tex_stream_insert.hpp', INC + 'byte_size.hpp'], [('coefficient operations', 'include/obake/math'), ('TeX output', 'cf/cf_tex_stream_insert.hpp')],
      'symbolic summaries and output traces compared with the required ones'),
    P('M01', 'Monomial degrees are exact sums of exponents',
      'The degree of a monomial is the sum of all its exponents, and its partial degree with respect to a set of positions is the sum of the exponents at exactly those positions. '
      'For dynamic packed monomials the sum is exact or an overflow error is raised.', [I], 'every monomial, symbol set and set of positions, every exponent type', 'The tests use a few random monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('M02', 'Inserting symbols into a monomial shifts the exponents and adds zeros',
      'Merging new symbols into a monomial keeps every exponent, in order, and inserts exactly as many zero exponents as listed before each listed position (or after the last one). '
      'The result is packed for the new number of symbols.', [I], 'every monomial, insertion map and exponent type', 'The tests use a few random monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('M03', 'Trimming a monomial removes only unused symbols',
      'The identification of unused symbols clears the flag of a symbol exactly when its exponent is nonzero, whatever the other exponents. Trimming removes exactly the exponents at the listed positions, '
      'keeping the others in order, and packs the result for the remaining symbols.', [I], 'every monomial, set of positions and exponent type', 'The tests use a few random monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('M04', 'Monomial powers multiply every exponent without wrapping',
      'Raising a monomial to a power multiplies each exponent by the power in arbitrary precision, and the result is converted back with a range check, so no exponent ever wraps. A power that is not an integer raises an error.',
      [I], 'every monomial, power and exponent type', 'The tests use a few random monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('M05', 'Monomial evaluation and substitution use every exponent once',
      'Evaluating a monomial gives the product, starting from one, of the value of each symbol raised to its own exponent. Substitution multiplies the powers of exactly the listed symbols, '
      'and returns the monomial with their exponents set to zero and all the others unchanged.', [I], 'every monomial, substitution map and exponent type', 'The tests use a few random monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('M06', 'Monomial derivatives and integrals follow the power rule',
      'Differentiating a monomial returns the exponent of the variable and the monomial with that exponent lowered by one, or a zero factor if the exponent is zero. Integrating returns the exponent raised by one and the corresponding '
      'monomial, and raises an error for an exponent of minus one; the other exponents never change.', [I], 'every monomial, variable and exponent type', 'The tests use a few random monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('M07', 'Monomial construction and queries are consistent',
      'A monomial built from a list or range of exponents holds exactly those exponents in order, and a monomial built for a symbol set holds one zero per symbol; exponents that do not fit raise an error. '
      'The zero and unit tests, compatibility with a symbol set, equality and the reported memory size all agree with the stored exponents.', [I], 'every list of exponents, symbol set and exponent type', 'The tests use a few small monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('M08', 'Monomial product adds exponents and hashes add up',
      'The product of two monomials has as each exponent the sum of the corresponding exponents of the factors. The hash of a product is the sum of the hashes of the factors, and equal monomials have equal hashes.',
      [I], 'every pair of compatible monomials and exponent type', 'The tests use a few random monomials.',
      [INC + 'polynomials/packed_monomial.hpp', 'src/polynomials/packed_monomial.cpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('packed', 'src/polynomials/packed_monomial.cpp'), ('dynamic packed', 'polynomials/d_packed_monomial.hpp')],
      'loop summaries over flattened exponent scans, compared with the required relations'),
    P('S01', 'Series never hold zero, incompatible or duplicate terms',
      'Whenever terms are inserted, moved, copied with symbol extension or combined in place by a series operation, no term with a zero coefficient or a zero or incompatible monomial remains in the '
      'series, like terms are merged into one, and each term lies in the segment its hash selects. An incompatible monomial raises an error, and no segment grows above the maximum size.',
      [I, H], 'every series, term, symbol set, number of segments and sequence of operations', 'The tests insert a handful of terms into small series, and a broken invariant shows only in later operations.',
      [INC + 'series.hpp'], [('term insertion', 'detail::series_add_term, series::add_term'), ('symbol extension', 'detail::series_sym_extender'), ('in-place combination', 'detail::series_default_addsub_impl')],
      'site rule over every store, insertion and removal in the tables of a series: facts known on the path (checks, size, hash) against the facts required by the site'),
    P('S02', 'Lookup, size and iteration agree with the stored terms',
      'Looking up a monomial in a series finds its term exactly when the term is present, whatever the number of segments. The number of terms, the emptiness test and the single-coefficient test agree with '
      'the stored terms, and iteration visits every term exactly once, over all the segments.',
      [I, H], 'every series and number of segments', 'The tests use series with few terms, whose segments are mostly full or mostly empty.',
      [INC + 'series.hpp'], [('lookup', 'series::find'), ('iterators', 'series::iterator_impl'), ('sizes', 'series::size, series::empty')],
      'symbolic summaries of each query over an arbitrary array of segments, loops abstracted to per-segment reductions, compared with the required ones'),
    P('S03', 'Building, copying, moving and resetting a series keep its whole state',
      'Every way to build, copy, move, convert or reset a series gives it exactly the terms, symbol set, tag and number of segments it should have, and never loses or invents one of them. '
      'Conversions between series types convert each monomial and coefficient, and conversions to a coefficient require a series with no symbols and at most one term.',
      [I, H], 'every series, symbol set, tag and number of segments', 'The tests copy and move a few small series with a trivial tag.',
      [INC + 'series.hpp'], [('constructors and assignment', 'class series'), ('setters', 'series::set_symbol_set, set_n_segments, clear'), ('conversions', 'series generic constructors and conversion operator')],
      'symbolic summaries of each operation on an arbitrary series, in an algebra of term collections, compared field by field with the required state'),
    P('S04', 'Negating a series negates every coefficient and nothing else',
      'Negation, in place or not, changes the sign of the coefficient of every term of a series, whatever its number of segments. It leaves the monomials, the symbol set, the tag and the number of segments unchanged, '
      'and the identity operator changes nothing.',
      [I, H], 'every series and number of segments', 'The tests negate small series with one segment.',
      [INC + 'series.hpp'], [('negation', 'detail::series_default_negate_impl, operator-, operator+')],
      'symbolic summaries in an algebra of term collections, loops over terms summarised over an arbitrary segmented table'),
    P('S05', 'The sum or difference of two series has the terms of both',
      'Adding or subtracting two series gives exactly the terms of the first and those of the second (with their sign changed for a difference), like terms being accumulated, whatever the sizes, the segmentation and the coefficient types. '
      'Operands with different symbol sets are first extended to the union of the symbols, each with its own insertion map. An object can be added to itself, and a scalar operand is added as a term with unit monomial.',
      [I, H], 'every pair of series, relation between their symbol sets, sizes and numbers of segments', 'The tests use a few small operands; wrong signs, maps or operands show only in specific combinations of sizes, symbol sets and value categories.',
      [INC + 'series.hpp'], [('binary sums', 'detail::series_default_addsub_impl'), ('symbol extension', 'detail::series_sym_extender')],
      'symbolic summaries in an algebra of term collections, in each relation between the symbol sets, compared with the required collections'),
    P('S06', 'Adding to a series in place keeps all its terms',
      'Adding or subtracting a series in place leaves the target with exactly its own terms and those of the other operand (with their sign changed for a subtraction), over the union of the symbol sets, whatever the segmentation and the coefficient types. '
      'A series can be added to itself, and an operand whose coefficients are moved out is left empty rather than in an inconsistent state.',
      [I, H], 'every pair of series, relation between their symbol sets, sizes and numbers of segments', 'The tests use a few small operands; self-addition, moved operands and extended symbol sets interact in many more ways.',
      [INC + 'series.hpp'], [('in-place sums', 'detail::series_default_in_place_addsub_impl'), ('clearing of moved operands', 'detail::series_rref_clearer')],
      'symbolic summaries in an algebra of term collections, in each relation between the symbol sets, compared with the required collections'),
    P('S07', 'Scaling a series scales every coefficient',
      'Multiplying a series by a scalar, on either side, or dividing it by one, multiplies or divides every coefficient exactly once and keeps monomials, symbols and tag. Exactly the terms whose coefficient becomes zero are removed, '
      'whatever the number of segments.',
      [I, H], 'every series, scalar, side and number of segments', 'The tests scale small series; a term skipped or kept after a removal shows only for particular table layouts.',
      [INC + 'series.hpp'], [('scalar product', 'detail::series_default_mul_impl'), ('scalar quotient', 'detail::series_default_div_impl')],
      'symbolic summaries in an algebra of term collections; erase loops checked for visiting every term exactly once'),
    P('S08', 'Comparing series compares all of their terms',
      'Two series are equal exactly when they have the same tag and the same terms once extended to the union of their symbols, and a series equals a scalar exactly when it is that single coefficient (or is empty and the scalar is zero). '
      'Inequality is the negation, and the value categories of the operands do not matter.',
      [I, H], 'every pair of series, relation between their symbol sets, tags and numbers of segments', 'The tests compare small series; a comparison that ignores some terms or symbols accepts most equal pairs.',
      [INC + 'series.hpp'], [('equality', 'detail::series_equal_to_impl'), ('identical symbols', 'series_cmp_identical_ss')],
      'symbolic summaries in each relation between the symbol sets; the decision formula is compared with the required one by logical equivalence'),
    P('S09', 'Powers of series come out of a cache which never lies and never races',
      'The cache of the powers of a series returns, for every base and every exponent, a list whose n-th entry is the n-th power of that very base (the zeroth being one); it is looked up by the value of the whole base, symbols and tag included, with a hash on which equal bases always agree. '
      'A series which is empty or a single coefficient is raised by raising that coefficient (or zero), any other series only to a non-negative integral exponent, and everything else is an error. '
      'All accesses to the cache take place while holding the mutex of the cache.',
      [I, H, S], 'every base, exponent and history of previous powers, and every schedule of threads', 'The tests raise a few series to a few powers in one thread; stale or racing cache entries need a particular history or schedule.',
      [INC + 'series.hpp', 'src/series.cpp'], [('power', 'detail::series_default_pow_impl'), ('cache', 'detail::series_pow_cache / get_series_pow_map')],
      'symbolic summaries of power and cache with induction on the loop filling it; lock scopes tracked along the trace; comparison and hash of the cache keys checked for consistency'),
    P('S10', 'The degree of a series is the largest degree of its terms',
      'The (partial) degree of a series is zero for an empty series and otherwise the largest of the degrees of all of its terms, the degree of a term being that of its monomial, that of its coefficient or their sum, whichever exist. '
      'Partial degrees are computed over exactly the symbols requested which the series has.',
      [I], 'every series, number of segments, and every set of symbols', 'The tests look at small series whose largest term happens to come first or last.',
      [INC + 'series.hpp'], [('degree', 'detail::series_default_degree_impl'), ('partial degree', 'detail::series_default_p_degree_impl')],
      'symbolic summaries of the maximum as a loop or parallel reduction, with the obligation that every term takes part'),
    P('S11', 'Evaluating a series adds up the values of all of its terms',
      'The value of a series for a map of symbols is the sum over all of its terms of the value of the coefficient times the value of the monomial, for exactly the map given; an error is raised if the map lacks a symbol of the series.',
      [I], 'every series and every map', 'The tests evaluate a few polynomials at a few points.',
      [INC + 'series.hpp'], [('evaluation', 'detail::series_default_evaluate_impl')],
      'symbolic summary of the accumulation, each term taking part once'),
    P('S12', 'Trimming a series removes the unused symbols and nothing else',
      'Trimming keeps exactly the symbols which some term uses, in order, and every term with its monomial restricted to them and its coefficient trimmed in turn. '
      'The tag and the segmentation of the series are kept, and all the checks on the terms inserted take place.',
      [I], 'every series and every set of symbols', 'The tests trim a handful of polynomials; a term in a later table or a symbol at the end is easily missed.',
      [INC + 'series.hpp'], [('trim', 'detail::series_default_trim_impl')],
      'symbolic summary of the flags, the indices and the names selected, and the terms inserted'),
    P('S13', 'Filtering keeps what satisfies the predicate; adding symbols keeps every term',
      'Filtering, in place or into a new series, keeps exactly the terms for which the predicate is true, in the tables in which they will be found, along with symbols, tag and segmentation. '
      'Adding symbols to a series extends every term to the union of the old and the new symbols, and keeps all of them with their coefficients.',
      [I], 'every series, predicate and set of symbols', 'The tests filter a few polynomials with a few predicates.',
      [INC + 'series.hpp'], [('filter', 'detail::filter_impl'), ('filtered', 'detail::filtered_impl'), ('add symbols', 'detail::add_symbols_impl')],
      'symbolic summaries in an algebra of term collections; erase loops checked for visiting every term exactly once'),
    P('U19', 'What is loaded from an archive is what was saved',
      'Saving an object (symbol sets, packed monomials, polynomials, truncation limits of power series, whole series) writes every part of its state, and loading reads the same parts in the same order and with the same types, for every archive. '
      'As many elements are read as were written, and each ends up where it came from: in the same position of a sequence, in a table in which it will be found, in the same alternative of a choice.',
      [I, H], 'every serialisable object and archive', 'The tests save and load a few small objects with two kinds of archive; a field which is skipped or swapped shows only when its value is not the default.',
      [INC + 'series.hpp', INC + 'symbols.hpp', INC + 'polynomials/packed_monomial.hpp', INC + 'polynomials/d_packed_monomial.hpp', INC + 'power_series/power_series.hpp'],
      [('series', 'series::save / series::load'), ('symbols', 'symbol_set serialisation'), ('monomials', 'packed_monomial / d_packed_monomial serialize'), ('truncation', 'power_series tag save/load')],
      'the sequences of archive operations of saving and loading are extracted as trees (order, type, counts, branches) and matched against each other'),
    P('P01', 'The generators made by the factory are exactly the named indeterminates',
      'For every name requested, by any kind of string or symbol set, the factory of polynomials returns a polynomial consisting of a single term with unit coefficient and a monomial in which the named symbol has exponent one and all the others zero. '
      'The symbol set is the one supplied (or the single name, when none is supplied), the results are in the order of the names, and a name absent from the set is refused with an error.',
      [I], 'every list of names and symbol set', 'The tests ask for a few generators.',
      [INC + 'polynomials/polynomial.hpp'], [('generators from names', 'polynomials::detail::make_polynomials_impl'), ('factory', 'make_polynomials')],
      'symbolic summary of the factory per kind of name; the exponents are read as writes over zeros and compared with the unit vector'),
    P('P02', 'Substituting symbols in a polynomial substitutes them in every term',
      'Replacing symbols with values in a polynomial yields, for every polynomial, map of values and symbol set, the sum over all its terms of the product of the coefficient (itself substituted, if it can be), '
      'of the factor produced by the monomial and of the monomial left over. The symbols named in the map are the only ones affected, and the result is over the symbol set of the polynomial.',
      [I], 'every polynomial and map of values', 'The tests substitute a few symbols in a few polynomials.',
      [INC + 'polynomials/polynomial.hpp'], [('substitution', 'detail::poly_subs_impl')],
      'the result is read as a sum over the terms of the polynomial, in an algebra of series operations, and compared with the one required'),
    P('P03', 'The derivative of a polynomial obeys the product rule in every term',
      'The derivative with respect to a symbol is, for every polynomial, the sum over all its terms of the derivative of the coefficient times the monomial plus the coefficient times the derivative of the monomial; '
      'the second part is there exactly when the symbol belongs to the symbol set. The result is over the same symbols.',
      [I], 'every polynomial and symbol', 'The tests differentiate a few polynomials whose coefficients are mostly constant.',
      [INC + 'polynomials/polynomial.hpp'], [('derivative', 'detail::poly_diff_impl')],
      'the result is read as a sum over terms under presence and absence of the symbol, and compared with the product rule'),
    P('P04', 'The integral of a polynomial is term by term, adding the symbol when missing',
      'Integrating a polynomial with respect to one of its symbols integrates the monomial of every term, dividing the coefficient by the factor it produces; when the symbol is not in the set, it is inserted at its place and every monomial is extended and integrated. '
      'A coefficient which depends on the symbol is handled where the rules allow it and refused with an error otherwise, never integrated as if it were a constant.',
      [I], 'every polynomial and symbol', 'The tests integrate a few polynomials.',
      [INC + 'polynomials/polynomial.hpp'], [('integration', 'detail::poly_integrate_impl')],
      'the result is read, per case, as a sum over the terms of the (extended) polynomial; insertion map and symbol set compared with those required'),
    P('P05', 'Truncating a polynomial removes exactly the terms above the degree',
      'Truncating to a degree, total or restricted to some symbols, removes exactly the terms whose degree (that of the coefficient, if it has one, plus that of the monomial) is greater than the limit, and leaves every other term in place.',
      [I], 'every polynomial, limit and set of symbols', 'The tests truncate a few polynomials.',
      [INC + 'polynomials/polynomial.hpp'], [('truncation', 'polynomials::truncate_degree'), ('partial truncation', 'polynomials::truncate_p_degree')],
      'the predicate given to the filter is summarised on a symbolic term and compared with the required one'),
    P('P06', 'The power of a single term is a single term',
      'A polynomial of one term raised to an exponent is the polynomial over the same symbols whose only term is the power of its coefficient and the power of its monomial; in all other cases the power is the general one of series, of the same operands.',
      [I], 'every polynomial and exponent', 'The tests raise a few single-term polynomials to small powers.',
      [INC + 'polynomials/polynomial.hpp'], [('power', 'detail::pow_poly_impl')],
      'the summary of the power is split by the number of terms and each case compared with the one required'),
    P('P07', 'The product of two polynomials sums the products of all pairs of terms',
      'Multiplying two polynomials multiplies every term of one with every term of the other exactly once, over the union of their symbols and whatever the relation between these; products with the same monomial are added up, and terms which cancel out are removed. '
      'A polynomial without terms gives one without terms. Before multiplying, the exponents of all the monomials are checked for overflow, and an error is raised if they might.',
      [I], 'every pair of polynomials and relation between their symbols', 'The tests multiply a few polynomials; a missing pair or a term which cancels out in a rare case is not noticed.',
      [INC + 'polynomials/polynomial.hpp'], [('product', 'polynomials::series_mul'), ('term by term algorithm', 'detail::poly_mul_impl_simple'), ('symbols', 'detail::poly_mul_impl'), ('parallel algorithm', 'detail::poly_mul_impl_mt_hm')],
      'each multiplication of monomials is traced to terms of the operands, loops, insertion and removal of zeros; the cases of symbol sets and sizes are shown to be exhaustive; in the parallel algorithm the number of segments, the sorting and division of the terms in ranges, the pair of ranges chosen for each segment (by position, or by binary search with wrap-around) and the tasks are compared with the sum of the segments modulo their number, which homomorphic hashes (M08) justify; the estimates which choose the number of segments are taken as they come'),
    P('P08', 'A truncated product has exactly the pairs of terms within the limit',
      'Multiplying polynomials with a limit on the degree (total, or restricted to some symbols) multiplies exactly the pairs of terms whose degrees add up to no more than the limit, each once, and otherwise behaves as the full product. '
      'The degrees are computed over the symbols of the result, and limit and symbols are the ones requested for every algorithm which may be chosen.',
      [I], 'every pair of polynomials, limit and set of symbols', 'The tests truncate a few products; wrong bounds show only for certain distributions of the degrees.',
      [INC + 'polynomials/polynomial.hpp'], [('truncated product', 'polynomials::truncated_mul'), ('sorting by degree and search of the bound', 'detail::poly_mul_impl_simple'), ('the same within segments', 'detail::poly_mul_impl_mt_hm')],
      'sequences of terms are read as permutations of the operands; the order, the searched bound and the early exit are compared with the condition on the sum of the degrees, also within the ranges of the parallel algorithm'),
    P('C01', 'Parallel tasks share no object that one of them writes',
      'Whenever an operation runs in several threads, no two of its concurrent tasks use the same object if one of them modifies it: each task writes only to its own local objects and to the positions of a shared container '
      'that belong to its own part of the range. Results therefore do not depend on how the tasks are scheduled, and an operation needs no locks of its own.',
      [S], 'every division of the range into tasks and every schedule of the tasks', 'A race shows on few schedules, and most tests are too small to start more than one task.',
      [INC + 'series.hpp', INC + 'polynomials/polynomial.hpp', INC + 'polynomials/packed_monomial.hpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('parallel sections', 'tbb::parallel_for, parallel_reduce, parallel_invoke in series.hpp, polynomial.hpp and the monomials')],
      'effect analysis of every task of every parallel section (all reads and writes through calls), with an ownership argument for the positions written'),
    P('C02', 'Process-wide state is synchronised, whatever thread uses it',
      'Every object that outlives the calls and is shared by threads is constant, atomic, private to a thread, or read and modified only while one and the same lock is held; everything else an operation uses belongs to its call. '
      'Distinct objects of the library can therefore be used from distinct threads without further precautions, and a value computed once and kept never depends on the arguments of the call that computed it.',
      [S, H], 'every interleaving of calls from any number of threads', 'Unsynchronised use of a shared object shows only under rare interleavings.',
      ['src/series.cpp', 'src/detail/fw_utils.cpp', 'src/detail/to_string.cpp', 'src/stack_trace.cpp', INC + 'series.hpp', INC + 'polynomials/d_packed_monomial.hpp'],
      [('cache of powers and its lock', 'src/series.cpp'), ('storage of unique objects', 'src/detail/fw_utils.cpp'), ('per-thread buffers', INC + 'polynomials/d_packed_monomial.hpp')],
      'enumeration of all variables of static storage in the instantiated program; lock-set analysis of every access to the mutable ones'),
    P('M09', 'The product overflow test never accepts overflowing ranges',
      'The test made before a product of two ranges of monomials answers yes only if the product of every monomial of the first with every monomial of the second is representable: every sum of exponents, '
      'and in the dynamic representation the sum of the degrees, is within bounds. It answers yes whenever the least and the largest sums of exponents and degrees are within bounds, or a range or the symbol set is empty, '
      'and its answer does not depend on whether the ranges are examined by one thread or by several.',
      [I], 'every pair of ranges of monomials, of any length, kind of iterator and exponent type', 'The tests use short ranges, so that the parallel examination of long ones is reached with few values, and they do not place the extreme exponent at an arbitrary position.',
      [INC + 'polynomials/packed_monomial.hpp', INC + 'polynomials/d_packed_monomial.hpp', INC + 'polynomials/monomial_range_overflow_check.hpp'],
      [('packed', 'monomial_range_overflow_check in polynomials/packed_monomial.hpp'), ('dynamic packed', 'monomial_range_overflow_check in polynomials/d_packed_monomial.hpp')],
      'limits read back as extrema over the monomials of each range through loops and parallel reductions; the decision compared with interval arithmetic'),
    P('W01', 'Sums of power series respect the truncation of their operands',
      'The sum or difference of two power series is an error exactly if both are truncated in different ways or at different limits; otherwise the result has the truncation of the truncated operand and contains no term beyond it. '
      'Adding or subtracting something of smaller rank keeps the truncation and applies it; all of this holds alike for the operators that modify their operand.',
      [I], 'every pair of series, each combination of no, total and partial truncation', 'The tests add a few series; a truncation lost or applied too early shows only for certain combinations and degrees.',
      [INC + 'power_series/power_series.hpp'], [('sums', 'detail::ps_addsub_impl'), ('sums in place', 'detail::ps_in_place_addsub_impl')],
      'each operation is summarised in each of the nine combinations of truncations; condition of the exceptions, truncation of the result and predicate of the terms kept are compared with the required ones'),
    P('W02', 'Products of power series respect the truncation of their operands',
      'The product of two power series is an error exactly if both are truncated in different ways or at different limits; otherwise the terms are multiplied within the limit of the truncated operand, whose truncation the result has.',
      [I], 'every pair of series, each combination of no, total and partial truncation', 'The tests multiply a few series of few combinations.',
      [INC + 'power_series/power_series.hpp'], [('products', 'power_series::series_mul')],
      'the product is summarised in each of the nine combinations of truncations; the limits handed to the truncated product of polynomials (P08) and the truncation of the result are compared with the required ones'),
    P('W03', 'Setting a truncation removes exactly the terms beyond the limit',
      'Truncating a power series in the total degree or in the degree of some symbols keeps exactly the terms whose degree does not exceed the limit; setting a truncation does so and stores that limit, and reading it returns what was stored. '
      'Unsetting it changes no term; if a truncation being set fails once terms have been removed, the series is left empty and the failure is reported.',
      [I], 'every series, limit and set of symbols', 'The tests truncate a few series at a few limits.',
      [INC + 'power_series/power_series.hpp'], [('truncation', 'power_series::truncate_degree, truncate_p_degree'), ('setting', 'set_truncation, unset_truncation, get_truncation, truncate')],
      'the predicate of the terms kept is derived from the source and compared with the required one; the value stored and the paths of failures are compared likewise'),
    P('W04', 'Powers and integrals of power series are truncated',
      'A power of a power series has the truncation of its base, and its integral the truncation of the integrand; the result contains no term beyond the limit.',
      [I], 'every series, exponent and symbol', 'The tests compute a few powers, most of which take one of several paths.',
      [INC + 'power_series/power_series.hpp'], [('powers', 'power_series::pow'), ('integrals', 'power_series::integrate')],
      'each operation is summarised for each kind of truncation; the truncation of the result, the terms kept and the order of the two are compared with the required ones'),
    P('W05', 'Generators of power series are single symbols with the truncation requested',
      'A generator of a power series consists of one term of coefficient one, whose exponent is one for the symbol requested and zero for the others; a name outside a given symbol set is an error. '
      'If a truncation is requested, each generator has it and contains no term beyond it.',
      [I], 'every name, symbol set and limit', 'The tests create a few generators.',
      [INC + 'power_series/power_series.hpp'], [('generators', 'make_p_series, make_p_series_t, make_p_series_p')],
      'the terms, symbol set and truncation of each generator returned are derived from the source and compared with the required ones, including for several generators created at once'),
    P('W06', 'Truncations are compared, hashed, exchanged and printed by value',
      'Two truncations are equal exactly if their kind, limit and symbols are equal, equal truncations have equal hashes, and truncations share their storage only if they are equal. '
      'Exchanging two truncations exchanges them completely, and printing one shows its limit and its symbols.',
      [I], 'every pair of truncations', 'The tests compare a few truncations.',
      [INC + 'power_series/power_series.hpp'], [('the truncation', 'power_series::tag')],
      'the functions are summarised for each kind of truncation and compared with the required results'),
    P('W07', 'Derivatives, integrals and substitutions keep the truncation',
      'The derivative, the integral and the result of a substitution in a truncated power series carry the truncation of that series, in the total degree or in the degree in some symbols. '
      'This holds whether or not the symbol occurs in the series and whether the result is built term by term or as a sum of products, in which case every intermediate series carries the truncation.',
      [I, H], 'every power series, truncation and symbol', 'The tests differentiate and integrate a few series and compare terms; a truncation lost on one path shows only in later operations.',
      [INC + 'polynomials/polynomial.hpp', INC + 'power_series/power_series.hpp'], [('derivative', 'diff'), ('integral', 'integrate'), ('substitution', 'subs')],
      'the truncation of every series the result is made from is followed through copies, insertions, scalings, sums and the iterations of loops to the operand'),
    P('W08', 'The TeX text of a power series states its truncation',
      'The TeX text of a power series consists of the TeX text of its terms, followed, if it is truncated, by an order symbol with the limit in TeX form, its brackets balanced. '
      'A truncation in the degree in some symbols shows each of these symbols once, separated from each other and from the limit; without a truncation nothing follows the terms.',
      [I], 'every power series and truncation', 'The tests write a few series; the separators of the symbols and the position in the buffer depend on the truncation.',
      [INC + 'power_series/power_series.hpp'], [('TeX', 'tex_stream_insert')],
      'symbolic summary of the output for each kind of truncation as a sequence of literal text and values, and of the loop over the symbols, compared with the sequence required'),
    P('M10', 'The text of a monomial shows every symbol with its exponent',
      'Writing a monomial lists, in the order of the symbol set, exactly the symbols whose exponent is not zero, each with its exponent unless it is one; a monomial without such symbols is written as one. '
      'In TeX mode the symbols with positive exponents stand above and those with negative exponents below a fraction bar, each with the absolute value of its exponent.',
      [I, H], 'every monomial and symbol set', 'The tests write a few monomials; a separator after a leading zero exponent or a negative exponent other than minus one is easily missed.',
      [INC + 'polynomials/packed_monomial.hpp', INC + 'polynomials/d_packed_monomial.hpp'], [('plain text', 'key_stream_insert'), ('TeX', 'key_tex_stream_insert')],
      'symbolic summary of the loop over the exponents as a sequence of literal text and values per case of the exponent, compared with the sequence required'),
    P('S14', 'The text of a series shows its terms, and says if some are missing',
      'Writing a series lists its terms in order, joined by plus or, before a negative term, by minus; a unit coefficient or monomial is left out unless it stands alone, and brackets around a lone coefficient are removed. '
      'If the list stops before the last term, it ends with an ellipsis, and only then; a series without terms is written as zero. '
      'A series used as a coefficient is written in brackets exactly if it has several terms, and the header gives tag, symbols and number of terms.',
      [I, H], 'every series, and every text of its coefficients and monomials', 'The tests look at a few short series; the case of exactly the maximum number of terms, or of a bracketed coefficient next to a unit monomial, is easily missed.',
      [INC + 'series.hpp', 'src/series.cpp'], [('terms', 'detail::series_stream_terms_impl'), ('one term', 'detail::series_stream_single_term'), ('header', 'detail::series_stream_insert_impl'), ('coefficients', 'customisation::internal cf_stream_insert / cf_tex_stream_insert for series')],
      'symbolic summary of the loop over the terms as a sequence of literal text and of the texts of coefficients and monomials, for every case of both, compared with the sequence required'),
    P('S15', 'The size in bytes reported for an object covers all of its parts, once',
      'The size in bytes of a series is, for any number of tables, that of the object and of every table, plus the sizes of monomial and coefficient and the padding of every one of its terms exactly once, plus the size the tag reports for itself in place of its static size. '
      'The size of a dynamic monomial counts the object and all of the storage it holds, that of an integer counts its limbs when they are allocated dynamically, and that of a rational counts numerator and denominator.',
      [I, H], 'every series, with any number of terms and tables, and every monomial and number', 'The tests compare the sizes of a few objects with lower bounds; a table or a part which is left out does not show.',
      [INC + 'series.hpp', INC + 'byte_size.hpp', INC + 'polynomials/d_packed_monomial.hpp'], [('series', 'customisation::internal::series_default_byte_size_impl'), ('numbers', 'detail::byte_size'), ('monomials', 'byte_size(d_packed_monomial)')],
      'symbolic summary of the sum as a linear form per number of tables; loops and reduction checked for counting every term once'),
    P('N01', 'Product of polynomials equals the mathematical product',
      'The product of two polynomials has, for every monomial, as coefficient the sum of the products of the coefficients of all pairs of terms whose monomials multiply to it.',
      [I], 'every pair of polynomials and coefficient type', 'The tests multiply a few polynomials.', [INC + 'polynomials/polynomial.hpp'], [('multiplication', 'poly_mul_impl')], ''),
    P('N02', 'Size estimates of products are accurate',
      'The estimated number of terms of a product is close to the true one with high probability.',
      [I], 'every pair of polynomials', 'The tests check a few seeds.', [INC + 'polynomials/polynomial.hpp'], [('estimation', 'poly_mul_estimate_product_size')], ''),
    P('N03', 'Parallel products and concurrent table users always finish',
      'Parallel products, parallel degree computations and concurrent uses of the tables of unique objects finish under every schedule.',
      [S], 'every schedule and number of threads', 'The tests run a few schedules.', [INC + 'polynomials/polynomial.hpp', 'src/detail/fw_utils.cpp'], [('spinning', 'atomic_lock_guard')], ''),
]

NA = {
    'N01': 'The algebraic identity is over the values of unbounded coefficient arithmetic (user types, mp++ numbers) and over the composition of every step at run time; no static argument bounds those values. '
           'Its structural parts are claimed separately: exponent arithmetic (M08), overflow test (M09), absence of lost or duplicate terms (S01, P07), which pairs are multiplied and truncated (P08).',
    'N02': 'The estimate is a random sample of the products; its error is a property of the distribution of the terms and of the random numbers, which only execution or a probabilistic proof can settle. '
           'A wrong estimate costs time or memory, not correctness, and the correctness is claimed elsewhere.',
    'N03': 'Termination depends on the scheduler and on fairness of spinning on atomic flags: a liveness property over schedules, which needs model checking; the safety part (no lock held twice, released on every path, no data race) is claimed in U03, C01 and C02.',
}
NOTES = 'One static-analysis engine (tool/obx.cpp, sa/) and one rule set per property (sa/rules/); see DESIGN.md.'
