#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the statements stay reviewable)"""
import json, os
H = 'include/dice/template-library/'
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': [H + f for f in files],
                          'mechanism': [{'name': mech, 'where': H + files[0]}]}})


prop('C01', 'channel: every shared access is under the mutex, and it is always released',
     'In channel, every access to the queue that any member function or iterator makes happens while that channel\'s own mutex is held, '
     'and the closed flag is only accessed atomically or under that mutex, so concurrent use by any number of threads is free of data races. '
     'The mutex is released again on every exit of every operation, including exits by an exception of the element type or of the allocation, '
     'and is never locked recursively.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of push/emplace/pop/try_pop/close/closed/iteration by any number of threads, all element types and exceptions',
     'the tests run a few threads for a few iterations; a missing lock or a lock leaked on an exception path shows up only under rare schedules or faults',
     ['channel.hpp'], 'one std::mutex guards the deque; unique_lock/lock_guard in each member function')
prop('C02', 'channel: no lost wakeups',
     'Every push/emplace that adds an element to a channel afterwards notifies a thread blocked in pop, every removal of an element (by pop, try_pop or iteration) '
     'notifies a thread blocked in push/emplace, and close notifies every waiter of both kinds. '
     'A thread goes to sleep only after finding, under the mutex, that its operation cannot proceed and the channel is open, re-checks that after every wakeup, and the change that '
     'satisfies a waiter is made under the mutex before the notification, so no wakeup falls between check and sleep.',
     ['schedules', 'histories'],
     'all interleavings of producers, consumers and close, spurious wakeups included',
     'a lost wakeup needs a particular interleaving; tests with two threads almost never produce it and hang rather than fail',
     ['channel.hpp'], 'two condition variables (not empty, not full), predicate waits, notify_one/notify_all')
prop('C03', 'channel: bounded FIFO with close',
     'push/emplace on a channel append exactly one element at the back and return true, or return false and enqueue nothing, which happens only '
     'because the channel is closed; the number of queued elements never exceeds the capacity. pop and try_pop remove exactly the oldest element '
     'and return it; try_pop returns empty only if the queue is empty, pop only if it is empty and the channel is closed.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'],
     'every history of operations, every capacity, every interleaving (each operation being one critical section), exceptions of the element type',
     'tests use fixed small scripts; capacity and close races are schedule dependent',
     ['channel.hpp'], 'capacity test before enqueueing, closed flag, front/pop_front')
prop('C04', 'exchange_channel: one slot, latest value, no race, no lost wakeup',
     'An exchange_channel holds at most one value: push/emplace replace an unconsumed value and wake a waiting consumer, or return false and change '
     'nothing because the channel is closed; pop and try_pop take the value out, so each value is consumed at most once, and pop returns empty only '
     'when the channel is closed and holds no value. All accesses to the slot are under the channel\'s mutex, which is released on every exit, '
     'and waiting re-checks its condition under the mutex.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of producers, consumers and close, all element types and exceptions',
     'schedule and exception dependent; tests exercise a handful of hand-offs',
     ['exchange_channel.hpp'], 'std::optional slot guarded by one mutex and one condition variable')
prop('C05', 'mutex/shared_mutex: guards hold the lock exactly as long as they live',
     'A value guarded by dice mutex or shared_mutex is reachable only through a guard, a guard returned by lock/lock_shared or by a successful '
     'try_lock variant holds that lock in that mode for its whole lifetime and releases it exactly once, and moving a guard transfers that '
     'responsibility. try_lock variants return an empty optional exactly when the lock was not acquired, and a shared guard gives only const access. The guarded value is initialised from exactly the given value.',
     ['schedules', 'histories', 'programs'],
     'all programs using the guards, all sequences of construct/move/assign/swap/destroy on guards, both outcomes of every try',
     'tests lock and unlock single threaded; a guard released early or twice still passes them',
     ['mutex.hpp', 'shared_mutex.hpp'], 'guards own a std::unique_lock/std::shared_lock together with a pointer to the value')
prop('C06', 'variant2: index and live member always agree, over all histories',
     'After any sequence of constructions, assignments, emplacements, swaps and destructions of variant2, including those that end in an exception '
     'of an alternative, exactly the alternative that index(), holds_alternative and get_if report is alive (none when valueless), every alternative is '
     'destroyed exactly once and only live objects are assigned, moved from or destroyed. A successful operation stores the requested value and leaves '
     'copied-from sources (and a variant assigned to or swapped with itself) unchanged; a failing one leaves the variant valueless or on its former alternative. All this holds for alternatives of every type, also those with constructors from initializer lists or own operators & and new.',
     ['histories', 'inputs', 'fault_sequences', 'programs'],
     'all operation sequences, all combinations of trivial/non-trivial/throwing/non-throwing alternatives, an exception at every user operation',
     'tests use a few types that never throw at the interesting point; the state space of index x live member x exception point is not sampled',
     ['variant2.hpp'], 'discriminant plus union, placement new and explicit destructor calls')
prop('C07', 'variant2: access, visitation and comparison follow the active alternative',
     'get and get_if return the active alternative of variant2 with the value category of the variant and otherwise throw bad_variant_access / return null, '
     'visit calls the visitor exactly once with the active alternative, forwards its result, and throws bad_variant_access when valueless. '
     'Two variants are equal iff they hold the same alternative with equal values or are both valueless, <=> orders valueless first, then by alternative, '
     'then by value, and an exception thrown by a comparison, by a hash or by a visitor reaches the caller.',
     ['inputs', 'histories', 'programs', 'fault_sequences'],
     'all states of both operands including valueless, all value categories',
     'valueless operands and mixed alternatives are hard to reach in tests; each accessor exists in many overloads',
     ['variant2.hpp'], 'switch over the discriminant in visit/get/get_if/operator==/operator<=>')
prop('C08', 'inplace_polymorphic: exactly one live object of the stored type',
     'After any sequence of construct, emplace, copy, move, assign and destroy on inplace_polymorphic, including operations that end in an exception of the '
     'stored type, the buffer holds exactly the object that get()/operator-> expose, or none if it reports itself valueless; each stored object is destroyed exactly once '
     'with its own dynamic type, and construction and assignment use the operations of the dynamic type of the source. A copied-from object is not changed.',
     ['histories', 'fault_sequences', 'programs'],
     'all operation sequences over several derived types, an exception at every user operation',
     'tests use two derived types that do not throw',
     ['inplace_polymorphic.hpp'], 'base pointer/cloning interface over an in-object buffer')
prop('C09', 'static_string: buffer ownership and allocator discipline',
     'Every buffer basic_static_string allocates is released exactly once, through an allocator equal to the one it came from and with the size it was requested with, '
     'over all sequences of construction, copy, move, assignment, swap and destruction, with every combination of allocator propagation traits and allocator equality, and also '
     'when an allocation throws. No operation accesses a buffer after its release, and after an exception both operands can still be destroyed and assigned.',
     ['histories', 'fault_sequences', 'configurations'],
     'all operation sequences, all eight propagation-trait combinations, equal and unequal allocators, allocation failure at every allocation',
     'tests use std::allocator, which is always equal and never fails',
     ['static_string.hpp'], 'data pointer, size and allocator; hand written copy/move/swap')
prop('C10', 'static_string: contents are exactly the source characters',
     'A basic_static_string constructed, copied or assigned from a source contains exactly the characters of the source for every character type and length: it '
     'copies as many bytes as the characters occupy and never reads or writes outside either buffer; copying leaves the source unchanged, swap exchanges the contents, and a default constructed '
     'or moved-from-by-construction string is empty. Comparison, element access, iterators and view conversion see exactly those characters.',
     ['inputs', 'histories', 'programs'],
     'all lengths, all character types, all operation sequences',
     'tests use char only, where bytes and characters coincide',
     ['static_string.hpp'], 'allocate(n), memcpy of the character bytes, size')
prop('C11', 'defer: the action runs exactly once under its policy',
     'A DICE_DEFER action runs exactly once, when its scope is left by any path, return or exception; the success variant runs exactly when the scope is left normally and '
     'the failure variant exactly when it is left because of an exception thrown after the guard was created, also when the guard itself lives inside a destructor that runs during stack unwinding. '
     'The action sees the values at scope exit and never runs earlier.',
     ['inputs', 'fault_sequences', 'histories'],
     'all exit paths of the scope, any number of exceptions already in flight when the guard is created',
     'tests check one exception level',
     ['defer.hpp'], 'uncaught_exceptions count recorded at construction and compared in the destructor')
prop('C12', 'limit_allocator: the byte budget is conserved and never exceeded',
     'Every limit_allocator obtained from another one by copying, moving, rebinding, assignment or select_on_container_copy_construction shares its budget, and the source stays usable; swap exchanges budgets. '
     'allocate(n) takes n*sizeof(T) bytes from the budget in one atomic step before it asks the upstream allocator, throws bad_alloc without asking when the budget does not '
     'suffice or the product overflows, and returns the reservation if the upstream allocation throws. deallocate(p, n) returns exactly n*sizeof(T) bytes, after upstream took the memory back, so the bytes outstanding never '
     'exceed the limit, for every interleaving in the thread-safe mode. The budget lives as long as the last allocator that shares it.',
     ['inputs', 'histories', 'schedules', 'fault_sequences', 'configurations'],
     'all sizes including the extremes, all interleavings of allocate/deallocate, upstream failure at any point, both synchronisation policies',
     'a refund missing on the failure path or a non-atomic check-then-act is invisible without faults and schedules',
     ['limit_allocator.hpp'], 'shared control block with the remaining bytes; compare-exchange loop')
prop('C13', 'pool_allocator: deallocate returns memory where allocate took it',
     'pool and pool_allocator allocate(n) return a block of at least the n*sizeof(T) bytes requested, from the pool of the smallest bucket that suffices or from the general allocator if none does, and throw bad_alloc rather than returning null or a block that is too small because the product overflowed. '
     'deallocate(p, n) hands the block back to exactly the source that allocate(n) took it from, also through every copy, moved-from object, rebind, assignment and swap of the allocator; the pool lives exactly as long as some allocator uses it, and allocators compare equal iff they share a pool.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'all n, element types of any size, bucket lists of any length, allocation failure at any point',
     'tests allocate single elements of a few sizes; a routing mismatch at a bucket boundary corrupts memory silently',
     ['pool_allocator.hpp'], 'compile time bucket list with boost pools, dispatch on n*sizeof(T) at allocate and deallocate')
prop('C14', 'polymorphic_allocator: requests reach the selected alternative unchanged',
     'polymorphic_allocator forwards allocate and deallocate exactly once, with unchanged arguments and result, to the alternative it was constructed with; copies, moves, rebinds, assignment, swap and select_on_container_copy_construction carry over the same '
     'alternative and its state, and holds_allocator names it. Two polymorphic allocators compare equal exactly if they hold the same alternative and these compare equal. It propagates on container copy, move and swap exactly if every alternative does, and is always equal only if its single alternative is. '
     'offset_ptr_stl_allocator forwards to its upstream allocator likewise.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'all alternatives, all sizes, all chains of operations, all trait combinations, failing allocation',
     'tests instantiate few alternatives and do not observe which one served a request',
     ['polymorphic_allocator.hpp'], 'variant of allocators with visitation')
prop('C15', 'flex_array: size stays within the extent, no access outside storage',
     'A flex_array never reads or writes outside its storage and its size never exceeds a static maximum: construction from an initialiser list or range with too many elements, an initialiser list of the wrong '
     'length for a fixed extent, a conversion from a dynamic array of another size and a resize beyond the maximum are refused with an exception, leaving no live elements and an unchanged array. Otherwise size() '
     'and the elements are exactly those given, for every construction, copy, move, conversion between extents, assignment (also to itself), resize and swap; begin/end/rbegin/rend/data/span conversions cover exactly '
     'the first size() elements, operator[] refers to element i, the six comparisons order arrays lexicographically, copies do not share storage, and destruction releases everything exactly once.',
     ['inputs', 'histories', 'configurations'],
     'all sizes, all extent kinds (fixed, limited, dynamic), all conversions between them',
     'tests use small fixed sizes; the boundary cases and conversions are a handful',
     ['flex_array.hpp'], 'std::array plus size, or a dynamic container, selected by the extents')
prop('C16', 'noexcept is honest: no exception of a user operation becomes terminate',
     'An exception thrown by an operation of a user type (default/copy/move construction, assignment, swap, construction from other arguments, call; for variant2 also comparison and hashing) reaches the caller: '
     'no constructor, assignment, swap, destructor, emplace, push, pop, iteration, element access, visitation, allocator conversion or call helper of the library turns it into std::terminate because a noexcept (or a noexcept condition) promises too much, '
     'for each combination of throwing and non-throwing operations of the element, alternative, mutex, allocator or function type. Conversely the operations stay noexcept for types whose operations never throw. '
     '(Comparisons and sizes the library declares noexcept unconditionally require non-throwing operations; memory exhaustion and throwing destructors are excluded.)',
     ['programs', 'fault_sequences', 'configurations'],
     'all user types, classified by which of their operations are noexcept',
     'tests instantiate types that never throw; a wrong noexcept condition compiles and passes until production throws',
     ['variant2.hpp', 'integral_template_variant.hpp', 'flex_array.hpp', 'limit_allocator.hpp', 'polymorphic_allocator.hpp', 'pool_allocator.hpp', 'channel.hpp', 'exchange_channel.hpp', 'standard_layout_tuple.hpp', 'tuple_algorithm.hpp', 'overloaded.hpp', 'functional.hpp', 'opt_minmax.hpp'],
     'noexcept(...) conditions on members and free functions')
prop('C17', 'type_list: list algebra',
     'Every type_list operation (size, first, last, nth, take, drop, apply, unpack, transform, filter, find_if, position, contains, count, all/any/none_of, all_same, all_distinct, unique, concat, flatten, fold, for_each, generate, '
     'integer_sequence_to_type_list, tuple_to_type_list, opt) yields exactly the list or value of the corresponding mathematical list operation, preserving order and multiplicity (unique keeps first occurrences), for lists of every length including empty ones '
     'and element types of every kind (cv/ref qualified, incomplete, abstract, void, lists). An operation without result (first/last of an empty list, nth out of range, nothing found) has no member type/value, which opt turns into nullopt. '
     'for_each and fold call the function exactly once per element, in order.',
     ['programs', 'inputs'],
     'all lists of types and all predicates/transformers on them',
     'the tests check one or two lists per operation; empty lists, duplicates and not-found cases are sparse',
     ['type_list.hpp'], 'pack expansions and recursive templates')
prop('C18', 'integral sequences, template tuples/variants, type loops: exact range',
     'make_integer_sequence<T, First, Last>, make_integral_constant_list, integral_template_tuple, integral_template_variant and the for_types/for_values/for_range loops enumerate exactly the types, values or integers of their range [First, Last), ascending or descending as given, each once, '
     'with their own type, loops and sequences in order, for every integral type including negative bounds and the limits of the type (integral_template_tuple::visit visits each element once in unspecified order). get<i>, subtuple, value_type and the variant\'s emplace/get/holds_alternative/index/visit address the element or alternative with that integer and no other, '
     'throwing bad_variant_access for another alternative; integers outside the range are rejected at compile time; comparison of tuples is lexicographic in range order and of variants first by alternative.',
     ['programs', 'inputs', 'configurations'],
     'all ranges and integral types',
     'tests use a few small ascending and descending ranges',
     ['integral_sequence.hpp', 'integral_template_tuple.hpp', 'integral_template_variant.hpp', 'for.hpp'], 'index_sequence arithmetic, inheritance chain of leaves, fold expressions')
prop('C19', 'switch_cases: exactly the matching case runs, once',
     'switch_cases<First, Last> calls its function object exactly once, with the integral constant (of the interval\'s type) equal to the runtime value, iff the value lies in the half-open interval between the smaller and the larger bound, and otherwise calls the default function exactly once (without one, such a value is a precondition violation: assert). '
     'switch_cases<Last> starts at 0; switch_bool calls it with true_type/false_type. The function is instantiated only for values of the interval, functions are called with their value category, and the result (reference, void, value) of the call is returned unchanged.',
     ['inputs', 'programs'],
     'all runtime values of the dispatched type, all intervals',
     'tests try some values of one or two intervals, not every value and not the boundaries of each type',
     ['switch_cases.hpp'], 'recursive or unrolled switch over blocks of cases')
prop('C20', 'lazy_conditional: only the selected branch is instantiated',
     'lazy_conditional, lazy_switch and lazy_switch_default yield the type of the first provider whose condition holds, or of the default provider, for every number of cases and vector of conditions, and never instantiate, require to be complete or look for ::type in a provider that is not selected. '
     'lazy_switch without a match fails to compile. The concepts type_provider and lazy_case hold exactly for types with ::type, respectively with a condition convertible to bool and a provider.',
     ['programs'],
     'all condition combinations and ill-formed unselected branches',
     'an eager instantiation is only visible with providers that fail to instantiate',
     ['lazy_conditional.hpp'], 'deferred ::type access')
prop('C21', 'type_traits: copied qualifiers, tests and forwarding casts are exact',
     'copy_const, copy_volatile, copy_cv, copy_reference and copy_cvref transfer exactly the qualifiers and reference category they name, for every combination of const, volatile and reference on both sides. is_zst holds exactly for class types that take no space as a no_unique_address member; '
     'is_strict_invocable_r holds exactly if the call with the given value categories is well-formed and its result type is R itself. forward_like (constness and category of T) and DICE_MOVE_IF_VALUE (xvalue exactly for non-const values and non-const rvalue references) '
     'refer to the same object with exactly that category, also in constant expressions.',
     ['programs'],
     'all cv/ref combinations',
     'tests list a few combinations',
     ['type_traits.hpp'], 'partial specialisations per qualifier')
prop('C22', 'standard_layout_tuple and tuple algorithms visit every element once, in order',
     'standard_layout_tuple stores its elements in declaration order without overlap and stays standard layout; get<i>, get<T>, structured bindings and subtuple address exactly the named elements with the constness and category of the tuple (indices out of range, ambiguous types and subtuples whose layout differs are rejected at compile time); '
     'its constructors construct element i from argument i with its value category, uniform_construct every element from the same arguments, in order; comparison is lexicographic. tuple_for_each, tuple_fold, tuple_type_for_each and tuple_type_fold call the function exactly once per element (type), in order, '
     'on the elements of the tuple itself (as lvalues, const if the tuple is), moving the accumulator through, and return the result of the last call, respectively the accumulator by value, for every tuple length including zero and every tuple-like type (member or ADL get).',
     ['programs', 'inputs'],
     'all tuples and element types',
     'tests use tuples of two or three elements',
     ['standard_layout_tuple.hpp', 'tuple_algorithm.hpp'], 'recursive aggregate; fold expressions')
prop('C23', 'pointer_tag_pair: pointer and tag are stored bit-exactly and independently',
     'A pointer_tag_pair returns exactly the pointer and exactly the tag it was given, for every suitably aligned pointer (null included) and every tag that fits the bits left free; setting one never changes the other. '
     'Equality, conversions and the packed round trip agree with the pair of values (the pointer of a packed word is the word without its tag bits, whatever the tag type), and a tag that does not fit, or a pointer that is not aligned, is caught by an assertion and never silently mixed with the other. '
     'A pointer to a derived class is stored as the pointer to its base; tag types, alignments and conversions that cannot work are rejected at compile time.',
     ['inputs', 'histories'],
     'all aligned pointers and all tag values, for every number of tag bits and every tag type',
     'tests use a few constants',
     ['pointer_tag_pair.hpp'], 'or/and masks over uintptr_t')
prop('C24', 'ipow: exact when representable, otherwise the documented exception',
     'ipow(base, exp) returns base to the power of exp exactly whenever that is representable in the type of base, and otherwise throws: std::overflow_error if the power is above the maximum, std::underflow_error if it is below the minimum; it never wraps around and never throws for a representable power. Negative exponents truncate towards zero: 0, except for the bases 1 and -1. This holds for all bases and exponents of the standard signed and unsigned integer types, in constant expressions too, and without undefined behaviour.',
     ['inputs'],
     'all bases, exponents and integral types',
     'tests sample a few bases and exponents; the largest representable powers are not all covered',
     ['ipow.hpp'], 'square and multiply with overflow checks')
prop('C25', 'opt_minmax: empty operands are neutral, the comparator decides',
     'opt_min/opt_max (and their variadic, projected and comparator forms) over optionals return empty iff every operand is empty and otherwise one of the present operands that no present operand precedes (follows) under the given comparator, ignoring empty ones; the operands are neither modified nor compared when empty.',
     ['inputs', 'programs'],
     'all presence patterns and all outcomes of the comparator',
     'tests check a few integers; ties, orders of presence and custom comparators are sampled',
     ['opt_minmax.hpp'], 'has_value tests and comparator calls')
prop('C26', 'range algorithms: each agrees with its definition for every range',
     'all_equal, is_sorted_unique, all_distinct, lexicographical_compare_three_way, all_of, any_of, none_of, empty and non_empty return exactly the value of their definition, unique yields the first occurrence of each element in order and remove_element exactly the elements that do not match, for every range length (empty and single-element ranges included), every iterator category the algorithm accepts (single pass included) and every comparator, predicate and projection, in the call and in the pipeline form. They never read at or past the end, never use an element of a single-pass range after the iterator moved on, and can be used in constant expressions.',
     ['inputs', 'programs'],
     'all ranges of every length and all outcomes of element comparisons',
     'tests use a few literal vectors',
     ['ranges.hpp'], 'iterator loops over begin/end')
prop('C27', 'range(): exactly the arithmetic progression from start towards stop',
     'range(start, stop, step) over integral types yields exactly start, start+step, ... as long as they lie before stop (in the direction of the sign of step), for every start, stop and step including those at the limits of the types: it never steps past stop by overflow, terminates, and is empty when start is not before stop. size(), front, back, indexing, advance, reversed iteration and any mixture of taking and skipping elements from both ends agree with that progression. range(stop) starts at 0, the default step is 1, and a step of zero is refused with std::invalid_argument.',
     ['inputs'],
     'all starts, stops and steps of every integral type',
     'tests use small positive steps that divide the distance',
     ['ranges.hpp'], 'range_iterator on next_to_iter')
prop('C28', 'next_to_range: every element once, in order, like an index would',
     'An iterator, range or view made from an implementation with next() (and optionally next_back, nth, nth_back, remaining) yields exactly the elements of the implementation, in order, each once, and is at its end exactly when they are exhausted. Any sequence of ++, post-increment, += n, + n, peek, dereference, copy (however it is written), assignment and move gives what the same operations on an index give: peeking and dereferencing never advance, skipping n elements skips exactly n or stops at the end, the end stays the end, copies continue independently at the same position. begin() and rbegin() always start anew, backward iteration yields the reverse order, and front, back, [], advance, size, empty agree with the elements. Members exist exactly for the implementations that support them.',
     ['histories', 'programs'],
     'all call sequences on the iterator and all implementations',
     'tests iterate simple sources front to back',
     ['next_to_range.hpp'], 'next_to_iter adaptor storing the current element')
prop('C29', 'sandbox: the child never returns into the caller; every outcome is reported',
     'A function run by the sandbox executes exactly once and only in the child process, with the signal handlers of all signals reset to the default and no signals blocked, and the child always terminates there, whatever way the function or the flushing of streams ends (return, exception): control never returns or throws from the sandbox call a second time, no destructors or exit handlers of the caller run, an exception aborts, and otherwise the child exits with exactly the code the function returned. '
     'Output buffered in std::cout, std::cerr and stdio is flushed before the child starts and again before it ends, so nothing is written twice or lost. The parent waits for exactly that child until it has ended, retries exactly when interrupted, changes no signal handling, and reports success, failure, the exact signal (with or without core dump), and failure of fork or waitpid (system_error with its errno) as the operating system reported them.',
     ['fault_sequences', 'schedules', 'inputs'],
     'all ways the function can end, all waitpid outcomes including interruption and errors',
     'tests run a few children; interrupted waits and fork failure are not produced',
     ['sandbox.hpp'], 'fork, _exit in the child, waitpid loop in the parent')
prop('C30', 'fmt_join: each element is formatted once with separators between',
     'Formatting a fmt_join writes the elements in order, each exactly once through its own formatter, and the whole separator exactly between consecutive elements: none before the first or after the last, nothing for an empty range. This holds for every range (owning, const or not, iterable only once, filtered, built on the fly, initializer lists) and every kind of separator (character, string literal, string, string view, array or other range of characters, also empty or with embedded null characters), and the format specification is forwarded to the formatter of the elements.',
     ['inputs', 'programs'],
     'all range lengths, iterator categories and separators',
     'tests join a few lists',
     ['fmt_join.hpp'], 'loop with separator')
prop('C31', 'format_to_ostream: only formattable types without own operator<< are affected',
     'After including format_to_ostream, a value can be written to a stream (of any character type and traits) exactly if its type has an operator<< of its own for that stream or is formattable, while const, with the character type of the stream. It never replaces, and never makes ambiguous, an operator<< a type already has (friend, free function, of a base class, generic, through a conversion, of the standard library, for one character type only, or for one stream class); otherwise it writes exactly the value formatted with "{}" by the formatter for the character type, once, and returns the same stream.',
     ['programs'],
     'all types, formattable or not, with and without own operator<<, and all streams',
     'overload resolution has to be checked for every kind of type',
     ['format_to_ostream.hpp'], 'constrained operator template')
prop('C32', 'overloaded, match, bind_front, MEMFN and DBG call and forward exactly once',
     'overloaded calls the handler that overload resolution picks from its callables; match visits the variant with them in the value category of the variant and returns the result of the handler unchanged. bind_front<f>(args...) keeps copies of the arguments; each call invokes f exactly once with the kept arguments, in order and in the value category and constness of the wrapper, then those of the call, returns the result unchanged (references too) and is noexcept exactly if that call is. DICE_MEMFN does the same for a member function of this with its arguments evaluated at each call. DICE_DBG evaluates the expression once, writes "[file:line] expression = value" and a newline to stderr and gives the value itself, in its value category.',
     ['programs', 'inputs'],
     'all callables, argument counts and value categories',
     'tests check values, not the number and category of evaluations',
     ['overloaded.hpp', 'functional.hpp', 'memfn.hpp', 'dbg.hpp'], 'perfect forwarding')
prop('C33', 'stdint literals: type and value are exact',
     'Each integer literal suffix of stdint.hpp yields exactly its named type with exactly the written value, for every value that fits the type and in every notation of the literal, without throwing, in constant expressions and at run time.',
     ['inputs', 'programs'],
     'all literals',
     'tests use a handful of small values',
     ['stdint.hpp'], 'constexpr literal operators')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
