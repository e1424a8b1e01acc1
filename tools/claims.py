CONC = (AI + 'thread-modular (acquire/release havoc over a fixpoint pool of released states), lockset and notification-obligation typestate', )
CLAIMS['C01'] = (CONC[0], 'Every member and iterator function is analysed from every abstract state another thread can leave behind (least fixpoint), with an exception forked at every user and allocator operation; the atomicity of single atomics and the std::mutex contract are assumed.')
CLAIMS['C02'] = (CONC[0], 'Decides that every state change that satisfies a waiter is followed by the notification on every path, that waits re-check under the mutex; fairness of the scheduler and of notify_one is assumed.')
CLAIMS['C03'] = (CONC[0], 'Queue contents are abstracted to symbolic front/back insertion and removal events and a relational size; capacity is symbolic, so all capacities are covered.')
CLAIMS['C04'] = (CONC[0], 'As C01-C03 for the one-slot channel.')
CLAIMS['C05'] = ('abstract interpretation of the compiler IR with a lock typestate, least fixpoint over the states a guard object can reach; type-level witnesses for access and constness',
  'Covers every sequence of lock, try_lock, move, assign, swap and destroy on guards of two mutexes, for std and user lockables whose operations may throw.')
CLAIMS['C06'] = (AI + 'class-level fixpoint over object states, lifetime typestate and content provenance of archetype members',
  'All operation sequences over the archetype pairs are covered by a least fixpoint over abstract object states with an exception forked at every user operation; other alternative types are covered in so far as they fall in the same noexcept/triviality class.')
CLAIMS['C07'] = (AI + 'observer and visitation functions analysed on every reachable object state',
  'Decided for every reachable object state of both operands and for each value category, over archetype alternatives.')
CLAIMS['C08'] = (AI + 'class-level fixpoint over object states with dynamic types, lifetime typestate of the stored object',
  'All operation sequences over archetype families (trivial, throwing, multiple inheritance); one known finding (base that is not the first base class).')
CLAIMS['C09'] = (AI + 'class-level fixpoint, ownership typestate of buffers with allocator identity and size',
  'All operation sequences, all eight propagation-trait combinations plus always-equal allocators, allocation failure forked at every allocation; lengths are symbolic.')
CLAIMS['C10'] = (AI + 'class-level fixpoint, provenance of buffer contents with affine sizes',
  'Lengths and indices symbolic; character widths of 1, 2 and 4 bytes; char_traits are an archetype whose comparison is uninterpreted.')

CLAIMS['C11'] = (AI + 'event automaton of a scope guard over all exits of its scope, symbolic uncaught-exception count',
  'Every way out of the scope forms below (return, early return, exception, nested try, handler, during unwinding, throwing copy of the action) with any number of exceptions already in flight.')
CLAIMS['C12'] = (AI + 'thread-modular interpretation of the shared budget (arbitrary interference between atomic steps), ownership of the control block, affine budget arithmetic',
  'All sizes (symbolic n, both element sizes of a rebind pair), any interference of other threads between atomic steps, upstream failure forked at every allocation; every allocator reachable by copy, move, rebind, assignment and swap is shown to be in a representation already analysed.')
CLAIMS['C13'] = (AI + 'provenance of every block with symbolic request sizes, ownership of the shared pool',
  'All request sizes (symbolic n) over four bucket lists (one to four buckets, duplicates, non-multiples of the word size) and rebind pairs; boost::pool is a model; alignment beyond the fundamental one is not covered.')
CLAIMS['C14'] = (AI + 'which alternative with which state serves a request, least fixpoint over reachable object states; type-level witnesses for the traits',
  'One, two (variant2) and three (std::variant) alternatives with symbolic state and request sizes, every operation from every reachable state; all 16x16 trait combinations of two alternatives.')
CLAIMS['C15'] = (AI + 'bounds, sizes and provenance of elements over all extent modes; compile-fail witnesses for conversions',
  'Extents 0, 2 and 4 with symbolic elements (trivial and throwing-copy element types), every size allowed by them, symbolic out-of-range sizes for the refusals; vector backed modes for sizes up to 4; svector is a model.')
CLAIMS['C16'] = ('abstract interpretation of the compiler IR: exception propagation from every operation of a user type to the nearest noexcept boundary; type-level witnesses that noexcept promises remain',
  'Every operation of 14 components over archetypes of which exactly one operation (or all) may throw: 14 noexcept classes; conditions that depend on more specific overloads of a user type are covered only through these classes.')

CLAIMS['C17'] = ('type-level witnesses over every equality pattern of lists and every predicate outcome, against list algebra computed independently; abstract interpretation of the compiler IR for for_each and fold',
  'Lists up to length 5 (6 thorough) with all equality patterns plus lists of 9, 17 and 33 elements, over three pools of element types, with g++ and clang++; the templates treat elements uniformly, longer lists are not enumerated.')
CLAIMS['C18'] = ('type-level and compile-fail witnesses for every range of a window and at the limits of ten integral types; abstract interpretation of the compiler IR of loops, access, visitation and comparison against references',
  'All ranges inside a window around 0 and within 4 of both limits of each type (complete char ranges too), symbolic element values; longer ranges are not enumerated.')
CLAIMS['C19'] = (AI + 'symbolic condition, the facts of each path force the constant that is called; type-level witnesses for instantiation and result type',
  'The condition is symbolic, so all values of ten integral types are covered, for some 20 intervals per type (around 0, at the limits, reversed, wider than a byte).')

CLAIMS['C20'] = ('type-level witnesses: every condition vector with providers that cannot be instantiated in all unselected places; compile-fail witnesses without a match',
  'Up to 5 cases (6 thorough), nine kinds of unusable providers (incomplete, failing static_assert, ill-formed base or member, no type, non-classes), selected types of every kind, g++ and clang++.')
CLAIMS['C21'] = ('type-level witnesses over all qualifier, reference and category combinations against the qualifier algebra; abstract interpretation of the compiler IR of the forwarding casts',
  'Complete for the qualifier algebra (void, object, array, function, incomplete and abstract types, all cv/ref pairs); callables with 16 overloads, pointers to functions and members; over-aligned empty classes, abstract and incomplete arguments of is_zst are excluded.')
CLAIMS['C22'] = ('type-level and compile-fail witnesses for access, layout and construction; abstract interpretation of the compiler IR of access, construction, comparison and traversal against plain aggregates',
  'Tuples of up to 4 (5 thorough) elements with symbolic values, an exception forked at every user operation, std::tuple/pair/array and own tuple-like types; reference members are excluded.')
CLAIMS['C23'] = (AI + 'bit provenance of the packed word with an aligned symbolic pointer and a symbolic tag, assertions as precondition checks; type-level and compile-fail witnesses',
  'All pointers and tags are symbolic; alignments 1 to 64 with every number of tag bits and seven tag types (bool, enums, 8 to 64 bits); assertions are analysed with NDEBUG off, so without them the preconditions are the caller\'s duty.')
CLAIMS['C24'] = (AI + 'symbolic base; the result term is a product of exactly exp factors whose multiplications were all tested for overflow; type-level witnesses for constants',
  'All bases (symbolic, eight integer types), exponents enumerated: all 256 of 8-bit exponent types, 0 to 71, those around powers of two and the limits of each exponent type, and negative ones; bool and character types are excluded.')
CLAIMS['C25'] = (AI + 'every presence pattern and weak order of symbolic operands, comparisons of absent operands and iterator misuse are events; type-level witnesses',
  'Up to four operands in every presence pattern and every weak order (comparator uninterpreted), binary, initializer list, range, iterator pair and pipeline forms, single-pass move-only iterators; the algorithms treat elements uniformly, longer ranges are not enumerated.')
CLAIMS['C26'] = (AI + 'every outcome of the element comparisons, iterator misuse and use of stale elements are events; type-level witnesses',
  'Ranges of up to four elements (two for the three-way comparison) with symbolic elements and every equivalence relation, weak order, predicate or three-way outcome; random access, forward, copyable and move-only single pass iterators, proxies by value; std::set/unordered_set are models; equality predicates coarser than the hash are excluded.')
CLAIMS['C27'] = (AI + 'symbolic start; for each stop and step the starts are partitioned by the number of remaining elements and results are compared with affine terms in start',
  'Starts are symbolic (all values); stop and step are enumerated (limits of the types and ordinary values, 17 pairs of element and step type); pairs of operations are followed exactly for 0 to 3 remaining elements (5 in the thorough run), for more elements only next and nth; non-integral element types are excluded.')
CLAIMS['C28'] = (AI + 'operation sequences over an archetype implementation with symbolic elements compared with an index moved by the same operations; type-level witnesses',
  'All sequences of up to two of 23 operations and of three of 8 (thorough: of 23), on 0 to 4 elements; forward and backward, with and without skipping, copyable and move-only implementations, trivial and move-sensitive elements. The implementation keeps returning nothing once exhausted; moved-from iterators are not used.')
CLAIMS['C30'] = (AI + 'the formatter of the elements and the output are opaque, what is written is an event sequence compared with the elements and separators in order; type-level witnesses',
  'Sixteen kinds of ranges (also single pass, move-only, by value) of 0 to 3 elements (5 thorough) with symbolic identities, ten kinds of separators, with and without a specification, char and wchar_t; the loop treats elements uniformly, longer ranges are not enumerated.')
CLAIMS['C29'] = (AI + 'fork, waitpid, signal and stream operations are events with every outcome POSIX allows, each path of the parent and the child is judged',
  'All 384 wait statuses of ended children after the first wait, up to three (six thorough) interruptions in a row, symbolic pid, errno, exit code and an exception at every flush and in the function, six kinds of functions; std::clog and wide streams are excluded as the implementation does not flush them.')
CLAIMS['C31'] = ('type-level witnesses of overload resolution for every kind of type and stream (g++ and clang++); abstract interpretation of the compiler IR for the operator that is called, with the formatting functions replaced by recording ones',
  'Eighteen kinds of types with every combination of narrow and wide formatters in the global and another namespace, eight kinds of streams, 40 types of the standard library; rvalue streams and operators that argument dependent lookup does not find are excluded.')
CLAIMS['C33'] = ('type-level witnesses for written literals in eight notations; abstract interpretation of the compiler IR with a symbolic value that fits',
  'All values are covered symbolically; written literals are boundary values of each type (all values of the 8 bit types). Literals that do not fit are not specified.')
CLAIMS['C32'] = (AI + 'events of callables that observe their arguments compared with hand written references; type-level witnesses',
  'About 470 programs: up to four bound and call arguments in every value category and constness, every category of the wrapper, functions, objects, pointers to members; 16 overload sets; own and standard variants; identities of arguments are symbolic. Text of the formatted value is opaque; match is not required in constant expressions.')
