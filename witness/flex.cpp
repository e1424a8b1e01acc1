#include "arch.hpp"
#include <bit>
#include <dice/template-library/flex_array.hpp>
#include <iterator>
namespace dtl = dice::template_library;
using dtl::dynamic_extent;
#ifndef ELEM
#define ELEM long
#endif
using T = ELEM;
using F4 = dtl::flex_array<T, 4>;
using F2 = dtl::flex_array<T, 2>;
using F0 = dtl::flex_array<T, 0>;
using L4 = dtl::flex_array<T, dynamic_extent, 4>;
using V = dtl::flex_array<T, dynamic_extent>;
using B = dtl::flex_array<T, 2, dynamic_extent>;
struct il {
	T const *p;
	size_t n;
};
// single pass iterator
struct In {
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	T const *p;
	T const &operator*() const noexcept { return *p; }
	In &operator++() noexcept { ++p; return *this; }
	In operator++(int) noexcept { auto r = *this; ++p; return r; }
	friend bool operator==(In a, In b) noexcept { return a.p == b.p; }
};
static_assert(std::input_iterator<In> && !std::random_access_iterator<In>);
#define INST(P)                                                                                                  \
	ENTRY size_t P##_sizeof() { return sizeof(P); }                                                             \
	ENTRY void P##_default(void *o) { ::new (o) P(); }                                                          \
	ENTRY void P##_il(void *o, T const *p, size_t n) { ::new (o) P(std::bit_cast<std::initializer_list<T>>(il{p, n})); } \
	ENTRY void P##_ra(void *o, T const *p, size_t n) { ::new (o) P(p, p + n); }                                 \
	ENTRY void P##_in(void *o, T const *p, size_t n) { ::new (o) P(In{p}, In{p + n}); }                         \
	ENTRY void P##_copy(void *o, P const &v) { ::new (o) P(v); }                                                \
	ENTRY void P##_move(void *o, P &v) { ::new (o) P(std::move(v)); }                                           \
	ENTRY void P##_assign_copy(P &a, P const &b) { a = b; }                                                     \
	ENTRY void P##_assign_move(P &a, P &b) { a = std::move(b); }                                                \
	ENTRY void P##_swap(P &a, P &b) { swap(a, b); }                                                             \
	ENTRY void P##_dtor(P &a) { a.~P(); }                                                                       \
	ENTRY size_t P##_size(P const &a) { return a.size(); }                                                      \
	ENTRY size_t P##_max_size() { return P::max_size(); }                                                       \
	ENTRY bool P##_empty(P const &a) { return a.empty(); }                                                      \
	ENTRY T const *P##_data(P &a) { return a.data(); }                                                          \
	ENTRY T const *P##_cdata(P const &a) { return a.data(); }                                                   \
	ENTRY T const *P##_begin(P &a) { return a.begin(); }                                                        \
	ENTRY T const *P##_end(P &a) { return a.end(); }                                                            \
	ENTRY T const *P##_cbegin1(P const &a) { return a.begin(); }                                                \
	ENTRY T const *P##_cend1(P const &a) { return a.end(); }                                                    \
	ENTRY T const *P##_cbegin(P const &a) { return a.cbegin(); }                                                \
	ENTRY T const *P##_cend(P const &a) { return a.cend(); }                                                    \
	ENTRY T const *P##_rbegin(P &a) { return a.rbegin().base(); }                                               \
	ENTRY T const *P##_rend(P &a) { return a.rend().base(); }                                                   \
	ENTRY T const *P##_rbegin1(P const &a) { return a.rbegin().base(); }                                        \
	ENTRY T const *P##_rend1(P const &a) { return a.rend().base(); }                                            \
	ENTRY T const *P##_crbegin(P const &a) { return a.crbegin().base(); }                                       \
	ENTRY T const *P##_crend(P const &a) { return a.crend().base(); }                                           \
	ENTRY T const *P##_at(P &a, size_t i) { return &a[i]; }                                                     \
	ENTRY T const *P##_cat(P const &a, size_t i) { return &a[i]; }                                              \
	ENTRY T const *P##_span(P &a, size_t *n) { std::span<T> s = a; *n = s.size(); return s.data(); }            \
	ENTRY T const *P##_cspan(P const &a, size_t *n) { std::span<T const> s = a; *n = s.size(); return s.data(); } \
	ENTRY bool P##_eq(P const &a, P const &b) { return a == b; }                                                \
	ENTRY bool P##_ne(P const &a, P const &b) { return a != b; }                                                \
	ENTRY bool P##_lt(P const &a, P const &b) { return a < b; }                                                 \
	ENTRY bool P##_le(P const &a, P const &b) { return a <= b; }                                                \
	ENTRY bool P##_gt(P const &a, P const &b) { return a > b; }                                                 \
	ENTRY bool P##_ge(P const &a, P const &b) { return a >= b; }
#define RESIZE(P) ENTRY void P##_resize(P &a, size_t n) { a.resize(n); }
#define CONV(P, Q) ENTRY void P##_from_##Q(void *o, Q const &v) { ::new (o) P(v); }
INST(F4)
INST(F2)
INST(F0)
INST(L4)
INST(V)
INST(B)
RESIZE(L4)
RESIZE(V)
RESIZE(B)
CONV(L4, F4)
CONV(L4, F2)
CONV(L4, F0)
CONV(V, F4)
CONV(V, F2)
CONV(B, F4)
CONV(B, F2)
CONV(F4, L4)
CONV(F4, V)
CONV(F4, B)
CONV(F2, L4)
CONV(F2, B)
CONV(F0, L4)
