#include "variant2.hpp"
#define HASH(X, NE) template<> struct std::hash<arch::X> { size_t operator()(arch::X const &) const noexcept(NE); };
HASH(A, true) HASH(B, true) HASH(M, true) HASH(Q, false)
template<> struct std::hash<arch::T> { size_t operator()(arch::T const &t) const noexcept { return (size_t)t.x; } };
namespace arch {
#define OV(X) long operator()(X &); long operator()(X const &); long operator()(X &&); long operator()(X const &&);
struct Vis { OV(A) OV(B) OV(M) OV(T) OV(Q) };
struct VisN { long operator()(A const &) noexcept; long operator()(B const &) noexcept; long operator()(M const &) noexcept; long operator()(T const &) noexcept; long operator()(Q const &) noexcept; };
struct VisRef { A &operator()(auto &) noexcept; };
extern A refobj;
}
template<typename A, typename B> inline constexpr bool same = std::is_same_v<A, B>;
#define ACC(P, I, X, TAG)                                                                           \
	ENTRY arch::X *P##_get_##TAG##_l(P##V &a) { return std::addressof(dtl::get<I>(a)); }             \
	ENTRY arch::X const *P##_get_##TAG##_c(P##V const &a) { return std::addressof(dtl::get<I>(a)); } \
	ENTRY arch::X const *P##_get_##TAG##_r(P##V &a) { auto &&r = dtl::get<I>(std::move(a)); static_assert(same<decltype(r), arch::X &&>); return &r; } \
	ENTRY arch::X const *P##_get_##TAG##_k(P##V const &a) { auto &&r = dtl::get<I>(std::move(a)); static_assert(same<decltype(r), arch::X const &&>); return &r; } \
	ENTRY arch::X *P##_gif_##TAG##_l(P##V *a) { return dtl::get_if<I>(a); }             \
	ENTRY arch::X const *P##_gif_##TAG##_c(P##V const *a) { static_assert(same<decltype(dtl::get_if<I>(a)), arch::X const *>); return dtl::get_if<I>(a); }
#define V7(P, X, Y)                                                                            \
	V2_COMMON(P, X, Y) V2_COPY(P, X, Y) V2_DEFAULT(P, X, Y)                                     \
	ACC(P, 0, X, 0) ACC(P, 1, Y, 1) ACC(P, arch::X, X, tX) ACC(P, arch::Y, Y, tY)                 \
	static_assert(same<decltype(dtl::get<0>(std::declval<P##V &>())), arch::X &>);              \
	static_assert(same<decltype(dtl::get<0>(std::declval<P##V const &>())), arch::X const &>);  \
	static_assert(same<decltype(dtl::get<1>(std::declval<P##V &>())), arch::Y &>);              \
	static_assert(same<decltype(dtl::get<1>(std::declval<P##V const &>())), arch::Y const &>);  \
	static_assert(same<std::variant_alternative_t<0, P##V>, arch::X> && same<std::variant_alternative_t<1, P##V>, arch::Y>); \
	static_assert(std::variant_size_v<P##V> == 2);                                              \
	ENTRY long P##_visit_l(P##V &a, arch::Vis &v) { return dtl::visit(v, a); }                   \
	ENTRY long P##_visit_c(P##V const &a, arch::Vis &v) { return dtl::visit(v, a); }             \
	ENTRY long P##_visit_r(P##V &a, arch::Vis &v) { return dtl::visit(v, std::move(a)); }        \
	ENTRY long P##_visit_k(P##V const &a, arch::Vis &v) { return dtl::visit(v, std::move(a)); }  \
	ENTRY bool P##_eq(P##V const &a, P##V const &b) { return a == b; }                         \
	ENTRY bool P##_ne(P##V const &a, P##V const &b) { return a != b; }                         \
	ENTRY int P##_cmp(P##V const &a, P##V const &b) { auto r = a <=> b; return r < 0 ? -1 : r > 0 ? 1 : 0; } \
	ENTRY bool P##_lt(P##V const &a, P##V const &b) { return a < b; }                          \
	ENTRY size_t P##_hash(P##V const &a) { return std::hash<P##V>{}(a); }                      \
	ENTRY arch::X *P##_gifnull_0() { return dtl::get_if<0>((P##V *) nullptr); }                \
	ENTRY arch::Y const *P##_gifnull_1() { return dtl::get_if<arch::Y>((P##V const *) nullptr); }
V7(AB, A, B)
V7(TB, T, B)
V7(MT, M, T)
V7(QB, Q, B)
V7(BQ, B, Q)
static_assert(same<dtl::variant<int, char>, dtl::variant2<int, char>>);
static_assert(same<dtl::variant<int>, std::variant<int>>);
static_assert(same<dtl::variant<int, char, long>, std::variant<int, char, long>>);
