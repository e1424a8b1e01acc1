#include "arch.hpp"
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
namespace dtl = dice::template_library;
namespace arch {
// lockable whose locking operations may throw
struct Mx {
	Mx();
	~Mx();
	Mx(Mx const &) = delete;
	void lock();
	bool try_lock();
	void unlock() noexcept;
	void lock_shared();
	bool try_lock_shared();
	void unlock_shared() noexcept;

private:
	unsigned char raw_[32];
};
} // namespace arch
#define GUARD(P, M, G, X, SUF)                                                                  \
	ENTRY void P##_lock##SUF(void *o, M &m) { ::new (o) G(m.lock##SUF()); }                     \
	ENTRY void P##_try_lock##SUF(void *o, M &m) { ::new (o) std::optional<G>(m.try_lock##SUF()); } \
	ENTRY void P##_gmove##SUF(void *o, G &g) { ::new (o) G(std::move(g)); }                      \
	ENTRY void P##_gassign##SUF(G &a, G &b) { a = std::move(b); }                                \
	ENTRY void P##_gswap##SUF(G &a, G &b) { swap(a, b); }                                        \
	ENTRY void P##_gstdswap##SUF(G &a, G &b) { std::swap(a, b); }                                \
	ENTRY void P##_gdtor##SUF(G &g) { g.~G(); }                                                 \
	ENTRY arch::X const *P##_gderef##SUF(G const &g) { return std::addressof(*g); }             \
	ENTRY arch::X const *P##_garrow##SUF(G const &g) { return g.operator->(); }                 \
	ENTRY bool P##_ohas##SUF(std::optional<G> const &o) { return o.has_value(); }               \
	ENTRY G *P##_oget##SUF(std::optional<G> &o) { return o.operator->(); }                      \
	ENTRY size_t P##_gsizeof##SUF() { return sizeof(G); }                                       \
	static_assert(!std::is_copy_constructible_v<G> && !std::is_copy_assignable_v<G> && !std::is_default_constructible_v<G>); \
	static_assert(std::is_move_constructible_v<G> && std::is_move_assignable_v<G>);
#define MTX(P, M, X)                                                                            \
	ENTRY void P##_ctor_copy(void *o, arch::X const &x) { ::new (o) M(x); }                      \
	ENTRY void P##_ctor_move(void *o, arch::X &x) { ::new (o) M(std::move(x)); }                 \
	ENTRY void P##_ctor_ip(void *o) { ::new (o) M(std::in_place, 7); }                           \
	ENTRY void P##_ctor_def(void *o) { ::new (o) M(); }                                         \
	ENTRY void P##_dtor(M &m) { m.~M(); }                                                       \
	ENTRY size_t P##_sizeof() { return sizeof(M); }                                             \
	static_assert(!std::is_copy_constructible_v<M> && !std::is_move_constructible_v<M> && !std::is_copy_assignable_v<M> && !std::is_move_assignable_v<M>); \
	static_assert(!std::is_convertible_v<M &, arch::X &> && !std::is_convertible_v<M &, arch::X const &>);
template<typename M>
concept exposes_value = requires(M &m) { m.value_; } || requires(M &m) { *m; } || requires(M &m) { m.operator->(); };
using mM = dtl::mutex<arch::B>;
using mG = dtl::mutex_guard<arch::B>;
using uM = dtl::mutex<arch::B, arch::Mx>;
using uG = decltype(std::declval<uM &>().lock());
using sM = dtl::shared_mutex<arch::B>;
using sG = dtl::shared_mutex_guard<arch::B>;
using sC = dtl::shared_mutex_guard<arch::B const>;
using vM = dtl::shared_mutex<arch::B, arch::Mx>;
using vG = decltype(std::declval<vM &>().lock());
using vC = decltype(std::declval<vM const &>().lock_shared());
MTX(m, mM, B)
MTX(u, uM, B)
MTX(s, sM, B)
MTX(v, vM, B)
GUARD(m, mM, mG, B, )
GUARD(u, uM, uG, B, )
GUARD(s, sM, sG, B, )
GUARD(v, vM, vG, B, )
GUARD(s, sM const, sC, B, _shared)
GUARD(v, vM const, vC, B, _shared)
template<typename A, typename B> inline constexpr bool same = std::is_same_v<A, B>;
static_assert(!exposes_value<mM> && !exposes_value<uM> && !exposes_value<sM> && !exposes_value<vM>);
static_assert(same<decltype(*std::declval<mG const &>()), arch::B &> && same<decltype(*std::declval<sG const &>()), arch::B &>);
// a shared guard gives only const access, an exclusive guard cannot be made from a shared one or from a const mutex
static_assert(same<decltype(*std::declval<sC &>()), arch::B const &> && same<decltype(std::declval<sC &>().operator->()), arch::B const *>);
static_assert(same<decltype(*std::declval<vC &>()), arch::B const &> && same<decltype(std::declval<vC &>().operator->()), arch::B const *>);
static_assert(!std::is_constructible_v<sG, sC> && !std::is_constructible_v<sG, sC &&> && !std::is_constructible_v<mG, std::unique_lock<std::mutex> &&, arch::B &>);
static_assert(!std::is_constructible_v<sG, std::unique_lock<std::shared_mutex> &&, arch::B &> && !std::is_constructible_v<sC, std::shared_lock<std::shared_mutex> &&, arch::B const &>);
template<typename M> concept locks_const = requires(M const &m) { m.lock(); };
template<typename M> concept tries_const = requires(M const &m) { m.try_lock(); };
static_assert(!locks_const<mM> && !locks_const<sM> && !tries_const<mM> && !tries_const<sM>);
