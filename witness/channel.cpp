#include "arch.hpp"
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
namespace dtl = dice::template_library;
#define COMMON(P, C, X)                                                                       \
	ENTRY size_t P##_sizeof() { return sizeof(C); }                                            \
	ENTRY void P##_dtor(C &c) { c.~C(); }                                                      \
	ENTRY void P##_close(C &c) { c.close(); }                                                  \
	ENTRY bool P##_closed(C const &c) { return c.closed(); }                                   \
	ENTRY bool P##_emplace(C &c, int x) { return c.emplace(x); }                               \
	ENTRY bool P##_push_copy(C &c, arch::X const &x) { return c.push(x); }                     \
	ENTRY bool P##_push_move(C &c, arch::X &x) { return c.push(std::move(x)); }                \
	ENTRY void P##_pop(void *o, C &c) { ::new (o) std::optional<arch::X>(c.pop()); }           \
	ENTRY void P##_try_pop(void *o, C &c) { ::new (o) std::optional<arch::X>(c.try_pop()); }   \
	ENTRY bool P##_out_has(std::optional<arch::X> const &o) { return o.has_value(); }          \
	ENTRY arch::X const *P##_out_val(std::optional<arch::X> const &o) { return o.operator->(); } \
	ENTRY void P##_begin(void *o, C &c) { ::new (o) C::iterator(c.begin()); }                  \
	ENTRY void P##_inc(C::iterator &i) { ++i; }                                                \
	ENTRY void P##_postinc(C::iterator &i) { i++; }                                            \
	ENTRY bool P##_it_has(C::iterator const &i) { return !(i == std::default_sentinel); }      \
	ENTRY arch::X const *P##_it_val(C::iterator const &i) { return std::addressof(*i); }
#define CHAN(P, X)                                                                             \
	using P##C = dtl::channel<arch::X>;                                                        \
	COMMON(P, P##C, X)                                                                         \
	ENTRY void P##_ctor(void *m, size_t n) { ::new (m) P##C(n); }                              \
	ENTRY bool P##_try_emplace(P##C &c, int x) { return c.try_emplace(x); }                    \
	ENTRY bool P##_try_push_copy(P##C &c, arch::X const &x) { return c.try_push(x); }          \
	ENTRY bool P##_try_push_move(P##C &c, arch::X &x) { return c.try_push(std::move(x)); }
#define EXCH(P, X)                                                                             \
	using P##C = dtl::exchange_channel<arch::X>;                                               \
	COMMON(P, P##C, X)                                                                         \
	ENTRY void P##_ctor(void *m) { ::new (m) P##C(); }
CHAN(cB, B)
CHAN(cA, A)
CHAN(cM, M)
EXCH(xB, B)
EXCH(xA, A)
EXCH(xM, M)
