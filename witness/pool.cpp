#include "arch.hpp"
#include <dice/template-library/pool_allocator.hpp>
namespace dtl = dice::template_library;
namespace arch {
struct E24 { long a, b, c; };
struct E40 { long a[5]; };
} // namespace arch
#define INST(P, T, U, ...)                                                                                  \
	using P##P = dtl::pool<__VA_ARGS__>;                                                                    \
	using P##L = dtl::pool_allocator<T, __VA_ARGS__>;                                                       \
	using P##M = dtl::pool_allocator<U, __VA_ARGS__>;                                                       \
	ENTRY size_t P##_sizeof() { return sizeof(P##L); }                                                      \
	ENTRY size_t P##_poolsize() { return sizeof(P##P); }                                                    \
	ENTRY void P##_pctor(void *o) { ::new (o) P##P(); }                                                     \
	ENTRY void P##_pdtor(P##P &o) { o.~P##P(); }                                                            \
	ENTRY void *P##_pallocate(P##P &o, size_t n) { return o.allocate(n); }                                  \
	ENTRY void P##_pdeallocate(P##P &o, void *p, size_t n) { o.deallocate(p, n); }                          \
	ENTRY void P##_ctor(void *o) { ::new (o) P##L(); }                                                      \
	ENTRY void P##_ctor_sp(void *o) { ::new (o) P##L(std::make_shared<P##P>()); }                           \
	ENTRY void P##_copy(void *o, P##L const &v) { ::new (o) P##L(v); }                                      \
	ENTRY void P##_move(void *o, P##L &v) { ::new (o) P##L(std::move(v)); }                                 \
	ENTRY void P##_conv(void *o, P##L const &v) { ::new (o) P##M(v); }                                      \
	ENTRY void P##_convback(void *o, P##M const &v) { ::new (o) P##L(v); }                                  \
	ENTRY void P##_rebind(void *o, P##L const &v) {                                                         \
		typename std::allocator_traits<P##L>::template rebind_alloc<U> m(v);                                \
		::new (o) P##L(m);                                                                                  \
	}                                                                                                       \
	ENTRY void P##_shared(void *o, P##L const &v) { ::new (o) P##L(v.underlying_pool()); }                  \
	ENTRY void P##_socc(void *o, P##L const &v) { ::new (o) P##L(std::allocator_traits<P##L>::select_on_container_copy_construction(v)); } \
	ENTRY void P##_assign_copy(P##L &a, P##L const &b) { a = b; }                                           \
	ENTRY void P##_assign_move(P##L &a, P##L &b) { a = std::move(b); }                                      \
	ENTRY void P##_swap(P##L &a, P##L &b) { swap(a, b); }                                                   \
	ENTRY void P##_dtor(P##L &v) { v.~P##L(); }                                                             \
	ENTRY void P##_dtor_m(P##M &v) { v.~P##M(); }                                                           \
	ENTRY T *P##_allocate(P##L &v, size_t n) { return std::allocator_traits<P##L>::allocate(v, n); }        \
	ENTRY void P##_deallocate(P##L &v, T *p, size_t n) { std::allocator_traits<P##L>::deallocate(v, p, n); } \
	ENTRY U *P##_allocate_m(P##M &v, size_t n) { return std::allocator_traits<P##M>::allocate(v, n); }      \
	ENTRY void P##_deallocate_m(P##M &v, U *p, size_t n) { std::allocator_traits<P##M>::deallocate(v, p, n); } \
	ENTRY bool P##_eq(P##L const &a, P##L const &b) { return a == b; }                                      \
	ENTRY bool P##_ne(P##L const &a, P##L const &b) { return a != b; }
INST(p0, arch::E24, char, 8)
INST(p1, char, arch::E24, 8, 16, 24, 32)
INST(p2, long, arch::E40, 1, 40, 4096)
INST(p3, arch::E24, int, 16, 16, 24, 48)
