#include "arch.hpp"
#include <dice/template-library/polymorphic_allocator.hpp>
namespace dtl = dice::template_library;
namespace arch {
#define ALLOC(NAME, PC, PM, PS, AE)                                                        \
	template<typename T>                                                                  \
	struct NAME {                                                                         \
		using value_type = T;                                                             \
		using propagate_on_container_copy_assignment = std::bool_constant<PC>;            \
		using propagate_on_container_move_assignment = std::bool_constant<PM>;            \
		using propagate_on_container_swap = std::bool_constant<PS>;                       \
		using is_always_equal = std::bool_constant<AE>;                                   \
		long id;                                                                          \
		NAME() noexcept : id{7} {}                                                        \
		explicit NAME(long i) noexcept : id{i} {}                                         \
		NAME(long i, long j) noexcept : id{i - j} {}                                      \
		template<typename U> NAME(NAME<U> const &o) noexcept : id{o.id} {}                \
		T *allocate(size_t n);                                                            \
		void deallocate(T *p, size_t n) noexcept;                                         \
		NAME select_on_container_copy_construction() const noexcept { return NAME{socc(id)}; } \
		static long socc(long id) noexcept;                                               \
		friend bool operator==(NAME const &a, NAME const &b) noexcept { return a.id == b.id; } \
	};
ALLOC(AP, true, false, true, false)
ALLOC(AQ, true, true, false, false)
ALLOC(AS, false, true, true, true)
struct E24 { long a, b, c; };
// an allocator without state is the usual case: its alternatives differ only in the index
} // namespace arch
#define COMMON(P, T, U, ...)                                                                              \
	using P##L = dtl::polymorphic_allocator<T, __VA_ARGS__>;                                              \
	using P##M = dtl::polymorphic_allocator<U, __VA_ARGS__>;                                              \
	ENTRY size_t P##_sizeof() { return sizeof(P##L); }                                                    \
	ENTRY void P##_ctor_default(void *o) { ::new (o) P##L(); }                                            \
	ENTRY void P##_copy(void *o, P##L const &v) { ::new (o) P##L(v); }                                    \
	ENTRY void P##_copy_nc(void *o, P##L &v) { ::new (o) P##L(v); }                                       \
	ENTRY void P##_move(void *o, P##L &v) { ::new (o) P##L(std::move(v)); }                               \
	ENTRY void P##_conv(void *o, P##L const &v) { ::new (o) P##M(v); }                                    \
	ENTRY void P##_convback(void *o, P##M const &v) { ::new (o) P##L(v); }                                \
	ENTRY void P##_rebind(void *o, P##L const &v) {                                                       \
		typename std::allocator_traits<P##L>::template rebind_alloc<U> m(v);                              \
		::new (o) P##L(m);                                                                                \
	}                                                                                                     \
	ENTRY void P##_socc(void *o, P##L const &v) { ::new (o) P##L(std::allocator_traits<P##L>::select_on_container_copy_construction(v)); } \
	ENTRY void P##_assign_copy(P##L &a, P##L const &b) { a = b; }                                         \
	ENTRY void P##_assign_move(P##L &a, P##L &b) { a = std::move(b); }                                    \
	ENTRY void P##_swap(P##L &a, P##L &b) { swap(a, b); }                                                 \
	ENTRY void P##_dtor(P##L &v) { v.~P##L(); }                                                           \
	ENTRY T *P##_allocate(P##L &v, size_t n) { return std::allocator_traits<P##L>::allocate(v, n); }      \
	ENTRY void P##_deallocate(P##L &v, T *p, size_t n) { std::allocator_traits<P##L>::deallocate(v, p, n); } \
	ENTRY U *P##_allocate_m(P##M &v, size_t n) { return std::allocator_traits<P##M>::allocate(v, n); }    \
	ENTRY void P##_deallocate_m(P##M &v, U *p, size_t n) { std::allocator_traits<P##M>::deallocate(v, p, n); } \
	ENTRY bool P##_eq(P##L const &a, P##L const &b) { return a == b; }                                    \
	ENTRY bool P##_ne(P##L const &a, P##L const &b) { return a != b; }
#define ALT(P, I, A, T, U)                                                                                \
	ENTRY void P##_ctor_ix_##I(void *o, long id) { ::new (o) P##L(std::in_place_index<I>, id); }          \
	ENTRY void P##_ctor_ty_##I(void *o, long id) { ::new (o) P##L(std::in_place_type<A<T>>, id); }        \
	ENTRY void P##_ctor_ty2_##I(void *o, long i, long j) { ::new (o) P##L(std::in_place_type<A<T>>, i, j); } \
	ENTRY void P##_ctor_cp_##I(void *o, long id) { A<T> const a{id}; ::new (o) P##L(a); }                 \
	ENTRY void P##_ctor_lv_##I(void *o, long id) { A<T> a{id}; ::new (o) P##L(a); }                       \
	ENTRY void P##_ctor_mv_##I(void *o, long id) { ::new (o) P##L(A<T>{id}); }                            \
	ENTRY bool P##_holds_##I(P##L const &v) { return v.template holds_allocator<A<T>>(); }                \
	ENTRY bool P##_holdst_##I(P##L const &v) { return v.template holds_allocator<A>(); }                  \
	ENTRY bool P##_holds_m_##I(P##M const &v) { return v.template holds_allocator<A<U>>(); }
COMMON(a, arch::E24, long, arch::AP)
ALT(a, 0, arch::AP, arch::E24, long)
COMMON(b, arch::E24, long, arch::AQ, arch::AS)
ALT(b, 0, arch::AQ, arch::E24, long)
ALT(b, 1, arch::AS, arch::E24, long)
COMMON(c, char, arch::E24, arch::AP, arch::AQ, arch::AS)
ALT(c, 0, arch::AP, char, arch::E24)
ALT(c, 1, arch::AQ, char, arch::E24)
ALT(c, 2, arch::AS, char, arch::E24)
// offset_ptr_stl_allocator
using oL = dtl::offset_ptr_stl_allocator<arch::E24, arch::AP>;
using oM = dtl::offset_ptr_stl_allocator<long, arch::AP>;
ENTRY size_t o_sizeof() { return sizeof(oL); }
ENTRY void o_ctor_default(void *o) { ::new (o) oL(); }
ENTRY void o_ctor_ix_0(void *o, long id) { ::new (o) oL(std::in_place, id); }
ENTRY void o_ctor_ty2_0(void *o, long i, long j) { ::new (o) oL(std::in_place, i, j); }
ENTRY void o_ctor_cp_0(void *o, long id) { arch::AP<arch::E24> const a{id}; ::new (o) oL(a); }
ENTRY void o_ctor_mv_0(void *o, long id) { ::new (o) oL(arch::AP<arch::E24>{id}); }
ENTRY void o_copy(void *o, oL const &v) { ::new (o) oL(v); }
ENTRY void o_move(void *o, oL &v) { ::new (o) oL(std::move(v)); }
ENTRY void o_conv(void *o, oL const &v) { ::new (o) oM(v); }
ENTRY void o_convback(void *o, oM const &v) { ::new (o) oL(v); }
ENTRY void o_rebind(void *o, oL const &v) {
	typename std::allocator_traits<oL>::template rebind_alloc<long> m(v);
	::new (o) oL(m);
}
ENTRY void o_socc(void *o, oL const &v) { ::new (o) oL(std::allocator_traits<oL>::select_on_container_copy_construction(v)); }
ENTRY void o_assign_copy(oL &a, oL const &b) { a = b; }
ENTRY void o_assign_move(oL &a, oL &b) { a = std::move(b); }
ENTRY void o_swap(oL &a, oL &b) { swap(a, b); }
ENTRY void o_dtor(oL &v) { v.~oL(); }
ENTRY arch::E24 *o_allocate(oL &v, size_t n) { return std::to_address(std::allocator_traits<oL>::allocate(v, n)); }
ENTRY void o_deallocate(oL &v, arch::E24 *p, size_t n) { std::allocator_traits<oL>::deallocate(v, typename oL::pointer{p}, n); }
ENTRY long *o_allocate_m(oM &v, size_t n) { return std::to_address(std::allocator_traits<oM>::allocate(v, n)); }
ENTRY void o_deallocate_m(oM &v, long *p, size_t n) { std::allocator_traits<oM>::deallocate(v, typename oM::pointer{p}, n); }
ENTRY bool o_eq(oL const &a, oL const &b) { return a == b; }
ENTRY bool o_ne(oL const &a, oL const &b) { return a != b; }
ENTRY arch::AP<arch::E24> const *o_upstream(oL const &a) { return &a.upstream_allocator(); }
ENTRY arch::AP<arch::E24> *o_upstream_m(oL &a) { return &a.upstream_allocator(); }
