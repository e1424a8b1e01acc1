#include "arch.hpp"
#include <dice/template-library/limit_allocator.hpp>
namespace dtl = dice::template_library;
namespace arch {
// upstream allocator with identity; its allocate may fail
template<typename T>
struct Up {
	using value_type = T;
	using is_always_equal = std::false_type;
	long id;
	explicit Up(long i) noexcept : id{i} {}
	template<typename U> Up(Up<U> const &o) noexcept : id{o.id} {}
	T *allocate(size_t n);
	void deallocate(T *p, size_t n) noexcept;
	Up select_on_container_copy_construction() const noexcept { return Up{socc(id)}; }
	static long socc(long id) noexcept;
	friend bool operator==(Up const &a, Up const &b) noexcept { return a.id == b.id; }
};
// default constructible upstream
template<typename T>
struct Ud : Up<T> {
	Ud() noexcept : Up<T>{7} {}
	explicit Ud(long i) noexcept : Up<T>{i} {}
	template<typename U> Ud(Ud<U> const &o) noexcept : Up<T>{o.id} {}
	Ud select_on_container_copy_construction() const noexcept { return Ud{Up<T>::socc(this->id)}; }
};
struct E24 { long a, b, c; };
} // namespace arch
template<typename T> using Up = arch::Up<T>;
template<typename T> using Ud = arch::Ud<T>;
#define INST(P, T, U, UP, SYNC)                                                                             \
	using P##L = dtl::limit_allocator<T, UP, dtl::limit_allocator_syncness::SYNC>;                          \
	using P##M = dtl::limit_allocator<U, UP, dtl::limit_allocator_syncness::SYNC>;                          \
	ENTRY size_t P##_sizeof() { return sizeof(P##L); }                                                      \
	ENTRY void P##_ctor(void *o, size_t limit, long id) { UP<T> u{id}; ::new (o) P##L(limit, u); }          \
	ENTRY void P##_ctor_move(void *o, size_t limit, long id) { ::new (o) P##L(limit, UP<T>{id}); }          \
	ENTRY void P##_ctor_inplace(void *o, size_t limit, long id) { ::new (o) P##L(limit, std::in_place, id); } \
	ENTRY void P##_copy(void *o, P##L const &v) { ::new (o) P##L(v); }                                      \
	ENTRY void P##_move(void *o, P##L &v) { ::new (o) P##L(std::move(v)); }                                 \
	ENTRY void P##_conv(void *o, P##L const &v) { ::new (o) P##M(v); }                                      \
	ENTRY void P##_convback(void *o, P##M const &v) { ::new (o) P##L(v); }                                  \
	ENTRY void P##_rebind(void *o, P##L const &v) {                                                         \
		typename std::allocator_traits<P##L>::template rebind_alloc<U> m(v);                                \
		::new (o) P##L(m);                                                                                  \
	}                                                                                                       \
	ENTRY void P##_socc(void *o, P##L const &v) { ::new (o) P##L(std::allocator_traits<P##L>::select_on_container_copy_construction(v)); } \
	ENTRY void P##_assign_copy(P##L &a, P##L const &b) { a = b; }                                           \
	ENTRY void P##_assign_move(P##L &a, P##L &b) { a = std::move(b); }                                      \
	ENTRY void P##_swap(P##L &a, P##L &b) { swap(a, b); }                                                   \
	ENTRY void P##_dtor(P##L &v) { v.~P##L(); }                                                             \
	ENTRY void P##_dtor_m(P##M &v) { v.~P##M(); }                                                           \
	ENTRY T *P##_allocate(P##L &v, size_t n) { return std::allocator_traits<P##L>::allocate(v, n); }        \
	ENTRY void P##_deallocate(P##L &v, T *p, size_t n) { std::allocator_traits<P##L>::deallocate(v, p, n); } \
	ENTRY U *P##_allocate_m(P##M &v, size_t n) { return std::allocator_traits<P##M>::allocate(v, n); }      \
	ENTRY void P##_deallocate_m(P##M &v, U *p, size_t n) { std::allocator_traits<P##M>::deallocate(v, p, n); } \
	ENTRY bool P##_eq(P##L const &a, P##L const &b) { return a == b; }                                      \
	ENTRY bool P##_ne(P##L const &a, P##L const &b) { return a != b; }                                      \
	ENTRY UP<T> const *P##_upstream(P##L const &v) { return &v.upstream_allocator(); }
INST(s0, arch::E24, long, Up, sync)
INST(s1, char, arch::E24, Ud, sync)
INST(u0, arch::E24, long, Up, unsync)
INST(u1, char, arch::E24, Ud, unsync)
ENTRY void s1_ctor_limit(void *o, size_t limit) { ::new (o) s1L(limit); }
ENTRY void u1_ctor_limit(void *o, size_t limit) { ::new (o) u1L(limit); }
