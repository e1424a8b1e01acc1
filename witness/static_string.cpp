#include "arch.hpp"
#include <dice/template-library/static_string.hpp>
namespace dtl = dice::template_library;
namespace arch {
// character traits whose comparison is an observable event
template<typename C>
struct Tr {
	using char_type = C;
	using int_type = long;
	using off_type = std::streamoff;
	using pos_type = std::streampos;
	using state_type = std::mbstate_t;
	static int compare(C const *a, C const *b, size_t n) noexcept;
	static size_t length(C const *a) noexcept;
	static C *copy(C *d, C const *s, size_t n) noexcept;
	static C *move(C *d, C const *s, size_t n) noexcept;
	static void assign(C &a, C const &b) noexcept { a = b; }
	static bool eq(C a, C b) noexcept;
	static bool lt(C a, C b) noexcept;
};
template<typename C, bool PCA, bool PMA, bool PSW, bool AE>
struct Al {
	using value_type = C;
	using propagate_on_container_copy_assignment = std::bool_constant<PCA>;
	using propagate_on_container_move_assignment = std::bool_constant<PMA>;
	using propagate_on_container_swap = std::bool_constant<PSW>;
	using is_always_equal = std::bool_constant<AE>;
	template<typename D> struct rebind { using other = Al<D, PCA, PMA, PSW, AE>; };
	long id;
	explicit Al(long i) noexcept : id{i} {}
	template<typename D> Al(Al<D, PCA, PMA, PSW, AE> const &o) noexcept : id{o.id} {}
	C *allocate(size_t n);
	void deallocate(C *p, size_t n) noexcept;
	Al select_on_container_copy_construction() const noexcept { return Al{socc(id)}; }
	static long socc(long id) noexcept;
	friend bool operator==(Al const &a, Al const &b) noexcept { return AE || a.id == b.id; }
};
} // namespace arch
#define INST(P, C, PCA, PMA, PSW, AE)                                                             \
	using P##A = arch::Al<C, PCA, PMA, PSW, AE>;                                                  \
	using P##V = dtl::basic_static_string<C, arch::Tr<C>, P##A>;                                  \
	template struct dtl::basic_static_string<C, arch::Tr<C>, P##A>;                               \
	ENTRY size_t P##_sizeof() { return sizeof(P##V); }                                            \
	ENTRY void P##_ctor_def(void *o, long id) { ::new (o) P##V(P##A{id}); }                       \
	ENTRY void P##_ctor_sv(void *o, C const *p, size_t n, long id) { ::new (o) P##V(typename P##V::view_type(p, n), P##A{id}); } \
	ENTRY void P##_ctor_copy(void *o, P##V const &v) { ::new (o) P##V(v); }                       \
	ENTRY void P##_ctor_move(void *o, P##V &v) { ::new (o) P##V(std::move(v)); }                  \
	ENTRY void P##_assign_copy(P##V &a, P##V const &b) { a = b; }                                 \
	ENTRY void P##_assign_move(P##V &a, P##V &b) { a = std::move(b); }                            \
	ENTRY void P##_swap(P##V &a, P##V &b) { swap(a, b); }                                         \
	ENTRY void P##_dtor(P##V &v) { v.~P##V(); }                                                   \
	ENTRY size_t P##_size(P##V const &v) { return v.size(); }                                     \
	ENTRY bool P##_empty(P##V const &v) { return v.empty(); }                                     \
	ENTRY C const *P##_data(P##V const &v) { return std::to_address(v.data()); }                  \
	ENTRY C *P##_data_m(P##V &v) { return std::to_address(v.data()); }                            \
	ENTRY C const *P##_begin(P##V const &v) { return v.begin(); }                                 \
	ENTRY C const *P##_end(P##V const &v) { return v.end(); }                                     \
	ENTRY C const *P##_cbegin(P##V const &v) { return v.cbegin(); }                               \
	ENTRY C const *P##_cend(P##V const &v) { return v.cend(); }                                   \
	ENTRY C *P##_begin_m(P##V &v) { return v.begin(); }                                           \
	ENTRY C *P##_end_m(P##V &v) { return v.end(); }                                               \
	ENTRY C const *P##_rbegin(P##V const &v) { return v.rbegin().base(); }                        \
	ENTRY C const *P##_rend(P##V const &v) { return v.rend().base(); }                            \
	ENTRY C const *P##_crbegin(P##V const &v) { return v.crbegin().base(); }                      \
	ENTRY C const *P##_crend(P##V const &v) { return v.crend().base(); }                          \
	ENTRY C *P##_rbegin_m(P##V &v) { return v.rbegin().base(); }                                  \
	ENTRY C *P##_rend_m(P##V &v) { return v.rend().base(); }                                      \
	ENTRY C const *P##_view_data(P##V const &v) { return static_cast<typename P##V::view_type>(v).data(); } \
	ENTRY size_t P##_view_size(P##V const &v) { return static_cast<typename P##V::view_type>(v).size(); } \
	ENTRY C P##_at(P##V const &v, size_t i) { return v[i]; }                                      \
	ENTRY C *P##_at_m(P##V &v, size_t i) { return &v[i]; }                                        \
	ENTRY C P##_front(P##V const &v) { return v.front(); }                                        \
	ENTRY C *P##_front_m(P##V &v) { return &v.front(); }                                          \
	ENTRY C P##_back(P##V const &v) { return v.back(); }                                          \
	ENTRY C *P##_back_m(P##V &v) { return &v.back(); }                                            \
	ENTRY bool P##_eq(P##V const &a, P##V const &b) { return a == b; }                            \
	ENTRY bool P##_ne(P##V const &a, P##V const &b) { return a != b; }                            \
	ENTRY bool P##_lt(P##V const &a, P##V const &b) { return a < b; }                             \
	ENTRY bool P##_gt(P##V const &a, P##V const &b) { return a > b; }                             \
	ENTRY bool P##_eqv(P##V const &a, C const *p, size_t n) { return a == typename P##V::view_type(p, n); } \
	ENTRY bool P##_nev(P##V const &a, C const *p, size_t n) { return typename P##V::view_type(p, n) != a; } \
	ENTRY bool P##_gtv(P##V const &a, C const *p, size_t n) { return typename P##V::view_type(p, n) < a; } \
	ENTRY bool P##_ltv(P##V const &a, C const *p, size_t n) { return a < typename P##V::view_type(p, n); }
INST(s0, char16_t, false, false, false, false)
INST(s1, char16_t, true, false, false, false)
INST(s2, char16_t, false, true, false, false)
INST(s3, char16_t, true, true, false, false)
INST(s4, char16_t, false, false, true, false)
INST(s5, char16_t, true, false, true, false)
INST(s6, char16_t, false, true, true, false)
INST(s7, char16_t, true, true, true, false)
INST(s8, char, false, false, false, true)
INST(s9, char32_t, true, true, true, true)
