#include "arch.hpp"
#include <dice/template-library/inplace_polymorphic.hpp>
namespace dtl = dice::template_library;
namespace arch {
void may_throw();
}
// the base promises something else than its derived classes
struct BaseX {
	virtual ~BaseX() = default;
	virtual void copy_to(BaseX *dst) const noexcept = 0;
	virtual void move_to(BaseX *dst) = 0;
};
// base classes: C/V = copy/move declared noexcept, D = virtual destructor
struct BaseN {
	virtual ~BaseN() = default;
	virtual void copy_to(BaseN *dst) const noexcept = 0;
	virtual void move_to(BaseN *dst) noexcept = 0;
};
struct BaseT {
	virtual ~BaseT() = default;
	virtual void copy_to(BaseT *dst) const = 0;
	virtual void move_to(BaseT *dst) = 0;
};
struct BaseM {
	virtual ~BaseM() = default;
	virtual void copy_to(BaseM *dst) const = 0;
	virtual void move_to(BaseM *dst) noexcept = 0;
};
struct BaseR {
	virtual void copy_to(BaseR *dst) const = 0;
	virtual void move_to(BaseR *dst) = 0;
};
struct BaseU {
	virtual ~BaseU() = default;
	virtual void move_to(BaseU *dst) = 0;
};
struct Base0 {
	virtual ~Base0() = default;
};
#define DER(NAME, BASE, X, PAD, CN, MN)                                          \
	struct NAME : BASE {                                                        \
		PAD X x;                                                                \
		NAME() noexcept(std::is_nothrow_default_constructible_v<arch::X>) : x{} {} \
		explicit NAME(int i) noexcept(std::is_nothrow_default_constructible_v<arch::X>) : x{i} {} \
		NAME(NAME const &) = default;                                            \
		NAME(NAME &&) = default;                                                \
		void copy_to(BASE *dst) const CN override { ::new (dst) NAME(*this); }    \
		void move_to(BASE *dst) MN override { ::new (dst) NAME(std::move(*this)); } \
	};                                                                          \
	ENTRY arch::X *NAME##_field(NAME &d) { return &d.x; }
namespace inst {
using namespace arch;
DER(NA, BaseN, A, , noexcept, noexcept)
DER(NB, BaseN, A, long pad = 0;, noexcept, noexcept)
DER(TA, BaseT, B, , , )
DER(TB, BaseT, D, long pad = 0;, , )
DER(MA, BaseM, M, , , noexcept)
DER(MB, BaseM, N, long pad = 0;, , noexcept)
// some derived classes promise more than their base
DER(XA, BaseT, A, , noexcept, noexcept)
DER(XB, BaseT, A, long pad = 0;, , noexcept)
DER(XC, BaseT, A, long pad = 0; long pad2 = 0;, noexcept, )
DER(XE, BaseX, E, , noexcept, )
DER(XF, BaseX, A, long pad = 0;, noexcept, noexcept)
#define RDER(NAME, X)                                                            \
	struct NAME : BaseR {                                                       \
		X x;                                                                    \
		NAME() : x{} { arch::may_throw(); }                                      \
		explicit NAME(int i) : x{i} { arch::may_throw(); }                       \
		NAME(NAME const &o) : x(o.x) { arch::may_throw(); }                      \
		NAME(NAME &&o) : x(o.x) { arch::may_throw(); }                           \
		void copy_to(BaseR *dst) const override { ::new (dst) NAME(*this); }     \
		void move_to(BaseR *dst) override { ::new (dst) NAME(std::move(*this)); } \
	};                                                                          \
	ENTRY arch::X *NAME##_field(NAME &d) { return &d.x; }
RDER(RA, T)
RDER(RB, S)
struct UA : BaseU {
	U x;
	UA() : x{} {}
	explicit UA(int i) : x{i} {}
	UA(UA &&) = default;
	void move_to(BaseU *dst) override { ::new (dst) UA(std::move(*this)); }
};
ENTRY arch::U *UA_field(UA &d) { return &d.x; }
struct Z0 : Base0 {
	A x;
	Z0() noexcept : x{} {}
	explicit Z0(int i) noexcept : x{i} {}
};
ENTRY arch::A *Z0_field(Z0 &d) { return &d.x; }
} // namespace inst
#define BASICS(P, V, K0, K1, BASE)                                               \
	ENTRY size_t P##_sizeof() { return sizeof(V); }                              \
	ENTRY void P##_ctor_default(void *o) { ::new (o) V(); }                      \
	ENTRY void P##_ctor_0(void *o) { ::new (o) V(std::in_place_type<K0>, 7); }    \
	ENTRY void P##_ctor_1(void *o) { ::new (o) V(std::in_place_type<K1>, 7); }    \
	ENTRY void P##_emplace_0(V &v) { v.template emplace<K0>(7); }                \
	ENTRY void P##_emplace_1(V &v) { v.template emplace<K1>(7); }                \
	ENTRY void P##_dtor(V &v) { v.~V(); }                                        \
	ENTRY bool P##_valueless(V const &v) { return v.valueless_by_exception(); }  \
	ENTRY BASE *P##_get_m(V &v) { return &v.get(); }                             \
	ENTRY BASE const *P##_get_c(V const &v) { return &v.get(); }                 \
	ENTRY BASE *P##_deref_m(V &v) { return &*v; }                                \
	ENTRY BASE const *P##_deref_c(V const &v) { return &*v; }                    \
	ENTRY BASE *P##_arrow_m(V &v) { return v.operator->(); }                     \
	ENTRY BASE const *P##_arrow_c(V const &v) { return v.operator->(); }
#define COPY(P, V)                                                               \
	ENTRY void P##_ctor_copy(void *o, V const &v) { ::new (o) V(v); }            \
	ENTRY void P##_assign_copy(V &a, V const &b) { a = b; }
#define MOVE(P, V)                                                               \
	ENTRY void P##_ctor_move(void *o, V &v) { ::new (o) V(std::move(v)); }       \
	ENTRY void P##_assign_move(V &a, V &b) { a = std::move(b); }
using PN = dtl::inplace_polymorphic<BaseN, inst::NA, inst::NB>;
using PT = dtl::inplace_polymorphic<BaseT, inst::TA, inst::TB>;
using PM = dtl::inplace_polymorphic<BaseM, inst::MA, inst::MB>;
using PR = dtl::inplace_polymorphic<BaseR, inst::RA, inst::RB>;
using PU = dtl::inplace_polymorphic<BaseU, inst::UA>;
using P0 = dtl::inplace_polymorphic<Base0, inst::Z0>;
BASICS(n, PN, inst::NA, inst::NB, BaseN) COPY(n, PN) MOVE(n, PN)
BASICS(t, PT, inst::TA, inst::TB, BaseT) COPY(t, PT) MOVE(t, PT)
BASICS(m, PM, inst::MA, inst::MB, BaseM) COPY(m, PM) MOVE(m, PM)
BASICS(r, PR, inst::RA, inst::RB, BaseR) COPY(r, PR) MOVE(r, PR)
BASICS(u, PU, inst::UA, inst::UA, BaseU) MOVE(u, PU)
BASICS(z, P0, inst::Z0, inst::Z0, Base0)
using Pxa = dtl::inplace_polymorphic<BaseT, inst::XA, inst::TB>;
BASICS(xa, Pxa, inst::XA, inst::TB, BaseT) COPY(xa, Pxa) MOVE(xa, Pxa)
using Pxb = dtl::inplace_polymorphic<BaseT, inst::TA, inst::XA>;
BASICS(xb, Pxb, inst::TA, inst::XA, BaseT) COPY(xb, Pxb) MOVE(xb, Pxb)
using Pxc = dtl::inplace_polymorphic<BaseT, inst::XB, inst::TB>;
BASICS(xc, Pxc, inst::XB, inst::TB, BaseT) COPY(xc, Pxc) MOVE(xc, Pxc)
using Pxd = dtl::inplace_polymorphic<BaseT, inst::XC, inst::TB>;
BASICS(xd, Pxd, inst::XC, inst::TB, BaseT) COPY(xd, Pxd) MOVE(xd, Pxd)
using Pxe = dtl::inplace_polymorphic<BaseX, inst::XF, inst::XE>;
BASICS(xe, Pxe, inst::XF, inst::XE, BaseX) COPY(xe, Pxe) MOVE(xe, Pxe)
using Pxf = dtl::inplace_polymorphic<BaseX, inst::XE, inst::XF>;
BASICS(xf, Pxf, inst::XE, inst::XF, BaseX) COPY(xf, Pxf) MOVE(xf, Pxf)
static_assert(!std::is_copy_constructible_v<PU> && !std::is_copy_assignable_v<PU>);
static_assert(!std::is_copy_constructible_v<P0> && !std::is_copy_assignable_v<P0> && !std::is_move_constructible_v<P0> && !std::is_move_assignable_v<P0>);
// the base is not the first base class of the stored type
struct Other {
	virtual ~Other() = default;
	long z = 3;
};
struct Sec : Other, Base0 {
	explicit Sec(int) noexcept {}
};
using PS = dtl::inplace_polymorphic<Base0, Sec>;
ENTRY size_t s_sizeof() { return sizeof(PS); }
ENTRY void s_ctor(void *o) { ::new (o) PS(std::in_place_type<Sec>, 7); }
ENTRY Base0 *s_get(PS &v) { return &v.get(); }
ENTRY Base0 *s_base(Sec &v) { return &v; }
