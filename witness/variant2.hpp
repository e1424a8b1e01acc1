#pragma once
#include "arch.hpp"
#include <dice/template-library/variant2.hpp>
namespace dtl = dice::template_library;

#define V2_COMMON(P, X, Y)                                                                     \
	using P##V = dtl::variant2<arch::X, arch::Y>;                                              \
	ENTRY size_t P##_sizeof() { return sizeof(P##V); }                                         \
	ENTRY void P##_ctor_move(void *m, P##V &o) { ::new (m) P##V(std::move(o)); }               \
	ENTRY void P##_ctor_X_move(void *m, arch::X &o) { ::new (m) P##V(std::move(o)); }          \
	ENTRY void P##_ctor_Y_move(void *m, arch::Y &o) { ::new (m) P##V(std::move(o)); }          \
	ENTRY void P##_ctor_ip_X(void *m) { ::new (m) P##V(std::in_place_type<arch::X>, 7); }      \
	ENTRY void P##_ctor_ip_Y(void *m) { ::new (m) P##V(std::in_place_type<arch::Y>, 7); }      \
	ENTRY void P##_ctor_ip_0(void *m) { ::new (m) P##V(std::in_place_index<0>, 7); }           \
	ENTRY void P##_ctor_ip_1(void *m) { ::new (m) P##V(std::in_place_index<1>, 7); }           \
	ENTRY void P##_dtor(P##V *p) { p->~P##V(); }                                               \
	ENTRY void P##_assign_move(P##V &a, P##V &b) { a = std::move(b); }                         \
	ENTRY void P##_assign_X_move(P##V &a, arch::X &b) { a = std::move(b); }                    \
	ENTRY void P##_assign_Y_move(P##V &a, arch::Y &b) { a = std::move(b); }                    \
	ENTRY arch::X *P##_emplace_X(P##V &a) { return &a.template emplace<arch::X>(7); }          \
	ENTRY arch::Y *P##_emplace_Y(P##V &a) { return &a.template emplace<arch::Y>(7); }          \
	ENTRY arch::X *P##_emplace_0(P##V &a) { return &a.template emplace<0>(7); }                \
	ENTRY arch::Y *P##_emplace_1(P##V &a) { return &a.template emplace<1>(7); }                \
	ENTRY void P##_swap(P##V &a, P##V &b) { using std::swap; swap(a, b); }                     \
	ENTRY size_t P##_index(P##V const &a) { return a.index(); }                                \
	ENTRY bool P##_valueless(P##V const &a) { return a.valueless_by_exception(); }             \
	ENTRY bool P##_holds_X(P##V const &a) { return dtl::holds_alternative<arch::X>(a); }       \
	ENTRY bool P##_holds_Y(P##V const &a) { return dtl::holds_alternative<arch::Y>(a); }       \
	ENTRY arch::X *P##_getif_0(P##V *a) { return dtl::get_if<0>(a); }                          \
	ENTRY arch::Y *P##_getif_1(P##V *a) { return dtl::get_if<1>(a); }

#define V2_COPY(P, X, Y)                                                                       \
	ENTRY void P##_ctor_copy(void *m, P##V const &o) { ::new (m) P##V(o); }                    \
	ENTRY void P##_ctor_X_copy(void *m, arch::X const &o) { ::new (m) P##V(o); }               \
	ENTRY void P##_ctor_Y_copy(void *m, arch::Y const &o) { ::new (m) P##V(o); }               \
	ENTRY void P##_assign_copy(P##V &a, P##V const &b) { a = b; }                              \
	ENTRY void P##_assign_X_copy(P##V &a, arch::X const &b) { a = b; }                         \
	ENTRY void P##_assign_Y_copy(P##V &a, arch::Y const &b) { a = b; }

#define V2_DEFAULT(P, X, Y) \
	ENTRY void P##_ctor_default(void *m) { ::new (m) P##V(); }
