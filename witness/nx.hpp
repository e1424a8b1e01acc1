#pragma once
// One scenario per operation: the objects are set up with operations that never throw, then the operation under test runs
// with element types of which exactly the flagged operations may throw.
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
#include <dice/template-library/flex_array.hpp>
#include <dice/template-library/for.hpp>
#include <dice/template-library/functional.hpp>
#include <dice/template-library/inplace_polymorphic.hpp>
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/integral_template_variant.hpp>
#include <dice/template-library/limit_allocator.hpp>
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/opt_minmax.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/polymorphic_allocator.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <dice/template-library/type_list.hpp>
#include <dice/template-library/defer.hpp>
#include <dice/template-library/variant2.hpp>
namespace dtl = dice::template_library;
enum : unsigned { DC = 1, CC = 2, MC = 4, CA = 8, MA = 16, SW = 32, CMP = 64, IC = 128, OP = 256, NOSW = 512 };
namespace nx {
struct tag {};
template<unsigned F>
struct X {
	X() noexcept(!(F & DC));
	X(X const &) noexcept(!(F & CC));
	X(X &&) noexcept(!(F & MC));
	X &operator=(X const &) noexcept(!(F & CA));
	X &operator=(X &&) noexcept(!(F & MA));
	~X();
	explicit X(tag) noexcept;
	explicit X(int) noexcept(!(F & IC));
	friend void swap(X &, X &) noexcept(!(F & SW)) requires (!(F & NOSW)) { swap_impl(); }
	bool operator==(X const &) const noexcept(!(F & CMP));
	std::strong_ordering operator<=>(X const &) const noexcept(!(F & CMP));
	size_t hash() const noexcept(!(F & CMP));
	void operator()() const noexcept(!(F & OP));
	static void swap_impl() noexcept(!(F & SW));

private:
	long raw_;
};
template<unsigned F> struct Y : X<F> { using X<F>::X; };
template<typename T, unsigned F>
struct Al {
	using value_type = T;
	using is_always_equal = std::false_type;
	template<typename U> struct rebind { using other = Al<U, F>; };
	X<F & ~NOSW | NOSW> x;
	Al() noexcept(!(F & DC)) : x{} {}
	Al(Al const &) = default;
	Al(Al &&) = default;
	Al &operator=(Al const &) = default;
	Al &operator=(Al &&) = default;
	explicit Al(tag t) noexcept : x{t} {}
	explicit Al(int i) noexcept(!(F & IC)) : x{i} {}
	template<typename U> Al(Al<U, F> const &o) noexcept(!(F & CC)) : x{o.x} {}
	friend void swap(Al &, Al &) noexcept(!(F & SW)) requires (!(F & NOSW)) { X<F>::swap_impl(); }
	T *allocate(size_t n) { x(); return std::allocator<T>{}.allocate(n); }
	void deallocate(T *p, size_t n) noexcept { std::allocator<T>{}.deallocate(p, n); }
	friend bool operator==(Al const &, Al const &) noexcept { return true; }
};
void may_throw();
template<bool N>
struct fn {
	void go() const noexcept(N) { if constexpr (!N) { may_throw(); } }
	template<typename T> void operator()() const noexcept(N) { go(); }
	template<typename T> void operator()(T) const noexcept(N) { go(); }
	template<typename A, typename B> int operator()(A, B const &) const noexcept(N) { go(); return 0; }
};
template<typename E> struct tfn {
	int operator()(int, E const &) const { may_throw(); return 0; }
	template<typename T> int operator()(int) const { may_throw(); return 0; }
};
} // namespace nx
template<unsigned F> struct std::hash<nx::X<F>> {
	size_t operator()(nx::X<F> const &x) const noexcept(!(F & CMP)) { return x.hash(); }
};
template<unsigned F> struct std::hash<nx::Y<F>> : std::hash<nx::X<F>> {};
using nx::tag;
constexpr tag t{};
template<typename T> T mk() noexcept { return T(t); }
//--------------------------------------------------------------------------------------------------
template<typename A, typename B, int i>
dtl::variant2<A, B> v2() { return dtl::variant2<A, B>{std::in_place_index<i>, t}; }

template<typename A, typename B, int i = 0, int j = 0>
struct variant2 {
	using V = dtl::variant2<A, B>;
	static void copy() { V a = v2<A, B, i>(); V b(a); }
	static void move() { V a = v2<A, B, i>(); V b(std::move(a)); }
	static void assign_copy() { V a = v2<A, B, i>(), b = v2<A, B, j>(); a = b; }
	static void assign_move() { V a = v2<A, B, i>(), b = v2<A, B, j>(); a = std::move(b); }
	static void swap_() { V a = v2<A, B, i>(), b = v2<A, B, j>(); swap(a, b); }
	static void eq() { V a = v2<A, B, i>(), b = v2<A, B, j>(); (void) (a == b); }
	static void cmp() { V a = v2<A, B, i>(), b = v2<A, B, j>(); (void) (a <=> b); }
	static void hash() { V a = v2<A, B, i>(); (void) std::hash<V>{}(a); }
	static void from_copy() { A x(t); V a(x); }
	static void from_move() { A x(t); V a(std::move(x)); }
	static void from_copy2() { B y(t); V b(y); }
	static void from_move2() { B y(t); V b(std::move(y)); }
	static void assign_value() { V a = v2<A, B, i>(); A x(t); a = x; }
	static void assign_value_move() { V a = v2<A, B, i>(); A x(t); a = std::move(x); }
	static void assign_value2() { V a = v2<A, B, i>(); B x(t); a = x; }
	static void assign_value2_move() { V a = v2<A, B, i>(); B x(t); a = std::move(x); }
	static void def() { V a; }
	static void in_place() { V a(std::in_place_index<i>, 1); }
	static void in_place_t() { V a(std::in_place_type<std::conditional_t<i == 0, A, B>>, 1); }
	static void emplace() { V a = v2<A, B, i>(); a.template emplace<j>(1); }
};
template<unsigned F> using X0 = nx::X<F>;
template<typename X>
struct itv {
	template<int i> struct E : X { using X::X; };
	using V = dtl::integral_template_variant<0, 2, E>;
	template<int i> static V mk() { return V{std::in_place_type<E<i>>, t}; }
	static void def() { V a; }
	static void copy() { V a = mk<0>(); V b(a); }
	static void move() { V a = mk<0>(); V b(std::move(a)); }
	static void assign_copy() { V a = mk<0>(), b = mk<0>(); a = b; }
	static void assign_copy2() { V a = mk<0>(), b = mk<1>(); a = b; }
	static void assign_move() { V a = mk<0>(), b = mk<0>(); a = std::move(b); }
	static void assign_move2() { V a = mk<0>(), b = mk<1>(); a = std::move(b); }
	static void from_copy() { E<1> x(t); V a(x); }
	static void from_move() { E<1> x(t); V a(std::move(x)); }
	static void in_place() { V a(std::in_place_type<E<1>>, 1); }
	static void emplace() { V a = mk<0>(); a.template emplace<1>(1); }
};

template<typename X, size_t ext, size_t max>
struct flex {
	using V = dtl::flex_array<X, ext, max>;
	using F2 = dtl::flex_array<X, 2>;
	static void size(V &v) { if constexpr (V::has_dynamic_extent) { v.resize(2); } }
	static void def() { V a; }
	static void copy() { V a; size(a); V b(a); }
	static void move() { V a; size(a); V b(std::move(a)); }
	static void assign_copy() { V a, b; size(b); a = b; }
	static void assign_move() { V a, b; size(b); a = std::move(b); }
	static void swap_() { V a, b; size(b); swap(a, b); }
	static void convert() { F2 a; V b(a); }
};
template<typename X>
struct mutex {
	static void def() { dtl::mutex<X> m; }
	static void copy() { X x(t); dtl::mutex<X> m(x); }
	static void move() { X x(t); dtl::mutex<X> m(std::move(x)); }
	static void in_place() { dtl::mutex<X> m(std::in_place, 1); }
	static void shared_def() { dtl::shared_mutex<X> m; }
	static void shared_copy() { X x(t); dtl::shared_mutex<X> m(x); }
	static void shared_move() { X x(t); dtl::shared_mutex<X> m(std::move(x)); }
	static void shared_in_place() { dtl::shared_mutex<X> m(std::in_place, 1); }
};
// members of the channels are analysed on a channel in any state (symbolic), iterators on concrete ones
template<typename X, typename C>
struct channel {
	using I = typename C::iterator;
	static void push_copy(C &c, X const &x) { c.push(x); }
	static void push_move(C &c, X &x) { c.push(std::move(x)); }
	static void emplace(C &c) { c.emplace(1); }
	static void try_push_copy(C &c, X const &x) { if constexpr (requires { c.try_push(x); }) { c.try_push(x); } }
	static void try_push_move(C &c, X &x) { if constexpr (requires { c.try_push(std::move(x)); }) { c.try_push(std::move(x)); } }
	static void try_emplace(C &c) { if constexpr (requires { c.try_emplace(1); }) { c.try_emplace(1); } }
	static void pop(C &c) { (void) c.pop(); }
	static void try_pop(C &c) { (void) c.try_pop(); }
	static void begin(C &c) { I a = c.begin(); }
	static void next(C &c) { I a = c.begin(); ++a; a++; }
	static void iter_copy(C &c) { I a = c.begin(); I b(a); }
	static void iter_move(C &c) { I a = c.begin(); I b(std::move(a)); }
	static void iter_assign_copy(C &c, C &d) { I a = c.begin(), b = d.begin(); a = b; }
	static void iter_assign_move(C &c, C &d) { I a = c.begin(), b = d.begin(); a = std::move(b); }
};
// any allocator over the archetype upstream
template<typename L, typename M, typename U>
struct alloc {
	static L mk(U const &u) {
		if constexpr (std::is_constructible_v<L, size_t, U const &>) { return L(100, u); }
		else if constexpr (std::is_constructible_v<L, std::in_place_index_t<0>, U const &>) { return L(std::in_place_index<0>, u); }
		else { return L(u); }
	}
	static void def() { if constexpr (std::is_default_constructible_v<L>) { L a; } }
	static void copy() { L a = mk(U(t)); L b(a); }
	static void move() { L a = mk(U(t)); L b(std::move(a)); }
	static void assign_copy() { L a = mk(U(t)), b = mk(U(t)); a = b; }
	static void assign_move() { L a = mk(U(t)), b = mk(U(t)); a = std::move(b); }
	static void swap_() { if constexpr (std::is_swappable_v<U>) { L a = mk(U(t)), b = mk(U(t)); swap(a, b); } }
	static void convert() { L a = mk(U(t)); M b(a); }
	static void allocate() { L a = mk(U(t)); auto p = a.allocate(2); a.deallocate(p, 2); }
	static void from_move() { U u(t); if constexpr (std::is_constructible_v<L, U &&>) { L a(std::move(u)); } else if constexpr (std::is_constructible_v<L, size_t, U &&>) { L a(1, std::move(u)); } }
	static void in_place() {
		if constexpr (std::is_constructible_v<L, std::in_place_t, int>) { L a(std::in_place, 1); }
		else if constexpr (std::is_constructible_v<L, size_t, std::in_place_t, int>) { L a(1, std::in_place, 1); }
		else if constexpr (std::is_constructible_v<L, std::in_place_index_t<0>, int>) { L a(std::in_place_index<0>, 1); L b(std::in_place_type<U>, 1); }
	}
};
template<unsigned F> struct up { template<typename T> using al = nx::Al<T, F>; template<typename T> struct other : nx::Al<T, F> { using nx::Al<T, F>::Al; template<typename U> struct rebind { using other = up::other<U>; }; other() = default; template<typename U> other(other<U> const &o) noexcept(!(F & CC)) : nx::Al<T, F>(static_cast<nx::Al<U, F> const &>(o)) {} other(other const &) = default; other(other &&) = default; other &operator=(other const &) = default; other &operator=(other &&) = default; }; };
template<unsigned F, typename T> using limit = dtl::limit_allocator<T, up<F>::template al>;
template<unsigned F, typename T> using poly = dtl::polymorphic_allocator<T, up<F>::template al>;
template<unsigned F, typename T> using poly2 = dtl::polymorphic_allocator<T, up<F>::template al, up<0>::template other>;
template<unsigned F, typename T> using poly3 = dtl::polymorphic_allocator<T, up<F>::template al, up<0>::template other, std::allocator>;
template<unsigned F, typename T> using offs = dtl::offset_ptr_stl_allocator<T, up<F>::template al>;
template<template<unsigned, typename> typename L, unsigned F> using allocs = alloc<L<F, long>, L<F, char>, nx::Al<long, F>>;
// inplace_polymorphic over a base that promises what its most derived classes do
template<unsigned F> struct ibase {
	virtual ~ibase() = default;
	virtual void copy_to(ibase *dst) const noexcept(!(F & CC)) = 0;
	virtual void move_to(ibase *dst) noexcept(!(F & MC)) = 0;
};
template<unsigned F, int n> struct ider : ibase<F> {
	nx::X<F> x;
	ider() noexcept(!(F & DC)) : x{} {}
	ider(ider const &) = default;
	ider(ider &&) = default;
	explicit ider(tag t) noexcept : x{t} {}
	explicit ider(int i) noexcept(!(F & IC)) : x{i} {}
	void copy_to(ibase<F> *dst) const noexcept(!(F & CC)) override { ::new (dst) ider(*this); }
	void move_to(ibase<F> *dst) noexcept(!(F & MC)) override { ::new (dst) ider(std::move(*this)); }
};
template<unsigned F>
struct inplace {
	using V = dtl::inplace_polymorphic<ibase<F>, ider<F, 0>, ider<F, 1>>;
	template<int i> static V mk() { return V(std::in_place_type<ider<F, i>>, t); }
	static void def() { V a; }
	static void copy() { V a = mk<1>(); V b(a); }
	static void move() { V a = mk<1>(); V b(std::move(a)); }
	static void assign_copy() { V a = mk<0>(), b = mk<1>(); a = b; }
	static void assign_move() { V a = mk<0>(), b = mk<1>(); a = std::move(b); }
	static void in_place() { V a(std::in_place_type<ider<F, 1>>, 1); }
	static void emplace() { V a = mk<0>(); a.template emplace<ider<F, 1>>(1); }
};
// calls
template<bool N>
struct calls {
	static void for_types() { dtl::for_types<int, long>(nx::fn<N>{}); }
	static void for_values() { dtl::for_values<1, 2>(nx::fn<N>{}); }
	static void for_range() { dtl::for_range<0, 2>(nx::fn<N>{}); }
	static void bind_front() { auto f = dtl::bind_front<nx::fn<N>{}>(1); f(); f(2); std::as_const(f)(2); }
	static void tuple_fold() { std::tuple<int, long> tup{1, 2}; (void) dtl::tuple_fold(tup, 0, nx::fn<N>{}); }
	static void tuple_fold1() { std::tuple<int> tup{1}; (void) dtl::tuple_fold(tup, 0, nx::tfn<int>{}); }
	static void tuple_type_fold() { (void) dtl::tuple_type_fold<std::tuple<int, long>>(0, nx::tfn<int>{}); }
	static void tuple_for_each() { std::tuple<int, long> tup{1, 2}; dtl::tuple_for_each(tup, nx::fn<N>{}); }
	static void variant2_visit() { dtl::variant2<int, long> v{1}; visit(nx::fn<N>{}, v); }
	static void variant_match() { dtl::variant2<int, long> v{1}; dtl::match(v, [](int) { nx::fn<N>{}.go(); }, [](long) {}); }
	static void itv_visit() { typename itv<nx::X<0>>::V v = itv<nx::X<0>>::template mk<0>(); v.visit(nx::fn<N>{}); }
};
template<typename X>
struct values {
	static void slt_def() { dtl::standard_layout_tuple<X, int> a; }
	static void slt_copy() { dtl::standard_layout_tuple<X, int> a(X(t), 1); dtl::standard_layout_tuple<X, int> b(std::as_const(a)); }
	static void slt_move() { dtl::standard_layout_tuple<X, int> a(X(t), 1); dtl::standard_layout_tuple<X, int> b(std::move(a)); }
	static void slt_assign() { dtl::standard_layout_tuple<X, int> a(X(t), 1), b(X(t), 2); a = b; a = std::move(b); }
	static void slt_uniform() { dtl::standard_layout_tuple<X, X> a(dtl::uniform_construct, 1); }
	static void fold_acc() { std::tuple<int, long> tup{1, 2}; (void) dtl::tuple_fold(tup, X(t), [](X x, auto const &) { return x; }); }
	static void opt_min() { std::optional<X> a{std::in_place, t}, b{std::in_place, t}; (void) dtl::opt_min(a, b); (void) dtl::opt_max(a, b); }
	static void bind_call() { auto f = dtl::bind_front<[](X const &, int) noexcept {}>(X(t)); auto g(f); g(1); }
	static void bind_value() { auto f = dtl::bind_front<[](X, int) noexcept {}>(X(t)); f(1); std::move(f)(1); }
};
template<typename X>
struct guard {
	template<dtl::ScopeExitPolicy p> using G = dtl::ScopeExitGuard<p, X>;
	template<dtl::ScopeExitPolicy p> static void copies() { X x(t); G<p> g(std::as_const(x)); }
	template<dtl::ScopeExitPolicy p> static void moves() { X x(t); G<p> g(std::move(x)); }
	static void copy_exit() { copies<dtl::ScopeExitPolicy::Always>(); }
	static void copy_fail() { copies<dtl::ScopeExitPolicy::OnFail>(); }
	static void copy_success() { copies<dtl::ScopeExitPolicy::OnSuccess>(); }
	static void move_exit() { moves<dtl::ScopeExitPolicy::Always>(); }
	static void move_fail() { moves<dtl::ScopeExitPolicy::OnFail>(); }
	static void move_success() { moves<dtl::ScopeExitPolicy::OnSuccess>(); }
	static void make_exit() { X x(t); auto g = dtl::make_scope_exit_guard(x); auto h = dtl::make_scope_exit_guard(std::move(x)); }
	static void make_fail() { X x(t); auto g = dtl::make_scope_fail_guard(x); auto h = dtl::make_scope_fail_guard(std::move(x)); }
	static void make_success() { X x(t); auto g = dtl::make_scope_success_guard(x); auto h = dtl::make_scope_success_guard(std::move(x)); }
};
