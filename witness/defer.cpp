#include "arch.hpp"
#include <dice/template-library/defer.hpp>
namespace dtl = dice::template_library;
namespace arch {
void body();
void body2() noexcept;
bool cond() noexcept;
int val() noexcept;
void act() noexcept;
void act_throw();
void actv(int) noexcept;
void actv_throw(int);
// a callable with throwing copy and move
struct Fn {
	Fn(Fn const &);
	Fn(Fn &&);
	~Fn();
	void operator()() noexcept;
};
struct Ft {
	Ft(Ft const &);
	Ft(Ft &&);
	~Ft();
	void operator()();
};
} // namespace arch
#define SCOPE(NAME, GUARD)                                                        \
	ENTRY void NAME##_plain() { GUARD arch::body(); }                            \
	ENTRY void NAME##_early() {                                                 \
		arch::body2();                                                          \
		GUARD                                                                   \
		if (arch::cond()) return;                                               \
		arch::body();                                                           \
	}                                                                           \
	ENTRY void NAME##_inner() {                                                 \
		GUARD                                                                   \
		try {                                                                   \
			arch::body();                                                       \
		} catch (...) {                                                         \
		}                                                                       \
	}                                                                           \
	ENTRY void NAME##_handler() {                                               \
		try {                                                                   \
			arch::body();                                                       \
		} catch (...) {                                                         \
			GUARD                                                               \
			arch::body();                                                       \
		}                                                                       \
	}                                                                           \
	ENTRY void NAME##_rethrow() {                                               \
		GUARD                                                                   \
		try {                                                                   \
			arch::body();                                                       \
		} catch (...) {                                                         \
			throw;                                                              \
		}                                                                       \
	}                                                                           \
	ENTRY void NAME##_unwind() {                                                \
		struct D {                                                              \
			~D() {                                                              \
				try {                                                           \
					GUARD                                                       \
					arch::body();                                               \
				} catch (...) {                                                 \
				}                                                               \
			}                                                                   \
		} d;                                                                    \
		arch::body();                                                           \
	}
SCOPE(always, DICE_DEFER { arch::act(); };)
SCOPE(fail, DICE_DEFER_TO_FAIL { arch::act(); };)
SCOPE(succ, DICE_DEFER_TO_SUCCESS { arch::act_throw(); };)
#define VALUE(NAME, GUARD)              \
	ENTRY void NAME##_value() {         \
		int x = 1;                      \
		GUARD                           \
		x = arch::val();                \
		arch::body();                   \
	}
VALUE(always, DICE_DEFER { arch::actv(x); };)
VALUE(fail, DICE_DEFER_TO_FAIL { arch::actv(x); };)
VALUE(succ, DICE_DEFER_TO_SUCCESS { arch::actv_throw(x); };)
#define OBJ(NAME, MAKE, F)                                                   \
	ENTRY void NAME##_copy(F &f) { auto g = dtl::MAKE(f); arch::body(); }    \
	ENTRY void NAME##_ccopy(F const &f) { auto g = dtl::MAKE(f); arch::body(); } \
	ENTRY void NAME##_move(F &f) { auto g = dtl::MAKE(std::move(f)); arch::body(); }
OBJ(always, make_scope_exit_guard, arch::Fn)
OBJ(fail, make_scope_fail_guard, arch::Fn)
OBJ(succ, make_scope_success_guard, arch::Ft)
// a guard without a function does nothing
#define EMPTY(NAME, POL, F) ENTRY void NAME##_empty() { dtl::ScopeExitGuard<dtl::ScopeExitPolicy::POL, F> g; arch::body(); }
EMPTY(always, Always, arch::Fn)
EMPTY(fail, OnFail, arch::Fn)
EMPTY(succ, OnSuccess, arch::Ft)
// two guards: last created runs first
ENTRY void order() {
	DICE_DEFER { arch::actv(1); };
	DICE_DEFER { arch::actv(2); };
	arch::body();
}
// a guard can neither be copied nor moved
template<typename T> concept fixed = !std::is_copy_constructible_v<T> && !std::is_move_constructible_v<T> && !std::is_copy_assignable_v<T> && !std::is_move_assignable_v<T>;
static_assert(fixed<decltype(dtl::make_scope_exit_guard(std::declval<arch::Fn>()))>);
static_assert(fixed<decltype(dtl::make_scope_fail_guard(std::declval<arch::Fn>()))>);
static_assert(fixed<decltype(dtl::make_scope_success_guard(std::declval<arch::Ft>()))>);
