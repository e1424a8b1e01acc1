// Archetypes: user supplied types whose operations are declared but never defined, so that every
// operation a template of the library performs on them stays visible as a call in the IR.
#pragma once
#include <compare>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

#define ARCH_CLASS(NAME, SIZE, DC, CC, MC, CA, MA, CMP)                          \
	namespace arch {                                                            \
	struct NAME {                                                               \
		NAME() noexcept(DC);                                                    \
		explicit NAME(int) noexcept(DC);                                        \
		explicit NAME(int, int) noexcept(DC);                                   \
		NAME(NAME const &) noexcept(CC);                                        \
		NAME(NAME &&) noexcept(MC);                                             \
		~NAME();                                                                \
		NAME &operator=(NAME const &) noexcept(CA);                             \
		NAME &operator=(NAME &&) noexcept(MA);                                  \
		friend bool operator==(NAME const &, NAME const &) noexcept(CMP);       \
		friend std::strong_ordering operator<=>(NAME const &, NAME const &) noexcept(CMP); \
	private:                                                                    \
		unsigned char raw_[SIZE];                                               \
	};                                                                          \
	static_assert(sizeof(NAME) == SIZE);                                        \
	}

// nothrow everything
ARCH_CLASS(A, 24, true, true, true, true, true, true)
// everything may throw
ARCH_CLASS(B, 16, false, false, false, false, false, true)
ARCH_CLASS(D, 24, false, false, false, false, false, true)
// copy may throw, move may not: the usual resource owning type
ARCH_CLASS(M, 20, false, false, true, false, true, true)
ARCH_CLASS(N, 12, false, false, true, false, true, true)
// copy may not throw, move may
ARCH_CLASS(E, 18, true, true, false, true, false, true)
// exactly one operation may throw: construction from arguments, copy, move, copy assignment, move assignment
ARCH_CLASS(GD, 26, false, true, true, true, true, true)
ARCH_CLASS(GC, 28, true, false, true, true, true, true)
ARCH_CLASS(GM, 30, true, true, false, true, true, true)
ARCH_CLASS(GA, 32, true, true, true, false, true, true)
ARCH_CLASS(GV, 34, true, true, true, true, false, true)
// comparison may throw
ARCH_CLASS(Q, 14, false, false, false, false, false, false)

namespace arch {
// move only
struct U {
	U() noexcept(false);
	explicit U(int) noexcept(false);
	U(U &&) noexcept;
	~U();
	U &operator=(U &&) noexcept;

private:
	unsigned char raw_[10];
};
// trivial
struct T {
	int64_t x;
	friend bool operator==(T const &, T const &) noexcept = default;
	friend auto operator<=>(T const &, T const &) noexcept = default;
};
struct S {
	int32_t x;
	friend bool operator==(S const &, S const &) noexcept = default;
	friend auto operator<=>(S const &, S const &) noexcept = default;
};
// trivially assignable, but with a user provided copy constructor and destructor
struct R {
	R() noexcept;
	explicit R(int) noexcept;
	R(R const &) noexcept;
	R(R &&) noexcept;
	~R();
	R &operator=(R const &) = default;
	R &operator=(R &&) = default;

private:
	unsigned char raw_[6];
};
struct R2 {
	R2() noexcept;
	explicit R2(int) noexcept;
	R2(R2 const &) noexcept;
	R2(R2 &&) noexcept;
	~R2();
	R2 &operator=(R2 const &) = default;
	R2 &operator=(R2 &&) = default;

private:
	unsigned char raw_[7];
};
} // namespace arch
#define ENTRY extern "C"
