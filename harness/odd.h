// Values with unusual but legal operators: nothing of the library may use them by accident.
#pragma once
#include "common.h"
namespace mc {
[[noreturn]] inline void odd(const char* what) { fail("property", std::string("a value's own operator is used: ") + what); std::abort(); }
template<bool Copy> struct OddT {
	Val v; alignas(16) char pad[16]{};
	OddT(int i = -7) : v(i) {}
	OddT(OddT&& o) noexcept : v(std::move(o.v)) {}
	OddT(const OddT& o) requires Copy : v(o.v) {}
	OddT& operator=(OddT&& o) noexcept { v = std::move(o.v); return *this; }
	OddT& operator=(const OddT& o) requires Copy { v = o.v; return *this; }
	OddT(std::initializer_list<OddT> l) : v(0) { odd("the constructor from a list"); }
	OddT* operator&() { odd("address-of"); } const OddT* operator&() const { odd("address-of"); }
	template<class U> friend void operator,(const OddT&, U&&) { odd("comma"); } template<class U> friend void operator,(U&&, const OddT&) requires (!std::is_same_v<std::decay_t<U>, OddT>) { odd("comma"); }
	explicit operator bool() const { odd("conversion to bool"); } bool operator!() const { odd("not"); }
	bool operator==(const OddT&) const { odd("comparison"); }
	struct Aw { bool await_ready() { odd("await"); } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} };
	Aw operator co_await() const { odd("co_await"); }
	int get() const { return v.get(); }
	// class-specific allocation: placement construction must not go through it
	static void* operator new(std::size_t n) { return ::operator new(n); } static void operator delete(void* p) { ::operator delete(p); } static void* operator new(std::size_t, void* p) { odd("placement new"); }
};
using Odd = OddT<true>; using MOdd = OddT<false>;
}
using mc::Odd; using mc::MOdd;
