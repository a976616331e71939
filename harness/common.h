// Shared helpers for the harnesses. Everything here is instrumented user-level code.
#pragma once
#include "mc.h"
#include <atomic>
#include <thread>
#include <mutex>
#include <vector>
#include <memory>
#include <string>
#include <optional>
#include <coroutine>
#include <exception>
#include <stdexcept>
#include <chrono>
#include <sstream>
#include <source_location>
#include "macoro/coroutine_handle.h"
#include "macoro/awaiter.h"

namespace mc {
// ghost indices 0..99 free for scenarios; from 100 reserved
enum { G_LIVE = 100, G_CTOR = 101 };

// A value whose constructions and destructions are accounted; reading a dead or
// moved-from one is reported. Holds a heap cell so that double destruction,
// leaks and use after destruction are visible to the shadow heap as well.
struct Val {
	int* p;
	explicit Val(int v) : p(new int(v)) { gadd(G_LIVE, 1); }
	Val(const Val& o) : p(o.p ? new int(*o.p) : nullptr) { gadd(G_LIVE, 1); }
	Val(Val&& o) noexcept : p(o.p) { o.p = nullptr; gadd(G_LIVE, 1); }
	Val& operator=(const Val& o) { if (this != &o) { int* n = o.p ? new int(*o.p) : nullptr; delete p; p = n; } return *this; }
	Val& operator=(Val&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
	~Val() { delete p; gadd(G_LIVE, -1); }
	int get() const { if (!p) mc::fail("property", "a moved-from value was delivered"); return *p; }
	bool moved() const { return !p; }
};
// move-only flavour. When the harness no longer compiles (check.py retries with MC_LESS) a copy is reported when it happens.
struct MVal : Val { using Val::Val; MVal(MVal&&) noexcept = default; MVal& operator=(MVal&&) noexcept = default;
#ifdef MC_LESS
	MVal(const MVal& o) : Val(o) { mc::fail("property", "an object that can only be moved is copied"); }
	MVal& operator=(const MVal& o) { Val::operator=(o); mc::fail("property", "an object that can only be moved is copied"); return *this; }
#else
	MVal(const MVal&) = delete;
#endif
};
inline void noLive() { MC_REQUIRE(gget(G_LIVE) == 0, "every contained value is destroyed exactly once"); }

// what operations fail with: an unrelated class, or (odd numbers) one derived from std::exception
struct Boom { int v; };
struct BoomStd : std::exception, Boom { explicit BoomStd(int i) : Boom{ i } {} };
[[noreturn]] inline void boom(int v) { if (v & 1) throw BoomStd(v); throw Boom{ v }; }
inline std::exception_ptr boomPtr(int v) { if (v & 1) return std::make_exception_ptr(BoomStd(v)); return std::make_exception_ptr(Boom{ v }); }

// fire-and-forget coroutine: starts at once, frame freed at the end
struct Fire {
	struct promise_type {
		Fire get_return_object() noexcept { return {}; }
		std::suspend_never initial_suspend() noexcept { return {}; }
		std::suspend_never final_suspend() noexcept { return {}; }
		void return_void() noexcept {}
		void unhandled_exception() { std::terminate(); }
	};
};

// An operation completed from elsewhere: await suspends and opens the gate;
// complete() (any thread) waits until somebody awaits, then resumes it.
struct Later {
	Gate g; std::coroutine_handle<> h{};
	bool await_ready() const noexcept { return false; }
	void await_suspend(std::coroutine_handle<> c) noexcept { h = c; g.set(); }
	void await_suspend(macoro::coroutine_handle<> c) noexcept { h = c.std_cast(); g.set(); }
	void await_resume() const noexcept {}
	void complete() { g.wait(); auto x = h; x.resume(); }
	struct Ref { Later* l; bool await_ready() const noexcept { return false; }
		template<class H> void await_suspend(H c) noexcept { l->await_suspend(c); } void await_resume() const noexcept {} };
	Ref ref() { return { this }; }
};
// as Later, for one thread and large numbers
struct Held { std::coroutine_handle<> h{}; struct Ref { Held* l; bool await_ready() const noexcept { return false; } void await_suspend(std::coroutine_handle<> c) noexcept { l->h = c; } void await_suspend(macoro::coroutine_handle<> c) noexcept { l->h = c.std_cast(); } void await_resume() const noexcept {} };
	Ref ref() { return { this }; } void complete() { auto x = h; h = nullptr; x.resume(); } };
// the k-th of n in one of several orders: forwards, backwards, from both ends, in large strides
inline int nth(int order, int k, int n) { switch (order) { case 0: return k; case 1: return n - 1 - k; case 2: return k & 1 ? n - 1 - k / 2 : k / 2; default: { int s = 7; while (n % s == 0) s += 4; return (int)((long)k * s % n); } } }
// a value whose k-th move throws (ghost 98 counts down, 0 = never): the fault injector for "constructing or moving the result fails"
struct TV { Val v; explicit TV(int x) : v(x) { tick(); } TV(TV&& o) : v(std::move(o.v)) { tick(); } TV& operator=(TV&& o) { tick(); v = std::move(o.v); return *this; }
	static void tick() { long c = gget(98); if (c > 0) { gset(98, c - 1); if (c == 1) boom(99); } } static void arm(int k) { gset(98, k); } static bool fired(int k) { return k && gget(98) == 0; } };
// resume inline, immediately (synchronously completing suspension)
struct Inline {
	bool await_ready() const noexcept { return false; }
	bool await_suspend(std::coroutine_handle<>) noexcept { return false; }
	bool await_suspend(macoro::coroutine_handle<>) noexcept { return false; }
	void await_resume() const noexcept {}
};
}
using mc::Fire; using mc::Val; using mc::MVal; using mc::Later; using mc::Held; using mc::nth; using mc::Boom; using mc::boom; using mc::boomPtr; using mc::TV;
