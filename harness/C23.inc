// C23: every way of awaiting treats any awaitable by the same protocol, and compositions of them lose nothing.
#include "common.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/wrap.h"
#include "macoro/start_on.h"
#include "macoro/take_until.h"
#include "macoro/timeout.h"
#include "macoro/inline_scheduler.h"
#include "macoro/macros.h"
using namespace macoro;
enum Form { SELF, MEMB, FREE_, CONSTM, REFM, LONLY, RONLY };
enum Sus { SVOID, SBOOL, SHAND, SLOC };
enum At { NEVER, COAW, READY_, SUSP, RES };
// a copy where only moving is possible is a violation when the harness has to do without the compiler's objection
#ifndef MC_LACK
#define MC_LACK 0 // the ways of awaiting to leave out because they no longer compile, see C23.drops
#endif
enum Group { G_WRAP, G_ALL, G_TASK, G_EAGER, G_MACRO, G_START, G_UNTIL, G_SCOPE, G_BLOCK, G_SYNC, G_BLOCKING };
template<int G> constexpr bool has = !((MC_LACK) >> G & 1);
#ifdef MC_LESS
#define NOCOPY(T) T(const T& o) : c(o.c), guard(o.guard) { mc::fail("property", "an operation is copied"); }
#else
#define NOCOPY(T) T(const T&) = delete;
#endif
// the operation: what it does is data, what it is is its type
struct Cfg { int at = NEVER; bool ready = false; int how = 0; int n = 4; std::coroutine_handle<> h{}; mc::Gate g; Val* obj = nullptr; const void* addr = nullptr; std::string log; int copies = 0;
	void ev(char c) { log += c; }
	void fail_at(int a) { if (at == a) boom(n); }
	void complete() { g.wait(); h.resume(); } };
template<class R> static R give(Cfg& c) { if constexpr (std::is_void_v<R>) return; else if constexpr (std::is_rvalue_reference_v<R>) return std::move(*c.obj); else if constexpr (std::is_reference_v<R>) return *c.obj; else return R(c.n); }
// whoever continues us when await_suspend returned another coroutine
struct Hop { struct promise_type { Hop get_return_object() { return { std::coroutine_handle<promise_type>::from_promise(*this) }; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } }; std::coroutine_handle<promise_type> h; };
inline Hop hop(Cfg* c) { struct To { std::coroutine_handle<> h; bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<> me) noexcept { auto x = h; me.destroy(); x.resume(); } void await_resume() noexcept {} }; co_await To{ c->h }; }
template<class R, int S> struct Aw {
	Cfg* c; Val guard{ 1 };
	explicit Aw(Cfg* c_) : c(c_) {}
	Aw(Aw&&) = default;
	NOCOPY(Aw)
	bool await_ready() { guard.get(); c->ev('r'); c->fail_at(READY_); return c->ready; }
	std::coroutine_handle<> susp(std::coroutine_handle<> h) { guard.get(); c->ev('s'); c->fail_at(SUSP); c->h = h; return h; }
	// how: 0 resumed by another thread, 1 go on at once
	template<class H> static std::coroutine_handle<> sh(H h) { if constexpr (requires { h.std_cast(); }) return h.std_cast(); else return h; }
	template<class H> void await_suspend(H h) requires(S == SVOID) { auto x = susp(sh(h)); if (c->how) x.resume(); else c->g.set(); }
	template<class H> bool await_suspend(H h) requires(S == SBOOL) { susp(sh(h)); if (c->how) return false; c->g.set(); return true; }
	std::coroutine_handle<> to(std::coroutine_handle<> h) { auto x = susp(h); if (c->how == 1) return x; if (c->how == 2) return hop(c).h; c->g.set(); return std::noop_coroutine(); }
	template<class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) requires(S == SHAND) { return to(h); }
	template<class P> coroutine_handle<> await_suspend(coroutine_handle<P> h) requires(S == SHAND) { return coroutine_handle<>(to(h.std_cast())); }
	template<class H> void await_suspend(H h, std::source_location = std::source_location::current()) requires(S == SLOC) { auto x = susp(sh(h)); if (c->how) x.resume(); else c->g.set(); }
	R await_resume() { guard.get(); c->ev('e'); c->fail_at(RES); return give<R>(*c); }
};
template<class R, int F, int S> struct Op;
template<class R, int S> struct Op<R, SELF, S> : Aw<R, S> { using Aw<R, S>::Aw; };
// an awaiter that still needs the awaitable it was made from
template<class R, int S> struct Dep : Aw<R, S> { Val* owner; Dep(Cfg* c, Val* o) : Aw<R, S>(c), owner(o) {} bool await_ready() { owner->get(); return Aw<R, S>::await_ready(); } R await_resume() { owner->get(); return Aw<R, S>::await_resume(); } };
struct Base { Cfg* c; Val guard{ 2 }; explicit Base(Cfg* c_) : c(c_) {} Base(Base&&) = default; NOCOPY(Base)
	Cfg* in(char k, bool same) { guard.get(); c->ev(k); if (same) MC_REQUIRE(c->addr == this, "a named operation is awaited in place"); c->fail_at(COAW); return c; } };
template<class R, int S> struct Op<R, MEMB, S> : Base { using Base::Base;
	Dep<R, S> operator co_await()& { return { in('L', true), &guard }; } Dep<R, S> operator co_await()&& { return { in('R', false), &guard }; } };
template<class R, int S> struct Op<R, LONLY, S> : Base { using LOnly = void; using Base::Base; Dep<R, S> operator co_await()& { return { in('L', true), &guard }; } };
template<class R, int S> struct Op<R, RONLY, S> : Base { using Base::Base; Dep<R, S> operator co_await()&& { return { in('R', false), &guard }; } };
template<class R, int S> struct Op<R, CONSTM, S> : Base { using Base::Base; Dep<R, S> operator co_await() const { auto* t = const_cast<Op*>(this); return { t->in('C', false), &t->guard }; } };
template<class R, int S> struct Op<R, REFM, S> : Base { Aw<R, S> aw; explicit Op(Cfg* c) : Base(c), aw(c) {} Aw<R, S>& operator co_await()& { in('L', true); return aw; } Aw<R, S>&& operator co_await()&& { in('R', false); return std::move(aw); } };
template<class R, int S> struct Op<R, FREE_, S> : Base { using Base::Base; };
template<class R, int S> Dep<R, S> operator co_await(Op<R, FREE_, S>& o) { return { o.in('l', true), &o.guard }; }
template<class R, int S> Dep<R, S> operator co_await(Op<R, FREE_, S>&& o) { return { o.in('x', false), &o.guard }; }
inline std::string expected(int F, bool lv, const Cfg& c) {
	std::string e; switch (F) { case SELF: break; case FREE_: e += lv ? 'l' : 'x'; break; case CONSTM: e += 'C'; break; default: e += lv ? 'L' : 'R'; }
	if (c.at == COAW && F != SELF) return e; e += 'r'; if (c.at == READY_) return e; if (!c.ready) { e += 's'; if (c.at == SUSP) return e; } return e + 'e';
}
// --- outcomes
inline void got(const Val& v, Cfg& c, bool ref) { if (ref) MC_REQUIRE(&v == c.obj, "the object referred to comes through"); else MC_REQUIRE(v.get() == c.n, "the value comes through"); }

struct Until { bool* stopped; void request_stop() { *stopped = true; } bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(coroutine_handle<>) {} void await_resume() { MC_REQUIRE(*stopped, "the trigger is stopped first"); } };
struct Native { struct promise_type { mc::Gate* done; std::exception_ptr ex; Native get_return_object() { return { std::coroutine_handle<promise_type>::from_promise(*this) }; } std::suspend_always initial_suspend() noexcept { return {}; }
	struct Fin { bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<promise_type> h) noexcept { h.promise().done->set(); } void await_resume() noexcept {} };
	Fin final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { ex = std::current_exception(); } };
	std::coroutine_handle<promise_type> h;
	void run() { mc::Gate d; h.promise().done = &d; h.resume(); d.wait(); auto e = h.promise().ex; h.destroy(); if (e) std::rethrow_exception(e); } };
#define AWAIT_INTO(EXPR) if constexpr (std::is_void_v<R>) co_await EXPR; else { decltype(auto) v = co_await EXPR; got(v, c, std::is_lvalue_reference_v<R>); }
template<class R, class X> Native vNative(X&& x, Cfg& c) { AWAIT_INTO(static_cast<X&&>(x)) }
template<class R, class X> task<> vTask(X&& x, Cfg& c) { AWAIT_INTO(static_cast<X&&>(x)) }
template<class R, class X> eager_task<> vEager(X&& x, Cfg& c) { AWAIT_INTO(static_cast<X&&>(x)) }
template<class R, class X> task<> vMacro(std::remove_reference_t<X>* xx, Cfg* cc) { if constexpr (std::is_void_v<R>) { MC_BEGIN(task<>, x = xx, c = cc); MC_AWAIT(static_cast<X&&>(*x)); MC_END(); } else if constexpr (std::is_reference_v<R>) { struct Set { Cfg* c; void operator()(R v) { got(v, *c, std::is_lvalue_reference_v<R>); } }; MC_BEGIN(task<>, x = xx, c = cc, set = Set{ cc }); MC_AWAIT_FN(set, static_cast<X&&>(*x)); MC_END(); } else { MC_BEGIN(task<>, x = xx, c = cc, v = R(0)); MC_AWAIT_SET(v, static_cast<X&&>(*x)); got(v, *c, false); MC_END(); } }
template<class R, class X> task<> vAll(X&& x, Cfg& c, int extra) {
	if (extra == 0) { auto r = co_await when_all_ready(static_cast<X&&>(x)); if constexpr (std::is_void_v<R>) std::get<0>(r).result(); else got(std::get<0>(r).result(), c, std::is_lvalue_reference_v<R>); }
	else { Cfg c2; Op<Val, MEMB, SBOOL> y(&c2); c2.ready = true; c2.addr = &y; auto r = co_await when_all_ready(std::move(y), static_cast<X&&>(x)); got(std::get<0>(std::move(r)).result(), c2, false); if constexpr (std::is_void_v<R>) std::get<1>(std::move(r)).result(); else got(std::get<1>(std::move(r)).result(), c, std::is_lvalue_reference_v<R>); }
}
template<class R, class X> task<> vAllVec(X&& x, Cfg& c) { std::vector<std::remove_reference_t<X>> v; v.push_back(std::move(x)); auto r = co_await when_all_ready(std::move(v)); MC_REQUIRE(r.size() == 1, "one outcome each"); if constexpr (std::is_void_v<R>) r[0].result(); else got(r[0].result(), c, std::is_lvalue_reference_v<R>); }
template<class R, class X> task<> vScope(X&& x, Cfg& c) { async_scope s; std::exception_ptr e; { auto t = s.add(static_cast<X&&>(x)); try { AWAIT_INTO(std::move(t)) } catch (...) { e = std::current_exception(); } } co_await s; if (e) std::rethrow_exception(e); }
template<class R, class X> when_all_scope block(X&& x, Cfg& c, std::exception_ptr& e, bool pipe) { if (pipe) { auto t = co_await (static_cast<X&&>(x) | scoped()); try { AWAIT_INTO(std::move(t)) } catch (...) { e = std::current_exception(); } } else { auto t = co_await scoped(static_cast<X&&>(x)); try { AWAIT_INTO(std::move(t)) } catch (...) { e = std::current_exception(); } } }
template<class R, class X> when_all_scope blockDirect(X&& x, Cfg& c, std::exception_ptr& e) { try { AWAIT_INTO(static_cast<X&&>(x)) } catch (...) { e = std::current_exception(); } }
template<class R, class X> task<> vBlock(X&& x, Cfg& c, int k) { std::exception_ptr e; if (k == 2) co_await blockDirect<R, X>(static_cast<X&&>(x), c, e); else if constexpr (!std::is_lvalue_reference_v<X>) co_await block<R, X>(static_cast<X&&>(x), c, e, k == 1); if (e) std::rethrow_exception(e); }
template<class R, class Y> static void gotResult(Y&& r, Cfg& c) { if (r.has_error()) std::rethrow_exception(r.error()); if constexpr (!std::is_void_v<R>) { MC_REQUIRE(!std::is_lvalue_reference_v<R> || !c.obj->moved(), "the object referred to is left alone"); MC_REQUIRE(r.value().get() == (std::is_lvalue_reference_v<R> ? 9 : c.n), "the value comes through"); } }
template<class R, class X> task<> vWrap(X&& x, Cfg& c, int k) {
	if (k == 0) { auto r = co_await wrap(static_cast<X&&>(x)); gotResult<R>(r, c); }
	else if (k == 1) { auto r = co_await (static_cast<X&&>(x) | wrap()); gotResult<R>(r, c); }
	else { auto w = wrap(static_cast<X&&>(x)); auto r = co_await std::move(w); gotResult<R>(r, c); } }
template<class R, class X> task<> vStartOn(X&& x, Cfg& c, bool pipe) { inline_scheduler s; if (pipe) { auto t = static_cast<X&&>(x) | start_on(s); AWAIT_INTO(std::move(t)) } else { auto t = start_on(s, static_cast<X&&>(x)); AWAIT_INTO(std::move(t)) } }
template<class R, class X> task<> vUntil(X&& x, Cfg& c) { bool st = false; AWAIT_INTO(take_until(static_cast<X&&>(x), Until{ &st })) }
enum How { H_NATIVE, H_TASK, H_EAGER, H_MACRO, H_SYNC, H_SYNCPIPE, H_BLOCKING, H_ALL, H_ALL2, H_ALLVEC, H_SCOPE, H_BLOCK, H_BLOCKPIPE, H_BLOCKDIRECT, H_WRAP, H_WRAPPIPE, H_WRAPMOVED, H_START, H_STARTPIPE, H_UNTIL, N_HOW };
template<class R, class X> static void via(int how, X&& x, Cfg& c) {
	constexpr bool lv = std::is_lvalue_reference_v<X>;
	auto direct = [&](auto&& f) { if constexpr (std::is_void_v<R>) f(); else got(f(), c, std::is_lvalue_reference_v<R>); };
	switch (how) {
	case H_NATIVE: vNative<R, X>(static_cast<X&&>(x), c).run(); break;
	case H_TASK: if constexpr (!has<G_TASK>) mc_prune_(); else { sync_wait(vTask<R, X>(static_cast<X&&>(x), c)); } break;
	case H_EAGER: if constexpr (!has<G_EAGER>) mc_prune_(); else { sync_wait(vEager<R, X>(static_cast<X&&>(x), c)); } break;
	case H_MACRO: if constexpr (!has<G_MACRO>) mc_prune_(); else { sync_wait(vMacro<R, X>(&x, &c)); } break;
	case H_SYNC: if constexpr (!has<G_SYNC>) mc_prune_(); else { direct([&]() -> decltype(auto) { return sync_wait(static_cast<X&&>(x)); }); } break;
	case H_SYNCPIPE: if constexpr (!has<G_SYNC>) mc_prune_(); else { direct([&]() -> decltype(auto) { return static_cast<X&&>(x) | sync_wait(); }); } break;
	case H_BLOCKING: if constexpr (!has<G_BLOCKING>) mc_prune_(); else { if constexpr (lv) mc_prune_(); else direct([&]() -> decltype(auto) { auto b = mc::flip("pipe") ? static_cast<X&&>(x) | make_blocking() : make_blocking(static_cast<X&&>(x)); auto b2 = std::move(b); return b2.get(); }); } break;
	case H_ALL: case H_ALL2: if constexpr (!has<G_ALL>) mc_prune_(); else { if constexpr (!requires { typename std::remove_reference_t<X>::LOnly; }) sync_wait(vAll<R, X>(static_cast<X&&>(x), c, how == H_ALL2)); else mc_prune_(); } break;
	case H_ALLVEC: if constexpr (!has<G_ALL>) mc_prune_(); else { if constexpr (lv) mc_prune_(); else sync_wait(vAllVec<R, X>(static_cast<X&&>(x), c)); } break;
	case H_SCOPE: if constexpr (!has<G_SCOPE>) mc_prune_(); else { if constexpr (lv) mc_prune_(); else sync_wait(vScope<R, X>(static_cast<X&&>(x), c)); } break;
	case H_BLOCK: case H_BLOCKPIPE: if constexpr (!has<G_BLOCK>) mc_prune_(); else { if (lv) mc_prune_(); sync_wait(vBlock<R, X>(static_cast<X&&>(x), c, how == H_BLOCKPIPE)); } break;
	case H_BLOCKDIRECT: if constexpr (!has<G_BLOCK>) mc_prune_(); else { sync_wait(vBlock<R, X>(static_cast<X&&>(x), c, 2)); } break;
	case H_WRAP: case H_WRAPPIPE: case H_WRAPMOVED: if constexpr (!has<G_WRAP>) mc_prune_(); else { sync_wait(vWrap<R, X>(static_cast<X&&>(x), c, how - H_WRAP)); } break;
	case H_START: case H_STARTPIPE: if constexpr (!has<G_START>) mc_prune_(); else { if constexpr (lv) mc_prune_(); else sync_wait(vStartOn<R, X>(static_cast<X&&>(x), c, how == H_STARTPIPE)); } break;
	case H_UNTIL: if constexpr (!has<G_UNTIL>) mc_prune_(); else { if constexpr (lv || std::is_reference_v<R> || std::is_same_v<R, MVal>) mc_prune_(); else sync_wait(vUntil<R, X>(static_cast<X&&>(x), c)); } break;
	}
}
template<class R, int F, int S> static void one(bool lv) {
	int how = mc::choose(N_HOW, "awaited through");
	{ Val obj(9); Cfg c; c.obj = &obj; if (std::is_rvalue_reference_v<R>) c.n = 9;
	int k = mc::choose(S == SHAND ? 4 : 3, "when"); c.ready = k == 0; c.how = k < 2 ? 0 : k - 1;
	static const int ats[] = { NEVER, COAW, READY_, SUSP, RES }; c.at = ats[mc::choose(5, "fails at")]; if ((c.at == COAW && F == SELF) || (c.at == SUSP && c.ready)) mc_prune_();
	if (mc::flip("std exception")) { if (c.at == NEVER) mc_prune_(); c.n = 5; }
	const int n = c.n; bool other = !c.ready && c.how == 0 && (c.at == NEVER || c.at == RES); std::thread t; if (other) t = std::thread([&] { c.complete(); });
	{ Op<R, F, S> op(&c); c.addr = static_cast<Base*>(nullptr) == nullptr ? (const void*)&op : nullptr; bool thrown = false;
		try { if (lv) { if constexpr (F != RONLY) via<R>(how, op, c); } else { if constexpr (F != LONLY) via<R>(how, std::move(op), c); } } catch (Boom& b) { thrown = true; MC_REQUIRE(b.v == n, "that exception comes through"); }
		MC_REQUIRE(thrown == (c.at != NEVER), "fails exactly when the operation does");
		auto e = expected(F, lv, c); if (c.log != e) { std::string m = "awaited by another protocol: " + c.log + " instead of " + e; mc::fail("property", m); } }
	if (other) t.join(); mc::outcome(c.log); } mc::noLive();
}
template<class R, int F, int S> static void both() { one<R, F, S>(F == LONLY ? true : F == RONLY ? false : mc::flip("named")); }
