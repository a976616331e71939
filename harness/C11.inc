// C11: awaiting a stop token resumes exactly once, when stop is requested.
#include "common.h"
#include "macoro/stop.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
enum { RES, REQ };
static void resumed(int* data, bool want) {
	MC_REQUIRE(mc::gadd(RES) == 1, "the coroutine is resumed at most once");
	MC_REQUIRE(mc::gget(REQ) >= 1 || !want, "the coroutine is not resumed before stop was requested");
	if (data) MC_REQUIRE(*data == 1, "writes before the request are visible to the coroutine");
	mc::outcome(mc::tid());
}
static Fire waiter(stop_token t, int* data) { Val local(1); co_await t; MC_REQUIRE(local.get() == 1, "locals"); resumed(data, true); }
static Fire waiterTwice(stop_token t, int* data) { co_await t; co_await t; resumed(data, true); }
static task<int> waitTask(stop_token t, int* data) { Val local(1); co_await t; resumed(data, true); co_return 3; }
#ifndef MACORO_HAS_STD_STOP_TOKEN
static task<int> waitMacro(stop_token tt, int* data) { MC_BEGIN(task<int>, t = std::move(tt), data, local = Val(1)); MC_AWAIT(t); resumed(data, true); MC_RETURN(3); MC_END(); }
#else // MC_AWAIT finds operator co_await by ADL only, which does not reach std::stop_token
static task<int> waitMacro(stop_token t, int* d) { return waitTask(std::move(t), d); }
#endif
static void race(int requesters, int form, bool dropToken) {
	int data = 0; int* d = requesters == 1 ? &data : nullptr;
	{
		auto s = std::make_unique<stop_source>(); stop_token t = s->get_token(); std::vector<std::thread> th; th.reserve(4);
		if (form == 4) waiter(t, d); // waiting before any request
		for (int i = 0; i < requesters; i++) th.emplace_back([&, c = *s]() mutable { if (requesters == 1) data = 1; mc::gadd(REQ); c.request_stop(); });
		if (dropToken) s.reset();
		switch (form) { case 0: waiter(std::move(t), d); break; case 1: waiterTwice(t, d); break; case 2: MC_REQUIRE(sync_wait(waitTask(t, d)) == 3, "value"); break; case 3: MC_REQUIRE(sync_wait(waitMacro(t, d)) == 3, "value"); break; default:; }
		for (auto& x : th) x.join();
	}
	MC_REQUIRE(mc::gget(RES) == 1, "the coroutine is resumed once stop was requested"); MC_REQUIRE(mc::gget(mc::G_LIVE) == 0, "all freed");
}
MC_SCENARIO("C11.race", P(5, 8).sh(4)) { race(1, mc::choose(2, "form") * 4, mc::flip("drop source")); }
MC_SCENARIO("C11.twice", P(4, 6).sh(4)) { race(1, 1, false); }
MC_SCENARIO("C11.task", P(4, 5).sh(4)) { race(1, 2, false); }
MC_SCENARIO("C11.macro", P(3, 5).sh(4)) { race(1, 3, false); }
MC_SCENARIO("C11.two_requests", P(3, 5).sh(8)) { race(2, 0, false); }
MC_SCENARIO("C11.weak", P(3, 5).weak(2, 3).sh(8)) { race(1, 0, false); }
// already requested, never possible
MC_SCENARIO("C11.immediate", S()) {
	int how = mc::choose(4, "token"); stop_token t; stop_source s; if (how == 1) { stop_source gone; t = gone.get_token(); } if (how >= 2) { t = s.get_token(); s.request_stop(); }
	if (how == 3) { stop_source z; z = std::move(s); }
	[](stop_token t) -> Fire { co_await t; mc::gadd(RES); }(t); MC_REQUIRE(mc::gget(RES) == 1, "a token that is stopped or can never be stopped does not suspend");
	auto f = [](stop_token t) -> task<int> { co_await std::move(t); co_return 1; }; MC_REQUIRE(sync_wait(f(t)) == 1, "task form");
}
MC_SCENARIO("C11.notyet", S()) { stop_source s; waiter(s.get_token(), nullptr); MC_REQUIRE(mc::gget(RES) == 0, "not resumed before the request"); if (mc::flip()) { stop_source c = s; mc::gadd(REQ); c.request_stop(); } else { mc::gadd(REQ); s.request_stop(); } MC_REQUIRE(mc::gget(RES) == 1, "resumed"); s.request_stop(); MC_REQUIRE(mc::gget(RES) == 1, "once"); }
// the resumed coroutine frees everything the requester's callbacks could touch
static Fire freeing(std::unique_ptr<stop_source> s, int n) { { stop_token t = s->get_token(); co_await t; } mc::gadd(RES); }
MC_SCENARIO("C11.two_waiters", P(3, 4).sh(8)) {
	stop_source s; std::thread r([&] { mc::gadd(REQ); s.request_stop(); });
	auto w = [](stop_token t) -> Fire { co_await t; MC_REQUIRE(mc::gget(REQ) == 1, "not early"); mc::gadd(RES); };
	std::thread a([&] { w(s.get_token()); }); w(s.get_token()); r.join(); a.join(); MC_REQUIRE(mc::gget(RES) == 2, "each waiter is resumed exactly once");
}
// a waiter next to plain callbacks, and a waiter that awaits another token next
MC_SCENARIO("C11.chain", P(3, 4).sh(8)) {
	stop_source s1, s2; auto w = [](stop_token a, stop_token b) -> Fire { co_await a; mc::gadd(RES); co_await b; mc::gadd(RES); };
	std::thread r1([&] { s1.request_stop(); }), r2([&] { s2.request_stop(); }); w(s1.get_token(), s2.get_token()); r1.join(); r2.join(); MC_REQUIRE(mc::gget(RES) == 2, "both");
}
// many coroutines on one token: the request resumes each once
static Fire manyWaiter(stop_token t, std::vector<int>* woken, int id) { Val l(id); co_await t; MC_REQUIRE(l.get() == id, "locals"); MC_REQUIRE(++(*woken)[id] == 1, "the coroutine is resumed at most once"); mc::gadd(RES); }
MC_SCENARIO("C11.many", S().cas(0, 0).lim(40000)) { { static const int ns[] = { 8, 15, 16, 17, 33, 64, 65, 129, 200 }; int n = ns[mc::choose(9, "waiters")]; std::vector<int> woken(n, 0); stop_source s; for (int i = 0; i < n; i++) manyWaiter(s.get_token(), &woken, i); MC_REQUIRE(mc::gget(RES) == 0, "not resumed before the request"); s.request_stop(); MC_REQUIRE(mc::gget(RES) == n, "the coroutine is resumed once stop was requested"); manyWaiter(s.get_token(), &woken, 0 * n + (woken[0] = 0)); MC_REQUIRE(mc::gget(RES) == n + 1, "no wait once requested"); } mc::noLive(); }
