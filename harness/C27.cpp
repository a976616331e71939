// C27: awaiting needs a bounded amount of stack, however long the loop or the chain.
#include "common.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/async_scope.h"
#include "macoro/start_on.h"
#include "macoro/inline_scheduler.h"
#include "macoro/thread_pool.h"
#include "macoro/wrap.h"
#include "macoro/take_until.h"
#include "macoro/barrier.h"
#include "macoro/manual_reset_event.h"
#include "macoro/sequence_spsc.h"
#include "macoro/sequence_mpsc.h"
#include "macoro/channel_spsc.h"
#include "macoro/channel.h"
#include "macoro/timeout.h"
#include "macoro/macros.h"
using namespace macoro;
// how deep the stack is each time one place is reached: it must not depend on how often it was
struct Gauge { int n = 0; const char* first = nullptr; long most = 0; __attribute__((noinline)) void at() { const char* p = (const char*)__builtin_frame_address(0); if (++n == 20) first = p; else if (n > 20) { long d = first - p; if (d > most) most = d; } } };
struct NoStop { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} void request_stop() {} };
struct Env {
	inline_scheduler s; async_scope sc; async_manual_reset_event ev{ true }; barrier ba{ 0 }; sequence_barrier<> sb{ 5 }; stop_source ss; Gauge g; thread_pool p;
	Env() { ss.request_stop(); }
};
static task<int> nat(Val v) { co_return v.get(); }
static task<int> mac(Val vv) { MC_BEGIN(task<int>, v = std::move(vv)); MC_RETURN(v.get()); MC_END(); }
static eager_task<int> enat(Val v) { co_return v.get(); }
static eager_task<int> emac(Val vv) { MC_BEGIN(eager_task<int>, v = std::move(vv)); MC_RETURN(v.get()); MC_END(); }
static task<int> bad() { boom(1); co_return 0; }
static task<int> mbad() { MC_BEGIN(task<int>); boom(1); MC_RETURN(0); MC_END(); }
static when_all_scope blk() { auto t = co_await scoped(nat(Val(1))); co_await std::move(t); }
static std::vector<task<int>> vec() { std::vector<task<int>> v; v.push_back(nat(Val(1))); v.push_back(mac(Val(2))); return v; }
template<int W> struct Way { };
// way k: as native coroutines await it, as macro coroutines await it (chains of one kind; mixing the kinds costs stack)
#define WAY(k, N, M) template<> struct Way<k> { \
	template<class T> static T nloop(Env& e, int n) { Val local(3); for (int i = 0; i < n; i++) { co_await N; MC_REQUIRE(local.get() == 3, "locals"); e.g.at(); } co_return n; } \
	template<class T> static T mloop(Env& ee, int nn) { MC_BEGIN(T, &e = ee, n = nn, i = int(0), local = Val(3)); for (; i < n; i++) { MC_AWAIT(M); MC_REQUIRE(local.get() == 3, "locals"); e.g.at(); } MC_RETURN(n); MC_END(); } };
#define BOTH(k, ...) WAY(k, (__VA_ARGS__), (__VA_ARGS__))
WAY(0, nat(Val(1)), mac(Val(1))) WAY(1, wrap(wrap(nat(Val(1)))), wrap(wrap(mac(Val(1))))) BOTH(2, enat(Val(1))) BOTH(3, emac(Val(1)))
BOTH(4, when_all_ready(nat(Val(1)))) BOTH(5, when_all_ready(nat(Val(1)), mac(Val(2)))) BOTH(6, when_all_ready(vec()))
BOTH(7, e.sc.add(nat(Val(1)))) BOTH(8, e.sc.add(mac(Val(1)))) BOTH(9, e.sc) BOTH(10, blk())
BOTH(11, start_on(e.s, nat(Val(1)))) BOTH(12, transfer_to(e.s)) WAY(13, wrap(nat(Val(1))), wrap(mac(Val(1)))) WAY(14, wrap(bad()), wrap(mbad()))
WAY(15, take_until(nat(Val(1)), NoStop{}), take_until(mac(Val(1)), NoStop{}) | start_on(e.s)) BOTH(16, e.ev) BOTH(17, e.ba) BOTH(18, e.sb.wait_until_published(5))
BOTH(19, e.ss.get_token()) BOTH(20, stop_token{})
enum { PLAIN = 21, ALL = 27 };
BOTH(21, e.p.schedule()) BOTH(22, e.p.dispatch()) BOTH(23, e.p.schedule_after(std::chrono::seconds(1))) WAY(24, start_on(e.p, nat(Val(1))), start_on(e.p, mac(Val(1)))) BOTH(25, when_all_ready(start_on(e.p, nat(Val(1))), start_on(e.p, mac(Val(2))))) BOTH(26, timeout(e.p, std::chrono::seconds(2)))
template<class T> static Fire fire(T t) { int n = co_await t; mc::gadd(1); MC_REQUIRE(n >= 0, "value"); }
static void bounded(const Gauge& g, const char* what) { mc::outcome((int)(g.most / 1024)); MC_REQUIRE(g.n > 100, "measured"); MC_REQUIRE(g.most <= 1024, what); }
template<int W> static void loops(Env& e, int kind, int n) {
	switch (kind) { case 0: fire(Way<W>::template nloop<task<int>>(e, n)); break; case 1: fire(Way<W>::template mloop<task<int>>(e, n)); break; case 2: fire(Way<W>::template nloop<eager_task<int>>(e, n)); break; case 3: fire(Way<W>::template mloop<eager_task<int>>(e, n)); break; }
	e.p.run(); sync_wait(e.sc); MC_REQUIRE(mc::gget(1) == 1, "the loop finished"); MC_REQUIRE(e.g.n == n, "each await of the loop was reached"); bounded(e.g, "a loop of awaits does not use more stack the longer it runs");
}
template<int... I> static void pick(Env& e, int w, int kind, int n, std::integer_sequence<int, I...>) { ((w == I ? loops<I>(e, kind, n) : (void)0), ...); }
MC_SCENARIO("C27.loops", S().cas(0, 0).lim(200000)) {
	{ Env e; int way = mc::choose(7, "way"), more = mc::choose(4, "more"), kind = mc::choose(4, "kind"); way += 7 * more; if (way >= ALL) mc_prune_(); pick(e, way, kind, mc::thorough() ? 500 : 200, std::make_integer_sequence<int, ALL>()); } mc::noLive();
}
// --- chains: each coroutine awaits the next; the last one finishes at once or later
struct Deep { Held* l; Gauge down, up; bool fails; };
template<int W> struct Chain { };
#define CHAIN(k, T, ...) template<> struct Chain<k> { \
	static T nat(Deep* d, int n) { Val local(n); d->down.at(); if (n == 0) { if (d->l) co_await d->l->ref(); if (d->fails) boom(3); } else co_await [&] { auto next = [&] { return Chain<k>::nat(d, n - 1); }; return __VA_ARGS__; }(); MC_REQUIRE(local.get() == n, "locals"); d->up.at(); co_return n; } \
	static T mac(Deep* dd, int nn) { MC_BEGIN(T, local = Val(nn), d = dd, n = nn); d->down.at(); if (n == 0) { if (d->l) MC_AWAIT(d->l->ref()); if (d->fails) boom(3); } else MC_AWAIT([&] { auto next = [&] { return Chain<k>::mac(d, n - 1); }; return __VA_ARGS__; }()); MC_REQUIRE(local.get() == n, "locals"); d->up.at(); MC_RETURN(n); MC_END(); } };
static inline_scheduler g_inl;
CHAIN(0, task<int>, next())
CHAIN(1, task<int>, wrap(next()))
CHAIN(2, task<int>, wrap(wrap(next())))
CHAIN(3, eager_task<int>, next())
CHAIN(4, task<int>, start_on(g_inl, next()))
CHAIN(5, task<int>, take_until(next(), NoStop{}))
template<int W> static Fire runChain(Deep* d, bool macro, int n) { try { if (macro) co_await Chain<W>::mac(d, n); else co_await Chain<W>::nat(d, n); } catch (Boom&) {} mc::gadd(1); }
MC_SCENARIO("C27.chains", S().cas(0, 0).lim(100000)) {
	{ int way = mc::choose(6, "way"); bool macro = mc::flip("macro"), later = mc::flip("later"); Held l; Deep d{ later ? &l : nullptr }; d.fails = mc::flip("fails"); int n = mc::thorough() ? 500 : 200;
	if (macro && way >= 4) mc_prune_(); // these are native coroutines
	switch (way) { case 0: runChain<0>(&d, macro, n); break; case 1: runChain<1>(&d, macro, n); break; case 2: runChain<2>(&d, macro, n); break; case 3: runChain<3>(&d, macro, n); break; case 4: runChain<4>(&d, macro, n); break; case 5: runChain<5>(&d, macro, n); break; }
	if (later) { MC_REQUIRE(mc::gget(1) == 0, "pending"); l.complete(); } MC_REQUIRE(mc::gget(1) == 1, "finished");
	if (way != 3 && way != 4) bounded(d.down, "starting a chain of lazy operations does not use more stack the longer it is"); // eager ones start inside each other
	if (!d.fails || way == 1 || way == 2) bounded(d.up, "finishing a chain of operations does not use more stack the longer it is"); } mc::noLive();
}
// --- two coroutines that feed each other, each resuming the other from inside its own calls
template<class C> static task<int> nprod(C& c, Gauge* g, int n) { for (int i = 0; i < n; i++) { { auto w = co_await c.push(); w = int(i); g->at(); } g->at(); } co_await c.close(); co_return 0; }
template<class C> static task<int> ncons(C& c, Gauge* g, int n) { int k = 0; try { for (;; k++) { { int& f = co_await c.front(); MC_REQUIRE(f == k, "in order"); } auto w = co_await c.pop(); g->at(); } } catch (channel_closed_exception&) {} MC_REQUIRE(k == n, "all"); co_return 0; }
template<class C> static task<int> mprod(C& cc, Gauge* gg, int nn) { using W = typename C::push_wrapper; MC_BEGIN(task<int>, &c = cc, g = gg, n = nn, i = int(0), w = std::optional<W>()); for (; i < n; i++) { MC_AWAIT_FN(w.emplace, c.push()); *w = int(i); g->at(); w.reset(); g->at(); } MC_AWAIT(c.close()); MC_RETURN(0); MC_END(); }
template<class C> static task<int> mcons(C& cc, Gauge* gg, int nn) { MC_BEGIN(task<int>, &c = cc, g = gg, n = nn, k = int(0), w = typename C::pop_wrapper()); for (; k < n; k++) { MC_AWAIT_SET(w, c.pop()); MC_REQUIRE(*w == k, "in order"); w.publish(); g->at(); } MC_RETURN(0); MC_END(); }
template<class C> static void pair(int cap) {
	{ C c(cap); Gauge g[2]; bool mp = mc::flip("macro producer"), mcn = mc::flip("macro consumer"), first = mc::flip("consumer first"); int n = 200; auto P = [&] { fire(mp ? mprod<C>(c, &g[0], n) : nprod<C>(c, &g[0], n)); }; auto K = [&] { fire(mcn ? mcons<C>(c, &g[1], n) : ncons<C>(c, &g[1], n)); };
	if (first) K(); P(); if (!first) K(); MC_REQUIRE(mc::gget(1) == 2, "both finished"); bounded(g[0], "two coroutines that feed each other do not use more stack the longer they run"); bounded(g[1], "two coroutines that feed each other do not use more stack the longer they run"); }
}
MC_SCENARIO("C27.pairs", S().cas(0, 0).lim(100000)) { int cap = 1 << mc::choose(3, "capacity"); if (mc::flip("mpsc")) pair<mpsc::channel<int>>(cap); else pair<spsc::channel<int>>(cap); }
