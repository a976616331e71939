// C08: delayed work fires once, never early, and cancellation releases it promptly.
#include "common.h"
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
using namespace std::chrono_literals;
using Work = thread_pool::work;
enum { RAN = 0, PROMPT = 1, J0 = 10, REQ0 = 20, SEQ = 30, ORD0 = 31, OUT0 = 60 };
static void outside() { mc::gset(OUT0 + mc::tid(), 1); }
// a continuation asked for at time t0 with delay d runs; exact: nothing else keeps the pool busy, so it has to run at its deadline
static void fired(int id, long long t0, std::chrono::nanoseconds d, bool exact = false) {
	MC_REQUIRE(!mc::gget(OUT0 + mc::tid()), "a delayed continuation runs on a thread of the pool"); MC_REQUIRE(mc::gadd(J0 + id) == 1, "a delayed continuation is resumed at most once"); mc::gadd(RAN);
	mc::gset(ORD0 + (int)mc::gadd(SEQ) - 1, id);
	long long now = mc_now_(), dl = t0 + d.count(); bool req = mc::gget(REQ0 + id);
	MC_REQUIRE(req || now >= dl, "a delayed continuation never runs before its deadline unless stop was requested");
	if (mc::gget(PROMPT)) { MC_REQUIRE(!req || now < dl, "a stop request releases the item without waiting for its deadline"); MC_REQUIRE(req || !exact || now == dl, "a delayed continuation runs as soon as its deadline passed"); }
	mc::outcome(now >= dl);
}
static Fire delayed(thread_pool& p, int id, std::chrono::nanoseconds d, stop_token t = {}, bool exact = false) { Val l(id); long long t0 = mc_now_(); co_await p.schedule_after(d, t); fired(id, t0, d, exact); MC_REQUIRE(l.get() == id, "locals"); }
static eager_task<> delayedMacro(thread_pool& pp, int idd, std::chrono::nanoseconds dd, stop_token tt) { MC_BEGIN(eager_task<>, &pp, id = idd, d = dd, t = std::move(tt), t0 = 0ll); t0 = mc_now_(); MC_AWAIT(pp.schedule_after(d, std::move(t))); fired(id, t0, d); MC_END(); }
static void req(int id, stop_source& s) { mc::gset(REQ0 + id, 1); s.request_stop(); }
static void done(int n) { MC_REQUIRE(mc::gget(RAN) == n, "every delayed continuation runs"); mc::noLive(); }
static void ordered(int a, int b) { int pa = -1, pb = -1; for (int i = 0; i < mc::gget(SEQ); i++) { if (mc::gget(ORD0 + i) == a) pa = i; if (mc::gget(ORD0 + i) == b) pb = i; } MC_REQUIRE(pa < pb, "delayed items fire in deadline order"); }
static void runHere(thread_pool& p) { p.run(); outside(); }

// deadlines in every order, one thread, nothing cancelled: fire exactly on time, in order
static void order(int n, bool threads) {
	mc::gset(PROMPT, 1); int d[4]; { thread_pool p; Work w = p.make_work(); if (threads) { outside(); p.create_threads(1); } for (int i = 0; i < n; i++) { d[i] = mc::choose(n, "delay"); delayed(p, i, (1 + d[i]) * 1s, {}, true); } w.reset(); if (threads) p.join(); else runHere(p); }
	done(n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (d[i] < d[k]) ordered(i, k);
}
MC_SCENARIO("C08.order1", S()) { order(3, false); }
MC_SCENARIO("C08.order1b", S()) { order(4, false); }
MC_SCENARIO("C08.order2", D()) { order(2, true); }
MC_SCENARIO("C08.order3", P(2, 3).timeb(0, 1).sh(8)) { order(3, true); }
MC_SCENARIO("C08.zero", D()) { outside(); { thread_pool p; Work w = p.make_work(); p.create_threads(1); delayed(p, 0, mc::flip("neg") ? -1s : 0s); w.reset(); } done(1); }
// time passing at any moment
MC_SCENARIO("C08.one", P(4, 6).timeb(1, 2).spur(1, 2).sh(4)) { outside(); { thread_pool p; Work w = p.make_work(); p.create_threads(1); delayed(p, 0, 1s); w.reset(); } done(1); }
MC_SCENARIO("C08.two", P(3, 4).timeb(1, 2).spur(0, 1).sh(8)) { outside(); { thread_pool p; Work w = p.make_work(); p.create_threads(2); delayed(p, 0, 2s); delayed(p, 1, 1s); w.reset(); } done(2); }
// cancellation at every moment. threads: of the pool; n items; which of them is stopped
static void cancel(int threads, int n, bool prompt, int form) {
	outside(); if (prompt) mc::gset(PROMPT, 1); long long t0 = mc_now_();
	{ thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(threads); int k = mc::choose(n, "stopped");
	std::thread y([s, k]() mutable { outside(); req(k, s); });
	std::vector<eager_task<>> ts; ts.reserve(4);
	for (int i = 0; i < n; i++) { auto t = i == k ? s.get_token() : form & 1 ? stop_source().get_token() : stop_token{}; auto d = (1 + (i + k) % n) * 1000s; if (form & 2) ts.push_back(delayedMacro(p, i, d, t)); else delayed(p, i, d, t); }
	w.reset(); if (n == 1 && prompt) { p.join(); MC_REQUIRE(mc_now_() < t0 + 1000 * 1000000000ll, "the pool's threads return as soon as the cancelled item ran"); } p.join(); y.join(); }
	done(n);
}
MC_SCENARIO("C08.cancel1", P(3, 5).sh(8)) { cancel(1, 1, true, mc::choose(4, "form")); }
MC_SCENARIO("C08.cancel1p", P(3, 4).timeb(1, 2).spur(0, 1).sh(8)) { cancel(1, 1, false, 0); }
MC_SCENARIO("C08.cancel2", P(2, 4).sh(8)) { cancel(1, 2, true, mc::choose(4, "form")); }
MC_SCENARIO("C08.cancel2p", P(2, 3).timeb(1, 2).sh(8)) { cancel(1, 2, false, 1); }
MC_SCENARIO("C08.cancel3", P(2, 3).sh(8)) { cancel(1, 3, true, 1); }
MC_SCENARIO("C08.threads1", P(2, 3).sh(8)) { cancel(2, 1, true, 0); }
MC_SCENARIO("C08.threads2", P(1, 3).sh(8)) { cancel(2, 2, true, 0); }
MC_SCENARIO("C08.threads2p", P(1, 2).timeb(1, 1).sh(8)) { cancel(2, 2, false, 0); }
// one source stops several items
MC_SCENARIO("C08.shared", P(3, 4).sh(8)) {
	outside(); mc::gset(PROMPT, 1); { thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(1); std::thread y([s]() mutable { outside(); mc::gset(REQ0, 1); mc::gset(REQ0 + 1, 1); s.request_stop(); });
	delayed(p, 0, 1000s, s.get_token()); delayed(p, 1, 2000s, s.get_token()); w.reset(); p.join(); y.join(); } done(2);
}
// the awaiting thread is the one that requested stop: before, and from a continuation on the pool
MC_SCENARIO("C08.before", D()) { outside(); mc::gset(PROMPT, 1); { thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(1); req(0, s); delayed(p, 0, 1000s, s.get_token()); delayed(p, 1, 10s, {}, true); w.reset(); } done(2); ordered(0, 1); }
static Fire stopper(thread_pool& p, int id, stop_source s, std::chrono::nanoseconds d) { long long t0 = mc_now_(); if (d.count()) { co_await p.schedule_after(d); fired(9, t0, d); } else { co_await p.schedule(); mc::gadd(RAN); } req(id, s); }
MC_SCENARIO("C08.onpool", P(3, 4).sh(8)) { outside(); mc::gset(PROMPT, 1); { thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(1); bool first = mc::flip("stop first"); if (first) stopper(p, 0, s, 0s); delayed(p, 0, 1000s, s.get_token()); delayed(p, 1, 10s, {}, true); if (!first) stopper(p, 0, s, 0s); w.reset(); } done(3); ordered(0, 1); }
// stop requested by an item that fires earlier, at the same time or later
MC_SCENARIO("C08.later", D()) { outside(); { thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(1); int k = mc::choose(3, "when"); delayed(p, 0, 10s, s.get_token()); delayed(p, 1, 20s); stopper(p, 0, s, (5 + 5 * k) * 1s); w.reset(); p.join(); MC_REQUIRE(k || mc::gget(ORD0) == 9 && mc::gget(ORD0 + 1) == 0, "a stopped item runs when stop was requested"); } done(3); ordered(0, 1); }
MC_SCENARIO("C08.twice", P(2, 3).timeb(1, 2).sh(8)) { // two delays of the same coroutine and token
	outside(); { thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(1); std::thread y([s]() mutable { outside(); mc::gset(REQ0, 1); mc::gset(REQ0 + 1, 1); s.request_stop(); });
	[](thread_pool& p, stop_token t) -> Fire { long long a = mc_now_(); co_await p.schedule_after(1s, t); fired(0, a, 1s); a = mc_now_(); co_await p.schedule_after(1s, t); fired(1, a, 1s); }(p, s.get_token()); w.reset(); p.join(); y.join(); } done(2);
}
// every shape of the set of pending delays: n items in every order of deadlines, up to two of them stopped, before the pool runs or from an item that fires meanwhile
static void heap(int n, int stops, bool threads) {
	mc::gset(PROMPT, 1); int d[7]; bool st[7] = {}; unsigned used = 0; for (int i = 0; i < n; i++) { int k = mc::choose(n - i, "delay"), v = 0; while (used >> v & 1 || k--) v++; used |= 1u << v; d[i] = v; }
	{ thread_pool p; std::vector<stop_source> ss(n); Work w; if (threads) { outside(); w = p.make_work(); p.create_threads(1); } long long t0 = mc_now_();
	for (int i = 0; i < n; i++) delayed(p, i, (10 + d[i]) * 1s, ss[i].get_token(), true);
	bool late = !threads && mc::flip("stopped by an item"); std::vector<stop_source> go;
	for (int k = 0; k < stops; k++) { int v = mc::choose(n, "stopped"); if (st[v]) mc_prune_(); st[v] = true; if (!late) req(v, ss[v]); else go.push_back(ss[v]); }
	if (late) [](thread_pool& p, std::vector<stop_source> go, bool* st) -> Fire { co_await p.schedule_after(1s); for (int v = 0, k = 0; v < 7; v++) if (st[v]) mc::gset(REQ0 + v, 1); for (auto& s : go) s.request_stop(); }(p, go, st);
	if (threads) { w.reset(); p.join(); } else runHere(p);
	MC_REQUIRE(mc_now_() - t0 <= (9 + n) * 1000000000ll, "the pool is done at the last deadline"); }
	done(n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (st[i] != st[k] ? st[i] : !st[i] && d[i] < d[k]) ordered(i, k);
}
MC_SCENARIO("C08.heap4", S().sh(2)) { heap(4, 2, false); }
MC_SCENARIO("C08.heap5", S().sh(4)) { heap(5, 1, false); }
MC_SCENARIO("C08.heap6", S().sh(8).thorough_only()) { heap(6, 2, false); }
MC_SCENARIO("C08.heap3t", P(2, 3).sh(8)) { heap(3, 1, true); }
// nothing but delayed items keeps the pool in use: threads added afterwards still run them
MC_SCENARIO("C08.late_threads", D()) { outside(); { thread_pool p; int n = 1 + mc::flip("two"); for (int i = 0; i < n; i++) delayed(p, i, (i + 1) * 1s, {}, true); int t = 1 + mc::flip("threads"); if (mc::flip("one by one")) for (int i = 0; i < t; i++) p.create_thread(); else p.create_threads(t); p.join(); done(n); } }
// queued and delayed items together
static Fire now(thread_pool& p) { co_await p.schedule(); MC_REQUIRE(!mc::gget(OUT0 + mc::tid()), "runs on the pool"); mc::gadd(RAN); }
MC_SCENARIO("C08.mixed", P(3, 4).timeb(1, 2).sh(8)) { outside(); { thread_pool p; Work w = p.make_work(); p.create_threads(1 + mc::flip("threads")); delayed(p, 0, 1s); now(p); w.reset(); } done(2); }
// a delayed item must not wait for a busy thread while another one of the pool is idle
static Fire busy(thread_pool& p, mc::Gate& g) { co_await p.schedule(); mc::gadd(RAN); g.wait(); }
static Fire opener(thread_pool& p, mc::Gate& g, std::chrono::nanoseconds d, stop_token t) { long long t0 = mc_now_(); co_await p.schedule_after(d, t); fired(0, t0, d, true); g.set(); }
static void idle(bool stopped) {
	outside(); mc::gset(PROMPT, 1); mc::Gate g; { thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(2); std::thread y; if (stopped) y = std::thread([s]() mutable { outside(); req(0, s); }); if (mc::flip("busy first")) { busy(p, g); opener(p, g, 10s, s.get_token()); } else { opener(p, g, 10s, s.get_token()); busy(p, g); } if (stopped) y.join(); g.wait(); w.reset(); } done(2);
}
MC_SCENARIO("C08.idle", P(3, 4).spur(0, 1).sh(8)) { idle(false); }
MC_SCENARIO("C08.idle_stop", P(1, 3).sh(8)) { idle(true); }
// the frame holding the registration is destroyed while the request is running
MC_SCENARIO("C08.frame", P(3, 5).timeb(1, 1).sh(8)) { outside(); auto* p = new thread_pool; auto* s = new stop_source; { Work w = p->make_work(); p->create_threads(1); std::thread y([s = *s]() mutable { outside(); req(0, s); }); delayed(*p, 0, 1s, s->get_token()); delete s; w.reset(); p->join(); delete p; y.join(); } done(1); }

// queued work that keeps coming does not keep a delayed item from running once its deadline passed
static void pass(std::chrono::nanoseconds d) { std::mutex m; std::condition_variable c; std::unique_lock<std::mutex> l(m); c.wait_until(l, thread_pool::clock::now() + d); }
static Fire stream(thread_pool& p, int rounds) { for (int i = 0; i < rounds; i++) { co_await p.schedule(); MC_REQUIRE(!mc::gget(OUT0 + mc::tid()), "runs on the pool"); pass(1s); } mc::gadd(RAN); }
static Fire within(thread_pool& p, int id, std::chrono::nanoseconds d, std::chrono::nanoseconds slack, stop_token t) { long long t0 = mc_now_(); co_await p.schedule_after(d, t); fired(id, t0, d); MC_REQUIRE(mc_now_() <= t0 + d.count() + slack.count(), "work queued after the deadline passed does not go before the delayed item for ever"); }
MC_SCENARIO("C08.busy_queue", S()) { { thread_pool p; Work w = p.make_work(); int n = 1 + mc::flip("two"), streams = 1 + mc::flip("streams"); bool first = mc::flip("queued first"); auto go = [&] { for (int i = 0; i < streams; i++) stream(p, 12); }; if (first) go(); for (int i = 0; i < n; i++) within(p, i, (i + 1) * 1500ms, 8s, {}); if (!first) go(); w.reset(); runHere(p); done(n + streams); } }
MC_SCENARIO("C08.busy_queue.threads", P(2, 3).sh(8)) { outside(); { thread_pool p; Work w = p.make_work(); p.create_threads(1); stream(p, 8); within(p, 0, 1500ms, 5s, {}); w.reset(); } done(2); }
// many delayed items, deadlines in several orders with ties, some stopped before or by an item that fires: each fires once, when it is due
static Fire manyDelay(thread_pool& p, std::vector<long long>& at, std::vector<int>& seq, int id, std::chrono::nanoseconds d, stop_token t) { Val l(id); co_await p.schedule_after(d, t); MC_REQUIRE(l.get() == id, "locals"); MC_REQUIRE(at[id] < 0, "a delayed continuation is resumed at most once"); at[id] = mc_now_(); seq.push_back(id); }
static void many(std::initializer_list<int> sizes) {
	{ int n = std::data(sizes)[mc::choose((int)sizes.size(), "count")], order = mc::choose(4, "order"), stop = mc::choose(4, "stopped"), sorder = mc::choose(3, "order of stops"); bool ties = mc::flip("ties"), late = mc::flip("stopped by an item"); if (!stop && (sorder || late)) mc_prune_();
	std::vector<long long> at(n, -1); std::vector<int> seq, dl(n); std::vector<char> st(n, 0); std::vector<stop_source> ss; ss.reserve(n); for (int i = 0; i < n; i++) ss.emplace_back(); seq.reserve(n); long long t0 = mc_now_();
	{ thread_pool p; Work w = p.make_work(); for (int i = 0; i < n; i++) { int r = nth(order, i, n); dl[i] = 10 + (ties ? r / 3 : r); manyDelay(p, at, seq, i, dl[i] * 1s, ss[i].get_token()); }
	auto stops = [&] { static const int mods[] = { 0, 2, 3, 7 }; for (int k = 0; k < n; k++) { int i = nth(sorder, k, n); if (stop && i % mods[stop] == 1) { st[i] = 1; ss[i].request_stop(); } } };
	struct L { static Fire go(thread_pool& p, decltype(stops)& f) { co_await p.schedule_after(1s); f(); } }; if (late) L::go(p, stops); else stops(); w.reset(); runHere(p); }
	for (int i = 0; i < n; i++) { MC_REQUIRE(at[i] >= 0, "every delayed continuation runs"); if (st[i]) MC_REQUIRE(at[i] < t0 + 10 * 1000000000ll, "a stop request releases the item without waiting for its deadline"); else MC_REQUIRE(at[i] == t0 + dl[i] * 1000000000ll, "a delayed continuation runs when its deadline passed, not before and not later"); }
	int last = -1; for (int i : seq) if (!st[i]) { MC_REQUIRE(dl[i] >= last, "delayed items fire in deadline order"); last = dl[i]; } }
	mc::noLive();
}
MC_SCENARIO("C08.many", S().cas(0, 0).lim(60000).sh(4)) { many({ 7, 8, 15, 16, 17, 31, 33, 64, 70 }); }
MC_SCENARIO("C08.many300", S().cas(0, 0).lim(60000).sh(4)) { many({ 257, 300 }); }
// delays of every unit and size: fire exactly at their deadline, in deadline order; delays too long to ever pass wait for a stop request
using Days = std::chrono::duration<int, std::ratio<86400>>; using Tick = std::chrono::duration<long long, std::ratio<1, 3>>; using Half = std::chrono::duration<short, std::ratio<1, 2>>; using Small = std::chrono::duration<unsigned, std::milli>;
enum { UNITS = 12 };
template<class D> static Fire unitOf(thread_pool& p, int id, D d, stop_token t) { long long t0 = mc_now_(), dn = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); co_await p.schedule_after(d, t); fired(id, t0, std::chrono::nanoseconds(dn > 0 ? dn : 0), true); }
template<class D> static Fire forever(thread_pool& p, int id, D d, stop_token t) { co_await p.schedule_after(d, std::move(t)); MC_REQUIRE(mc::gadd(J0 + id) == 1, "a delayed continuation is resumed at most once"); mc::gadd(RAN); MC_REQUIRE(mc::gget(REQ0 + id), "a delay too long to pass never ends before stop was requested"); }
static void unit(thread_pool& p, int id, int u, stop_token t = {}) {
	switch (u) { case 0: unitOf(p, id, 0ns, t); break; case 1: unitOf(p, id, 1ns, t); break; case 2: unitOf(p, id, 1500us, t); break; case 3: unitOf(p, id, std::chrono::milliseconds(2'160'000'000ll), t); break; case 4: unitOf(p, id, 49h, t); break; case 5: unitOf(p, id, Days(36500), t); break; case 6: unitOf(p, id, -3min, t); break; case 7: unitOf(p, id, 999'999'999ns, t); break; case 8: unitOf(p, id, Half(3), t); break; case 9: unitOf(p, id, Small(4'000'000'000u), t); break; case 10: unitOf(p, id, std::chrono::minutes(1), t); break; default: unitOf(p, id, 1s, t); }
}
static const long long unitNs[UNITS] = { 0, 1, 1'500'000, 2'160'000'000'000'000, 49ll * 3600'000'000'000, 36500ll * 86400'000'000'000, 0, 999'999'999, 1'500'000'000, 4'000'000'000'000'000, 60'000'000'000, 1'000'000'000 };
MC_SCENARIO("C08.units", S().sh(4)) { mc::gset(PROMPT, 1); int u[3]; { thread_pool p; Work w = p.make_work(); for (int i = 0; i < 3; i++) unit(p, i, u[i] = mc::choose(UNITS, "delay")); w.reset(); runHere(p); } done(3); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) if (unitNs[u[i]] < unitNs[u[k]]) ordered(i, k); }
static void endless(thread_pool& p, int id, int u, stop_token t) {
	switch (u) { case 0: forever(p, id, std::chrono::nanoseconds::max(), t); break; case 1: forever(p, id, std::chrono::hours::max(), t); break; case 2: forever(p, id, std::chrono::seconds::max(), t); break; case 3: forever(p, id, std::chrono::hours(24 * 366 * 300), t); break; case 4: forever(p, id, Days::max(), t); break; case 5: forever(p, id, std::chrono::milliseconds::max() / 2, t); break; default: forever(p, id, std::chrono::microseconds::max(), t); }
}
enum { ENDLESS = 7 };
MC_SCENARIO("C08.forever", S().sh(4)) { // a long delay never fires by itself and does not keep the others from firing
	mc::gset(PROMPT, 1); { thread_pool p; stop_source s, s2; Work w = p.make_work(); int a = mc::choose(ENDLESS, "one"), b = mc::choose(ENDLESS, "other"), u = mc::choose(UNITS, "between"); bool first = mc::flip("first"); if (first) unit(p, 2, u); endless(p, 0, a, s.get_token()); endless(p, 1, b, s2.get_token()); if (!first) unit(p, 2, u);
	[](thread_pool& p, stop_source a, stop_source b) -> Fire { co_await p.schedule_after(Days(36501)); req(1, b); co_await p.schedule_after(1h); req(0, a); }(p, s, s2); w.reset(); runHere(p); } done(3);
}
MC_SCENARIO("C08.forever.threads", P(1, 2).sh(4)) { outside(); { thread_pool p; stop_source s; Work w = p.make_work(); p.create_threads(1 + mc::flip("threads")); std::thread y([s]() mutable { outside(); req(0, s); }); endless(p, 0, mc::choose(3, "delay"), s.get_token()); w.reset(); y.join(); } done(1); }
MC_SCENARIO("C08.past", S()) { { thread_pool p; Work w = p.make_work(); auto f = [&](auto d, int id) { [](thread_pool& p, int id, decltype(d) d) -> Fire { long long t0 = mc_now_(); co_await p.schedule_after(d); MC_REQUIRE(mc_now_() == t0, "a deadline in the past has passed"); mc::gadd(RAN); mc::gadd(J0 + id); }(p, id, d); }; f(std::chrono::hours::min(), 0); f(std::chrono::nanoseconds::min(), 1); f(std::chrono::seconds::min(), 2); f(Days::min(), 3); f(-1ns, 4); delayed(p, 5, 1s); f(std::chrono::hours(-3'000'000), 6); f(std::chrono::seconds(-12'000'000'000ll), 7); f(Days(-150'000), 8); f(std::chrono::milliseconds(-10'000'000'000'000ll), 9); w.reset(); runHere(p); } done(10); }
