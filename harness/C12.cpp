#define MC_CAS 0 // except where a scenario says so
// C12: a manual-reset event wakes every waiter exactly once and misses none.
#include "common.h"
#include <algorithm>
#include "macoro/manual_reset_event.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
using Ev = async_manual_reset_event;
enum { RES = 0, SETS = 1, W0 = 10 };
static Fire waiter(Ev& e, int id, int* data, bool needSet) {
	Val local(id); co_await e; MC_REQUIRE(local.get() == id, "locals");
	MC_REQUIRE(mc::gadd(W0 + id) == 1, "a waiter is resumed at most once");
	MC_REQUIRE(!needSet || mc::gget(SETS) >= 1, "a waiter is not resumed before the event was set");
	if (data) MC_REQUIRE(*data == 1, "writes before set are visible to the resumed coroutine");
	mc::gadd(RES); mc::outcome(mc::tid());
}
static task<int> waitTask(Ev& e, int id, int* d) { co_await e; MC_REQUIRE(mc::gget(SETS) >= 1, "not early"); MC_REQUIRE(*d == 1, "writes before set are visible"); mc::gadd(RES); co_return id; }
static task<int> waitMacro(Ev& ee, int id, int* d) { MC_BEGIN(task<int>, &ee, id, d); MC_AWAIT(ee); MC_REQUIRE(mc::gget(SETS) >= 1, "not early"); MC_REQUIRE(*d == 1, "writes before set are visible"); mc::gadd(RES); MC_RETURN(id); MC_END(); }
// nw waiters on their own threads (the first one on the main thread), ns setters
static void race(int nw, int ns) {
	Ev e; int data = 0; std::vector<std::thread> th; th.reserve(8);
	for (int i = 0; i < ns; i++) th.emplace_back([&] { if (ns == 1) data = 1; mc::gadd(SETS); e.set(); MC_REQUIRE(e.is_set(), "set is sticky"); });
	for (int i = 1; i < nw; i++) th.emplace_back([&, i] { waiter(e, i, ns == 1 ? &data : nullptr, true); });
	waiter(e, 0, ns == 1 ? &data : nullptr, true);
	for (auto& t : th) t.join();
	MC_REQUIRE(mc::gget(RES) == nw, "every waiter is resumed once the event is set"); mc::noLive();
}
MC_SCENARIO("C12.race1", D().cas(1, 1)) { race(1, 1); }
MC_SCENARIO("C12.race2", D().cas(1, 1)) { race(2, 1); }
MC_SCENARIO("C12.race3", P(3, 5).sh(8)) { race(3, 1); }
MC_SCENARIO("C12.two_setters", D().cas(1, 1)) { race(2, 2); }
MC_SCENARIO("C12.race2.weak", P(3, 4).weak(2, 3).sh(8)) { race(2, 1); }
MC_SCENARIO("C12.race1.weak", P(4, 6).weak(3, 4).sh(4)) { race(1, 1); }
// blocking on a task that waits for the event
static void syncw(int form) {
	Ev e; int data = 0; std::thread t([&] { data = 1; mc::gadd(SETS); e.set(); });
	int r = form ? sync_wait(waitMacro(e, 4, &data)) : sync_wait(waitTask(e, 4, &data)); MC_REQUIRE(r == 4, "value"); t.join(); MC_REQUIRE(mc::gget(RES) == 1, "once");
}
MC_SCENARIO("C12.task", P(3, 4).sh(4)) { syncw(0); }
MC_SCENARIO("C12.macro", P(3, 4).sh(4)) { syncw(1); }
// set, then reset at once: a waiter that was already waiting is resumed by that set, a later one by the final set
static void pulse(int nw, int extra) {
	Ev e; std::vector<std::thread> th; th.reserve(8);
	waiter(e, 0, nullptr, true); // certainly waiting
	th.emplace_back([&] { mc::gadd(SETS); e.set(); MC_REQUIRE(mc::gget(W0) == 1, "a coroutine waiting when the event is set is resumed by that set"); e.reset(); if (extra == 1) { e.set(); e.reset(); } });
	if (extra == 2) th.emplace_back([&] { e.reset(); });
	for (int i = 1; i <= nw; i++) th.emplace_back([&, i] { waiter(e, i, nullptr, true); });
	for (auto& t : th) t.join();
	MC_REQUIRE(!e.is_set(), "reset clears the event"); mc::outcome(mc::gget(RES)); e.set();
	MC_REQUIRE(mc::gget(RES) == nw + 1, "no wake-up is lost or duplicated"); mc::noLive();
}
MC_SCENARIO("C12.pulse1", D().cas(1, 1)) { pulse(1, 0); }
MC_SCENARIO("C12.pulse2", P(3, 5).sh(8)) { pulse(2, 0); }
MC_SCENARIO("C12.pulse_twice", D().cas(1, 1)) { pulse(1, 1); }
MC_SCENARIO("C12.pulse_reset", P(3, 5).sh(8)) { pulse(1, 2); }
MC_SCENARIO("C12.pulse.weak", P(3, 4).weak(2, 3).sh(8)) { pulse(1, 0); }
// initially set, one reset racing with waiters: continues at once or waits for the final set
MC_SCENARIO("C12.reset_race", D().cas(1, 1)) {
	Ev e(true); std::thread r([&] { e.reset(); }), w([&] { waiter(e, 1, nullptr, false); }); waiter(e, 0, nullptr, false);
	r.join(); w.join(); MC_REQUIRE(!e.is_set(), "reset"); mc::gadd(SETS); e.set(); MC_REQUIRE(mc::gget(RES) == 2, "each waiter continues exactly once");
}
// reset racing with set: either order, nobody lost
MC_SCENARIO("C12.set_reset", D().cas(1, 1)) {
	Ev e(mc::flip("initially set")); std::thread r([&] { e.reset(); }), s([&] { mc::gadd(SETS); e.set(); }); waiter(e, 0, nullptr, false);
	r.join(); s.join(); mc::outcome(e.is_set()); if (!e.is_set()) { mc::gadd(SETS); e.set(); } MC_REQUIRE(mc::gget(RES) == 1, "the waiter continues exactly once");
}
// the resumed coroutine resets the event and waits again (several rounds)
static Fire loop(Ev& e, int rounds, bool doReset) { for (int i = 0; i < rounds; i++) { co_await e; MC_REQUIRE(mc::gget(SETS) >= i + 1 || !doReset, "a later round needs a later set"); mc::gadd(RES); if (doReset) e.reset(); } }
MC_SCENARIO("C12.rounds", P(4, 6).sh(4)) {
	Ev e; std::thread s([&] { for (int i = 0; i < 2; i++) { mc::gadd(SETS); e.set(); } }); loop(e, 2, true); s.join();
	mc::outcome(mc::gget(RES)); while (mc::gget(RES) < 2) { long b = mc::gget(RES); mc::gadd(SETS); e.set(); MC_REQUIRE(mc::gget(RES) > b, "a set resumes the waiting coroutine"); }
	MC_REQUIRE(mc::gget(RES) == 2, "rounds"); e.reset();
}
// every sequence of operations to a depth against the obvious model
static Fire rec(Ev& e, std::vector<int>& log, int id, int how) { co_await e; log.push_back(id); if (how >= 1) { if (how == 2) e.reset(); co_await e; log.push_back(id + 100); } }
MC_SCENARIO("C12.history", S().cas(0, 1).sh(8)) {
	bool init = mc::flip("init"); Ev e(init); std::vector<int> log; bool set = init; struct W { int id, how; }; std::vector<W> waiting; int next = 0, depth = mc::thorough() ? 9 : 7;
	auto arrive = [&](auto& self, int id, int how, std::vector<int>& exp) -> void { // model of one waiter reaching an await
		if (!set) { waiting.push_back({ id, how }); return; }
		exp.push_back(id); if (how == 0) return; if (how == 2) set = false; self(self, id + 100, 0, exp); };
	for (int i = 0; i < depth; i++) {
		std::vector<int> exp; size_t from = log.size();
		switch (int op = mc::choose(6, "op")) {
		case 0: { e.set(); if (!set) { set = true; auto ws = std::move(waiting); waiting.clear(); for (auto& w : ws) { exp.push_back(w.id); if (w.how) { if (w.how == 2) set = false; arrive(arrive, w.id + 100, 0, exp); } } } break; }
		case 1: e.reset(); set = false; break;
		case 2: MC_REQUIRE(e.is_set() == set, "is_set"); break;
		default: rec(e, log, next, op - 3); arrive(arrive, next, op - 3, exp); next++;
		}
		// waiters of one set may be resumed in any order; when one of them resets, the others' second await depends on it, so compare first awaits only then
		std::vector<int> got(log.begin() + from, log.end()); auto firsts = [](std::vector<int> v) { std::vector<int> o; for (int x : v) if (x < 100) o.push_back(x); std::sort(o.begin(), o.end()); return o; };
		MC_REQUIRE(firsts(got) == firsts(exp), "set resumes exactly the coroutines waiting at that moment");
		bool mixed = false; for (size_t k = 0; k < exp.size(); k++) if (exp[k] >= 100) mixed = true;
		if (mixed || waiting.size()) { auto s = [](std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }; if (exp.size() <= 2 && firsts(exp).size() <= 1) MC_REQUIRE(s(got) == s(exp), "later awaits follow the event's state"); else if (s(got) != s(exp)) { mc_prune_(); } }
		MC_REQUIRE(e.is_set() == set || mixed, "state");  if (e.is_set() != set) mc_prune_();
		for (size_t a = 0; a < log.size(); a++) for (size_t b = 0; b < a; b++) MC_REQUIRE(log[a] != log[b], "at most once");
	}
	// drain
	for (int k = 0; k < 40 && (int)log.size() < 200; k++) { e.set(); e.reset(); } e.set();
	for (int id = 0; id < next; id++) { bool f = false; for (int x : log) f |= x == id; MC_REQUIRE(f, "nobody is lost"); }
}
// many waiters: set wakes all of them, whatever their number
static Fire manyw(Ev& e, int id, std::vector<int>* woken) { Val l(id); co_await e; MC_REQUIRE(l.get() == id, "locals"); MC_REQUIRE(++(*woken)[id] == 1, "a waiter is resumed at most once"); mc::gadd(RES); }
static Fire cycler(Ev& e, int rounds) { for (int i = 0; i < rounds; i++) { co_await e; mc::gadd(RES); e.reset(); } }
MC_SCENARIO("C12.many", S().lim(20000)) {
	static const int ns[] = { 8, 17, 33, 64, 65, 128, 129, 257, 600 }; int n = ns[mc::choose(9, "waiters")], rounds = 1 + mc::flip("twice");
	{ Ev e; for (int r = 0; r < rounds; r++) { std::vector<int> woken(n, 0); mc::gset(RES, 0); for (int i = 0; i < n; i++) manyw(e, i, &woken); MC_REQUIRE(mc::gget(RES) == 0, "not resumed before set"); e.set(); MC_REQUIRE(mc::gget(RES) == n, "every waiter is resumed once the event is set"); e.reset(); } }
	mc::noLive();
}
MC_SCENARIO("C12.many_rounds", S().lim(20000)) { Ev e; int n = 300; cycler(e, n); for (int i = 1; i <= n; i++) { e.set(); MC_REQUIRE(mc::gget(RES) == i, "each set wakes the waiter"); MC_REQUIRE(!e.is_set(), "reset clears the event"); } }
