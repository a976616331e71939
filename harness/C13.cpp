#define MC_CAS 0 // except where a scenario says so
// C13: a barrier releases its awaiter exactly when the count reaches zero.
#include "common.h"
#include "macoro/barrier.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
using namespace macoro;
enum { RES = 0, DEC = 1 };

// one awaiter, n decrementers, awaiting on the main thread or on its own thread
static Fire waiter(barrier& b, int* data, int n) {
	co_await b;
	MC_REQUIRE(mc::gadd(RES) == 1, "the awaiter is resumed at most once");
	MC_REQUIRE(mc::gget(DEC) == n, "the awaiter is not resumed before the count is zero");
	int s = 0; for (int i = 0; i < n; i++) s += data[i];
	MC_REQUIRE(s == n, "writes before a decrement are visible to the released awaiter");
	mc::outcome(mc::tid());
}
static void race(int n, bool freeIt, bool own) {
	auto* b = new barrier(n); int data[4] = {};
	std::vector<std::thread> th; th.reserve(8);
	for (int i = 0; i < n; i++) th.emplace_back([&, i, b] { data[i] = 1; mc::gadd(DEC); b->decrement(); });
	auto body = [&] { waiter(*b, data, n); };
	if (own) th.emplace_back(body); else body();
	for (auto& t : th) t.join();
	MC_REQUIRE(mc::gget(RES) == 1, "the awaiter is resumed once the count is zero");
	MC_REQUIRE(b->count() == 0, "the count is zero after the last decrement");
	delete b;
}
MC_SCENARIO("C13.race1", D().cas(1, 1)) { race(1, false, false); }
MC_SCENARIO("C13.race2", D().cas(1, 1)) { race(2, false, false); }
MC_SCENARIO("C13.race3", P(3, 4).sh(4)) { race(3, false, false); }
MC_SCENARIO("C13.race2.weak", P(3, 4).weak(2, 3).sh(4)) { race(2, false, false); }

// the released coroutine destroys the barrier at once
static Fire waitDelete(barrier* b) { co_await *b; MC_REQUIRE(mc::gadd(RES) == 1, "the awaiter is resumed at most once"); delete b; }
static void destroy(int n) {
	auto* b = new barrier(n); std::vector<std::thread> th; th.reserve(4);
	for (int i = 0; i < n; i++) th.emplace_back([b] { b->decrement(); });
	waitDelete(b); for (auto& t : th) t.join();
	MC_REQUIRE(mc::gget(RES) == 1, "the awaiter is resumed once the count is zero");
}
MC_SCENARIO("C13.destroy1", D().cas(1, 1)) { destroy(1); }
MC_SCENARIO("C13.destroy2", D()) { destroy(2); }

// nobody awaits: whoever sees the count at zero sees what was done before the decrements, and may destroy or reuse the barrier
static void observe(int n, bool again) {
	auto* b = new barrier(n); int data[4] = {}; std::vector<std::thread> th; th.reserve(4);
	for (int i = 0; i < n; i++) th.emplace_back([&, i, b] { data[i] = 1; if (b->decrement() == 0) { int s = 0; for (int k = 0; k < n; k++) s += data[k]; MC_REQUIRE(s == n, "writes before every decrement are visible to the one that reached zero"); mc::gadd(RES); } });
	bool zero = b->count() == 0; if (!zero && again) zero = b->count() == 0;
	if (zero) { int s = 0; for (int i = 0; i < n; i++) s += data[i]; MC_REQUIRE(s == n, "writes before every decrement are visible once the count is zero"); if (again) { b->add(1); MC_REQUIRE(b->decrement() == 0, "reuse"); } delete b; }
	for (auto& t : th) t.join(); MC_REQUIRE(mc::gget(RES) == 1, "one decrement reaches zero"); if (!zero) delete b; mc::outcome(zero);
}
MC_SCENARIO("C13.observe1", D().cas(1, 1)) { observe(1, false); }
MC_SCENARIO("C13.observe2", D().cas(1, 1)) { observe(2, false); }
MC_SCENARIO("C13.observe2.reuse", D()) { observe(2, true); }
MC_SCENARIO("C13.observe2.weak", P(3, 4).weak(2, 3).sh(4)) { observe(2, true); }

// the barrier is reused by the released coroutine
static Fire reuser(barrier& b, mc::Gate& g2, mc::Gate* g3) {
	co_await b; MC_REQUIRE(mc::gget(DEC) == 1, "first round released at zero");
	b.add(1); g2.set();
	co_await b; MC_REQUIRE(mc::gget(DEC) == 2, "second round is not released before its own count is zero");
	if (g3) { b.increment(); g3->set(); co_await b; MC_REQUIRE(mc::gget(DEC) == 3, "third round is not released before its own count is zero"); }
	mc::gadd(RES);
}
static void reuse(bool three) {
	barrier b(1); mc::Gate g2, g3;
	std::thread t1([&] { mc::gadd(DEC); b.decrement(); });
	std::thread t2([&] { g2.wait(); mc::gadd(DEC); b.decrement(); });
	std::thread t3; if (three) t3 = std::thread([&] { g3.wait(); mc::gadd(DEC); b.decrement(); });
	reuser(b, g2, three ? &g3 : nullptr);
	t1.join(); t2.join(); if (three) t3.join();
	MC_REQUIRE(mc::gget(RES) == 1, "every round releases its awaiter");
}
MC_SCENARIO("C13.reuse2", D().cas(1, 1)) { reuse(false); }
MC_SCENARIO("C13.reuse3", P(2, 4)) { reuse(true); }
// successive awaiters on different threads
static Fire two(barrier& b, int slot) { co_await b; mc::gadd(RES); MC_REQUIRE(mc::gget(DEC) >= slot, "not released early"); }
MC_SCENARIO("C13.twoawaiters", D().cas(1, 1)) {
	barrier b(1); mc::Gate g;
	std::thread t1([&] { mc::gadd(DEC); b.decrement(); });
	two(b, 1);
	t1.join(); MC_REQUIRE(mc::gget(RES) == 1, "first awaiter released");
	std::thread t2([&] { b.add(2); b.decrement(); g.set(); b.decrement(); });
	g.wait(); two(b, 1); t2.join();
	MC_REQUIRE(mc::gget(RES) == 2, "second awaiter released");
}
// count already zero
MC_SCENARIO("C13.zero", S().cas(1, 1)) { barrier b(0); two(b, 0); MC_REQUIRE(mc::gget(RES) == 1, "a zero barrier does not suspend"); two(b, 0); MC_REQUIRE(mc::gget(RES) == 2, "a zero barrier does not suspend"); }
// all sequential histories against a reference
static Fire seqw(barrier& b) { co_await b; mc::gadd(RES); }
MC_SCENARIO("C13.seq", S().cas(1, 1).sh(4)) {
	int init = mc::choose(3, "initial"); barrier b(init); long cnt = init, res = 0; bool waiting = false;
	int depth = mc::thorough() ? 9 : 7;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(4, "op");
		if (op == 0) { auto r = b.increment(); if (waiting && cnt == 0) {} cnt++; MC_REQUIRE(r == (size_t)cnt, "increment returns the new count"); }
		else if (op == 1) { auto r = b.add(2); cnt += 2; MC_REQUIRE(r == (size_t)cnt, "add returns the new count"); }
		else if (op == 2) { if (cnt == 0) continue; cnt--; if (cnt == 0 && waiting) { res++; waiting = false; } auto r = b.decrement(); MC_REQUIRE(r == (size_t)cnt, "decrement returns the new count"); }
		else { if (waiting) continue; if (cnt == 0) res++; else waiting = true; seqw(b); }
		MC_REQUIRE(b.count() == (size_t)cnt, "count reports increments minus decrements");
		MC_REQUIRE(mc::gget(RES) == res, "the awaiter runs exactly when the count is zero");
	}
	while (cnt--) b.decrement();
	if (waiting) res++;
	MC_REQUIRE(mc::gget(RES) == res, "the awaiter runs exactly when the count is zero");
}
// awaited from a lazy task that is itself waited for synchronously
MC_SCENARIO("C13.task", D()) {
	barrier b(2);
	auto t = [&]() -> task<int> { co_await b; co_return (int)mc::gget(DEC); };
	std::thread t1([&] { mc::gadd(DEC); b.decrement(); }), t2([&] { mc::gadd(DEC); b.decrement(); });
	MC_REQUIRE(sync_wait(t()) == 2, "released at zero");
	t1.join(); t2.join();
}
// large counts: nothing is narrowed, every decrement of many is counted
static Fire manyw(barrier& b) { co_await b; mc::gadd(RES); }
MC_SCENARIO("C13.many", S().lim(10000)) {
	static const size_t ns[] = { 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1025 }; size_t n = ns[mc::choose(11, "count")]; bool early = mc::flip("await first"), again = mc::flip("reuse");
	barrier b(n); for (int round = 0; round < 1 + again; round++) {
		MC_REQUIRE(b.count() == n, "the count"); mc::gset(RES, 0); if (early) manyw(b);
		for (size_t i = 1; i < n; i++) { MC_REQUIRE(b.decrement() == n - i, "decrement returns the new count"); MC_REQUIRE(mc::gget(RES) == 0, "the awaiter is not resumed before the count is zero"); }
		if (!early) { manyw(b); MC_REQUIRE(mc::gget(RES) == 0, "the awaiter is not resumed before the count is zero"); }
		MC_REQUIRE(b.decrement() == 0 && mc::gget(RES) == 1, "the awaiter is resumed once the count is zero"); if (!round && again) MC_REQUIRE(b.add(n) == n, "add returns the new count");
	}
}
MC_SCENARIO("C13.huge", S()) {
	static const unsigned char bits[] = { 7, 8, 15, 16, 24, 31, 32, 33, 40, 48, 56, 62 }; size_t n = ((size_t)1 << bits[mc::choose(12, "bit")]) + (size_t)(long)(mc::choose(3, "off") - 1); int how = mc::choose(3, "how");
	auto* b = new barrier(how == 0 ? n : how == 1 ? 0 : n - 1); if (how == 1) MC_REQUIRE(b->add(n) == n, "add returns the new count"); if (how == 2) MC_REQUIRE(b->increment() == n, "increment returns the new count");
	MC_REQUIRE(b->count() == n, "the count"); MC_REQUIRE(b->decrement() == n - 1 && b->count() == n - 1, "decrement returns the new count"); delete b;
}
