#define MC_CAS 0 // except where a scenario says so
// C15: a single-producer sequencer never hands out a slot still in use.
#include "common.h"
#include <algorithm>
#include "macoro/sequence_spsc.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
using namespace macoro;
typedef unsigned char U8; typedef unsigned short U16;
enum { CONS = 0, PUBD = 1, DONE = 2, CLAIMED = 3 }; // offsets: highest consumed / published, finished coroutines, claimed so far
template<class S> struct World {
	S init; size_t n; sequence_barrier<S> cb; sequence_spsc<S> q; int slot[4] = {};
	World(S i, size_t n) : init(i), n(n), cb(i), q(cb, n, i) {}
	S at(int k) const { return (S)(init + (S)k); }
	int off(S s) const { return (int)(std::make_signed_t<S>)(S)(s - init); }
	int& cell(int k) { return slot[k % n]; }
	void claimed(int k) {
		MC_REQUIRE(k == mc::gadd(CLAIMED), "slots are claimed in order, each once");
		MC_REQUIRE(k - (int)n <= mc::gget(CONS), "a claim completes only when the consumer has released the slot"); }
	void write(int k) { cell(k) = 100 + k; }
	void consumed(int k) { mc::gset(CONS, k); cb.publish(at(k)); }
};
// batch == 0: claim_one; else claim_up_to(batch). pubEach: publish one by one or the whole range
template<class S> static Fire producer(World<S>& w, int items, int batch, bool pubEach) {
	int k = 1;
	while (k <= items) {
		if (!batch) { S s = co_await w.q.claim_one(); MC_REQUIRE(s == w.at(k), "claimed number"); w.claimed(k); w.write(k); mc::gset(PUBD, k); w.q.publish(s); k++; }
		else {
			int want = std::min(batch, items - k + 1); auto r = co_await w.q.claim_up_to(want);
			MC_REQUIRE(!r.empty() && r.size() <= (size_t)want, "a batch claim takes at least one and at most the requested number"); int first = k;
			for (S s : r) { MC_REQUIRE(s == w.at(k), "claimed number"); w.claimed(k); w.write(k); k++; }
			if (pubEach) for (int j = first; j < k; j++) { mc::gset(PUBD, j); w.q.publish(w.at(j)); } else { mc::gset(PUBD, k - 1); w.q.publish(r); }
			mc::outcome((long)r.size());
		}
	}
	mc::gadd(DONE);
}
template<class S> static Fire consumer(World<S>& w, int items, bool each) {
	int next = 1;
	while (next <= items) {
		S got = co_await w.q.wait_until_published(w.at(next)); int g = w.off(got);
		MC_REQUIRE(g >= next && g <= mc::gget(PUBD), "a consumer sees a slot only after it was published");
		for (; next <= g; next++) { MC_REQUIRE(w.cell(next) == 100 + next, "the consumer reads what the producer wrote"); if (each) w.consumed(next); }
		if (!each) w.consumed(g);
	}
	mc::gadd(DONE);
}
template<class S> static void race(S init, size_t n, int items, int batch, bool pubEach, bool each, bool swap = false) {
	World<S> w(init, n);
	std::thread t([&] { if (swap) consumer(w, items, each); else producer(w, items, batch, pubEach); });
	if (swap) producer(w, items, batch, pubEach); else consumer(w, items, each);
	t.join(); MC_REQUIRE(mc::gget(DONE) == 2, "claims complete once slots are free and waits once items are published"); MC_REQUIRE(w.q.last_published() == w.at(items), "last_published");
}
static size_t sinit() { return mc::flip("start") ? (size_t)-1 : (size_t)-3; }
MC_SCENARIO("C15.one", D().cas(1, 1)) { race<size_t>(sinit(), 1, 2, 0, false, true); }
MC_SCENARIO("C15.one3", D().cas(1, 1)) { race<size_t>((size_t)-2, 1, 3, 0, false, true); }
MC_SCENARIO("C15.two", D()) { race<size_t>(sinit(), 2, 3, 0, false, mc::flip("each")); }
MC_SCENARIO("C15.two4", D()) { race<size_t>((size_t)-2, 2, 4, 0, false, true); }
MC_SCENARIO("C15.batch2", D().cas(0, 1)) { race<size_t>(sinit(), 2, 4, 2, mc::flip("publish each"), mc::flip("release each")); }
MC_SCENARIO("C15.batch3of2", D()) { race<size_t>((size_t)-3, 2, 4, 3, false, mc::flip("release each"), mc::flip("swap")); }
MC_SCENARIO("C15.batch4", D()) { race<size_t>((size_t)-3, 4, 6, 3, false, mc::flip("release each")); }
MC_SCENARIO("C15.odd", D().cas(1, 1)) { race<size_t>((size_t)2, 3, 5, 2, false, mc::flip("release each")); }
MC_SCENARIO("C15.byte", D().cas(0, 1)) { race<U8>((U8)(mc::flip("start") ? 253 : 126), 2, 4, mc::choose(3, "batch"), false, true); }
MC_SCENARIO("C15.two.weak", P(4, 5).weak(3, 4).sh(8)) { race<size_t>((size_t)-2, 1, 2, 0, false, true); }
MC_SCENARIO("C15.batch.weak", P(4, 5).weak(3, 4).sh(8)) { race<size_t>((size_t)-2, 2, 3, 2, false, true); }
// every history of claims, publications and releases against the obvious model
template<class S> static void history(std::vector<S> starts, std::vector<size_t> sizes) {
	World<S> w(starts[mc::choose((int)starts.size(), "start")], sizes[mc::choose((int)sizes.size(), "size")]);
	int depth = mc::thorough() ? 9 : 7, cons = 0, pub = 0, claimed = 0, want = 0, reading = 0, readAt = 0; size_t res = 0; S resBegin{}; bool got = false; bool woke = false; S wokeAt{};
	auto one = [&]() -> Fire { S s = co_await w.q.claim_one(); res = 1; resBegin = s; got = true; };
	auto many = [&](int k) -> Fire { auto r = co_await w.q.claim_up_to(k); res = r.size(); resBegin = r.front(); got = true; };
	auto wait = [&](int k) -> Fire { S s = co_await w.q.wait_until_published(w.at(k)); woke = true; wokeAt = s; };
	int n = (int)w.n;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(7, "op"); got = woke = false;
		switch (op) {
		case 0: case 1: case 2: { if (want) { if (op) { mc_prune_(); } break; } want = op == 0 ? 1 : op + 1; if (op == 0) one(); else many(op + 1); break; }
		case 3: case 4: { int k = op == 3 ? pub + 1 : claimed; if (k > claimed || k <= pub || (op == 4 && claimed - pub < 2)) { mc_prune_(); break; } if (op == 3) w.q.publish(w.at(k)); else w.q.publish(sequence_range<S>(w.at(pub + 1), (S)(w.at(claimed) + 1))); pub = k; break; }
		case 5: if (cons == pub) { mc_prune_(); break; } cons++; w.cb.publish(w.at(cons)); break;
		case 6: if (reading) { mc_prune_(); break; } reading = cons + 1; wait(reading); break;
		}
		if (want && cons + n > claimed) { int m = std::min(want, cons + n - claimed); MC_REQUIRE(got, "a claim completes as soon as a slot is free"); MC_REQUIRE(res == (size_t)m, "a batch claim takes what is free, up to the requested number"); MC_REQUIRE(resBegin == w.at(claimed + 1), "slots are claimed in order"); claimed += m; want = 0; }
		else MC_REQUIRE(!got, "a claim completes only when a slot is free");
		if (reading && pub >= reading) { MC_REQUIRE(woke, "a consumer is resumed once its slot is published"); MC_REQUIRE(wokeAt == w.at(pub), "value"); reading = 0; } else MC_REQUIRE(!woke, "a consumer is not resumed before its slot is published");
		MC_REQUIRE(w.q.last_published() == w.at(pub), "last_published");
	}
	// let suspended coroutines finish
	if (want) { got = false; w.cb.publish(w.at(claimed)); MC_REQUIRE(got, "claim completes"); } if (reading) { woke = false; w.q.publish(w.at(std::max(reading, claimed))); MC_REQUIRE(woke, "wait completes"); } (void)readAt;
}
MC_SCENARIO("C15.history_size", S().cas(0, 1).sh(8)) { history<size_t>({ (size_t)-1, (size_t)-3 }, { 1, 2, 3, 4 }); }
MC_SCENARIO("C15.history_byte", S().sh(8)) { history<U8>({ 255, 253, 125 }, { 1, 2, 4 }); }
MC_SCENARIO("C15.history_short", S().sh(8)) { history<U16>({ (U16)65535, (U16)65533, (U16)32766 }, { 1, 3 }); }
// large buffers: producer and consumer take turns by what the capacity allows, for many rounds
template<class S> struct Large { S init; size_t n; sequence_barrier<S> cb; sequence_spsc<S> q; std::vector<int> slot; int cons = 0, pub = 0, claimed = 0, items; bool pdone = false, cdone = false;
	Large(S i, size_t n, int items) : init(i), n(n), cb(i), q(cb, n, i), slot(n, 0), items(items) {}
	S at(int k) const { return (S)(init + (S)k); } int off(S s) const { return (int)(std::make_signed_t<S>)(S)(s - init); }
	void claim(int k) { MC_REQUIRE(k == claimed + 1, "slots are claimed in order, each once"); claimed = k; MC_REQUIRE(k - (int)n <= cons, "a claim completes only when the consumer has released the slot"); slot[k % n] = k; }
	Fire produce(int batch) { int k = 1; while (k <= items) { if (!batch) { S s = co_await q.claim_one(); MC_REQUIRE(s == at(k), "claimed number"); claim(k); pub = k; q.publish(s); k++; }
			else { int want = std::min(batch, items - k + 1); auto r = co_await q.claim_up_to(want); MC_REQUIRE(r.front() == at(k), "claimed number"); MC_REQUIRE(r.size() >= 1 && r.size() <= (size_t)want, "a batch claim takes at least one and at most the requested number"); for (S s : r) { MC_REQUIRE(s == at(k), "claimed number"); claim(k++); } pub = k - 1; q.publish(r); } } pdone = true; }
	Fire consume(int every) { int next = 1; while (next <= items) { S got = co_await q.wait_until_published(at(next)); int g = off(got); MC_REQUIRE(g >= next && g <= pub, "a consumer sees a slot only after it was published"); for (; next <= g; next++) { MC_REQUIRE(slot[next % n] == next, "the consumer reads what the producer wrote"); if (next % every == 0) { cons = next; cb.publish(at(next)); } } cons = g; cb.publish(got); } cdone = true; } };
template<class S> static void large(std::vector<S> starts, std::vector<size_t> sizes) { S st = starts[mc::choose((int)starts.size(), "start")]; size_t n = sizes[mc::choose((int)sizes.size(), "size")]; static const int bs[] = { 0, 7, 100, 100000 }; int batch = bs[mc::choose(4, "batch")]; bool first = mc::flip("consumer first"); int every = mc::flip("release") ? 1 : 50; Large<S> w(st, n, 3 * (int)n + 5);
	if (first) w.consume(every); w.produce(batch); if (!first) { MC_REQUIRE(w.claimed == (int)n && !w.pdone, "as many slots as the buffer has can be claimed ahead of the consumer"); w.consume(every); } MC_REQUIRE(w.pdone && w.cdone, "claims complete once slots are free and waits once items are published"); }
MC_SCENARIO("C15.large", S().lim(40000)) { large<size_t>({ (size_t)-100, ((size_t)1 << 32) - 40 }, { 16, 64, 128, 256, 512 }); }
MC_SCENARIO("C15.large_int", S().lim(40000)) { large<unsigned>({ (unsigned)-100, 65500u }, { 32, 256 }); }
MC_SCENARIO("C15.large_short", S().lim(40000)) { large<U16>({ (U16)-100, 200 }, { 64, 256, 512 }); }
MC_SCENARIO("C15.large_byte", S().lim(40000)) { large<U8>({ (U8)-100, 20 }, { 16, 32 }); }
// signed sequences, and what the constructors default to
MC_SCENARIO("C15.int", P(3, 4).sh(2)) { race<int>(mc::flip("start") ? -2 : -1, 2, 3, mc::flip("batch") * 2, false, true); }
MC_SCENARIO("C15.short", P(3, 4).sh(2)) { race<short>((short)(mc::flip("start") ? 32766 : -2), 2, 3, mc::flip("batch") * 2, false, true); }
MC_SCENARIO("C15.history_schar", S().sh(8)) { history<signed char>({ (signed char)126, (signed char)-3 }, { 1, 2, 4 }); }
template<class S, S Init> struct Traits : sequence_traits<S> { static constexpr S initial_sequence = Init; };
template<class S, class Tr> static void initial(size_t n) {
	sequence_barrier<S, Tr> cb; sequence_spsc<S, Tr> q(cb, n); MC_REQUIRE(q.last_published() == Tr::initial_sequence, "starts at the traits' initial sequence"); int got = 0, seen = 0;
	auto p = [](auto& q, int& got, int k) -> Fire { for (int i = 1; i <= k; i++) { S s = co_await q.claim_one(); MC_REQUIRE(s == (S)(Tr::initial_sequence + i), "claimed number"); q.publish(s); got++; } };
	auto c = [](auto& q, int& seen, int k) -> Fire { S s = co_await q.wait_until_published((S)(Tr::initial_sequence + k)); MC_REQUIRE(s == (S)(Tr::initial_sequence + k), "value"); seen++; };
	c(q, seen, (int)n); MC_REQUIRE(!seen, "nothing is published yet"); p(q, got, (int)n + 1); MC_REQUIRE(got == (int)n && seen == 1, "the buffer is full"); cb.publish((S)(Tr::initial_sequence + 1)); MC_REQUIRE(got == (int)n + 1, "a slot is free");
}
MC_SCENARIO("C15.initial", S()) { size_t n = (size_t)1 << mc::choose(3, "size"); switch (mc::choose(5, "traits")) { case 0: initial<size_t, sequence_traits<size_t>>(n); break; case 1: initial<size_t, Traits<size_t, 5>>(n); break; case 2: initial<U8, sequence_traits<U8>>(n); break; case 3: initial<int, sequence_traits<int>>(n); break; default: initial<unsigned, Traits<unsigned, 0>>(n); } mc::noLive(); }
