#define MC_CAS 0 // except where a scenario says so
// C16: a multi-producer sequencer grants disjoint slots and publishes without gaps.
#include "common.h"
#include <algorithm>
#include <limits>
#include "macoro/sequence_mpsc.h"
using namespace macoro;
typedef unsigned char U8; typedef unsigned short U16;
enum { CONS = 0, DONE = 1, RES = 2, C0 = 20, P0 = 40, W0 = 60 }; // C0+k: times slot k was granted, P0+k: slot k handed to publish
template<class S> struct World {
	S init; size_t n; sequence_barrier<S> cb; sequence_mpsc<S> q; int slot[4] = {};
	World(S i, size_t n) : init(i), n(n), cb(i), q(cb, n, i) { MC_REQUIRE(q.buffer_size() == n, "buffer_size"); }
	S at(int k) const { return (S)(init + (S)k); }
	int off(S s) const { return (int)(std::make_signed_t<S>)(S)(s - init); }
	int& cell(int k) { return slot[k % n]; }
	void claimed(int k, int total) {
		MC_REQUIRE(k >= 1 && k <= total, "granted slots are contiguous"); MC_REQUIRE(mc::gadd(C0 + k) == 1, "producers are granted disjoint slots");
		MC_REQUIRE(k - (int)n <= mc::gget(CONS), "a claim completes only when the consumer has released the slot"); cell(k) = 100 + k; }
	void pub(int k) { mc::gset(P0 + k, 1); q.publish(at(k)); }
	void consumed(int k) { mc::gset(CONS, k); cb.publish(at(k)); }
	void sees(S got, int from, int target) { int g = off(got); MC_REQUIRE(g >= target, "the value obtained covers the target"); for (int i = from; i <= g; i++) MC_REQUIRE(mc::gget(P0 + i), "a consumer is resumed only when every slot up to its own is published"); for (int i = from; i <= g; i++) MC_REQUIRE(cell(i) == 100 + i, "the consumer reads what the producer wrote"); }
};
template<class S> static Fire producer(World<S>& w, int items, int batch, int how, int total) {
	for (int i = 0; i < items;) {
		if (!batch) { S s = co_await w.q.claim_one(); int k = w.off(s); w.claimed(k, total); w.pub(k); i++; }
		else { int want = std::min(batch, items - i); auto r = co_await w.q.claim_up_to(want); int k0 = w.off(r.front()); MC_REQUIRE(r.size() >= 1 && r.size() <= (size_t)want, "a batch claim takes at least one and at most the requested number");
			for (S s : r) w.claimed(w.off(s), total); i += (int)r.size(); int m = (int)r.size();
			if (how == 0) { for (int j = 0; j < m; j++) mc::gset(P0 + k0 + j, 1); w.q.publish(r); } else if (how == 1) for (int j = 0; j < m; j++) w.pub(k0 + j); else for (int j = m; j--;) w.pub(k0 + j); }
	}
	mc::gadd(DONE);
}
template<class S> static Fire consumer(World<S>& w, int items, bool each) {
	int next = 1;
	while (next <= items) { S got = co_await w.q.wait_until_published(w.at(next), w.at(next - 1)); w.sees(got, next, next); int g = w.off(got); MC_REQUIRE(g <= items, "value"); if (each) for (; next <= g; next++) w.consumed(next); else { next = g + 1; w.consumed(g); } }
	mc::gadd(DONE);
}
// observers wait for later slots without consuming
template<class S> static Fire observer(World<S>& w, int id, int target) { Val l(id); S got = co_await w.q.wait_until_published(w.at(target), w.at(0)); MC_REQUIRE(l.get() == id, "locals"); MC_REQUIRE(mc::gadd(W0 + id) == 1, "a waiter is resumed at most once"); w.sees(got, 1, target); mc::gadd(RES); }
template<class S> static void race(S init, size_t n, int np, int items, int batch, int how, bool each = true) {
	World<S> w(init, n); std::vector<std::thread> th; th.reserve(4); int total = np * items;
	for (int p = 0; p < np; p++) th.emplace_back([&] { producer(w, items, batch, how, total); });
	consumer(w, total, each); for (auto& t : th) t.join();
	MC_REQUIRE(mc::gget(DONE) == np + 1, "claims complete once slots are free and waits once items are published"); MC_REQUIRE(w.off(w.q.last_published_after(w.at(total - 1))) == total, "last_published_after");
}
template<class S> static void waiters(S init, size_t n, int np, int items, std::vector<int> targets, bool outOfOrder = false, bool sameThread = false) {
	World<S> w(init, n); std::vector<std::thread> th; th.reserve(8); int total = np * items;
	for (int p = 0; p < np; p++) th.emplace_back([&] { producer(w, items, outOfOrder ? items : 0, outOfOrder ? 2 : 0, total); });
	for (size_t i = 1; i < targets.size(); i++) if (!sameThread) th.emplace_back([&, i] { observer(w, (int)i, targets[i]); });
	observer(w, 0, targets[0]); if (sameThread) for (size_t i = 1; i < targets.size(); i++) observer(w, (int)i, targets[i]);
	for (auto& t : th) t.join(); MC_REQUIRE(mc::gget(RES) == (long)targets.size(), "every waiter is resumed once all slots up to its own are published"); mc::noLive();
}
static size_t sinit() { return mc::flip("start") ? (size_t)-1 : (size_t)-2; }
MC_SCENARIO("C16.one_producer", D().cas(1, 1)) { race<size_t>(sinit(), 1, 1, 2, 0, 0); }
MC_SCENARIO("C16.two1", D().cas(1, 1)) { race<size_t>(sinit(), 1, 2, 1, 0, 0); }
MC_SCENARIO("C16.two2", D()) { race<size_t>(sinit(), 2, 2, 1, 0, 0); }
MC_SCENARIO("C16.two2x2", P(3, 4).sh(8)) { race<size_t>((size_t)-2, 2, 2, 2, 0, 0, mc::flip("each")); }
MC_SCENARIO("C16.two1x2", P(3, 4).sh(8)) { race<size_t>((size_t)-2, 1, 2, 2, 0, 0); }
MC_SCENARIO("C16.batch", P(3, 4).sh(8)) { race<size_t>((size_t)-2, 2, 2, 2, 2, mc::choose(3, "how")); }
MC_SCENARIO("C16.batch4", P(3, 4).sh(8)) { race<size_t>((size_t)-3, 4, 2, 3, 2, mc::choose(3, "how"), mc::flip("each")); }
MC_SCENARIO("C16.batch1", D().cas(0, 1)) { race<size_t>((size_t)-3, 2, 1, 4, 3, mc::choose(3, "how")); }
MC_SCENARIO("C16.short", P(3, 4).sh(8)) { race<U16>((U16)65534, 2, 2, 2, mc::choose(2, "batch") * 2, 0); }
MC_SCENARIO("C16.byte", P(3, 4).sh(8)) { race<U8>((U8)(mc::flip("start") ? 254 : 126), 2, 2, 2, mc::choose(2, "batch") * 2, 0); }
MC_SCENARIO("C16.wait12", D().cas(0, 1)) { waiters<size_t>((size_t)-2, 2, 2, 1, { 1, 2 }); }
MC_SCENARIO("C16.wait21", D().cas(0, 1)) { waiters<size_t>((size_t)-2, 2, 2, 1, { 2, 1 }, false, mc::flip("same thread")); }
MC_SCENARIO("C16.wait_one_producer", D()) { waiters<size_t>((size_t)-2, 2, 1, 2, { 1, 2 }, mc::flip("out of order")); }
MC_SCENARIO("C16.wait_same", D().cas(1, 1)) { waiters<size_t>((size_t)-1, 2, 1, 2, { 2, 2 }, mc::flip("out of order")); }
MC_SCENARIO("C16.wait_three", P(3, 4).sh(8)) { waiters<size_t>((size_t)-3, 4, 1, 3, { 3, 1, 2 }, mc::flip("out of order")); }
MC_SCENARIO("C16.wait_far", P(3, 5).sh(8)) { waiters<size_t>((size_t)-3, 4, 2, 2, { 4, 2 }, mc::flip("out of order"), true); }
MC_SCENARIO("C16.two1.weak", P(4, 5).weak(2, 3).sh(8)) { race<size_t>((size_t)-2, 1, 2, 1, 0, 0); }
MC_SCENARIO("C16.batch.weak", P(4, 5).weak(2, 3).sh(8)) { race<size_t>((size_t)-2, 2, 1, 3, 2, 0); }
MC_SCENARIO("C16.wait12.weak", P(4, 5).weak(2, 3).sh(8)) { waiters<size_t>((size_t)-2, 2, 1, 2, { 1, 2 }); }
// every history of claims, publications, waits and releases against the obvious model
template<class S> static void history(std::vector<S> starts, std::vector<size_t> sizes, bool batches) {
	World<S> w(starts[mc::choose((int)starts.size(), "start")], sizes[mc::choose((int)sizes.size(), "size")]);
	int n = (int)w.n, depth = mc::thorough() ? 8 : 6, cons = 0, claimed = 0; bool pubd[40] = {}; auto front = [&] { int p = cons; while (pubd[p + 1]) p++; return p; };
	struct C { int first, count; bool done; }; std::vector<C> claims; struct W { int target, known; bool done; }; std::vector<W> waits; std::vector<std::pair<int, int>> granted; std::vector<int> woken, value;
	claims.reserve(20); waits.reserve(20);
	auto one = [&](int id) -> Fire { S s = co_await w.q.claim_one(); MC_REQUIRE(w.off(s) == claims[id].first, "claimed slot"); MC_REQUIRE(!claims[id].done, "once"); claims[id].done = true; };
	auto many = [&](int id, int k) -> Fire { auto r = co_await w.q.claim_up_to(k); MC_REQUIRE(w.off(r.front()) == claims[id].first && (int)r.size() == claims[id].count, "claimed range"); MC_REQUIRE(!claims[id].done, "once"); claims[id].done = true; };
	auto wait = [&](int id) -> Fire { S s = co_await w.q.wait_until_published(w.at(waits[id].target), w.at(waits[id].known)); MC_REQUIRE(!waits[id].done, "once"); waits[id].done = true; int f = front(); MC_REQUIRE(w.off(s) >= waits[id].target && w.off(s) <= std::max(f, waits[id].known), "the value is published and covers the target"); };
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(batches ? 10 : 8, "op");
		switch (op) {
		case 0: claims.push_back({ claimed + 1, 1, false }); claimed++; one((int)claims.size() - 1); break;
		case 1: case 2: case 3: { // publish the op-th oldest granted unpublished slot
			int k = op, s = 0; for (auto& c : claims) if (c.done) for (int j = 0; j < c.count; j++) if (!pubd[c.first + j] && --k == 0) s = c.first + j; if (!s) { mc_prune_(); break; } pubd[s] = true; w.q.publish(w.at(s)); break; }
		case 4: { int lim = front(); for (auto& x : waits) if (!x.done) lim = std::min(lim, x.known); if (cons >= lim) { mc_prune_(); break; } cons++; w.cb.publish(w.at(cons)); break; }
		case 5: case 6: case 7: { int known = op == 7 ? front() : cons; MC_REQUIRE(w.q.last_published_after(w.at(cons)) == w.at(front()), "last_published_after"); waits.push_back({ known + (op == 6 ? 2 : 1), known, false }); wait((int)waits.size() - 1); break; }
		case 8: { int m = std::min(2, n); claims.push_back({ claimed + 1, m, false }); claimed += m; many((int)claims.size() - 1, 2); break; }
		case 9: { C* c = nullptr; for (auto& x : claims) if (x.done && x.count > 1 && !pubd[x.first] && !pubd[x.first + 1]) { c = &x; break; } if (!c) { mc_prune_(); break; } for (int j = 0; j < c->count; j++) pubd[c->first + j] = true; w.q.publish(sequence_range<S>(w.at(c->first), w.at(c->first + c->count))); break; }
		}
		for (auto& c : claims) MC_REQUIRE(c.done == (c.first + c.count - 1 <= cons + n), "a claim completes exactly when all its slots are released");
		for (auto& x : waits) MC_REQUIRE(x.done == (x.target <= std::max(front(), x.known)) || (x.done && x.target <= cons), "a waiter is resumed exactly when every slot up to its own is published");
		MC_REQUIRE(w.q.last_published_after(w.at(cons)) == w.at(front()), "last_published_after");
		MC_REQUIRE(w.q.any_available() == (claimed + 1 <= cons + n), "any_available tells whether a claim would proceed at once");
	}
	// finish: release and publish everything
	for (int k = 0; k < 30; k++) {
		for (auto& c : claims) if (c.done) for (int j = 0; j < c.count; j++) if (!pubd[c.first + j]) { pubd[c.first + j] = true; w.q.publish(w.at(c.first + j)); }
		bool wt = false; for (auto& x : waits) wt |= !x.done; if (wt && front() == claimed) { claims.push_back({ claimed + 1, 1, false }); claimed++; one((int)claims.size() - 1); }
		int lim = front(); for (auto& x : waits) if (!x.done) lim = std::min(lim, x.known); if (cons < lim) w.cb.publish(w.at(cons = lim));
		bool all = true; for (auto& c : claims) all &= c.done; for (auto& x : waits) all &= x.done; if (all) return;
	}
	bool stuckClaim = false; for (auto& c : claims) stuckClaim |= !c.done; bool stuck = false; for (auto& x : waits) stuck |= !x.done;
	if (stuck && stuckClaim) { mc_prune_(); } // the pattern of known numbers does not let the consumer release more: a frame is left suspended
	MC_REQUIRE(!stuck && !stuckClaim, "nobody is lost");
}
MC_SCENARIO("C16.history", S().cas(0, 1).sh(8)) { history<size_t>({ (size_t)-1, (size_t)-3 }, { 1, 2, 4 }, true); }
MC_SCENARIO("C16.history_byte", S().sh(8)) { history<U8>({ 255, 253, 125 }, { 1, 2 }, true); }
MC_SCENARIO("C16.history_short", S().sh(8)) { history<U16>({ (U16)65535, (U16)65533 }, { 1, 2 }, true); }
// large buffers: several producers claim ahead and publish in other orders than they claimed; the consumer sees no gap
template<class S> struct Large { S init; size_t n; sequence_barrier<S> cb; sequence_mpsc<S> q; std::vector<int> slot; std::vector<char> taken, pubd; int cons = 0, claimed = 0, front = 0, waiting = 0, items; bool cdone = false;
	Large(S i, size_t n, int items) : init(i), n(n), cb(i), q(cb, n, i), slot(n, 0), taken(items + 1, 0), pubd(items + 1, 0), items(items) {}
	S at(int k) const { return (S)(init + (S)k); } int off(S s) const { return (int)(std::make_signed_t<S>)(S)(s - init); }
	std::vector<int> ready; // claimed, not yet published
	void claim(int k) { MC_REQUIRE(k >= 1 && k <= items && !taken[k], "producers are granted disjoint slots"); taken[k] = 1; claimed++; MC_REQUIRE(k - (int)n <= cons, "a claim completes only when the consumer has released the slot"); ready.push_back(k); }
	Fire one() { S s = co_await q.claim_one(); claim(off(s)); }
	Fire many(int want) { auto r = co_await q.claim_up_to((size_t)want); MC_REQUIRE(r.size() >= 1 && r.size() <= (size_t)want, "a batch claim takes at least one and at most the requested number"); for (S s : r) claim(off(s)); }
	void pub(int k) { slot[k % n] = k; pubd[k] = 1; while (front < items && pubd[front + 1]) front++; q.publish(at(k)); }
	Fire consume(int every) { int next = 1; while (next <= items) { S got = co_await q.wait_until_published(at(next), at(next - 1)); int g = off(got); MC_REQUIRE(g >= next && g <= front, "a consumer is resumed only when every slot up to its own is published"); for (; next <= g; next++) { MC_REQUIRE(slot[next % n] == next, "the consumer reads what the producer wrote"); if (next % every == 0) { cons = next; cb.publish(at(next)); } } cons = g; cb.publish(got); } cdone = true; }
	void publishAll(int order) { auto r = std::move(ready); ready.clear(); size_t m = r.size(); if (order == 1) std::reverse(r.begin(), r.end()); if (order == 2) { std::vector<int> x; for (size_t i = 0; i < m; i += 2) x.push_back(r[i]); for (size_t i = 1; i < m; i += 2) x.push_back(r[i]); r = x; } if (order == 3 && m > 1) std::rotate(r.begin(), r.begin() + 1, r.end()); for (int k : r) pub(k); } };
template<class S> static void large(std::vector<S> starts, std::vector<size_t> sizes) { S st = starts[mc::choose((int)starts.size(), "start")]; size_t n = sizes[mc::choose((int)sizes.size(), "size")]; int batch = mc::choose(3, "batch"), order = mc::choose(4, "order"), every = mc::flip("release") ? 1 : 50; bool ahead = mc::flip("claims suspend"); int rounds = 3, items = rounds * (int)n; Large<S> w(st, n, items); w.consume(every);
	int asked = 0; for (int r = 0; r < rounds; r++) {
		int lim = std::min(items, (int)n * (r + 1) + (ahead && batch == 0 ? (int)n / 2 : 0)); int size = batch == 1 ? (int)n / 4 : batch == 2 ? (int)n : 1;
		while (asked < lim) { if (batch == 0) { w.one(); asked++; } else { w.many(size); asked += size; } }
		MC_REQUIRE(w.claimed == std::min(asked, w.cons + (int)n), "claims complete exactly while slots are free"); while (!w.ready.empty()) w.publishAll(order); MC_REQUIRE(w.q.last_published_after(w.at(w.cons)) == w.at(w.front), "last_published_after"); }
	MC_REQUIRE(w.claimed == items && w.cdone, "claims complete once slots are free and waits once items are published"); }
MC_SCENARIO("C16.large", S().lim(60000)) { large<size_t>({ (size_t)-100, ((size_t)1 << 32) - 40 }, { 16, 64, 128, 256, 512 }); }
MC_SCENARIO("C16.large_int", S().lim(60000)) { large<unsigned>({ (unsigned)-100, 65500u }, { 32, 256 }); }
MC_SCENARIO("C16.large_short", S().lim(60000)) { large<U16>({ (U16)-100, 200 }, { 64, 256, 512 }); }
MC_SCENARIO("C16.large_byte", S().lim(60000)) { large<U8>({ (U8)-100, 20 }, { 16, 32 }); }
// signed sequences, and what the constructors default to
MC_SCENARIO("C16.int", P(2, 3).sh(4)) { race<int>(mc::flip("start") ? -2 : -1, 2, 2, 1 + mc::flip("items"), mc::flip("batch") * 2, 0); }
MC_SCENARIO("C16.signed_short", P(2, 3).sh(4)) { race<short>((short)(mc::flip("start") ? 32766 : -2), 2, 2, 1 + mc::flip("items"), mc::flip("batch") * 2, 0); }
MC_SCENARIO("C16.history_schar", S().sh(8)) { history<signed char>({ (signed char)126, (signed char)-3 }, { 1, 2 }, true); }
template<class S, S Init> struct Traits : sequence_traits<S> { static constexpr S initial_sequence = Init; };
template<class S, class Tr> static void initial(size_t n) {
	sequence_barrier<S, Tr> cb; sequence_mpsc<S, Tr> q(cb, n); const S I = Tr::initial_sequence; MC_REQUIRE(q.last_published_after(I) == I, "nothing is published yet"); MC_REQUIRE(q.buffer_size() == n, "buffer_size"); int got = 0, seen = 0;
	auto p = [](auto& q, int& got, int k) -> Fire { for (int i = 1; i <= k; i++) { S s = co_await q.claim_one(); MC_REQUIRE(s == (S)(Tr::initial_sequence + i), "claimed number"); q.publish(s); got++; } };
	auto c = [](auto& q, int& seen, int k) -> Fire { S s = co_await q.wait_until_published((S)(Tr::initial_sequence + k), Tr::initial_sequence); MC_REQUIRE(s == (S)(Tr::initial_sequence + k), "value"); seen++; };
	c(q, seen, (int)n); MC_REQUIRE(!seen, "nothing is published yet"); p(q, got, (int)n + 1); MC_REQUIRE(got == (int)n && seen == 1, "the buffer is full"); cb.publish((S)(I + 1)); MC_REQUIRE(got == (int)n + 1, "a slot is free");
}
MC_SCENARIO("C16.initial", S()) { size_t n = (size_t)1 << mc::choose(3, "size"); switch (mc::choose(5, "traits")) { case 0: initial<size_t, sequence_traits<size_t>>(n); break; case 1: initial<size_t, Traits<size_t, 5>>(n); break; case 2: initial<U8, sequence_traits<U8>>(n); break; case 3: initial<int, sequence_traits<int>>(n); break; default: initial<unsigned, Traits<unsigned, 0>>(n); } mc::noLive(); }
