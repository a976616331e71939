#define MC_CAS 0 // except where a scenario says so
// C14: a sequence barrier releases each waiter iff its target is published.
#include "common.h"
#include <algorithm>
#include "macoro/sequence_barrier.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
enum { RES = 0, PUB = 1, W0 = 10 };   // PUB: offset of the highest number handed to publish() so far
template<class S> struct World {
	S init; sequence_barrier<S> b; int data[8] = {};
	explicit World(S i) : init(i), b(i) {}
	S at(int k) const { return (S)(init + (S)k); }
	int off(S s) const { return (int)(std::make_signed_t<S>)(S)(s - init); }
	void publish(int k) { for (int i = (int)mc::gget(PUB) + 1; i <= k; i++) data[i] = i; mc::gset(PUB, k); b.publish(at(k)); MC_REQUIRE(b.last_published() == at(k), "last_published is the number published last"); }
	void woke(int id, int target, S got) {
		MC_REQUIRE(mc::gadd(W0 + id) == 1, "a waiter is resumed at most once per wait");
		int g = off(got); MC_REQUIRE(g >= target, "the value obtained covers the target"); MC_REQUIRE(g <= mc::gget(PUB), "a waiter is not resumed before its number is published");
		for (int i = 1; i <= g; i++) MC_REQUIRE(data[i] == i, "writes before publish are visible to the resumed waiter");
		mc::gadd(RES);
	}
};
template<class S> static Fire waiter(World<S>& w, int id, int target) { Val l(id); S got = co_await w.b.wait_until_published(w.at(target)); MC_REQUIRE(l.get() == id, "locals"); w.woke(id, target, got); mc::outcome(w.off(got)); }
template<class S> static Fire chain(World<S>& w, int id, int n) { for (int t = 1; t <= n; t++) { S got = co_await w.b.wait_until_published(w.at(t)); w.woke(id + t, t, got); } }
template<class S> static void race(S init, std::vector<int> targets, std::vector<int> pubs, bool mainPublishes = false) {
	World<S> w(init); std::vector<std::thread> th; th.reserve(8); size_t n = targets.size();
	auto pub = [&] { for (int p : pubs) w.publish(p); };
	if (!mainPublishes) th.emplace_back(pub);
	for (size_t i = mainPublishes ? 0 : 1; i < n; i++) th.emplace_back([&, i] { waiter(w, (int)i, targets[i]); });
	if (mainPublishes) pub(); else waiter(w, 0, targets[0]);
	for (auto& t : th) t.join();
	MC_REQUIRE(mc::gget(RES) == (long)n, "every waiter whose number was published is resumed"); mc::noLive();
}
typedef unsigned char U8;
static size_t start() { return mc::flip("start") ? (size_t)0 - 2 : (size_t)1 << 63; } // the target lies across the wrap / sign boundary
MC_SCENARIO("C14.one", D().cas(1, 1)) { race<size_t>(start(), { 1 }, { 1 }); }
MC_SCENARIO("C14.one_two", D().cas(1, 1)) { race<size_t>(start(), { 2 }, { 1, 2 }); }
MC_SCENARIO("C14.two_same", D().cas(1, 1)) { race<size_t>((size_t)-1, { 1, 1 }, { 1 }); }
MC_SCENARIO("C14.two", D().sh(8)) { race<size_t>((size_t)-2, { 1, 2 }, { 1, 2 }); }
MC_SCENARIO("C14.two_rev", D().sh(8)) { race<size_t>((size_t)-2, { 2, 1 }, { 1, 2 }); }
MC_SCENARIO("C14.two_jump", D().sh(8)) { race<size_t>(~(size_t)0 >> 1, { 3, 1 }, { 1, 3 }); }
MC_SCENARIO("C14.three", P(4, 5).sh(8)) { race<size_t>((size_t)-2, { 2, 1, 2 }, { 1, 2 }); }
MC_SCENARIO("C14.three_main", P(4, 5).sh(8)) { race<size_t>((size_t)-2, { 3, 1, 2 }, { 1, 2, 3 }, true); }
MC_SCENARIO("C14.byte", D().cas(1, 1)) { race<U8>((U8)(mc::flip("start") ? 254 : 126), { 2, 1 }, { 1, 2 }); }
MC_SCENARIO("C14.two.weak", P(3, 4).weak(2, 3).sh(8)) { race<size_t>((size_t)-2, { 1, 2 }, { 1, 2 }); }
MC_SCENARIO("C14.one.weak", P(4, 6).weak(3, 4).sh(8)) { race<size_t>((size_t)-2, { 1 }, { 1 }); }
// some waiters' numbers are published only later: not resumed early, not lost
template<class S> static void later(std::vector<int> targets, int first, int last) {
	World<S> w((S)-2); std::vector<std::thread> th; th.reserve(8); long due = 0; for (int t : targets) due += t <= first;
	for (size_t i = 0; i < targets.size(); i++) th.emplace_back([&, i] { waiter(w, (int)i, targets[i]); });
	w.publish(first); for (auto& t : th) t.join(); MC_REQUIRE(mc::gget(RES) == due, "exactly the waiters whose number is published are resumed");
	w.publish(last); MC_REQUIRE(mc::gget(RES) == (long)targets.size(), "the others are resumed by the publication of their number"); mc::noLive();
}
MC_SCENARIO("C14.later2", D().cas(1, 1)) { later<size_t>({ 1, 2 }, 1, 2); }
MC_SCENARIO("C14.later3", D()) { later<size_t>({ 2, 1, 3 }, 1, 3); }
MC_SCENARIO("C14.later3b", D()) { later<U8>({ 2, 1, 1 }, 1, 2); }
MC_SCENARIO("C14.chain", D().cas(1, 1)) { World<size_t> w((size_t)-2); std::thread t([&] { w.publish(1); w.publish(2); }); chain(w, 0, 2); t.join(); MC_REQUIRE(mc::gget(RES) == 2, "each wait completes"); }
MC_SCENARIO("C14.chain2", D()) { World<size_t> w((size_t)-2); std::thread t([&] { w.publish(1); w.publish(2); }), u([&] { waiter(w, 0, 2); }); chain(w, 10, 2); t.join(); u.join(); MC_REQUIRE(mc::gget(RES) == 3, "each wait completes"); }
// waiters of every mix of targets already there when another joins while numbers are published: the joining one takes the list over and has to put the rest back
template<class S> static void takeover(int npre, int maxT, int joiners, std::vector<int> pubs, int last) {
	World<S> w((S)-2); std::vector<int> t; for (int i = 0; i < npre; i++) { t.push_back(1 + mc::choose(maxT, "target")); waiter(w, i, t[i]); } for (int i = 0; i < joiners; i++) t.push_back(1 + mc::choose(2, "joins"));
	std::vector<std::thread> th; th.reserve(4); for (int i = 0; i < joiners; i++) th.emplace_back([&, i] { waiter(w, npre + i, t[npre + i]); });
	for (int p : pubs) w.publish(p); for (auto& x : th) x.join(); long due = 0; for (int x : t) due += x <= pubs.back();
	MC_REQUIRE(mc::gget(RES) == due, "exactly the waiters whose number is published are resumed"); w.publish(last); MC_REQUIRE(mc::gget(RES) == (long)t.size(), "the others are resumed by the publication of their number"); mc::noLive();
}
MC_SCENARIO("C14.takeover", P(4, 6).sh(8)) { takeover<size_t>(2, 3, 1, { 1, 2 }, 3); }
MC_SCENARIO("C14.takeover3", P(3, 5).sh(8)) { takeover<U8>(2, 4, 1, { 1, 2, 3 }, 5); }
MC_SCENARIO("C14.takeover_two", P(2, 3).sh(8)) { takeover<size_t>(2, 3, 2, { 1, 2 }, 3); }
// blocking on it
static task<size_t> waitTask(World<size_t>& w, int k) { co_return co_await w.b.wait_until_published(w.at(k)); }
static task<size_t> waitMacro(World<size_t>& ww, int k) { MC_BEGIN(task<size_t>, &ww, k, r = size_t{}); MC_AWAIT_SET(r, ww.b.wait_until_published(ww.at(k))); MC_RETURN(r); MC_END(); }
MC_SCENARIO("C14.task", P(3, 4).sh(8)) { World<size_t> w((size_t)-1); bool m = mc::flip("macro"); std::thread t([&] { w.publish(1); w.publish(2); }); size_t r = m ? sync_wait(waitMacro(w, 2)) : sync_wait(waitTask(w, 2)); MC_REQUIRE(r == w.at(2), "value"); MC_REQUIRE(w.data[1] == 1 && w.data[2] == 2, "visible"); t.join(); }
// every history of publications and waits, against the obvious model
template<class S> static void history(std::vector<S> starts) {
	World<S> w(starts[mc::choose((int)starts.size(), "start")]); int depth = mc::thorough() ? 7 : 6, pub = 0; std::vector<int> target; std::vector<int> woken; auto& W = w; std::vector<int> again;
	auto wait = [](World<S>& w, int id, int t, std::vector<int>& woken, int more) -> Fire {
		S g = co_await w.b.wait_until_published(w.at(t)); woken.push_back(id); MC_REQUIRE(w.off(g) == mc::gget(PUB), "value is the number last published");
		if (more) { g = co_await w.b.wait_until_published(w.at(t + more)); woken.push_back(id + 100); MC_REQUIRE(w.off(g) == mc::gget(PUB), "value is the number last published"); } };
	std::vector<std::pair<int, int>> pend, ended; int next = 0;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(8, "op"); size_t from = woken.size(); std::vector<int> exp;
		if (op < 3) { pub += op + 1; mc::gset(PUB, pub); W.b.publish(W.at(pub)); }
		else { int t = pub - 1 + (op - 3) % 4, more = op == 7 ? 1 : 0; wait(w, next, t, woken, more); pend.push_back({ next, t }); if (more) pend.push_back({ next + 100, t + more }); next++; }
		for (size_t k = 0; k < pend.size();) { bool first = pend[k].first < 100 || std::none_of(pend.begin(), pend.end(), [&](auto& p) { return p.first == pend[k].first - 100; });
			if (first && pend[k].second <= pub) { exp.push_back(pend[k].first); pend.erase(pend.begin() + k); k = 0; } else k++; }
		std::vector<int> got(woken.begin() + from, woken.end()); std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
		MC_REQUIRE(got == exp, "exactly the waiters whose number is published are resumed");
		MC_REQUIRE(W.b.last_published() == W.at(pub), "last_published");
	}
	mc::gset(PUB, pub + 5); W.b.publish(W.at(pub + 5)); MC_REQUIRE(woken.size() >= (size_t)next, "nobody is lost");
}
MC_SCENARIO("C14.history_byte", S().cas(0, 1).sh(8)) { history<U8>({ (U8)250, (U8)124, (U8)255, (U8)0 }); }
MC_SCENARIO("C14.history_size", S().sh(8)) { history<size_t>({ (size_t)-3, (size_t)-1 }); }
// many waiters on scattered numbers, released by publications of every stride
template<class S> struct Many { sequence_barrier<S> b; S init; std::vector<int> woken, target; int pub = 0, n; Many(S i, int n) : b(i), init(i), woken(n, 0), target(n, 0), n(n) {}
	S at(int k) const { return (S)(init + (S)k); }
	Fire wait(int id) { Val l(id); S got = co_await b.wait_until_published(at(target[id])); MC_REQUIRE(l.get() == id, "locals"); MC_REQUIRE(++woken[id] == 1, "a waiter is resumed at most once per wait"); int g = (int)(std::make_signed_t<S>)(S)(got - init); MC_REQUIRE(g >= target[id] && g <= pub, "the value obtained covers the target and is published"); MC_REQUIRE(target[id] <= pub, "a waiter is not resumed before its number is published"); }
	void check() { for (int i = 0; i < n; i++) MC_REQUIRE(woken[i] == (target[i] <= pub), "exactly the waiters whose number is published are resumed"); MC_REQUIRE(b.last_published() == at(pub), "last_published"); }
	void run(int order, int stride) { static const int mul[] = { 1, 1, 7, 0 };
		for (int i = 0; i < n; i++) target[i] = order == 0 ? i + 1 : order == 1 ? n - i : order == 2 ? 1 + (i * mul[2]) % n : 1 + i / 8; for (int i = 0; i < n; i++) wait(i); check();
		while (pub < n) { pub = std::min(n, pub + stride); b.publish(at(pub)); check(); } } };
template<class S> static void many(std::vector<S> starts, std::vector<int> ns) { { int s = mc::choose((int)starts.size(), "start"), n = ns[mc::choose((int)ns.size(), "waiters")], order = mc::choose(4, "order"); static const int st[] = { 1, 3, 40, 1000 }; int stride = st[mc::choose(4, "stride")]; Many<S> m(starts[s], n); m.run(order, stride); } mc::noLive(); }
MC_SCENARIO("C14.many", S().lim(40000)) { many<size_t>({ (size_t)-20, ((size_t)1 << 32) - 30, ((size_t)1 << 63) - 10 }, { 12, 33, 66, 130 }); }
MC_SCENARIO("C14.many_int", S().lim(40000)) { many<unsigned>({ (unsigned)-20, 0x7ffffff0u, 65530u }, { 12, 66 }); }
MC_SCENARIO("C14.many_byte", S().lim(40000)) { many<U8>({ 0, 200, 120 }, { 12, 33, 66, 120 }); }
// numbers far apart: half the range of the type ahead is still ahead
template<class S> static void far(int shift) { constexpr int bits = sizeof(S) * 8; S init = (S)((S)mc::choose(4, "start") << (bits - 2)); sequence_barrier<S> b(init); S d = (S)((S)1 << mc::choose(shift, "distance")), t = (S)(init + d); int woke = 0;
	[](sequence_barrier<S>& b, S t, int* w) -> Fire { S g = co_await b.wait_until_published(t); MC_REQUIRE(g == t, "value"); ++*w; }(b, t, &woke); MC_REQUIRE(!woke, "not resumed before its number is published"); S mid = (S)(t - 1); if (mid != init) { b.publish(mid); MC_REQUIRE(!woke, "not resumed before its number is published"); } b.publish(t); MC_REQUIRE(woke == 1, "resumed by the publication of its number"); }
MC_SCENARIO("C14.far", S()) { constexpr int bits = 62; size_t init = (size_t)mc::choose(4, "start") << 62; sequence_barrier<size_t> b(init); int k = mc::choose(16, "distance") * 4; if (k >= bits) k = bits; size_t t = init + ((size_t)1 << k); int woke = 0;
	[](sequence_barrier<size_t>& b, size_t t, int* w) -> Fire { size_t g = co_await b.wait_until_published(t); MC_REQUIRE(g == t, "value"); ++*w; }(b, t, &woke); MC_REQUIRE(!woke, "not resumed before its number is published"); if (t - 1 != init) { b.publish(t - 1); MC_REQUIRE(!woke, "not resumed before its number is published"); } b.publish(t); MC_REQUIRE(woke == 1, "resumed by the publication of its number"); }
MC_SCENARIO("C14.far_short", S()) { far<unsigned short>(15); }
MC_SCENARIO("C14.far_byte", S()) { far<U8>(7); }
// sequences of signed types and a user's traits: defaults and comparisons come from the traits
template<class S, S Init> struct Traits { using value_type = S; using difference_type = std::make_signed_t<S>; using size_type = std::make_unsigned_t<S>; static constexpr S initial_sequence = Init; static constexpr difference_type difference(S a, S b) { return (difference_type)(a - b); } static constexpr bool precedes(S a, S b) { return difference(a, b) < 0; } };
MC_SCENARIO("C14.int", P(3, 4).sh(2)) { race<int>(mc::flip("start") ? -2 : -1, { 1, 2 }, { 1, 2 }); }
MC_SCENARIO("C14.short", P(3, 4).sh(2)) { race<short>((short)(mc::flip("start") ? 32766 : -2), { 2, 1 }, { 1, 2 }); }
MC_SCENARIO("C14.schar", S().sh(8)) { history<signed char>({ (signed char)126, (signed char)-3 }); }
template<class S, S Init> static void initial() { sequence_barrier<S, Traits<S, Init>> b; MC_REQUIRE(b.last_published() == Init, "a barrier starts at the traits' initial sequence"); int n = 0; auto w = [](auto& b, S t, int& n) -> Fire { S g = co_await b.wait_until_published(t); MC_REQUIRE(g == (S)(Init + 2) || t == Init && g == Init, "value"); n++; }; w(b, Init, n); MC_REQUIRE(n == 1, "the initial sequence counts as published"); w(b, (S)(Init + 1), n); w(b, (S)(Init + 2), n); MC_REQUIRE(n == 1, "the next is not"); b.publish((S)(Init + 2)); MC_REQUIRE(n == 3, "released"); }
MC_SCENARIO("C14.initial", S()) { switch (mc::choose(6, "traits")) { case 0: initial<size_t, 0>(); break; case 1: initial<size_t, 5>(); break; case 2: initial<U8, 255>(); break; case 3: initial<int, -1>(); break; case 4: initial<unsigned, 0xffffffffu>(); break; default: { sequence_barrier<size_t> b; MC_REQUIRE(b.last_published() == (size_t)-1, "initial"); sequence_barrier<U8> c; MC_REQUIRE(c.last_published() == 255, "initial"); } } mc::noLive(); }
// the traits decide what precedes what: numbers that count downwards
struct Down : Traits<size_t, 100> { static constexpr std::ptrdiff_t difference(size_t a, size_t b) { return (std::ptrdiff_t)(b - a); } static constexpr bool precedes(size_t a, size_t b) { return difference(a, b) < 0; } };
MC_SCENARIO("C14.down", S()) { sequence_barrier<size_t, Down> b; std::vector<int> woke; auto w = [](auto& b, size_t t, std::vector<int>& v) -> Fire { size_t g = co_await b.wait_until_published(t); MC_REQUIRE(g <= t, "covers"); v.push_back((int)t); }; int cur = 100; std::vector<int> all;
	for (int i = 0; i < 5; i++) { if (mc::flip("publish")) { if (cur < 97) break; b.publish((size_t)(cur -= 1 + mc::flip("jump"))); } else { int t = 99 - mc::choose(4, "target"); all.push_back(t); w(b, (size_t)t, woke); } int due = 0; for (int t : all) due += t >= cur; MC_REQUIRE(due == (int)woke.size(), "exactly the waiters whose number is published are resumed"); } b.publish(90); MC_REQUIRE(woke.size() == all.size(), "all"); mc::noLive(); }
