#define MC_CAS 0 // except where a scenario says so
// C17: channels deliver every element once, in order, within capacity, and close cleanly.
#include "common.h"
#include "odd.h"
#include <algorithm>
#include <deque>
#include "macoro/channel.h"
#include "macoro/channel_spsc.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/macros.h"
using namespace macoro;
enum { GRANTED = 0, POPPED = 1, DONE = 2, CLOSED = 3 };
struct El : MVal { using MVal::MVal; El() : MVal(-7) {} };
using MC = mpsc::channel<El>; using SC = spsc::channel<El>;
static int code(int p, int i) { return p * 100 + i; }
static void granted(int cap) { MC_REQUIRE(mc::gadd(GRANTED) - mc::gget(POPPED) <= cap, "at most the capacity is in flight"); }
template<class C> static Fire producer(std::shared_ptr<C> c, int cap, int p, int items, int form, bool close) {
	for (int i = 0; i < items; i++) switch (form) {
	case 0: co_await c->push(El(code(p, i))); break;
	case 1: { auto w = co_await c->push(); granted(cap); w = El(code(p, i)); w.publish(); break; }
	default: { auto w = co_await c->push(); granted(cap); w = El(code(p, i)); El& r = w; MC_REQUIRE(r.get() == code(p, i), "the slot holds the assigned element"); } // published by the destructor
	}
	if (close) co_await c->close();
	mc::gadd(DONE);
}
// receives exactly n elements, in each producer's order
template<class C> static Fire consumer(std::shared_ptr<C> c, int np, int n, int form, bool close) {
	std::vector<int> next(np + 1, 0);
	auto take = [&](int v) { int p = v / 100, i = v % 100; MC_REQUIRE(p < np && i == next[p], "elements arrive once and in their producer's order"); next[p]++; };
	for (int k = 0; k < n; k++) {
		switch (form) {
		case 0: { auto w = co_await c->pop(); El v = std::move(*w); take(v.get()); mc::gadd(POPPED); break; }
		case 1: { El& f = co_await c->front(); int x = f.get(); El& g = co_await c->front(); MC_REQUIRE(&f == &g && g.get() == x, "front does not consume"); auto w = co_await c->pop(); MC_REQUIRE(w->get() == x, "pop takes the front element"); take(x); mc::gadd(POPPED); w.publish(); break; }
		default: { mc::gadd(POPPED); El v = co_await c->pop(); take(v.get()); }
		}
	}
	if (close) for (int k = 0; k < 2; k++) { bool thrown = false; try { if (k) (void)co_await c->pop(); else (void)co_await c->front(); } catch (channel_closed_exception&) { thrown = true; } MC_REQUIRE(thrown, "receiving from a closed channel fails"); }
	mc::gadd(DONE);
}
template<class C> static void race(int np, int cap, int items, int pform, int cform, bool close, int left = 0, bool prodMain = false) {
	{
		auto c = std::make_shared<C>(cap); std::vector<std::thread> th; th.reserve(4); int n = np * items - left;
		for (int p = prodMain; p < np; p++) th.emplace_back([=]() mutable { producer(std::move(c), cap, p, items, pform, close); });
		if (prodMain) { auto d = c; th.emplace_back([=]() mutable { consumer(std::move(d), np, n, cform, close); }); producer(std::move(c), cap, 0, items, pform, close); }
		else consumer(std::move(c), np, n, cform, close);
		for (auto& t : th) t.join();
		MC_REQUIRE(mc::gget(DONE) == np + 1, "pushes resume once there is space, receives once there is an element");
	}
	mc::noLive();
}
#define F3(s) mc::choose(3, s)
MC_SCENARIO("C17.spsc1", D()) { race<SC>(1, 1, 2, F3("push"), F3("pop"), false, 0, mc::flip("main")); }
MC_SCENARIO("C17.spsc2", D()) { race<SC>(1, 2, 3, 0, mc::choose(2, "pop"), false); }
MC_SCENARIO("C17.spsc4", P(4, 5).sh(8)) { race<SC>(1, 4, 5, F3("push"), 0, false); }
MC_SCENARIO("C17.spsc_close", D()) { race<SC>(1, 2, 2, 1, 0, true); }
MC_SCENARIO("C17.spsc_left", D()) { race<SC>(1, 2, 3, F3("push"), 0, false, 1 + mc::flip("left")); }
MC_SCENARIO("C17.spsc.weak", P(5, 6).weak(2, 3).sh(8)) { race<SC>(1, 1, 2, 1, 0, false); }
MC_SCENARIO("C17.mpsc_one", D()) { race<MC>(1, 1, 2, F3("push"), F3("pop"), false); }
MC_SCENARIO("C17.mpsc1", P(4, 5).sh(8)) { race<MC>(2, 1, 1, F3("push"), F3("pop"), false); }
MC_SCENARIO("C17.mpsc2", P(4, 5).sh(8)) { race<MC>(2, 2, 2, mc::choose(2, "push"), 0, false); }
MC_SCENARIO("C17.mpsc2b", P(3, 4).sh(8)) { race<MC>(2, 2, 1, F3("push"), F3("pop"), false, 0, true); }
MC_SCENARIO("C17.mpsc1x2", P(4, 5).sh(8)) { race<MC>(2, 1, 2, 1, 0, false); }
MC_SCENARIO("C17.mpsc4", P(3, 4).sh(8)) { race<MC>(2, 4, 2, 1, 1, false); }
MC_SCENARIO("C17.mpsc_left", P(4, 5).sh(8)) { race<MC>(2, 2, 1, F3("push"), 0, false, 1); }
MC_SCENARIO("C17.mpsc_close", D()) { race<MC>(1, 2, 2, F3("push"), F3("pop"), true); }
MC_SCENARIO("C17.mpsc.weak", P(3, 4).weak(2, 3).sh(8)) { race<MC>(2, 1, 1, 1, 0, false); }
MC_SCENARIO("C17.mpsc_one.weak", P(5, 6).weak(3, 4).sh(8)) { race<MC>(1, 2, 2, 0, 0, false); }
// two producers, the second closes after both are done
MC_SCENARIO("C17.mpsc_close2", P(3, 4).sh(8)) {
	{
		auto [s, r] = mpsc::make_channel<El>(2); mc::Gate g;
		auto prod = [](mpsc::channel_sender<El> s, int p, mc::Gate* g, bool close) -> Fire { { auto w = co_await s.push(); w = El(code(p, 0)); } if (!close) { g->set(); } else { g->wait(); co_await s.close(); } mc::gadd(DONE); };
		auto cons = [](mpsc::channel_receiver<El> r) -> Fire { int n = 0, sum = 0; try { for (;;) { El& f = co_await r.front(); sum += f.get(); auto w = co_await r.pop(); n++; } } catch (channel_closed_exception&) {} MC_REQUIRE(n == 2 && sum == 100, "all elements are received before the close"); mc::gadd(DONE); };
		std::thread a([&, s = s]() mutable { prod(std::move(s), 0, &g, false); }), b([&, s = std::move(s)]() mutable { prod(std::move(s), 1, &g, true); });
		cons(std::move(r)); a.join(); b.join(); MC_REQUIRE(mc::gget(DONE) == 3, "all complete");
	}
	mc::noLive();
}
// sender and receiver die on different threads with elements inside
MC_SCENARIO("C17.drop", D()) {
	{
		auto [s, r] = spsc::make_channel<El>(2);
		std::thread a([s = std::move(s)]() mutable { [](spsc::channel_sender<El> s) -> Fire { { auto w = co_await s.push(); w = El(1); } { auto w = co_await s.push(); w = El(2); } }(std::move(s)); });
		[](spsc::channel_receiver<El> r) -> Fire { auto w = co_await r.pop(); MC_REQUIRE((*w).get() == 1, "first"); }(std::move(r));
		a.join();
	}
	mc::noLive();
}
// macro coroutines on both ends
static task<void> mprod(std::shared_ptr<SC> cc, int n) { MC_BEGIN(task<void>, c = std::move(cc), n, i = 0, w = SC::push_wrapper{}); for (i = 0; i < n; i++) { MC_AWAIT_SET(w, c->push()); w = El(i); w.publish(); } MC_AWAIT(c->close()); MC_END(); }
struct Look { int* n; void operator()(El& e) const { MC_REQUIRE(e.get() == *n, "the front is the element that is received next"); } };
static task<int> mcons(std::shared_ptr<SC> cc) { MC_BEGIN(task<int>, c = std::move(cc), n = 0, w = SC::pop_wrapper{}, f = result<SC::pop_wrapper>{ Err(std::exception_ptr{}) }, look = Look());
	for (;;) { if (n == 1) { look.n = &n; MC_AWAIT_FN(look, c->front()); } MC_AWAIT_TRY(f, c->pop()); if (f.has_error()) MC_RETURN(n); w = std::move(f.value()); MC_REQUIRE((*w).get() == n, "order"); n++; w.publish(); } MC_END(); }
MC_SCENARIO("C17.macro", P(3, 4).sh(8)) { { auto c = std::make_shared<SC>(2); std::thread t([&] { sync_wait(mprod(c, 3)); }); MC_REQUIRE(sync_wait(mcons(c)) == 3, "all received"); t.join(); } mc::noLive(); }

// every history of operations against a queue
template<class C> struct Hist {
	std::shared_ptr<C> c; int cap; bool multi;
	struct Push { int kind; bool granted = false, published = false; int v = 0; typename C::push_wrapper w; }; // kind 0 value, 1 wrapper, 2 close
	std::deque<Push> pushes; int released = 0; bool reading = false, holding = false; int how = 0; int got = -1; typename C::pop_wrapper hold; // got: -1 nothing yet, -2 closed, else value
	Fire doPush(int id) { co_await c->push(El(id)); pushes[id].granted = pushes[id].published = true; }
	Fire doWrap(int id) { auto w0 = co_await c->push(); auto w = std::move(w0); pushes[id].w = std::move(w); pushes[id].granted = true; }
	Fire doClose(int id) { co_await c->close(); pushes[id].granted = pushes[id].published = true; }
	Fire doPop() { try { auto w0 = co_await c->pop(); auto w = std::move(w0); got = (*w).get(); if (how == 1) { hold = std::move(w); } } catch (channel_closed_exception&) { got = -2; } }
	Fire doFront() { try { El& f = co_await c->front(); got = f.get(); } catch (channel_closed_exception&) { got = -2; } }
	bool can(int i) { return i < released + cap; } // slot i is free
	void run(int depth) {
		pushes.clear(); int nextPub = 0; (void)nextPub; bool closed = false;
		for (int d = 0; d < depth; d++) {
			int op = mc::choose(9, "op"), n = (int)pushes.size(); bool waitingPush = n && !pushes[n - 1].granted; auto held = [&](bool newest) { int r = -1; for (int i = 0; i < n; i++) if (pushes[i].kind == 1 && pushes[i].granted && !pushes[i].published) { r = i; if (!newest) break; } return r; };
			if (reading && (op == 4 || op == 5 || op == 6)) { mc_prune_(); }
			std::vector<bool> was; for (auto& p : pushes) was.push_back(p.granted);
			switch (op) {
			case 0: case 1: case 8: if (closed || (!multi && (waitingPush || (op != 1 && held(false) >= 0)))) mc_prune_();
				pushes.emplace_back(); pushes.back().kind = op == 8 ? 2 : op; pushes.back().v = n; if (op == 0) doPush(n); else if (op == 1) doWrap(n); else { closed = true; doClose(n); } break;
			case 2: case 3: { int h = held(op == 3); if (h < 0 || (op == 3 && (!multi || h == held(false)))) mc_prune_(); pushes[h].published = true; if (mc::flip("assign by reference")) { El& r = (El&)pushes[h].w; r = El(h); } else pushes[h].w = El(h); pushes[h].w.publish(); break; }
			case 4: case 5: case 6: if (op != 5 && holding) mc_prune_(); reading = true; how = op - 4 == 2 ? 1 : op == 5 ? 2 : 0; got = -1; if (how == 2) { if (holding) mc_prune_(); doFront(); } else doPop(); break;
			case 7: { if (!holding) mc_prune_(); holding = false; released++; if (mc::flip("by assignment")) hold = typename C::pop_wrapper{}; else hold.publish(); break; }
			}
			// expected state
			int m = (int)pushes.size(); auto pub = [&](int i) { return pushes[i].kind == 1 ? pushes[i].published : can(i); };
			if (reading) { bool ready = released < m && pub(released);
				if (ready) { Push& p = pushes[released]; if (p.kind == 2) MC_REQUIRE(got == -2, "receiving from a closed channel fails"); else MC_REQUIRE(got == p.v, "elements are received in order, as soon as they are there"); reading = false;
					if (p.kind != 2) { if (how == 0) released++; else if (how == 1) holding = true; } }
				else MC_REQUIRE(got == -1, "receiving suspends exactly while the channel is empty"); }
			for (int i = 0; i < m; i++) MC_REQUIRE(pushes[i].granted == can(i), "push suspends exactly while the channel is full");
		}
		// finish: let every suspended coroutine run to its end
		if (holding) { hold.publish(); released++; }
		if (reading && how == 1) how = 0;
		for (int k = 0; k < 40; k++) {
			int m = (int)pushes.size(); bool idle = true;
			for (int i = 0; i < m; i++) if (pushes[i].kind == 1 && pushes[i].granted && !pushes[i].published) { pushes[i].published = true; pushes[i].w = El(i); pushes[i].w.publish(); idle = false; }
			if (reading && got != -1) { reading = false; if (got != -2 && how != 2) released++; idle = false; }
			if (reading && released == (int)pushes.size()) { pushes.emplace_back(); pushes.back().kind = 0; pushes.back().v = m; doPush(m); idle = false; continue; }
			bool stuck = false; for (auto& p : pushes) stuck |= !p.granted;
			if (!reading && stuck) { reading = true; how = 0; got = -1; doPop(); idle = false; }
			if (idle) break;
		}
		MC_REQUIRE(!reading, "a receive completes"); for (auto& p : pushes) MC_REQUIRE(p.granted, "a push completes");
		pushes.clear(); hold = typename C::pop_wrapper{};
	}
};
template<class C> static void history(bool multi) { { Hist<C> h; h.cap = 1 << mc::choose(2, "capacity"); h.c = std::make_shared<C>(h.cap); h.multi = multi; h.run(mc::thorough() ? 9 : 7); h.c.reset(); } mc::noLive(); }
MC_SCENARIO("C17.history_spsc", S().sh(8)) { history<SC>(false); }
MC_SCENARIO("C17.history_mpsc", S().sh(8)) { history<MC>(true); }
// a named object assigned to a slot is copied unless moved, whether the slot already holds something or not; elements need no default
struct Cp { mc::Val v; explicit Cp(int i) : v(i) {}
#ifdef MC_LESS
	Cp() : v(-7) {}
#endif
};
template<class C> static Fire assigns(C& c, int* ok) {
	int n = 0; std::vector<int> want; int cnt = 1 + mc::choose(2, "elements");
	for (int k = 0; k < cnt; k++) { auto w = co_await c.push(); int times = 1 + mc::choose(2, "assignments");
		for (int i = 0; i < times; i++) { Cp x(++n); int how = mc::choose(4, "how"); Cp& r = how == 0 ? (w = Cp(n)) : how == 1 ? (w = x) : how == 2 ? (w = std::as_const(x)) : (w = std::move(x)); MC_REQUIRE(r.v.get() == n, "the slot holds what was assigned"); MC_REQUIRE(x.v.moved() == (how == 3), "a named object is copied unless moved"); if (!x.v.moved()) MC_REQUIRE(x.v.get() == n, "the assigned object is left alone"); }
		want.push_back(n); if (mc::flip("published")) w.publish(); }
	for (int x : want) { Cp& f = co_await c.front(); MC_REQUIRE(f.v.get() == x, "what was assigned last arrives"); Cp y(0); y = std::move(f); auto p = co_await c.pop(); }
	*ok = 1;
}
template<class C> static void assigned() { { int ok = 0; C c(2); assigns(c, &ok); MC_REQUIRE(ok == 1, "nothing waits"); } mc::noLive(); }
MC_SCENARIO("C17.mpsc.assign", S()) { assigned<mpsc::channel<Cp>>(); }
MC_SCENARIO("C17.spsc.assign", S()) { assigned<spsc::channel<Cp>>(); }
// the slot used by reference: made when first needed, then the same object
MC_SCENARIO("C17.slot_reference", S()) { { mpsc::channel<El> c(2); int ok = 0; [](mpsc::channel<El>& c, int* ok) -> Fire { auto w = co_await c.push(); bool first = mc::flip("assign first"); if (first) w = El(3); El& a = w; MC_REQUIRE(a.get() == (first ? 3 : -7), "the slot's element"); a = El(4); El& b = w; MC_REQUIRE(&a == &b && b.get() == 4, "one element"); w.publish(); auto p = co_await c.pop(); MC_REQUIRE(p->get() == 4 && (*p).get() == 4, "what was assigned arrives"); El e = std::move(*p); MC_REQUIRE(e.get() == 4, "moved out"); *ok = 1; }(c, &ok); MC_REQUIRE(ok == 1, "nothing waits"); } mc::noLive(); }

// a size that is no power of two is refused
template<class C> static void badSize() { static const std::size_t sz[] = { 0, 3, 5, 6, 7, 12, 100 }; bool thrown = false; try { C c(sz[mc::choose(7, "size")]); } catch (std::runtime_error&) { thrown = true; } MC_REQUIRE(thrown, "a capacity that is not a power of two is refused"); mc::noLive(); }
MC_SCENARIO("C17.spsc.size", S()) { badSize<SC>(); }
MC_SCENARIO("C17.what", S()) { SC c(1); int ok = 0; [](SC& c, int* ok) -> Fire { co_await c.close(); try { (void)co_await c.pop(); } catch (std::exception& e) { std::string w = e.what(); *ok = w.find("closed") != w.npos; } }(c, &ok); MC_REQUIRE(ok == 1, "the failure says that the channel is closed"); }
// large capacities: exactly that many elements fit, they arrive in order, for several rounds; what is left is destroyed
template<class C> static void large(bool multi) {
	{
		static const int caps[] = { 16, 32, 64, 128, 256, 512 }; int cap = caps[mc::choose(6, "capacity")]; int rounds = 1 + mc::flip("rounds") * 2; bool readerFirst = mc::flip("reader first"), leave = mc::flip("leave some"); int held = multi ? mc::choose(3, "held back") : 0; // slots published late and in which order
		auto c = std::make_shared<C>(cap); int sent = 0, got = 0, granted = 0, asked = 0; bool closed = false;
		struct Reader { static Fire run(std::shared_ptr<C> c, int* got, int n, bool* closed) { try { for (; n-- > 0;) { auto w = co_await c->pop(); MC_REQUIRE((*w).get() == *got, "elements arrive once and in their producer's order"); ++*got; } } catch (channel_closed_exception&) { *closed = true; } } };
		if (readerFirst) Reader::run(c, &got, rounds * cap, &closed);
		std::vector<typename C::push_wrapper> slots;
		auto push = [&](int v, bool wrap) { [](std::shared_ptr<C> c, int v, bool wrap, int* granted, std::vector<typename C::push_wrapper>* slots) -> Fire { if (!wrap) { co_await c->push(El(v)); ++*granted; } else { auto w = co_await c->push(); w = El(v); ++*granted; slots->push_back(std::move(w)); } }(c, v, wrap, &granted, &slots); };
		for (int r = 0; r < rounds; r++) {
			for (int i = 0; i < cap; i++) { push(sent++, held); asked++; MC_REQUIRE(granted == asked, "push does not suspend while the channel has space"); }
			if (held) { if (held == 2) std::reverse(slots.begin(), slots.end()); for (size_t k = 0; k < slots.size(); k++) { slots[k].publish(); if (readerFirst && held == 2) MC_REQUIRE(k + 1 == slots.size() || got == r * cap, "an element is received only after those claimed before it"); } slots.clear(); }
			if (!readerFirst) { push(sent++, false); asked++; MC_REQUIRE(granted == asked - 1, "push suspends while the channel is full"); Reader::run(c, &got, 1, &closed); MC_REQUIRE(granted == asked && got == r * (cap + 1) + 1, "the push resumes once there is space"); if (leave && r + 1 == rounds) { Reader::run(c, &got, cap / 2, &closed); break; } Reader::run(c, &got, cap, &closed); }
			MC_REQUIRE(got == sent, "every element is received");
		}
		if (!leave && !readerFirst) { Reader::run(c, &got, 1, &closed); int n = got; [](std::shared_ptr<C> c) -> Fire { co_await c->close(); }(c); MC_REQUIRE(closed && got == n, "receiving from a closed channel fails"); }
	}
	mc::noLive();
}
MC_SCENARIO("C17.large_spsc", S().lim(60000)) { large<SC>(false); }
MC_SCENARIO("C17.large_mpsc", S().lim(60000)) { large<MC>(true); }
// values with operators of their own: none of them may be used
template<class C, class T> static Fire oddsend(C& c, int f) { for (int i = 0; i < 3; i++) { if (f) { auto w = co_await c.push(); w = T(7 + i); } else co_await c.push(T(7 + i)); } co_await c.close(); }
template<class C, class T> static Fire oddrecv(C& c, int f) { for (int i = 0; i < 3; i++) { if (f == 0) { T x = co_await c.pop(); MC_REQUIRE(x.get() == 7 + i, "v"); } else if (f == 1) { auto w = co_await c.pop(); T&& x = *w; MC_REQUIRE(x.get() == 7 + i && w->get() == 7 + i, "v"); } else { T& x = co_await c.front(); MC_REQUIRE(x.get() == 7 + i, "v"); co_await c.pop(); } } mc::gadd(1); }
template<class C, class T> static void oddchan() { { int a = mc::choose(2, "push"), b = mc::choose(3, "pop"); C c(2); if (mc::flip("order")) { oddrecv<C, T>(c, b); oddsend<C, T>(c, a); } else { oddsend<C, T>(c, a); oddrecv<C, T>(c, b); } MC_REQUIRE(mc::gget(1) == 1, "end"); } mc::noLive(); }
MC_SCENARIO("C17.odd_values", S()) { switch (mc::choose(4)) { case 0: oddchan<spsc::channel<Odd>, Odd>(); break; case 1: oddchan<mpsc::channel<Odd>, Odd>(); break; case 2: oddchan<spsc::channel<MOdd>, MOdd>(); break; default: oddchan<mpsc::channel<MOdd>, MOdd>(); } }
