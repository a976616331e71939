#define MC_CAS 0 // except where a scenario says so
// C05: an async scope joins every added operation and loses no outcome.
#include "common.h"
#include "oddways.h"
#include "macoro/task.h"
#include "macoro/async_scope.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
enum { JOIN, END, GOT, FREED, DROPPED, START = 10 };
static Val* target;
struct Probe { int i; Val v; bool armed = true; explicit Probe(int i) : i(i), v(i) {} Probe(Probe&& o) noexcept : i(o.i), v(std::move(o.v)), armed(std::exchange(o.armed, false)) {} ~Probe() { if (armed) mc::gadd(FREED); } };

template<class T> task<T> op(Probe p, Later* l, bool thrown, int* data) {
	mc::gadd(START + p.i); Val local(p.i);
	if (l) co_await l->ref();
	if (data) *data = 1;
	mc::gadd(END);
	if (thrown) boom(100 + p.i);
	if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *target; else co_return T(p.i);
}
// each joined exception is accounted: bit mask of operations whose exceptions the join delivered
static int mask(async_scope_exception& e) { int m = 0; for (auto& x : e.m_exceptions) { try { std::rethrow_exception(x); } catch (Boom& b) { int bit = 1 << (b.v - 100); MC_REQUIRE(!(m & bit), "an exception is delivered once"); m |= bit; } } MC_REQUIRE(((std::exception&)e).what()[0] != 0, "what"); return m; }
static void joined(int n, int* data, int got, int expect, bool individually = false) {
	MC_REQUIRE(mc::gget(END) == n, "the join is not released before every added operation finished");
	if (data) for (int i = 0; i < n; i++) MC_REQUIRE(data[i] == 1, "writes of joined operations are visible to the joiner");
	MC_REQUIRE(got == expect, "the join delivers exactly the exceptions of the dropped operations");
	MC_REQUIRE(mc::gadd(JOIN) == 1, "the join is released at most once"); (void)individually;
	mc::outcome(mc::tid());
}
template<class T> Fire individually(scoped_task<T> t, int i, bool thrown) {
	bool got = false;
	try { if constexpr (std::is_void_v<T>) co_await std::move(t); else { auto&& v = co_await std::move(t); MC_REQUIRE(v.get() == i, "an awaited operation delivers its own value"); } }
	catch (Boom& b) { got = true; MC_REQUIRE(b.v == 100 + i, "an awaited operation delivers its own exception"); }
	MC_REQUIRE(got == thrown, "exception iff thrown"); mc::gadd(GOT);
}
static Fire join(async_scope& s, int n, int* data, int expect) {
	int m = 0; try { co_await s; } catch (async_scope_exception& e) { m = mask(e); }
	joined(n, data, m, expect);
}
// the joiner owns the scope and frees it as soon as it is released
static Fire joinAndFree(async_scope* s, int n, int* data, int expect) {
	int m = 0; try { co_await s->join(); } catch (async_scope_exception& e) { m = mask(e); }
	joined(n, data, m, expect); 
	MC_REQUIRE(mc::gget(FREED) >= mc::gget(DROPPED), "a dropped operation's frame is freed before the joiner is released");
	delete s;
}
static void fin(int awaited, int n) {
	MC_REQUIRE(mc::gget(JOIN) == 1, "the join is released exactly once");
	MC_REQUIRE(mc::gget(GOT) == awaited, "each individually awaited operation resumes its awaiter once");
	for (int i = 0; i < n; i++) MC_REQUIRE(mc::gget(START + i) == 1, "each operation runs once");
	MC_REQUIRE(mc::gget(FREED) == n, "each operation's state is freed exactly once");
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "every frame and result is freed exactly once");
}
// n operations on n threads; fate of each: 0 dropped at once, 1 awaited by a coroutine at once, 2 handle dropped later by the main thread, 3 awaited later
static void race(int n, int fates, bool own, bool freeScope, bool weak = false) {
	Val t0(0); target = &t0; auto* s = new async_scope; Later l[3]; int data[3] = {}; int expect = 0, awaited = 0, nn = n;
	std::vector<std::thread> th; th.reserve(5); std::vector<scoped_task<Val>> held; std::vector<int> heldI; bool thrown[3] = {}, heldAwait[3] = {};
	for (int i = 0; i < n; i++) th.emplace_back([&, i] { l[i].complete(); });
	for (int i = 0; i < n; i++) {
		thrown[i] = weak ? i == 0 : mc::flip("throw"); int fate = fates >= 0 ? (fates >> (2 * i)) & 3 : mc::choose(4, "fate");
		auto t = s->add(op<Val>(Probe(i), &l[i], thrown[i], data + i));
		MC_REQUIRE(mc::gget(START + i) == 1, "an added operation starts at once");
		if (fate == 0) { mc::gadd(DROPPED); if (thrown[i]) expect |= 1 << i; }
		else if (fate == 1) { awaited++; individually(std::move(t), i, thrown[i]); }
		else { heldAwait[i] = fate == 3; if (fate == 3) awaited++; else if (thrown[i]) expect |= 1 << i; held.push_back(std::move(t)); heldI.push_back(i); }
	}
	std::thread j;
	for (size_t k = 0; k < held.size(); k++) { int i = heldI[k]; if (heldAwait[i]) individually(std::move(held[k]), i, thrown[i]); else { auto d = std::move(held[k]); mc::gadd(DROPPED); } }
	held.clear();
	auto dojoin = [&] { if (freeScope) joinAndFree(s, nn, data, expect); else join(*s, nn, data, expect); };
	if (own) { j = std::thread(dojoin); j.join(); } else dojoin();
	for (auto& x : th) x.join();
	fin(awaited, n); if (!freeScope) delete s;
}
MC_SCENARIO("C05.one", D()) { race(1, -1, false, true); }
MC_SCENARIO("C05.two", D()) { race(2, -1, false, true); }
MC_SCENARIO("C05.two.keep", D()) { race(2, -1, false, false); }
MC_SCENARIO("C05.one.own", D()) { race(1, -1, true, true); }
MC_SCENARIO("C05.three.drop", P(2, 4).sh(8)) { race(3, 0, false, true); }
MC_SCENARIO("C05.three.mixed", P(2, 4).sh(8)) { race(3, 0 | 1 << 2 | 2 << 4, false, true); }
MC_SCENARIO("C05.two.weak", P(3, 5).weak(1, 3).sh(8)) { race(2, 0 | 1 << 2, false, true, true); }
// the handle is dropped or awaited by another thread than the one that completes
MC_SCENARIO("C05.handle_elsewhere", D()) {
	Val t0(0); target = &t0; int data[1] = {}; Later l; bool thrown = mc::flip("throw"), drop = mc::flip("drop");
	auto* s = new async_scope; auto t = s->add(op<Val>(Probe(0), &l, thrown, data)); mc::Gate dropped;
	std::thread c([&] { l.complete(); }), h([&] { if (drop) { { auto d = std::move(t); } dropped.set(); } else { individually(std::move(t), 0, thrown); dropped.set(); } });
	dropped.wait(); joinAndFree(s, 1, data, drop && thrown ? 1 : 0);
	c.join(); h.join(); fin(drop ? 0 : 1, 1);
}
// the join is already waiting when operations are dropped, awaited or complete
MC_SCENARIO("C05.late_drop", D()) {
	Val t0(0); target = &t0; int data[1] = {}; Later l; bool thrown = mc::flip("throw"), drop = mc::flip("drop");
	async_scope s; auto t = s.add(op<Val>(Probe(0), &l, thrown, data));
	join(s, 1, data, drop && thrown ? 1 : 0); MC_REQUIRE(mc::gget(JOIN) == 0, "not released while pending");
	if (drop) { auto d = std::move(t); } else individually(std::move(t), 0, thrown);
	std::thread c([&] { l.complete(); }); c.join(); fin(drop ? 0 : 1, 1);
}
// operations that add operations
static task<void> adder(async_scope& s, Probe p, Later* l, Later* l2, int* data, bool dropInner) {
	mc::gadd(START + p.i); co_await l->ref();
	auto t = s.add(op<Val>(Probe(1), l2, true, data + 1));
	if (!dropInner) individually(std::move(t), 1, true);
	data[0] = 1; mc::gadd(END);
}
MC_SCENARIO("C05.nested_add", D()) {
	Val t0(0); target = &t0; int data[2] = {}; Later l[2]; bool drop = mc::flip("drop inner"); auto* s = new async_scope;
	std::thread a([&] { l[0].complete(); }), b([&] { l[1].complete(); });
	{ auto t = s->add(adder(*s, Probe(0), &l[0], &l[1], data, drop)); }
	joinAndFree(s, 2, data, drop ? 2 : 0); a.join(); b.join(); fin(drop ? 0 : 1, 2);
}
// a scope is reused after it was joined
MC_SCENARIO("C05.reuse", D()) {
	Val t0(0); target = &t0; Later l[2]; int data[2] = {}; async_scope s; int thrown = mc::choose(4, "which throw");
	std::thread a([&] { l[0].complete(); l[1].complete(); });
	auto f = [&]() -> task<int> {
		int n = 0;
		for (int i = 0; i < 2; i++) { { auto t = s.add(op<void>(Probe(i), &l[i], thrown >> i & 1, data + i)); } int m = 0; try { co_await s; } catch (async_scope_exception& e) { m = mask(e); } MC_REQUIRE(m == (thrown & 1 << i), "each join delivers the exceptions of the operations since the last one, and only those"); MC_REQUIRE(mc::gget(END) == i + 1, "joined"); n++; }
		co_await s; co_return n; };
	MC_REQUIRE(sync_wait(f()) == 2, "both rounds"); a.join(); mc::gadd(JOIN); fin(0, 2);
}
// result kinds
template<class T> void kind() {
	Val t0(0); target = &t0; Later l; int data[1] = {}; bool thrown = mc::flip("throw"), drop = mc::flip("drop"); auto* s = new async_scope;
	std::thread a([&] { l.complete(); });
	{ auto t = s->add(op<T>(Probe(0), &l, thrown, data)); if (mc::flip("moved")) { scoped_task<T> u; u = std::move(t); t = std::move(u); } if (!drop) individually<T>(std::move(t), 0, thrown); }
	joinAndFree(s, 1, data, drop && thrown ? 1 : 0); a.join(); fin(drop ? 0 : 1, 1);
}
MC_SCENARIO("C05.kind.void", D()) { kind<void>(); }
MC_SCENARIO("C05.kind.mval", D()) { kind<MVal>(); }
MC_SCENARIO("C05.kind.ref", D()) { kind<Val&>(); }
// the coroutine that awaits individually also joins
static task<int> owner(Later* l, int* data, bool t0, bool t1, bool swap) {
	auto s = std::make_unique<async_scope>(); int r = 0;
	auto a = s->add(op<Val>(Probe(0), &l[0], t0, data)); { auto b = s->add(op<Val>(Probe(1), &l[1], t1, data + 1)); if (swap) std::swap(a, b); }
	int ai = swap ? 1 : 0; bool ath = swap ? t1 : t0;
	try { auto v = co_await std::move(a); MC_REQUIRE(v.get() == ai, "own value"); } catch (Boom& b) { MC_REQUIRE(ath && b.v == 100 + ai, "own exception"); r++; }
	MC_REQUIRE(data[ai] == 1, "visible"); int m = 0;
	try { co_await *s; } catch (async_scope_exception& e) { m = mask(e); }
	MC_REQUIRE(m == ((swap ? t0 : t1) ? 1 << (1 - ai) : 0), "the dropped one's exception is delivered by the join"); MC_REQUIRE(mc::gget(END) == 2, "all joined");
	s.reset(); co_return r;
}
MC_SCENARIO("C05.owner", D()) {
	Val tg(0); target = &tg; Later l[2]; int data[2] = {}; bool t0 = mc::flip("throw0"), t1 = mc::flip("throw1"), sw = mc::flip("swap");
	std::thread a([&] { l[0].complete(); }), b([&] { l[1].complete(); });
	sync_wait(owner(l, data, t0, t1, sw)); a.join(); b.join(); mc::gadd(JOIN); fin(0, 2);
}
// giving a handle another operation drops the one it had: at once, not when the other handle goes
static Fire joinAny(async_scope& s, int* m) { try { co_await s; } catch (async_scope_exception& e) { *m = mask(e); } mc::gadd(JOIN); }
template<class T> void assign() {
	Val tg(1); target = &tg; Later l[2]; int data[2] = {}; bool th[2], later[2]; for (int i = 0; i < 2; i++) { th[i] = mc::flip("throw"); later[i] = mc::flip("later"); }
	int how = mc::choose(3, "from"); bool completeFirst = mc::flip("completed before the assignment"); int m = 0; async_scope s; int n = how == 0 ? 2 : 1;
	{
		scoped_task<T> a = s.add(op<T>(Probe(0), later[0] ? &l[0] : nullptr, th[0], data)), b;
		if (how == 0) b = s.add(op<T>(Probe(1), later[1] ? &l[1] : nullptr, th[1], data + 1));
		auto complete = [&] { for (int i = 0; i < n; i++) if (later[i]) l[i].complete(); };
		if (completeFirst) complete();
		if (how == 2) a = scoped_task<T>(); else a = std::move(b);
		if (!completeFirst) complete();
		MC_REQUIRE(mc::gget(END) == n, "ran"); MC_REQUIRE(mc::gget(FREED) >= 1, "the replaced operation is freed once it finished");
		joinAny(s, &m); MC_REQUIRE(mc::gget(JOIN) == 1, "nothing is pending"); MC_REQUIRE(m == (th[0] ? 1 : 0), "the join delivers the exception of the operation whose handle was given another one");
		if (how == 0) { individually<T>(std::move(a), 1, th[1]); MC_REQUIRE(mc::gget(GOT) == 1, "the assigned handle stands for the other operation"); }
	}
	fin(how == 0, n);
}
MC_SCENARIO("C05.assign", S()) { assign<Val>(); }
MC_SCENARIO("C05.assign.void", S()) { assign<void>(); }
MC_SCENARIO("C05.assign.ref", S()) { assign<Val&>(); }
// every sequential history: adds, completions, awaits, drops, join in any order
MC_SCENARIO("C05.histories", S().sh(8)) {
	Val t0(0); target = &t0; const int n = 2; Later l[n]; int data[n] = {}; async_scope s; scoped_task<Val> t[n];
	bool added[n] = {}, done[n] = {}, gone[n] = {}, thrown[n] = {}, later[n] = {}, awaited[n] = {}; bool joining = false, checked = false; int pending = 0, expect = 0, got = 0;
	for (int k = 0; k < 9; k++) {
		int opt[8], no = 0;
		for (int i = 0; i < n; i++) { if (!added[i] && !joining) opt[no++] = i; if (added[i] && !done[i]) opt[no++] = 2 + i; if (added[i] && !gone[i]) { opt[no++] = 4 + i; } }
		if (!joining) opt[no++] = 6;
		if (!no) break;
		int o = opt[mc::choose(no, "op")];
		int i = o & 1;
		if (o < 2) { added[i] = true; thrown[i] = mc::flip("throw"); later[i] = mc::flip("later"); if (later[i]) pending++; else done[i] = true; t[i] = s.add(op<Val>(Probe(i), later[i] ? &l[i] : nullptr, thrown[i], data + i)); }
		else if (o < 4) { done[i] = true; pending--; l[i].complete(); }
		else if (o < 6) { gone[i] = true; if (mc::flip("await")) { awaited[i] = true; got += done[i]; individually(std::move(t[i]), i, thrown[i]); } else { auto d = std::move(t[i]); } }
		else {
			joining = true;
			// a handle still held at the join may be dropped later: its exception belongs to a later join if it had completed
			[](async_scope& s, int* m) -> Fire { try { co_await s; } catch (async_scope_exception& e) { *m = mask(e); } mc::gadd(JOIN); }(s, &expect);
		}
		int g = 0; for (int q = 0; q < n; q++) g += awaited[q] && done[q]; got = g;
		MC_REQUIRE(mc::gget(GOT) == got, "an awaiter is resumed exactly when its operation finished");
		for (int q = 0; q < n; q++) MC_REQUIRE(t[q].is_ready() == (added[q] && done[q] && !gone[q]), "a handle is ready exactly while it stands for a finished operation");
		MC_REQUIRE(mc::gget(JOIN) == (joining && pending == 0 ? 1 : 0), "the join is released exactly when nothing is pending");
		if (joining && pending == 0 && !checked) { checked = true; int e = 0; for (int q = 0; q < n; q++) if (added[q] && thrown[q] && gone[q] && !awaited[q]) e |= 1 << q; MC_REQUIRE(expect == e, "the join delivers exactly the exceptions of the operations dropped by then"); }
	}
	for (int i = 0; i < n; i++) { if (added[i] && !done[i]) { done[i] = true; l[i].complete(); } { auto d = std::move(t[i]); } }
	if (!joining) { int m = 0; [](async_scope& s, int* m) -> Fire { try { co_await s; } catch (async_scope_exception& e) { *m = mask(e); } mc::gadd(JOIN); }(s, &m); int e = 0; for (int i = 0; i < n; i++) if (added[i] && thrown[i] && !awaited[i]) e |= 1 << i; MC_REQUIRE(m == e, "the join delivers exactly the exceptions of the dropped operations"); }
	MC_REQUIRE(mc::gget(JOIN) == 1, "released once"); MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "all freed");
}

// readiness queried while the operation completes elsewhere
MC_SCENARIO("C05.is_ready", D()) {
	Val t0(0); target = &t0; int data[1] = {}; Later l; bool thrown = mc::flip("throw"), drop = mc::flip("drop"); auto* s = new async_scope; std::thread c([&] { l.complete(); });
	{ auto t = s->add(op<Val>(Probe(0), &l, thrown, data)); bool ready = false;
	for (int i = 0; i < 2 && !ready; i++) ready = t.is_ready();
	if (ready) MC_REQUIRE(mc::gget(END) == 1 && t.is_ready(), "ready only once finished, and from then on");
	if (!drop) individually(std::move(t), 0, thrown); if (ready && !drop) MC_REQUIRE(mc::gget(GOT) == 1, "awaiting an operation that is ready does not suspend"); mc::outcome(ready); }
	joinAndFree(s, 1, data, drop && thrown ? 1 : 0); c.join(); fin(drop ? 0 : 1, 1);
}
// many operations in one scope: every one joined, every dropped exception delivered
struct Many { int n; std::vector<Held> l; std::vector<int> state; int ended = 0, joined = 0; explicit Many(int n) : n(n), l(n), state(n, 0) {} };
static bool late(int i, int mod) { return mod && i % mod == mod - 1; }
static task<Val> manyOp(Many* m, int i, bool late) { Val local(i); MC_REQUIRE(++m->state[i] == 1, "each operation is started exactly once"); if (late) co_await m->l[i].ref(); MC_REQUIRE(local.get() == i, "locals"); m->ended++; if (i % 3 == 2) boom(100 + i); co_return Val(i); }
static Fire manyJoin(Many* m, async_scope& s, std::vector<char> expect) { int got = 0, want = 0; for (char c : expect) want += c; try { co_await s; } catch (async_scope_exception& e) { for (auto& x : e.m_exceptions) try { std::rethrow_exception(x); } catch (Boom& b) { int i = b.v - 100; MC_REQUIRE(i >= 0 && i < m->n && expect[i], "the join delivers exactly the exceptions of the dropped operations"); expect[i] = 0; got++; } } MC_REQUIRE(got == want, "no exception is lost"); MC_REQUIRE(m->ended == m->n, "the join is not released before every added operation finished"); m->joined++; }
static Fire manyOwn(Many* m, scoped_task<Val> t, int i, int* got) { bool thrown = false; try { Val v = co_await std::move(t); MC_REQUIRE(v.get() == i, "an awaited operation delivers its own value"); } catch (Boom& b) { thrown = true; MC_REQUIRE(b.v == 100 + i, "own exception"); } MC_REQUIRE(thrown == (i % 3 == 2), "exception iff thrown"); ++*got; (void)m; }
MC_SCENARIO("C05.many", S().lim(100000)) {
	{ static const int ns[] = { 16, 17, 33, 64, 65, 129, 257, 300 }; Many m(ns[mc::choose(8, "count")]); int mod = mc::choose(4, "late"), order = mc::choose(4, "order"), keep = mc::choose(3, "awaited"); bool joinFirst = mc::flip("join before the completions"); async_scope s; int own = 0, got = 0; std::vector<char> ex(m.n, 0);
	for (int i = 0; i < m.n; i++) { auto t = s.add(manyOp(&m, i, late(i, mod))); MC_REQUIRE(m.state[i] == 1, "an added operation starts at once"); if (keep && i % 4 < keep) { own++; manyOwn(&m, std::move(t), i, &got); } else ex[i] = i % 3 == 2; }
	if (joinFirst) manyJoin(&m, s, ex);
	for (int k = 0; k < m.n; k++) { int i = nth(order, k, m.n); if (late(i, mod)) { MC_REQUIRE(m.joined == 0, "the join is not released before every added operation finished"); m.l[i].complete(); } }
	if (!joinFirst) manyJoin(&m, s, ex);
	MC_REQUIRE(m.joined == 1, "the join is released"); MC_REQUIRE(got == own, "awaited operations deliver to their awaiter"); }
	mc::noLive();
}
// whichever construction or move of a result throws, the awaiter of that operation receives the exception, or the join when nobody awaits it
static task<TV> tvOp(Later* l) { Val local(1); if (l) co_await l->ref(); co_return TV(42); }
static Fire tvAwait(scoped_task<TV> t, int* got) { try { TV v = co_await std::move(t); MC_REQUIRE(v.v.get() == 42, "value"); *got = 1; } catch (Boom& b) { MC_REQUIRE(b.v == 99, "that exception"); *got = 2; } }
static Fire tvJoin(async_scope& s, int* joined) { try { co_await s; *joined = 1; } catch (async_scope_exception&) { *joined = 2; } }
MC_SCENARIO("C05.throwing_moves", S().lim(100000)) {
	{ async_scope s; Later l; int k = mc::choose(8, "k-th"), got = 0, joined = 0; bool late = mc::flip("late"), held = mc::flip("awaited"), afterwards = mc::flip("await after completion"); TV::arm(k);
	{ auto t = s.add(tvOp(late ? &l : nullptr)); if (held && afterwards && late) l.complete(); if (held) tvAwait(std::move(t), &got); }
	if (late && !(held && afterwards)) { tvJoin(s, &joined); MC_REQUIRE(joined == 0, "the operation is pending"); l.complete(); } else tvJoin(s, &joined);
	bool f = TV::fired(k); MC_REQUIRE(joined == (f && !held ? 2 : 1), "the join reports the exception nobody awaited, and only that"); MC_REQUIRE(got == (held ? (f ? 2 : 1) : 0), "the awaiter receives the value or the exception"); }
	mc::noLive();
}
// operations whose result is an rvalue reference
struct RAw { Later* l; bool thrown; bool await_ready() { return false; } template<class H> void await_suspend(H h) { l->await_suspend(h); } Val&& await_resume() { mc::gadd(END); if (thrown) boom(100); return std::move(*target); } };
static Fire rrefAwait(scoped_task<Val> t, bool thrown) { bool got = false; try { Val v = co_await std::move(t); MC_REQUIRE(v.get() == 0 && target->moved(), "the object is moved into the result"); } catch (Boom& b) { got = true; MC_REQUIRE(b.v == 100, "own exception"); } MC_REQUIRE(got == thrown, "own outcome"); mc::gadd(60); }
MC_SCENARIO("C05.kind.rref", D()) {
	{ Val t0(0); target = &t0; Later l; bool thrown = mc::flip("throw"), drop = mc::flip("drop"); async_scope s; std::thread a([&] { l.complete(); });
	{ auto t = s.add(RAw{ &l, thrown }); if (!drop) rrefAwait(std::move(t), thrown); }
	auto f = [&]() -> task<int> { int m = 0; try { co_await s; } catch (async_scope_exception& e) { m = mask(e); } co_return m; };
	MC_REQUIRE(sync_wait(f()) == (drop && thrown ? 1 : 0), "the join delivers what nobody awaited"); a.join(); MC_REQUIRE(mc::gget(END) == 1 && mc::gget(60) == (drop ? 0 : 1), "once"); }
	mc::noLive();
}
// a finished operation is dropped while the scope is joined: its exception is reported by that join or the next one
MC_SCENARIO("C05.drop_during_join", D()) {
	Val t0(0); target = &t0; int data[2] = {}; { async_scope s; auto t = s.add(op<Val>(Probe(0), nullptr, true, data)); auto u = s.add(op<Val>(Probe(1), nullptr, mc::flip("second throws"), data + 1)); bool two = mc::gget(END) == 2; MC_REQUIRE(two, "both ran");
	std::thread a([&] { auto d = std::move(t); }); bool mine = mc::flip("drop the second first"); if (mine) { auto d = std::move(u); }
	auto f = [&]() -> task<int> { int m = 0; try { co_await s; } catch (async_scope_exception& e) { m = mask(e); } co_return m; };
	int m1 = sync_wait(f()); a.join(); { auto d = std::move(u); } int m2 = sync_wait(f());
	MC_REQUIRE((m1 & m2) == 0 && ((m1 | m2) & 1), "a dropped operation's exception is delivered exactly once"); mc::outcome(m1 * 4 + m2); }
	MC_REQUIRE(mc::gget(FREED) == 2, "freed once"); mc::gset(JOIN, 1); fin(0, 2);
}
// values with operators of their own: none of them may be used
MC_SCENARIO("C05.odd_values", S()) { oddways::odd<7, 15, 19>(); }
