// C04: awaiting several operations together completes exactly once, after all of them.
#include "common.h"
#include "oddways.h"
#include "macoro/task.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
enum { RES, END, START = 10 /* + index */ };
static Val* target;

template<class T> task<T> op(int i, Later* l, bool thrown, int* data) {
	mc::gadd(START + i); Val local(i);
	if (l) co_await l->ref();
	if (data) *data = 1;
	mc::gadd(END);
	if (thrown) boom(100 + i);
	if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *target; else co_return T(i);
}
template<class T> task<T> macroOp(int i, Later* l, bool thrown, int* data) {
	MC_BEGIN(task<T>, i, l, thrown, data, local = Val(i));
	mc::gadd(START + i);
	if (l) MC_AWAIT(l->ref());
	if (data) *data = 1;
	mc::gadd(END);
	if (thrown) boom(100 + i);
	if constexpr (std::is_void_v<T>) { MC_RETURN_VOID(); } else if constexpr (std::is_reference_v<T>) { MC_RETURN(*target); } else { MC_RETURN(T(i)); }
	MC_END();
}
// a plain awaiter, not a task
struct Raw { int i; Later* l; bool thrown; int* data; bool await_ready() { mc::gadd(START + i); return !l; } template<class H> void await_suspend(H h) { l->await_suspend(h); }
	Val await_resume() { if (data) *data = 1; mc::gadd(END); if (thrown) boom(100 + i); return Val(i); } };
// read more than once: an outcome stays where it is until it is moved out
template<class R> void outcome(int i, bool thrown, R&& r) {
	for (int k = 0; k < 3; k++) {
		bool got = false;
		try {
			using T = decltype(r.result());
			if constexpr (std::is_void_v<T>) r.result();
			else { auto&& v = r.result(); MC_REQUIRE(v.get() == i, "each operation's value is found at its own position"); if (&v == target) MC_REQUIRE(true, ""); }
		} catch (Boom& b) { got = true; MC_REQUIRE(b.v == 100 + i, "each operation's exception is found at its own position"); }
		MC_REQUIRE(got == thrown, "an exception is reported exactly when the operation threw, every time the outcome is read");
	}
	if (thrown) { bool got = false; try { std::move(r).result(); } catch (Boom& b) { got = b.v == 100 + i; } MC_REQUIRE(got, "moving the outcome out reports the exception as well"); }
}
static void after(int n, int* data) {
	MC_REQUIRE(mc::gget(END) == n, "the awaiter is not resumed before every operation finished");
	for (int i = 0; i < n; i++) { MC_REQUIRE(mc::gget(START + i) == 1, "each operation is started exactly once"); if (data) MC_REQUIRE(data[i] == 1, "writes of every operation are visible to the awaiter"); }
	MC_REQUIRE(mc::gadd(RES) == 1, "the awaiter is resumed at most once");
	mc::outcome(mc::tid());
}
struct Shape { int n; bool later[3]; bool thrown[3]; bool macro; };
static Shape pick(int n, bool forceLater = false) { Shape s{}; s.n = n; for (int i = 0; i < n; i++) { s.later[i] = forceLater || mc::flip("suspends"); s.thrown[i] = mc::flip("throws"); } s.macro = mc::flip("macro"); return s; }
template<class T> task<T> mk(const Shape& s, int i, Later* l, int* data) { auto* x = s.later[i] ? &l[i] : nullptr; return s.macro ? macroOp<T>(i, x, s.thrown[i], data ? data + i : nullptr) : op<T>(i, x, s.thrown[i], data ? data + i : nullptr); }

static Fire tuple0() { auto r = co_await when_all_ready(); static_assert(std::tuple_size_v<decltype(r)> == 0); mc::gadd(RES); }
static Fire tuple1(Shape s, Later* l, int* d) { auto a = when_all_ready(mk<Val>(s, 0, l, d)); MC_REQUIRE(mc::gget(START) == 0, "operations are not started before the await"); auto r = co_await std::move(a); after(1, d); outcome(0, s.thrown[0], std::get<0>(r)); }
static Fire tuple2(Shape s, Later* l, int* d) { auto r = co_await when_all_ready(mk<Val>(s, 0, l, d), mk<void>(s, 1, l, d)); after(2, d); outcome(0, s.thrown[0], std::get<0>(r)); outcome(1, s.thrown[1], std::get<1>(r)); }
static Fire tuple2raw(Shape s, Later* l, int* d) {
	auto lv = mk<Val&>(s, 0, l, d);
	{ auto r = co_await when_all_ready(lv, Raw{ 1, s.later[1] ? l + 1 : nullptr, s.thrown[1], d ? d + 1 : nullptr }); after(2, d); outcome(0, s.thrown[0], std::get<0>(r)); outcome(1, s.thrown[1], std::get<1>(r));
	  if (!s.thrown[0]) MC_REQUIRE(&std::get<0>(r).result() == target, "a reference result is the same object"); }
	MC_REQUIRE(lv.is_ready(), "an operation passed as an lvalue stays with its owner");
}
static Fire tuple3(Shape s, Later* l, int* d) { auto r = co_await when_all_ready(mk<Val>(s, 0, l, d), mk<Val>(s, 1, l, d), mk<Val>(s, 2, l, d)); after(3, d); outcome(0, s.thrown[0], std::get<0>(r)); outcome(1, s.thrown[1], std::get<1>(r)); outcome(2, s.thrown[2], std::get<2>(r)); }
template<class T> Fire range(Shape s, Later* l, int* d, bool viaMove) {
	std::vector<task<T>> v; for (int i = 0; i < s.n; i++) v.push_back(mk<T>(s, i, l, d));
	auto a = when_all_ready(std::move(v)); MC_REQUIRE(mc::gget(START) == 0, "operations are not started before the await");
	auto r = co_await std::move(a); after(s.n, d); MC_REQUIRE((int)r.size() == s.n, "one entry per operation");
	for (int i = 0; i < s.n; i++) { outcome(i, s.thrown[i], r[i]); if (viaMove && !std::is_void_v<T> && !s.thrown[i]) { if constexpr (!std::is_void_v<T>) { auto v = std::move(r[i]).result(); MC_REQUIRE(v.get() == i, "moved out value"); } } }
}
static Fire lvalueAll(Shape s, Later* l, int* d) {
	std::vector<task<Val>> v; for (int i = 0; i < s.n; i++) v.push_back(mk<Val>(s, i, l, d));
	auto a = when_all_ready(std::move(v)); auto& r = co_await a; after(s.n, d); for (int i = 0; i < s.n; i++) outcome(i, s.thrown[i], r[i]);
	auto& r2 = co_await a; MC_REQUIRE(&r == &r2 && mc::gget(END) == s.n, "awaiting a finished set again does not run it again");
}
// nested: a set inside a set
static task<int> inner(Shape s, Later* l, int* d) { auto r = co_await when_all_ready(mk<Val>(s, 0, l, d), mk<Val>(s, 1, l, d)); int n = 0; try { n += std::get<0>(r).result().get(); } catch (Boom&) { n += 10; } try { n += std::get<1>(r).result().get(); } catch (Boom&) { n += 20; } co_return n; }
static Fire nested(Shape s, Later* l, int* d) { auto r = co_await when_all_ready(inner(s, l, d), mk<Val>(s, 2, l, d)); after(3, d); MC_REQUIRE(std::get<0>(r).result() == (s.thrown[0] ? 10 : 0) + (s.thrown[1] ? 20 : 1), "nested outcome"); outcome(2, s.thrown[2], std::get<1>(r)); }
static void launch(int form, Shape s, Later* l, int* d) {
	switch (form) {
	case 0: range<Val>(s, l, d, true); break; case 1: range<void>(s, l, d, false); break; case 2: lvalueAll(s, l, d); break;
	case 3: tuple1(s, l, d); break; case 4: tuple2(s, l, d); break; case 5: tuple2raw(s, l, d); break; case 6: tuple3(s, l, d); break; case 7: nested(s, l, d); break;
	}
}
static int arity(int form) { static const int a[] = { 3, 3, 3, 1, 2, 2, 3, 3 }; return a[form]; }
static void fin() { MC_REQUIRE(mc::gget(RES) == 1, "the awaiter is resumed exactly once"); MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "all frames, values and locals are freed exactly once"); }

// all shapes and completion orders, one thread
MC_SCENARIO("C04.orders", S().sh(4)) {
	Val t(0); target = &t; int form = mc::choose(8, "form"), n = arity(form); if (form <= 2) n = mc::choose(4, "count");
	Shape s = pick(n); Later l[3]; launch(form, s, l, nullptr);
	std::vector<int> pend; for (int i = 0; i < n; i++) if (s.later[i]) pend.push_back(i);
	while (!pend.empty()) {
		MC_REQUIRE(mc::gget(RES) == 0, "not resumed while an operation is pending");
		for (int i = 0; i < n; i++) MC_REQUIRE(mc::gget(START + i) == 1, "every operation is started by the await");
		int k = mc::choose((int)pend.size(), "next"); l[pend[k]].complete(); pend.erase(pend.begin() + k);
	}
	fin();
}
MC_SCENARIO("C04.empty", S()) { Val t(0); target = &t; if (mc::flip()) tuple0(); else { Shape s{}; s.n = 0; range<Val>(s, nullptr, nullptr, false); } fin(); }
// completions on distinct threads racing with each other and with the await
static void race(int form, int n, bool weak = false) {
	Val t(0); target = &t; Shape s{}; s.n = n;
	for (int i = 0; i < n; i++) { s.later[i] = true; } if (!weak) { s.thrown[0] = mc::flip("throw"); s.macro = mc::flip("macro"); }
	Later l[3]; int d[3] = {}; std::vector<std::thread> th; th.reserve(4);
	for (int i = 0; i < n; i++) th.emplace_back([&, i] { l[i].complete(); });
	launch(form, s, l, d);
	for (auto& x : th) x.join();
	fin();
}
MC_SCENARIO("C04.race1.tuple", D()) { race(3, 1); }
MC_SCENARIO("C04.race2.tuple", D()) { race(4, 2); }
MC_SCENARIO("C04.race2.raw", D()) { race(5, 2); }
MC_SCENARIO("C04.race3.tuple", D()) { race(6, 3); }
MC_SCENARIO("C04.race3.nested", D()) { race(7, 3); }
MC_SCENARIO("C04.race2.range", D()) { race(0, 2); }
MC_SCENARIO("C04.race3.range", D()) { race(0, 3); }
MC_SCENARIO("C04.race2.range_void", D()) { race(1, 2); }
MC_SCENARIO("C04.race2.lvalue", D()) { race(2, 2); }
MC_SCENARIO("C04.race2.weak", P(4, 6).weak(2, 4).sh(4)) { race(4, 2, true); }
MC_SCENARIO("C04.race3.weak", P(2, 4).weak(1, 2).sh(4)) { race(0, 3, true); }
// waited for synchronously: the result container outlives the coroutine, threads finish late
MC_SCENARIO("C04.sync", D()) {
	Val t(0); target = &t; Later l[2]; int d[2] = {}; Shape s{}; s.n = 2; s.later[0] = s.later[1] = true; s.thrown[1] = true;
	std::thread a([&] { l[0].complete(); }), b([&] { l[1].complete(); });
	{ auto r = sync_wait(when_all_ready(mk<Val>(s, 0, l, d), mk<Val>(s, 1, l, d))); after(2, d); outcome(0, false, std::get<0>(r)); outcome(1, true, std::get<1>(r)); }
	a.join(); b.join(); fin();
}
// starting an operation on the awaiting thread while another one already completes elsewhere
MC_SCENARIO("C04.start_race", D()) {
	Val t(0); target = &t; Later l[3]; int d[3] = {}; Shape s{}; s.n = 3; s.later[0] = s.later[2] = true;
	std::thread a([&] { l[0].complete(); }), b([&] { l[2].complete(); });
	range<Val>(s, l, d, false); a.join(); b.join(); fin();
}
// never awaited: nothing runs, everything is freed
MC_SCENARIO("C04.dropped", S()) { Val t(0); target = &t; Shape s{}; s.n = 2; { auto a = when_all_ready(mk<Val>(s, 0, nullptr, nullptr), mk<void>(s, 1, nullptr, nullptr)); (void)a; } MC_REQUIRE(mc::gget(END) == 0, "a set that is never awaited runs nothing"); MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "freed"); }
// many operations: started once each, finished in any order, none lost
struct Many { int n; std::vector<Held> l; std::vector<int> started; int ended = 0, resumed = 0; explicit Many(int n) : n(n), l(n), started(n, 0) {} bool late(int i, int mod) { return mod && i % mod == mod - 1; } };
template<class T> task<T> manyOp(Many* m, int i, bool late) { Val local(i); MC_REQUIRE(++m->started[i] == 1, "each operation is started exactly once"); if (late) co_await m->l[i].ref(); MC_REQUIRE(local.get() == i, "locals"); m->ended++; if (i % 5 == 2) boom(100 + i); if constexpr (!std::is_void_v<T>) co_return Val(i); }
template<class T> Fire manyAll(Many* m, int mod, bool twice) { std::vector<task<T>> v; for (int i = 0; i < m->n; i++) v.push_back(manyOp<T>(m, i, m->late(i, mod))); auto a = when_all_ready(std::move(v)); auto r = co_await std::move(a); MC_REQUIRE(m->ended == m->n, "the awaiter is not resumed before every operation finished"); MC_REQUIRE(++m->resumed == 1, "the awaiter is resumed at most once"); MC_REQUIRE((int)r.size() == m->n, "one entry per operation"); for (int i = 0; i < m->n; i++) outcome(i, i % 5 == 2, r[i]); (void)twice; }
MC_SCENARIO("C04.many", S().lim(100000)) {
	{ static const int ns[] = { 5, 16, 17, 33, 63, 65, 128, 257, 300 }; Many m(ns[mc::choose(9, "count")]); int mod = mc::choose(4, "late"), order = mc::choose(4, "order"); if (mc::flip("void")) manyAll<void>(&m, mod, false); else manyAll<Val>(&m, mod, false);
	for (int i = 0; i < m.n; i++) MC_REQUIRE(m.started[i] == 1, "every operation is started by the await");
	for (int k = 0; k < m.n; k++) { int i = nth(order, k, m.n); if (m.late(i, mod)) { MC_REQUIRE(m.resumed == 0, "not resumed while an operation is pending"); m.l[i].complete(); } } MC_REQUIRE(m.resumed == 1, "the awaiter is resumed exactly once"); }
	mc::noLive();
}
template<size_t... I> static Fire manyTuple(Many* m, int mod, std::index_sequence<I...>) { auto r = co_await when_all_ready(manyOp<std::conditional_t<I % 3 == 1, void, Val>>(m, (int)I, m->late((int)I, mod))...); MC_REQUIRE(m->ended == m->n && ++m->resumed == 1, "the awaiter is resumed once, after every operation finished"); (outcome((int)I, I % 5 == 2, std::get<I>(r)), ...); }
MC_SCENARIO("C04.many_tuple", S().lim(20000)) {
	{ Many m(12); int mod = mc::choose(4, "late"), order = mc::choose(4, "order"); manyTuple(&m, mod, std::make_index_sequence<12>{}); for (int k = 0; k < m.n; k++) { int i = nth(order, k, m.n); if (m.late(i, mod)) { MC_REQUIRE(m.resumed == 0, "not resumed while an operation is pending"); m.l[i].complete(); } } MC_REQUIRE(m.resumed == 1, "the awaiter is resumed exactly once"); }
	mc::noLive();
}
// whichever construction or move of a result throws, exactly that operation reports the exception and the others their values
static task<TV> tvOp(Later* l) { Val local(1); if (l) co_await l->ref(); co_return TV(42); }
static Fire tvAll(Later* l, bool tuple, int k, bool* done) {
	int bad = 0, good = 0; auto one = [&](auto&& r) { try { auto&& v = std::forward<decltype(r)>(r).result(); MC_REQUIRE(v.v.get() == 42, "value"); good++; } catch (Boom& b) { MC_REQUIRE(b.v == 99, "that exception"); bad++; } };
	if (tuple) { auto r = co_await when_all_ready(tvOp(l), tvOp(nullptr), tvOp(l + 1)); one(std::get<0>(r)); one(std::get<1>(r)); one(std::move(std::get<2>(r))); }
	else { std::vector<task<TV>> v; v.push_back(tvOp(l)); v.push_back(tvOp(nullptr)); v.push_back(tvOp(l + 1)); auto r = co_await when_all_ready(std::move(v)); one(r[0]); one(r[1]); one(std::move(r[2])); }
	MC_REQUIRE(good + bad == 3 && (bad == 1) == TV::fired(k), "one failing move makes exactly one operation fail"); *done = true;
}
MC_SCENARIO("C04.throwing_moves", S().lim(100000)) { { Later l[2]; bool done = false; int k = mc::choose(13, "k-th"); TV::arm(k); bool rev = mc::flip("order"); tvAll(l, mc::flip("tuple"), k, &done); MC_REQUIRE(!done, "pending"); l[rev].complete(); MC_REQUIRE(!done, "pending"); l[!rev].complete(); MC_REQUIRE(done, "resumed"); } mc::noLive(); }
// values with operators of their own: none of them may be used
MC_SCENARIO("C04.odd_values", S()) { oddways::odd<5, 6, 14>(); }
