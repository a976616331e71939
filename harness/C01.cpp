// C01: lazy tasks run once, on first await, and deliver exactly their outcome.
#include "common.h"
#include "oddways.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
enum { START, END, RES, CHK };

// ---- kinds of result --------------------------------------------------------
static Val* refTarget;
template<class T> struct K;
template<> struct K<void> { static void check() {} };
template<> struct K<int> { static int make() { return 42; } static void check(int v) { MC_REQUIRE(v == 42, "the awaiter receives the value the body returned"); } };
template<> struct K<Val> { static Val make() { return Val(42); } static void check(const Val& v) { MC_REQUIRE(v.get() == 42, "the awaiter receives the value the body returned"); } };
template<> struct K<MVal> { static MVal make() { return MVal(42); } static void check(const MVal& v) { MC_REQUIRE(v.get() == 42, "the awaiter receives the value the body returned"); } };
template<> struct K<Val&> { static Val& make() { return *refTarget; } static void check(Val& v) { MC_REQUIRE(&v == refTarget, "the awaiter receives the reference the body returned"); } };
template<> struct K<std::unique_ptr<int>> { static std::unique_ptr<int> make() { return std::make_unique<int>(42); } static void check(const std::unique_ptr<int>& v) { MC_REQUIRE(v && *v == 42, "the awaiter receives the value the body returned"); } };
using UP = std::unique_ptr<int>;

// ---- bodies -----------------------------------------------------------------
// susp: number of suspensions; thrown: ends with an exception
template<class T> task<T> body(Val param, Later* l, int susp, bool thrown) {
	mc::gadd(START);
	Val local(7);
	for (int i = 0; i < susp; i++) co_await l[i].ref();
	MC_REQUIRE(param.get() == 3 && local.get() == 7, "parameters and locals live until the body ends");
	mc::gadd(END);
	if (thrown) boom(5);
	if constexpr (std::is_void_v<T>) co_return; else co_return K<T>::make();
}
template<class T> task<T> macroBody(Val param, Later* l, int susp, bool thrown) {
	if constexpr (std::is_void_v<T>) {
		MC_BEGIN(task<T>, param = std::move(param), l, susp, thrown, i = 0, local = Val(7));
		mc::gadd(START);
		for (; i < susp; i++) MC_AWAIT(l[i].ref());
		MC_REQUIRE(param.get() == 3 && local.get() == 7, "parameters and locals live until the body ends");
		mc::gadd(END);
		if (thrown) boom(5);
		MC_RETURN_VOID();
		MC_END();
	} else {
		MC_BEGIN(task<T>, param = std::move(param), l, susp, thrown, i = 0, local = Val(7));
		mc::gadd(START);
		for (; i < susp; i++) MC_AWAIT(l[i].ref());
		MC_REQUIRE(param.get() == 3 && local.get() == 7, "parameters and locals live until the body ends");
		mc::gadd(END);
		if (thrown) boom(5);
		MC_RETURN(K<T>::make());
		MC_END();
	}
}
template<class T> task<T> mk(bool macro, Later* l, int susp, bool thrown) {
	return macro ? macroBody<T>(Val(3), l, susp, thrown) : body<T>(Val(3), l, susp, thrown);
}
static void early() { MC_REQUIRE(mc::gget(START) == 0, "no part of the body runs before the first await"); }
static void resumed(int ends) {
	MC_REQUIRE(mc::gget(START) == 1, "the body starts exactly once");
	MC_REQUIRE(mc::gget(END) == ends, "the awaiter is not resumed before the body finished");
	mc::gadd(RES);
}
// how: 0 rvalue, 1 lvalue, 2 lvalue then rvalue, 3 when_ready then rvalue, 4 outer task chain, 5 lvalue twice
template<class T> task<T> outer(task<T> t) { co_return co_await std::move(t); }
template<class T> task<T> outerRefd(task<T>& t) { if constexpr (std::is_void_v<T>) co_await t; else co_return K<T>::make(); }
template<class T> Fire drive(task<T> t, int how, bool thrown) {
	early();
	bool got = false;
	auto takeR = [&]() -> task<void> { co_return; };
	(void)takeR;
	try {
		if (how == 1 || how == 2 || how == 5) {
			bool g = false;
			try { if constexpr (std::is_void_v<T>) co_await t; else { auto&& v = co_await t; K<T>::check(v); } }
			catch (Boom& b) { MC_REQUIRE(thrown && b.v == 5, "the awaiter receives the exception the body threw"); g = true; }
			MC_REQUIRE(g == thrown, "an exception is delivered exactly when the body threw");
			resumed(1); MC_REQUIRE(t.is_ready(), "a finished task reports ready");
			got = g;
			if (how == 5) { try { if constexpr (std::is_void_v<T>) co_await t; else { auto&& v = co_await t; K<T>::check(v); } } catch (Boom&) { MC_REQUIRE(thrown, "same outcome again"); } }
		}
		if (how == 3) { co_await t.when_ready(); resumed(1); MC_REQUIRE(t.is_ready(), "a finished task reports ready"); }
		if (how == 0 || how == 2 || how == 3) {
			got = false;
			if constexpr (std::is_void_v<T>) co_await std::move(t); else { auto&& v = co_await std::move(t); K<T>::check(v); }
		}
		if (how == 4) { auto o = outer<T>(std::move(t)); early(); if constexpr (std::is_void_v<T>) co_await std::move(o); else { auto&& v = co_await std::move(o); K<T>::check(v); } }
	} catch (Boom& b) { MC_REQUIRE(thrown && b.v == 5, "the awaiter receives the exception the body threw"); got = true; }
	MC_REQUIRE(got == thrown, "an exception is delivered exactly when the body threw");
	if (how == 0 || how == 4) resumed(1);
	MC_REQUIRE(mc::gget(START) == 1 && mc::gget(END) == 1, "the body ran exactly once");
	mc::gadd(CHK);
}
template<class T> void shapes() {
	Val target(42); refTarget = &target;
	bool macro = mc::flip("macro"); int susp = mc::choose(3, "suspensions"); bool thrown = mc::flip("throw"); int how = mc::choose(6, "await form");
	if (std::is_same_v<T, MVal> || std::is_same_v<T, UP>) {}
	Later l[2];
	{
		auto t = mk<T>(macro, l, susp, thrown);
		early(); MC_REQUIRE(!t.is_ready(), "a task that has not run is not ready");
		if (mc::flip("moved")) { task<T> u; u = std::move(t); t = std::move(u); MC_REQUIRE(u.handle() == nullptr, "a moved-from task is empty"); }
		drive<T>(std::move(t), how, thrown);
		for (int i = 0; i < susp; i++) { MC_REQUIRE(mc::gget(CHK) == 0 && mc::gget(END) == 0, "not finished before its last suspension is over"); l[i].complete(); }
	}
	MC_REQUIRE(mc::gget(CHK) == 1, "the awaiter is resumed exactly once");
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "parameters, locals and result are destroyed exactly once");
}
MC_SCENARIO("C01.shapes.void", S()) { shapes<void>(); }
MC_SCENARIO("C01.shapes.int", S()) { shapes<int>(); }
MC_SCENARIO("C01.shapes.val", S()) { shapes<Val>(); }
MC_SCENARIO("C01.shapes.mval", S()) { shapes<MVal>(); }
MC_SCENARIO("C01.shapes.ref", S()) { shapes<Val&>(); }
#ifndef MC_LESS
MC_SCENARIO("C01.shapes.uptr", S()) { shapes<UP>(); }
#endif

// ---- destruction at any point -------------------------------------------------
template<class T> void destroyAt() {
	Val target(42); refTarget = &target;
	Later l[2]; bool macro = mc::flip("macro"), thrown = mc::flip("throw"); int at = mc::choose(4, "destroy at");
	auto t = mk<T>(macro, l, 2, thrown);
	// drive it by hand: start, then resume through the recorded handles. The continuation is a no-op.
	if (at > 0) {
		t.handle().promise().set_continuation(macoro::noop_coroutine(), std::source_location::current());
		t.handle().resume(); MC_REQUIRE(mc::gget(START) == 1, "started");
	}
	if (at > 1) l[0].complete();
	if (at > 2) { l[1].complete(); MC_REQUIRE(t.is_ready(), "ready at the end"); }
	if (mc::flip("assign over")) { auto u = mk<T>(macro, l, 0, false); t = std::move(u); MC_REQUIRE(!u.handle(), "a moved-from task is empty"); }
	{ task<T> dead(std::move(t)); }
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "destroying a task at any point frees frame, parameters, locals and result once");
}
MC_SCENARIO("C01.destroy.void", S()) { destroyAt<void>(); }
MC_SCENARIO("C01.destroy.val", S()) { destroyAt<Val>(); }
MC_SCENARIO("C01.destroy.ref", S()) { destroyAt<Val&>(); }

// ---- empty and moved-from tasks -----------------------------------------------
template<class T> Fire awaitEmpty(int form) {
	task<T> t; int got = 0;
	if (form >= 3) { task<T> u = mk<T>(false, nullptr, 0, false); task<T> v(std::move(u)); t = std::move(u); }
	task<T> over; if (form >= 6) { over = mk<T>(false, nullptr, 0, false); t = mk<T>(false, nullptr, 0, false); over = std::move(t); } // assigned over a task that held one
	MC_REQUIRE(!t.is_ready(), "an empty task is not ready");
	try { if (form % 3 == 0) co_await std::move(t); else if (form % 3 == 1) co_await t; else { co_await t.when_ready(); got = 2; } }
	catch (broken_promise&) { got = 1; }
	MC_REQUIRE(got == (form % 3 == 2 ? 2 : 1), "an empty task reports a broken promise");
	mc::gadd(CHK);
}
MC_SCENARIO("C01.empty", S()) {
	Val target(42); refTarget = &target; int form = mc::choose(9, "form");
	switch (mc::choose(3, "type")) { case 0: awaitEmpty<void>(form); break; case 1: awaitEmpty<Val>(form); break; default: awaitEmpty<Val&>(form); }
	MC_REQUIRE(mc::gget(CHK) == 1, "awaiting an empty task continues at once");
	MC_REQUIRE(mc::gget(START) == 0, "a dropped task never runs");
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "all freed");
}
// self move assignment keeps the task
MC_SCENARIO("C01.selfmove", S()) {
	Later l[1]; auto t = mk<Val>(false, l, 1, false); auto& r = t; t = std::move(r);
	drive<Val>(std::move(t), 0, false); l[0].complete(); MC_REQUIRE(mc::gget(CHK) == 1, "self move keeps the task"); mc::noLive();
}

// ---- task trees: every tree shape of nested awaits, every leaf outcome -----------
static int expectSum; static int seqNo;
static task<int> tree(int depth, int& budget, std::vector<std::unique_ptr<Later>>& ls) {
	mc::gadd(START);
	int my = ++seqNo, sum = my, kids = depth == 0 ? 0 : mc::choose(3, "children");
	bool lt = mc::flip("suspend");
	if (lt) { auto* l = (ls.push_back(std::make_unique<Later>()), ls.back().get()); co_await l->ref(); }
	for (int i = 0; i < kids && budget > 0; i++) {
		budget--;
		auto t = tree(depth - 1, budget, ls);
		int before = mc::gget(START);
		if (mc::flip("drop")) continue; 
		MC_REQUIRE(mc::gget(START) == before, "a child starts only when awaited");
		try { sum += co_await t; } catch (Boom& b) { sum += b.v; }
	}
	mc::gadd(END);
	expectSum += my;
	if (depth && mc::flip("throw")) boom(sum);
	co_return sum;
}
static Fire runTree(task<int> t) { int s; try { s = co_await std::move(t); } catch (Boom& b) { s = b.v; } MC_REQUIRE(s == expectSum, "values and exceptions of a task tree arrive unchanged"); mc::gadd(CHK); }
MC_SCENARIO("C01.tree", S().sh(4)) {
	expectSum = 0; seqNo = 0; int budget = mc::thorough() ? 4 : 3; std::vector<std::unique_ptr<Later>> ls;
	runTree(tree(2, budget, ls));
	for (size_t i = 0; i < ls.size(); i++) { MC_REQUIRE(mc::gget(CHK) == 0, "not resumed while a nested operation is pending"); ls[i]->complete(); }
	MC_REQUIRE(mc::gget(CHK) == 1, "root resumed exactly once"); MC_REQUIRE(mc::gget(START) == mc::gget(END), "each started body finished");
}
// deep chain: symmetric transfer, no stack growth
static task<int> chain(int n) { if (n == 0) co_return 0; co_return 1 + co_await chain(n - 1); }
static task<int> loop(int n) { int s = 0; for (int i = 0; i < n; i++) s += co_await chain(0) + 1; co_return s; }
MC_SCENARIO("C01.chain", S()) { MC_REQUIRE(sync_wait(chain(200)) == 200, "deep chains"); MC_REQUIRE(sync_wait(loop(300)) == 300, "long loops"); }

// ---- completion on other threads ---------------------------------------------------
template<class T> static Fire crossDrive(task<T> t, bool thrown, int* data, int n) {
	int got = 0; early();
	try { if constexpr (std::is_void_v<T>) co_await std::move(t); else { auto&& v = co_await std::move(t); K<T>::check(v); } }
	catch (Boom&) { got = 1; }
	MC_REQUIRE(got == thrown, "an exception is delivered exactly when the body threw");
	for (int i = 0; i < n; i++) MC_REQUIRE(data[i] == 1, "writes before the resume are visible");
	resumed(1); mc::outcome(mc::tid());
}
template<class T> void cross(int n) {
	Val target(42); refTarget = &target; Later l[2]; int data[2] = {};
	bool macro = mc::flip("macro"), thrown = mc::flip("throw");
	std::thread a([&] { data[0] = 1; l[0].complete(); }), b;
	if (n > 1) b = std::thread([&] { data[1] = 1; l[1].complete(); });
	crossDrive<T>(mk<T>(macro, l, n, thrown), thrown, data, n);
	a.join(); if (n > 1) b.join();
	MC_REQUIRE(mc::gget(RES) == 1, "the awaiter is resumed exactly once");
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "all freed");
}
MC_SCENARIO("C01.cross1.val", D()) { cross<Val>(1); }
MC_SCENARIO("C01.cross2.val", D()) { cross<Val>(2); }
MC_SCENARIO("C01.cross2.void", D()) { cross<void>(2); }
MC_SCENARIO("C01.cross2.ref", D()) { cross<Val&>(2); }
// started on one thread, destroyed by another after completion
MC_SCENARIO("C01.sync", D()) {
	Later l[1]; auto t = mk<Val>(mc::flip("macro"), l, 1, false);
	std::thread a([&] { l[0].complete(); });
	{ Val v = sync_wait(std::move(t)); MC_REQUIRE(v.get() == 42, "value"); }
	MC_REQUIRE(mc::gget(END) == 1, "finished");
	{ task<Val> gone(std::move(t)); }
	a.join(); mc::noLive();
}
// make_task turns any awaitable into a task with the same outcome
struct Aw { bool thrown; Later* l; bool await_ready() { return false; } template<class H> void await_suspend(H h) { l->await_suspend(h); } Val await_resume() { if (thrown) boom(9); return Val(8); } };
static Fire mkt(task<Val> t, bool thrown) { int got = 0; try { Val v = co_await std::move(t); MC_REQUIRE(v.get() == 8, "value"); } catch (Boom& b) { got = b.v; } MC_REQUIRE(got == (thrown ? 9 : 0), "outcome"); mc::gadd(CHK); }
MC_SCENARIO("C01.make_task", D()) {
	Later l; bool thrown = mc::flip("throw"); auto t = make_task(Aw{ thrown, &l });
	MC_REQUIRE(!l.g.isSet(), "make_task is lazy");
	std::thread a([&] { l.complete(); }); mkt(std::move(t), thrown); a.join();
	MC_REQUIRE(mc::gget(CHK) == 1, "resumed once"); mc::noLive();
}
// the promise is reachable from inside the body
static task<int> prom() { auto& p = co_await getPromise{}; co_return (void*)&p != nullptr; }
MC_SCENARIO("C01.promise", S()) { auto t = prom(); MC_REQUIRE(sync_wait(t) == 1, "value"); }
// a result whose construction throws
struct Thrower { Val v; Thrower(int x) : v(x) { if (x < 0) boom(x); } Thrower(Thrower&& o) : v(std::move(o.v)) {} };
static task<Thrower> thrower(int x) { Val local(1); co_return x; }
static Fire runThrower(int x) { int got = 0; try { auto r = co_await thrower(x); MC_REQUIRE(r.v.get() == x, "value"); } catch (Boom& b) { got = b.v; } MC_REQUIRE(got == (x < 0 ? x : 0), "an exception while constructing the result is delivered"); mc::gadd(CHK); }
MC_SCENARIO("C01.throwing_result", S()) { runThrower(mc::flip() ? 4 : -4); MC_REQUIRE(mc::gget(CHK) == 1, "resumed"); mc::noLive(); }
// whichever construction or move of the result throws, the awaiter receives that exception or the whole value, and nothing is lost or destroyed twice
template<class T> static Fire tvAwait(T t0, int form, int k) {
	{ T t(std::move(t0)); int got = 0;
	try { if (form == 0) { TV v = co_await std::move(t); MC_REQUIRE(v.v.get() == 42, "value"); } else { if (form == 2) co_await t.when_ready(); TV& v = co_await t; MC_REQUIRE(v.v.get() == 42, "value"); } } catch (Boom& b) { got = b.v; }
	MC_REQUIRE((got != 0) == TV::fired(k), "the exception of a failing move reaches the awaiter, exactly then"); MC_REQUIRE(got == 0 || got == 99, "that exception"); }
	mc::gadd(CHK);
}
static task<TV> tvNative(Later* l, int depth) { Val local(1); if (depth) { co_return co_await tvNative(l, depth - 1); } if (l) co_await l->ref(); co_return TV(42); }
static task<TV> tvMacro(Later* l, int depth) { MC_BEGIN(task<TV>, l, depth, local = Val(1)); if (depth) { MC_RETURN_AWAIT(tvMacro(l, depth - 1)); } if (l) MC_AWAIT(l->ref()); MC_RETURN(TV(42)); MC_END(); }
MC_SCENARIO("C01.throwing_moves", D().lim(100000)) {
	bool macro = mc::flip("macro"), late = mc::flip("late"); int depth = mc::choose(3, "depth"), form = mc::choose(3, "form"), k = mc::choose(8, "k-th"); Later l; TV::arm(k);
	std::thread a; if (late) a = std::thread([&] { l.complete(); });
	tvAwait<task<TV>>(macro ? tvMacro(late ? &l : nullptr, depth) : tvNative(late ? &l : nullptr, depth), form, k);
	if (late) a.join(); MC_REQUIRE(mc::gget(CHK) == 1, "resumed once"); mc::noLive();
}
// values with operators of their own: none of them may be used
MC_SCENARIO("C01.odd_values", S()) { oddways::odd<0, 1, 2, 12, 16>(); }
