// C02: eager tasks hand completion to the awaiter exactly once in every interleaving.
#include "common.h"
#include "oddways.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
enum { START, END, RES };
static Val* refTarget;
static void val(const Val& v) { MC_REQUIRE(v.get() == 42, "the awaiter receives the value the body returned"); }
template<class T> void chk(T&& v) { if constexpr (std::is_same_v<std::decay_t<T>, int>) MC_REQUIRE(v == 42, "the awaiter receives the value the body returned"); else val(v); }
template<class T> T mkv() { if constexpr (std::is_reference_v<T>) return *refTarget; else return T(42); }

template<class T> eager_task<T> body(Val p, Later* l, int n, bool thrown, int* data) {
	mc::gadd(START); Val local(7);
	for (int i = 0; i < n; i++) co_await l[i].ref();
	if (data) *data = 1;
	MC_REQUIRE(p.get() == 3 && local.get() == 7, "parameters live until the body ends");
	mc::gadd(END);
	if (thrown) boom(5);
	if constexpr (std::is_void_v<T>) co_return; else co_return mkv<T>();
}
template<class T> eager_task<T> macroBody(Val p, Later* l, int n, bool thrown, int* data) {
	MC_BEGIN(eager_task<T>, p = std::move(p), l, n, thrown, data, i = 0, local = Val(7));
	mc::gadd(START);
	for (; i < n; i++) MC_AWAIT(l[i].ref());
	if (data) *data = 1;
	MC_REQUIRE(p.get() == 3 && local.get() == 7, "parameters live until the body ends");
	mc::gadd(END);
	if (thrown) boom(5);
	if constexpr (std::is_void_v<T>) { MC_RETURN_VOID(); } else { MC_RETURN(mkv<T>()); }
	MC_END();
}
template<class T> eager_task<T> mk(bool macro, Later* l, int n, bool thrown, int* data = nullptr) {
	auto t = macro ? macroBody<T>(Val(3), l, n, thrown, data) : body<T>(Val(3), l, n, thrown, data);
	MC_REQUIRE(mc::gget(START) == 1, "an eager task starts at creation");
	return t;
}
// how: 0 rvalue 1 lvalue 2 when_ready then rvalue 3 is_ready polled first 4 lvalue then rvalue
// after the await the task is destroyed at once by the resumed coroutine
template<class T> Fire drive(eager_task<T> t0, int how, bool thrown, int* data) {
	bool got = false;
	{
		eager_task<T> t(std::move(t0));
		bool ready = false;
		if (how == 3) ready = t.is_ready();
		if (ready) { MC_REQUIRE(mc::gget(END) == 1, "ready only when the body finished"); if (data) MC_REQUIRE(*data == 1, "the body's writes are visible once the task is ready"); }
		int me = mc::tid();
		if (how == 2) { co_await t.when_ready(); MC_REQUIRE(mc::gget(END) == 1, "not resumed before the body finished"); MC_REQUIRE(t.is_ready(), "ready after when_ready"); }
		for (int r = 0; r < 2; r++) {
			if (r == 0 && how != 1 && how != 4) continue;
			if (r == 1 && how == 1) continue;
			got = false;
			try {
				if constexpr (std::is_void_v<T>) { if (r == 0) co_await t; else co_await std::move(t); }
				else { if (r == 0) { auto&& v = co_await t; chk(v); } else { auto&& v = co_await std::move(t); chk(v); } }
			} catch (Boom& b) { MC_REQUIRE(b.v == 5, "the body's exception"); got = true; }
			MC_REQUIRE(got == thrown, "an exception is delivered exactly when the body threw");
			MC_REQUIRE(mc::gget(END) == 1, "not resumed before the body finished");
			if (data) MC_REQUIRE(*data == 1, "the body's writes are visible to the awaiter");
			MC_REQUIRE(t.is_ready(), "a finished task reports ready");
		}
		if (ready) MC_REQUIRE(mc::tid() == me, "once ready an await does not suspend");
	}
	MC_REQUIRE(mc::gadd(RES) == 1, "the awaiter is resumed at most once");
	mc::outcome(mc::tid());
}
template<class T> void race(int n, int how, bool awaitElsewhere = false) {
	Val target(42); refTarget = &target; Later l[2]; int data = 0; bool thrown = mc::flip("throw"), macro = mc::flip("macro");
	{
		auto t = mk<T>(macro, l, n, thrown, &data);
		std::thread a([&] { for (int i = 0; i < n; i++) l[i].complete(); });
		if (awaitElsewhere) { std::thread b([&] { drive<T>(std::move(t), how, thrown, &data); }); b.join(); }
		else drive<T>(std::move(t), how, thrown, &data);
		a.join();
	}
	MC_REQUIRE(mc::gget(RES) == 1, "the awaiter is resumed exactly once");
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "frame, parameters and result are freed exactly once");
}
MC_SCENARIO("C02.race.rvalue", D()) { race<Val>(1, 0); }
MC_SCENARIO("C02.race.lvalue", D()) { race<Val>(1, 1); }
MC_SCENARIO("C02.race.when_ready", D()) { race<Val>(1, 2); }
MC_SCENARIO("C02.race.is_ready", D()) { race<Val>(1, 3); }
MC_SCENARIO("C02.race.twice", D()) { race<Val>(1, 4); }
MC_SCENARIO("C02.race.void", D()) { race<void>(1, mc::choose(5, "form")); }
MC_SCENARIO("C02.race.int", D()) { race<int>(1, mc::choose(5, "form")); }
MC_SCENARIO("C02.race.ref", D()) { race<Val&>(1, mc::choose(5, "form")); }
MC_SCENARIO("C02.race2", D()) { race<Val>(2, mc::choose(5, "form")); }
MC_SCENARIO("C02.elsewhere", D()) { race<Val>(1, mc::choose(5, "form"), true); }
MC_SCENARIO("C02.weak", P(4, 6).weak(2, 4).sh(4)) { race<Val>(1, mc::choose(5, "form")); }

// polling for readiness, then destroying without awaiting
MC_SCENARIO("C02.poll_destroy", D()) {
	Later l[1]; int data = 0; auto* t = new eager_task<Val>(mk<Val>(mc::flip("macro"), l, 1, mc::flip("throw"), &data));
	std::thread a([&] { l[0].complete(); });
	for (int i = 0; i < 2; i++) if (t->is_ready()) { MC_REQUIRE(mc::gget(END) == 1 && data == 1, "ready only once finished"); delete t; t = nullptr; mc::outcome("destroyed"); break; }
	a.join(); if (t) { MC_REQUIRE(t->is_ready(), "ready once the body finished"); delete t; }
	mc::noLive();
}
// a third thread polls while another awaits
MC_SCENARIO("C02.poll_await", D()) {
	Later l[1]; int data = 0; auto t = mk<Val>(false, l, 1, false, &data);
	std::thread a([&] { l[0].complete(); }), p([&] { if (t.is_ready()) { MC_REQUIRE(data == 1, "ready implies the body's writes are visible"); mc::outcome("r"); } else mc::outcome("n"); });
	[](eager_task<Val>& t) -> Fire { auto& v = co_await t; val(v); mc::gadd(RES); }(t);
	a.join(); p.join(); MC_REQUIRE(mc::gget(RES) == 1, "resumed once"); 
}
// sync_wait over an eager task
MC_SCENARIO("C02.sync_wait", D()) {
	Later l[1]; int data = 0; bool thrown = mc::flip("throw"); auto t = mk<Val>(mc::flip("macro"), l, 1, thrown, &data);
	std::thread a([&] { l[0].complete(); }); int got = 0;
	try { Val v = sync_wait(std::move(t)); val(v); } catch (Boom&) { got = 1; }
	MC_REQUIRE(got == thrown && data == 1, "outcome"); { auto d = std::move(t); }
	a.join(); mc::noLive();
}
// an eager task awaiting an eager task awaiting ...
static eager_task<Val> nest(eager_task<Val> t) { auto v = co_await std::move(t); v.get(); mc::gadd(END, 10); co_return v; }
MC_SCENARIO("C02.nested", D()) {
	Later l[1]; auto t = mk<Val>(false, l, 1, false); auto u = nest(std::move(t)); auto w = nest(std::move(u));
	std::thread a([&] { l[0].complete(); });
	[](eager_task<Val> t) -> Fire { auto v = co_await std::move(t); val(v); MC_REQUIRE(mc::gget(END) == 21, "all finished"); mc::gadd(RES); }(std::move(w));
	a.join(); MC_REQUIRE(mc::gget(RES) == 1, "resumed once"); mc::noLive();
}
// nested chain built concurrently with the completion of the innermost task
MC_SCENARIO("C02.nested_race", D()) {
	Later l[1]; auto t = mk<Val>(false, l, 1, false);
	std::thread a([&] { l[0].complete(); });
	auto u = nest(std::move(t));
	[](eager_task<Val> t) -> Fire { auto v = co_await std::move(t); val(v); mc::gadd(RES); }(std::move(u));
	a.join(); MC_REQUIRE(mc::gget(RES) == 1, "resumed once"); mc::noLive();
}
// two eager tasks, one awaiter
MC_SCENARIO("C02.two", D()) {
	Later l[2]; auto t = body<Val>(Val(3), l, 1, false, nullptr), u = body<Val>(Val(3), l + 1, 1, false, nullptr);
	std::thread a([&] { l[0].complete(); }), b([&] { l[1].complete(); });
	[](eager_task<Val> t, eager_task<Val> u) -> Fire { auto v = co_await std::move(t); val(v); auto w = co_await std::move(u); val(w); MC_REQUIRE(mc::gget(END) == 2, "both finished"); mc::gadd(RES); }(std::move(t), std::move(u));
	a.join(); b.join(); MC_REQUIRE(mc::gget(RES) == 1, "resumed once"); mc::noLive();
}
// all sequential shapes
template<class T> void shapes() {
	Val target(42); refTarget = &target; Later l[2]; bool macro = mc::flip("macro"), thrown = mc::flip("throw"); int n = mc::choose(3, "suspensions"), how = mc::choose(5, "form"), at = mc::choose(n + 1, "await after");
	{
		auto t = mk<T>(macro, l, n, thrown); MC_REQUIRE(t.is_ready() == (n == 0), "ready exactly when finished");
		int i = 0; for (; i < at; i++) { l[i].complete(); MC_REQUIRE(t.is_ready() == (i + 1 == n), "ready exactly when finished"); }
		if (mc::flip("moved")) { eager_task<T> u; u = std::move(t); MC_REQUIRE(!t.is_ready(), "moved-from is empty"); t = std::move(u); }
		drive<T>(std::move(t), how, thrown, nullptr);
		for (; i < n; i++) { MC_REQUIRE(mc::gget(RES) == 0, "not before the end"); l[i].complete(); }
	}
	MC_REQUIRE(mc::gget(RES) == 1, "the awaiter is resumed exactly once"); MC_REQUIRE(mc::gget(START) == 1 && mc::gget(END) == 1, "the body runs once");
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "all freed exactly once");
}
MC_SCENARIO("C02.shapes.void", S()) { shapes<void>(); }
MC_SCENARIO("C02.shapes.val", S()) { shapes<Val>(); }
MC_SCENARIO("C02.shapes.ref", S()) { shapes<Val&>(); }
template<class T> Fire awaitEmpty(int f) { eager_task<T> t; int got = 0; try { if (f == 0) co_await t; else if (f == 1) co_await std::move(t); else { co_await t.when_ready(); got = 2; } } catch (broken_promise&) { got = 1; } MC_REQUIRE(got == (f == 2 ? 2 : 1), "an empty task reports a broken promise"); mc::gadd(RES); }
MC_SCENARIO("C02.empty", S()) { int f = mc::choose(3); if (mc::flip()) awaitEmpty<void>(f); else awaitEmpty<Val>(f); MC_REQUIRE(mc::gget(RES) == 1, "continues at once"); }
struct Aw { Later* l; bool await_ready() { return false; } template<class H> void await_suspend(H h) { l->await_suspend(h); } Val await_resume() { return Val(42); } };
MC_SCENARIO("C02.make_eager", D()) {
	Later l; std::thread a([&] { l.complete(); }); auto t = make_eager(Aw{ &l });
	MC_REQUIRE(l.g.isSet(), "make_eager starts at once");
	[](eager_task<Val> t) -> Fire { auto v = co_await std::move(t); val(v); mc::gadd(RES); }(std::move(t));
	a.join(); MC_REQUIRE(mc::gget(RES) == 1, "resumed once"); mc::noLive();
}
// whichever construction or move of the result throws, the awaiter receives that exception or the whole value, and nothing is lost or destroyed twice
static eager_task<TV> tvNative(Later* l, int depth) { Val local(1); if (depth) { co_return co_await tvNative(l, depth - 1); } if (l) co_await l->ref(); co_return TV(42); }
static eager_task<TV> tvMacro(Later* l, int depth) { MC_BEGIN(eager_task<TV>, l, depth, local = Val(1)); if (depth) { MC_RETURN_AWAIT(tvMacro(l, depth - 1)); } if (l) MC_AWAIT(l->ref()); MC_RETURN(TV(42)); MC_END(); }
static Fire tvAwait(eager_task<TV> t0, int form, int k) {
	{ eager_task<TV> t(std::move(t0)); int got = 0;
	try { if (form == 0) { TV v = co_await std::move(t); MC_REQUIRE(v.v.get() == 42, "value"); } else { if (form == 2) co_await t.when_ready(); TV& v = co_await t; MC_REQUIRE(v.v.get() == 42, "value"); } } catch (Boom& b) { got = b.v; }
	MC_REQUIRE((got != 0) == TV::fired(k), "the exception of a failing move reaches the awaiter, exactly then"); MC_REQUIRE(got == 0 || got == 99, "that exception"); }
	mc::gadd(RES);
}
MC_SCENARIO("C02.throwing_moves", D().lim(100000)) {
	bool macro = mc::flip("macro"), late = mc::flip("late"); int depth = mc::choose(2, "depth"), form = mc::choose(3, "form"), k = mc::choose(8, "k-th"); Later l; TV::arm(k);
	std::thread a; if (late) a = std::thread([&] { l.complete(); });
	tvAwait(macro ? tvMacro(late ? &l : nullptr, depth) : tvNative(late ? &l : nullptr, depth), form, k);
	if (late) a.join(); MC_REQUIRE(mc::gget(RES) == 1, "resumed once"); mc::noLive();
}
// values with operators of their own: none of them may be used
MC_SCENARIO("C02.odd_values", S()) { oddways::odd<3, 4, 18>(); }
