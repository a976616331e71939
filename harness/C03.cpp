// C03: synchronously waiting returns exactly when the operation completed, with its outcome.
#include "common.h"
#include "macoro/sync_wait.h" // first: it has to stand on its own
#include "oddways.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/macros.h"
using namespace macoro;
enum { DONE, SUSP, RESM };

// a hand-written awaiter: how it suspends is enumerated
template<class T, int SUS> struct Aw {
	Later* l; bool thrown; int* data; T* ref = nullptr; Val tag{ 1 };
	Aw(Later* l, bool t, int* d, T* r) : l(l), thrown(t), data(d), ref(r) {}
	bool await_ready() { return !l; }
	auto await_suspend(std::coroutine_handle<> h) {
		mc::gadd(SUSP);
		if constexpr (SUS == 0) { l->await_suspend(h); }
		else if constexpr (SUS == 1) { l->await_suspend(h); return true; }
		else if constexpr (SUS == 2) { return false; }
		else if constexpr (SUS == 3) { l->await_suspend(h); return (std::coroutine_handle<>)std::noop_coroutine(); }
		else { return h; }
	}
	T& await_resume() { MC_REQUIRE(mc::gadd(RESM) == 1, "the operation is consumed exactly once"); if (data) MC_REQUIRE(*data == 1, "prior writes are visible to the waiter"); if (thrown) boom(3); return *ref; }
};
template<int SUS> void rawWait(bool viaBlocking, bool lv) {
	Later l; int data = 0; Val v(42); bool thrown = mc::flip("throw"); int got = 0;
	std::thread a;
	bool async = SUS == 0 || SUS == 1 || SUS == 3;
	if (async) a = std::thread([&] { data = 1; mc::gadd(DONE); l.complete(); }); else { data = 1; mc::gadd(DONE); }
	try {
		Aw<Val, SUS> aw(&l, thrown, &data, &v);
		if (viaBlocking) { auto b = make_blocking<Aw<Val, SUS>&>(aw); decltype(b) c; if (mc::flip("move")) { c = std::move(b); Val& r = c.get(); MC_REQUIRE(&r == &v, "the reference produced by the operation"); } else { Val& r = b.get(); MC_REQUIRE(&r == &v, "the reference produced by the operation"); } }
		else if (lv) { Val& r = sync_wait(aw); MC_REQUIRE(&r == &v, "the reference produced by the operation"); }
		else { Val& r = sync_wait(std::move(aw)); MC_REQUIRE(&r == &v, "the reference produced by the operation"); }
	} catch (Boom& b) { got = b.v; }
	MC_REQUIRE(mc::gget(DONE) == 1, "not returned before the operation completed");
	MC_REQUIRE(got == (thrown ? 3 : 0), "exception delivered iff thrown"); MC_REQUIRE(mc::gget(SUSP) == 1, "suspended once");
	if (async) a.join();
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "freed exactly once");
}
MC_SCENARIO("C03.raw.void", D()) { rawWait<0>(false, mc::flip("lvalue")); }
MC_SCENARIO("C03.raw.bool", D()) { rawWait<1>(false, mc::flip("lvalue")); }
MC_SCENARIO("C03.raw.bool_false", S()) { rawWait<2>(false, mc::flip("lvalue")); }
MC_SCENARIO("C03.raw.handle", D()) { rawWait<3>(false, mc::flip("lvalue")); }
MC_SCENARIO("C03.raw.self", S()) { rawWait<4>(false, mc::flip("lvalue")); }
MC_SCENARIO("C03.make_blocking", D()) { rawWait<0>(true, false); }
MC_SCENARIO("C03.raw.spur", P(4, 6).spur(2, 3).sh(4)) { rawWait<0>(false, false); }
MC_SCENARIO("C03.raw.weak", P(4, 6).weak(2, 4).sh(4)) { rawWait<0>(false, false); }
// ready immediately
struct Ready { int v; bool thrown; bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) { mc::fail("property", "must not suspend"); } int await_resume() { if (thrown) boom(4); return v; } };
MC_SCENARIO("C03.ready", S()) { bool t = mc::flip(); int got = 0; try { MC_REQUIRE(sync_wait(Ready{ 8, t }) == 8, "value"); } catch (Boom& b) { got = b.v; } MC_REQUIRE(got == (t ? 4 : 0), "outcome"); }
// exceptions thrown by await_ready / await_suspend reach the waiter
struct Bad { int where; bool await_ready() { if (where == 0) boom(6); return false; } bool await_suspend(std::coroutine_handle<>) { if (where == 1) boom(6); return false; } void await_resume() { if (where == 2) boom(6); } };
MC_SCENARIO("C03.throwing_awaiter", S()) { int w = mc::choose(4), got = 0; try { sync_wait(Bad{ w }); } catch (Boom& b) { got = b.v; } MC_REQUIRE(got == (w < 3 ? 6 : 0), "an exception anywhere in the await protocol reaches the waiter"); }
// asking again reports the same exception
MC_SCENARIO("C03.throwing_twice", S()) { int w = mc::choose(3), got = 0; auto t = make_blocking(Bad{ w }); for (int i = 0; i < 2; i++) try { t.get(); } catch (Boom& b) { got += b.v; } MC_REQUIRE(got == 12, "the exception is reported each time"); }

template<class T> static Val* tgt;
static Val* target;
template<class T> task<T> body(Later* l, bool thrown, int* data) { Val local(2); co_await l->ref(); *data = 1; if (thrown) boom(5); mc::gadd(DONE); if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *target; else co_return T(42); }
template<class T> task<T> mbody(Later* l, bool thrown, int* data) { MC_BEGIN(task<T>, l, thrown, data, local = Val(2)); MC_AWAIT(l->ref()); *data = 1; if (thrown) boom(5); mc::gadd(DONE); if constexpr (std::is_void_v<T>) { MC_RETURN_VOID(); } else if constexpr (std::is_reference_v<T>) { MC_RETURN(*target); } else { MC_RETURN(T(42)); } MC_END(); }
template<class T> void taskWait(int how) {
	Val t0(42); target = &t0; Later l; int data = 0, got = 0; bool thrown = mc::flip("throw"), macro = mc::flip("macro");
	{
		auto t = macro ? mbody<T>(&l, thrown, &data) : body<T>(&l, thrown, &data);
		std::thread a([&] { l.complete(); });
		try {
			if constexpr (std::is_void_v<T>) { if (how == 0) sync_wait(std::move(t)); else if (how == 1) sync_wait(t); else t | sync_wait(); }
			else if (how == 0) { decltype(auto) v = sync_wait(std::move(t)); MC_REQUIRE(v.get() == 42, "value"); if (std::is_reference_v<T>) MC_REQUIRE(&v == target, "same object"); }
			else if (how == 1) { auto& v = sync_wait(t); MC_REQUIRE(v.get() == 42, "value"); }
			else { decltype(auto) v = std::move(t) | sync_wait(); MC_REQUIRE(v.get() == 42, "value"); }
		} catch (Boom& b) { got = b.v; }
		MC_REQUIRE(data == 1 && t.is_ready(), "returned after completion, writes visible");
		MC_REQUIRE(got == (thrown ? 5 : 0), "exception delivered iff thrown");
		if (mc::flip("destroy before join")) { auto dead = std::move(t); }
		a.join();
	}
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "freed exactly once");
}
MC_SCENARIO("C03.task.val", D()) { taskWait<Val>(mc::choose(3, "form")); }
MC_SCENARIO("C03.task.mval", D()) { taskWait<MVal>(mc::choose(3, "form")); }
MC_SCENARIO("C03.task.ref", D()) { taskWait<Val&>(mc::choose(3, "form")); }
MC_SCENARIO("C03.task.void", D()) { taskWait<void>(mc::choose(3, "form")); }
MC_SCENARIO("C03.task.spur", P(3, 5).spur(2, 3).weak(1, 2).sh(4)) { taskWait<Val>(0); }
// two waiters at once, completed crosswise
MC_SCENARIO("C03.two_waiters", D()) {
	Val t0(42); target = &t0; Later l1, l2; int d1 = 0, d2 = 0;
	std::thread w([&] { auto v = sync_wait(body<Val>(&l1, false, &d1)); MC_REQUIRE(v.get() == 42 && d1 == 1, "value"); });
	std::thread c([&] { l1.complete(); l2.complete(); });
	auto v = sync_wait(body<Val>(&l2, false, &d2)); MC_REQUIRE(v.get() == 42 && d2 == 1, "value");
	w.join(); c.join();
}
// a wait inside an operation that is itself waited for
static task<int> nestedWait(Later* l, int* d) { auto v = sync_wait(body<Val>(l, false, d)); co_return v.get(); }
MC_SCENARIO("C03.nested", D()) { Val t0(42); target = &t0; Later l; int d = 0; std::thread a([&] { l.complete(); }); MC_REQUIRE(sync_wait(nestedWait(&l, &d)) == 42, "value"); a.join(); }
// waits repeated in a loop re-use memory of earlier wrappers
MC_SCENARIO("C03.repeat", D()) {
	Val t0(42); target = &t0; Later l[2]; int d[2] = {};
	std::thread a([&] { l[0].complete(); l[1].complete(); });
	for (int i = 0; i < 2; i++) { auto v = sync_wait(body<Val>(&l[i], false, &d[i])); MC_REQUIRE(v.get() == 42 && d[i] == 1, "value"); }
	a.join();
}
// completed by two operations together
MC_SCENARIO("C03.when_all", D()) {
	Val t0(42); target = &t0; Later l[2]; int d[2] = {};
	std::thread a([&] { l[0].complete(); }), b([&] { l[1].complete(); });
	auto r = sync_wait(when_all_ready(body<Val>(&l[0], false, &d[0]), body<void>(&l[1], true, &d[1])));
	MC_REQUIRE(d[0] && d[1] && std::get<0>(r).result().get() == 42, "all finished"); int g = 0; try { std::get<1>(r).result(); } catch (Boom&) { g = 1; } MC_REQUIRE(g, "exception");
	a.join(); b.join();
}
// a blocking object assigned to itself keeps its operation; assigned over, the old one is freed
MC_SCENARIO("C03.blocking_assign", S()) {
	{ int how = mc::choose(4, "how"); bool pipe = mc::flip("pipe"); auto mk = [&](int v) { auto f = [](int v) -> task<Val> { Val l(v); co_return Val(v); }; return pipe ? f(v) | make_blocking() : make_blocking(f(v)); };
	auto a = mk(3), b = mk(4); auto* self = &a; if (how == 0) a = std::move(*self); else if (how == 1) { a = std::move(b); b = mk(5); } else if (how == 2) { decltype(a) e; a = std::move(e); a = mk(3); } else { auto c = std::move(a); a = std::move(b); b = std::move(c); }
	MC_REQUIRE(a.get().get() == (how == 1 || how == 3 ? 4 : 3) && b.get().get() == (how == 1 ? 5 : how == 3 ? 3 : 4), "each object delivers its own operation's value"); }
	mc::noLive();
}
// whichever construction or move of the result throws, sync_wait and blocking get report that exception or the whole value
static task<TV> tvTask(Later* l) { Val local(1); if (l) co_await l->ref(); co_return TV(42); }
struct TvAw { Later* l; bool await_ready() { return !l; } template<class H> void await_suspend(H h) { l->await_suspend(h); } TV await_resume() { return TV(42); } };
MC_SCENARIO("C03.throwing_moves", D().lim(100000)) {
	int form = mc::choose(4, "form"), k = mc::choose(6, "k-th"), got = 0; bool late = mc::flip("late"); Later l; Later* p = late ? &l : nullptr; TV::arm(k); std::thread a; if (late) a = std::thread([&] { l.complete(); });
	try {
		if (form == 0) { TV v = sync_wait(tvTask(p)); MC_REQUIRE(v.v.get() == 42, "value"); }
		else if (form == 1) { TV v = make_blocking(tvTask(p)).get(); MC_REQUIRE(v.v.get() == 42, "value"); }
		else if (form == 2) { TV v = sync_wait(TvAw{ p }); MC_REQUIRE(v.v.get() == 42, "value"); }
		else { auto t = tvTask(p); TV& v = sync_wait(t); MC_REQUIRE(v.v.get() == 42, "value"); }
	} catch (Boom& b) { got = b.v; }
	MC_REQUIRE((got != 0) == TV::fired(k), "the exception of a failing move reaches the caller, exactly then"); MC_REQUIRE(got == 0 || got == 99, "that exception");
	if (late) a.join(); mc::noLive();
}
// values with operators of their own: none of them may be used
MC_SCENARIO("C03.odd_values", S()) { if (mc::flip("move only")) oddways::blk<MOdd>(); else oddways::blk<Odd>(); }
