// C09: dispatching runs inline exactly when already on that pool; transfers land on the pool named.
#include "common.h"
#include "macoro/thread_pool.h"
#include "macoro/transfer_to.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
using Work = thread_pool::work;
enum { IN0 = 0, RAN = 20, ACT0 = 30, J0 = 50 }; // IN0+tid: the pool this thread is running (0 none), ACT0+id: thread inside the dispatching call of job id, J0+id: continuations of job id
static int here() { return (int)mc::gget(IN0 + mc::tid()); }
struct Pool { thread_pool p; int id; explicit Pool(int i) : id(i) {} };
static void runHere(Pool& p) { mc::gset(IN0 + mc::tid(), p.id); p.p.run(); mc::gset(IN0 + mc::tid(), 0); }
static std::thread runner(Pool& p) { return std::thread([&p] { runHere(p); }); }
static void landed(int id, Pool& p, int n) { MC_REQUIRE(here() == p.id, "the continuation runs on the pool named"); MC_REQUIRE(mc::gadd(J0 + id) == n, "the continuation is resumed exactly once"); mc::gadd(RAN); }
// the part of a dispatch that runs before the awaiter has returned to its resumer is inline
static void inlineIff(int id, bool want) { bool is = mc::gget(ACT0 + id) == mc::tid() + 1; MC_REQUIRE(!want || is, "on the pool already: a dispatch continues inline"); MC_REQUIRE(want || !is, "not on the pool: a dispatch is queued"); }

struct RawDispatch { Pool& p; bool std; bool await_ready() { return false; }
	std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { auto on = here() == p.id; coroutine_handle<> r = p.p.dispatch(coroutine_handle<>(h)); if (on) MC_REQUIRE(r == coroutine_handle<>(h), "dispatch returns the handle to continue with"); else MC_REQUIRE(r == noop_coroutine(), "dispatch returns the no-op coroutine once queued"); return r.std_cast(); }
	void await_resume() {} };
// a coroutine that dispatches to a pool, from there starts another that dispatches to the next one
static void start(int id, Pool* a, Pool* b = nullptr, int form = 0, int n = 1);
static Fire hop(int id, Pool* p, Pool* next, int form, int n) {
	Val l(id); bool on = here() == p->id;
	if (form == 0) co_await p->p.dispatch(); else co_await RawDispatch{ *p, false };
	inlineIff(id, on); landed(id, *p, n); MC_REQUIRE(l.get() == id, "locals");
	if (next) start(id, next, nullptr, form, n + 1);
}
static void start(int id, Pool* a, Pool* b, int form, int n) { mc::gset(ACT0 + id, mc::tid() + 1); hop(id, a, b, form, n); if (mc::gget(ACT0 + id) == mc::tid() + 1) mc::gset(ACT0 + id, 0); }
static void done(int n) { MC_REQUIRE(mc::gget(RAN) == n, "every continuation was resumed"); mc::noLive(); }

// from a thread that runs no pool
MC_SCENARIO("C09.outside", D()) { { Pool p(1); Work w = p.p.make_work(); auto t = runner(p); start(0, &p, nullptr, mc::choose(2, "form")); w.reset(); t.join(); } done(1); }
MC_SCENARIO("C09.outside2", P(3, 5).sh(8)) { { Pool p(1); Work w = p.p.make_work(), v = p.p.make_work(); auto t = runner(p); std::thread u([&p, v = std::move(v)]() mutable { start(0, &p); v.reset(); }); start(1, &p, nullptr, 1); w.reset(); runHere(p); t.join(); u.join(); } done(2); }
// from the pool: continues at once, before anything queued
static Fire post(Pool& p, int id) { co_await p.p.schedule(); landed(id, p, 1); }
static Fire first(Pool& p, Work w, int form) { co_await p.p.schedule(); landed(0, p, 1); post(p, 1); start(2, &p, nullptr, form); MC_REQUIRE(mc::gget(J0 + 2) == 1, "inline"); start(3, &p, &p, form); MC_REQUIRE(mc::gget(J0 + 3) == 2, "inline twice"); w.reset(); }
MC_SCENARIO("C09.on_pool", D()) { { Pool p(1); first(p, p.p.make_work(), mc::choose(2, "form")); if (mc::flip("thread")) runner(p).join(); else runHere(p); MC_REQUIRE(mc::gget(J0 + 1) == 1, "queued item runs"); } done(5); }
MC_SCENARIO("C09.on_pool2", P(3, 4).sh(8)) { { Pool p(1); first(p, p.p.make_work(), 0); auto t = runner(p); runHere(p); t.join(); } done(5); }
// two pools, each run by one thread
struct Two { Pool a{ 1 }, b{ 2 }; Work wa = a.p.make_work(), wb = b.p.make_work(); std::thread t, u; void go() { t = runner(a); u = runner(b); } void end() { t.join(); u.join(); } };
static Fire cross(Two& s, int seq, int how) {
	Pool* ps[2] = { &s.a, &s.b }; int n = 0;
	for (int k = 0; k < 3; k++) { Pool& p = *ps[seq >> k & 1]; bool on = here() == p.id; mc::gset(ACT0, mc::tid() + 1);
		// how: dispatch, schedule, transfer_to, or a mix
		switch (how == 3 ? k : how) { case 0: co_await p.p.dispatch(); inlineIff(0, on); break; case 1: co_await p.p.schedule(); break; default: co_await transfer_to(p.p); }
		landed(0, p, ++n); }
	s.wa.reset(); s.wb.reset();
}
static void crossing(int how, bool late) { { Two s; int q = mc::choose(8, "route"); if (!late) s.go(); cross(s, q, how); if (late) s.go(); s.end(); } done(3); }
MC_SCENARIO("C09.cross", P(2, 4).sh(8)) { crossing(mc::choose(4, "how"), false); }
MC_SCENARIO("C09.cross_late", P(3, 5).sh(8)) { crossing(mc::choose(4, "how"), true); }
// jobs of two pools dispatching to each other at the same time
static Fire ping(Pool& from, Pool& to, Work w, Work w2, int id) { co_await from.p.schedule(); landed(id, from, 1); start(id + 4, &to, &from); w.reset(); w2.reset(); }
MC_SCENARIO("C09.swap", P(2, 3).sh(8)) { { Two s; Pool& a = s.a; Pool& b = s.b;
	// the tokens outlive the hops
	ping(a, b, a.p.make_work(), b.p.make_work(), 0); ping(b, a, b.p.make_work(), a.p.make_work(), 1); s.go(); mc::Gate g; std::thread r([&] { g.wait(); s.wa.reset(); s.wb.reset(); });
	[](Two& s, mc::Gate& g) -> Fire { // leave once both round trips are over
		while (mc::gget(J0 + 4) < 2 || mc::gget(J0 + 5) < 2) { co_await s.a.p.schedule(); co_await s.b.p.schedule(); } g.set(); }(s, g); r.join(); s.end(); } done(6); }
// a thread that finished running a pool is no longer part of it
static Fire on(Pool& p, int id, Work w) { co_await p.p.schedule(); landed(id, p, 1); w.reset(); }
MC_SCENARIO("C09.after_run", D()) {
	{ Pool p(1); on(p, 0, p.p.make_work()); runHere(p); Work w = p.p.make_work(); bool other = mc::flip("other thread"); std::thread t; if (other) t = runner(p); start(1, &p, nullptr, mc::choose(2, "form")); w.reset(); if (other) t.join(); else runHere(p); } done(2);
}
MC_SCENARIO("C09.after_run_idle", D()) { // ran out of work without doing any
	{ Pool p(1), q(2); runHere(p); Work w = p.p.make_work(), v = q.p.make_work(); start(0, &p, &q); w.reset(); runHere(p); start(1, &p); start(2, &q); v.reset(); runHere(q); runHere(p); } done(4);
}
MC_SCENARIO("C09.after_other", D()) { // p, then q, then p again
	{ Pool p(1), q(2); on(p, 0, p.p.make_work()); on(q, 1, q.p.make_work()); runHere(p); runHere(q); start(2, &p); start(3, &q); runHere(q); runHere(p); } done(4);
}
MC_SCENARIO("C09.reborn", D()) { // a new pool, possibly at the address of the old one
	{ auto p = std::make_unique<Pool>(1); on(*p, 0, p->p.make_work()); runHere(*p); p = std::make_unique<Pool>(2); start(1, p.get()); runHere(*p); } done(2);
}
// a refused nested run() leaves the thread with the pool it is running
static Fire nested(Pool& p, Pool& q, Work w, Work v) {
	co_await p.p.schedule(); landed(0, p, 1); int r = 0; Pool* which = mc::flip("own") ? &p : &q; try { which->p.run(); } catch (std::runtime_error&) { r = 1; } MC_REQUIRE(r, "run() on a pool's thread is refused");
	start(1, &p); MC_REQUIRE(mc::gget(J0 + 1) == 1, "still on the pool"); start(2, &q); w.reset(); v.reset();
}
MC_SCENARIO("C09.refused", D()) { { Pool p(1), q(2); nested(p, q, p.p.make_work(), q.p.make_work()); std::thread t = runner(q); runHere(p); t.join(); } done(3); }
// a continuation that throws ends run(); the thread is free again
struct Thrower { struct promise_type { Thrower get_return_object() noexcept { return { std::coroutine_handle<promise_type>::from_promise(*this) }; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() noexcept {} void unhandled_exception() { throw; } }; std::coroutine_handle<promise_type> h; };
static Thrower thrower(Pool& p) { co_await p.p.schedule(); landed(0, p, 1); boom(7); }
MC_SCENARIO("C09.throws", D()) {
	{ Pool p(1), q(2); Work w = p.p.make_work(); auto c = thrower(p); bool t = false; try { runHere(p); } catch (Boom& b) { t = b.v == 7; } MC_REQUIRE(t, "run() passes the exception on"); mc::gset(IN0 + mc::tid(), 0); c.h.destroy();
	start(1, &p); w.reset(); bool ok = true; try { runHere(p); } catch (std::runtime_error&) { ok = false; } MC_REQUIRE(ok, "a thread that left run() can run a pool again"); start(2, &q); runHere(q); } done(3);
}
// macro coroutines and tasks
static task<int> tdispatch(Pool& p, bool on) { co_await p.p.dispatch(); landed(0, p, 1); mc::gset(ACT0 + 1, mc::tid() + 1); co_await p.p.dispatch(); inlineIff(1, true); landed(0, p, 2); co_return 4; }
static task<int> mdispatch(Pool& pp) { MC_BEGIN(task<int>, &pp); MC_AWAIT(pp.p.dispatch()); landed(0, pp, 1); mc::gset(ACT0 + 1, mc::tid() + 1); MC_AWAIT(pp.p.dispatch()); inlineIff(1, true); landed(0, pp, 2); MC_RETURN(4); MC_END(); }
MC_SCENARIO("C09.task", P(4, 8).sh(4)) { { Pool p(1); Work w = p.p.make_work(); auto t = runner(p); MC_REQUIRE((mc::flip("macro") ? sync_wait(mdispatch(p)) : sync_wait(tdispatch(p, false))) == 4, "value"); w.reset(); t.join(); } done(2); }
// threads created by the pool itself, shared with a thread inside run()
MC_SCENARIO("C09.created", P(3, 5).sh(8)) {
	{ Pool p(1); Work w = p.p.make_work(); p.p.create_thread(); struct J { static Fire go(Pool& p) { co_await p.p.schedule(); int me = mc::tid(); mc::gset(ACT0, me + 1); co_await p.p.dispatch(); inlineIff(0, true); MC_REQUIRE(mc::tid() == me, "stays on its thread"); mc::gadd(RAN); } static Fire out(Pool& p) { int me = mc::tid(); co_await p.p.dispatch(); MC_REQUIRE(mc::tid() != me, "queued"); mc::gadd(RAN); } };
	J::go(p); J::out(p); w.reset(); p.p.join(); } done(2);
}
