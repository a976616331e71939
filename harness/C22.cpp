// C22: starting on, or transferring to, a scheduler runs the rest there exactly once.
#include "common.h"
#include "oddways.h"
#include "macoro/thread_pool.h"
#include "macoro/inline_scheduler.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/task.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
using Work = thread_pool::work;
enum { IN0 = 0, BODY = 20, CONT = 21, CALLED = 22 }; // IN0+tid: the scheduler this thread is running
static int here() { return (int)mc::gget(IN0 + mc::tid()); }
// a user's scheduler: a queue that somebody drains
struct Queue { struct Op { Queue& q; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { q.push(h); } void await_suspend(coroutine_handle<> h) { q.push(h.std_cast()); } void await_resume() {} };
	std::mutex m; std::condition_variable cv; std::vector<std::coroutine_handle<>> v; bool closed = false;
	void push(std::coroutine_handle<> h) { std::lock_guard<std::mutex> l(m); v.push_back(h); cv.notify_one(); }
	Op schedule() { return { *this }; }
	void close() { std::lock_guard<std::mutex> l(m); closed = true; cv.notify_one(); }
	void run() { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [&] { return v.size() || closed; }); if (v.empty()) return; auto h = v.front(); v.erase(v.begin()); l.unlock(); h.resume(); l.lock(); } } };
static std::thread runner(thread_pool& p, int id) { return std::thread([&p, id] { mc::gset(IN0 + mc::tid(), id); p.run(); mc::gset(IN0 + mc::tid(), 0); }); }
static std::thread runner(Queue& p, int id) { return std::thread([&p, id] { mc::gset(IN0 + mc::tid(), id); p.run(); mc::gset(IN0 + mc::tid(), 0); }); }
static void body(int where) { MC_REQUIRE(mc::gget(CALLED), "not before it was started"); MC_REQUIRE(here() == where, "the body runs on the scheduler it was started on"); MC_REQUIRE(mc::gadd(BODY) == 1, "the body runs once"); }
static void cont() { MC_REQUIRE(mc::gget(BODY) == 1, "the awaiter continues after the body"); MC_REQUIRE(mc::gadd(CONT) == 1, "the awaiter is resumed once"); }
static void done() { MC_REQUIRE(mc::gget(BODY) == 1 && mc::gget(CONT) == 1, "body and awaiter ran"); mc::noLive(); }
static Val* g_obj;
// the operations that are started
static task<Val> opVal(int w, Val l) { body(w); co_return Val(l.get() + 1); }
static task<MVal> opMove(int w) { body(w); co_return MVal(5); }
static task<Val&> opRef(int w, Val& r) { body(w); co_return r; }
static task<void> opVoid(int w) { body(w); co_return; }
static task<Val> opThrow(int w) { body(w); boom(9); co_return Val(0); }
static task<Val> opMacro(int w) { MC_BEGIN(task<Val>, w); body(w); MC_RETURN(Val(6)); MC_END(); }
struct Raw { int w; Val v; bool await_ready() { return false; } bool await_suspend(std::coroutine_handle<>) { body(w); return false; } bool await_suspend(coroutine_handle<>) { body(w); return false; } Val await_resume() { return std::move(v); } };

enum { NKIND = 7 };
template<class S> static task<void> awaits(S& s, int where, int kind, bool pipe, int when, bool& ok) {
	mc::gset(CALLED, 0); Val x(41); 
	auto go = [&](auto op) { mc::gset(CALLED, 1); if (pipe) return std::move(op) | start_on(s); else return start_on(s, std::move(op)); };
	// when: awaited at once, or only after the body began elsewhere
	auto pause = [&](auto& t) { (void)t; };
	(void)pause;
	switch (kind) {
	case 0: { auto t = go(opVal(where, Val(7))); if (when) mc::point(); Val v = co_await std::move(t); cont(); ok = v.get() == 8; break; }
	case 1: { auto t = go(opMove(where)); MVal v = co_await std::move(t); cont(); ok = v.get() == 5; break; }
	case 2: { auto t = go(opRef(where, x)); Val& v = co_await std::move(t); cont(); ok = &v == &x; break; }
	case 3: { auto t = go(opVoid(where)); co_await std::move(t); cont(); ok = true; break; }
	case 4: { auto t = go(opThrow(where)); try { co_await std::move(t); } catch (Boom& b) { ok = b.v == 9; } cont(); break; }
	case 5: { auto t = go(opMacro(where)); Val v = co_await std::move(t); cont(); ok = v.get() == 6; break; }
	default: { auto t = go(Raw{ where, Val(3) }); Val v = co_await std::move(t); cont(); ok = v.get() == 3; break; }
	}
}
template<class S> static task<void> awaitsMacro(S& ss, int where_, bool& okk) { MC_BEGIN(task<void>, &s = ss, where = where_, &ok = okk, t = eager_task<Val>{}, v = std::optional<Val>{});
	mc::gset(CALLED, 1); t = start_on(s, opVal(where, Val(7))); MC_AWAIT_SET(v, std::move(t)); cont(); ok = v->get() == 8; MC_END(); }

// awaited from a thread outside
static void poolOutside(int kind, bool pipe) { { thread_pool p; Work w = p.make_work(); std::thread t = runner(p, 1); bool ok = false; sync_wait(awaits(p, 1, kind, pipe, 0, ok)); MC_REQUIRE(ok, "outcome passes through"); w.reset(); t.join(); } done(); }
MC_SCENARIO("C22.pool", P(3, 8).sh(8)) { int k = mc::choose(NKIND, "kind"); poolOutside(k, mc::flip("pipe")); }
MC_SCENARIO("C22.pool_all", D()) { poolOutside(0, true); }
MC_SCENARIO("C22.pool2", P(2, 4).sh(8)) { int k = mc::choose(NKIND, "kind"); { thread_pool p; Work w = p.make_work(); std::thread t = runner(p, 1), u = runner(p, 1); bool ok = false; sync_wait(awaits(p, 1, k, true, 0, ok)); MC_REQUIRE(ok, "outcome"); w.reset(); t.join(); u.join(); } done(); }
MC_SCENARIO("C22.macro", P(3, 8).sh(4)) { { thread_pool p; Work w = p.make_work(); std::thread t = runner(p, 1); bool ok = false; sync_wait(awaitsMacro(p, 1, ok)); MC_REQUIRE(ok, "outcome"); w.reset(); t.join(); } done(); }
MC_SCENARIO("C22.queue", P(3, 8).sh(8)) { int k = mc::choose(NKIND, "kind"); bool pipe = mc::flip("pipe"); { Queue q; std::thread t = runner(q, 1); bool ok = false; sync_wait(awaits(q, 1, k, pipe, 0, ok)); MC_REQUIRE(ok, "outcome"); q.close(); t.join(); } done(); }
MC_SCENARIO("C22.inline", D()) { int k = mc::choose(NKIND, "kind"); bool pipe = mc::flip("pipe"); { inline_scheduler s; mc::gset(IN0 + mc::tid(), 1); bool ok = false; sync_wait(awaits(s, 1, k, pipe, 0, ok)); MC_REQUIRE(ok, "outcome"); } done(); }
// nothing happens before the scheduler runs; the awaiting comes before or after the body
MC_SCENARIO("C22.late", D()) {
	{ thread_pool p; mc::gset(CALLED, 1); bool pipe = mc::flip("pipe"); Work w = p.make_work(); auto t = pipe ? opVal(1, Val(7)) | start_on(p) : start_on(p, opVal(1, Val(7))); MC_REQUIRE(!mc::gget(BODY), "queued, not run here");
	bool before = mc::flip("ran before awaited"); w.reset(); if (before) { mc::gset(IN0 + mc::tid(), 1); p.run(); mc::gset(IN0 + mc::tid(), 0); MC_REQUIRE(mc::gget(BODY) == 1, "starts without being awaited"); }
	std::thread r; if (!before) r = runner(p, 1); Val v = sync_wait(std::move(t)); cont(); MC_REQUIRE(v.get() == 8, "value"); if (r.joinable()) r.join(); } done();
}
// awaited by a coroutine on another pool, the started operation moves again
static task<Val> opHop(thread_pool& a, thread_pool& b, int where) { body(1); co_await transfer_to(b); MC_REQUIRE(here() == 2, "transferred"); if (where == 1) { co_await transfer_to(a); MC_REQUIRE(here() == 1, "transferred back"); } co_return Val(4); }
static task<void> between(thread_pool& a, thread_pool& b, int where) { co_await transfer_to(b); MC_REQUIRE(here() == 2, "transferred"); mc::gset(CALLED, 1); Val v = co_await (opHop(a, b, where) | start_on(a)); cont(); MC_REQUIRE(v.get() == 4, "value"); co_await transfer_to(a); MC_REQUIRE(here() == 1, "transferred after"); }
MC_SCENARIO("C22.between", P(2, 4).sh(8)) { { thread_pool a, b; Work wa = a.make_work(), wb = b.make_work(); std::thread t = runner(a, 1), u = runner(b, 2); sync_wait(between(a, b, 1 + mc::flip("stay"))); wa.reset(); wb.reset(); t.join(); u.join(); } done(); }
// many operations started at once
static task<int> opn(int i) { MC_REQUIRE(here() == 1, "on the pool"); MC_REQUIRE(mc::gadd(30 + i) == 1, "once"); co_return i; }
static task<int> opnThrow(int i) { MC_REQUIRE(here() == 1, "on the pool"); MC_REQUIRE(mc::gadd(30 + i) == 1, "once"); if (i == 1) boom(i); co_return i; }
MC_SCENARIO("C22.many", P(2, 3).sh(8)) { { thread_pool p; Work w = p.make_work(); std::thread t = runner(p, 1), u = runner(p, 1); std::vector<eager_task<int>> v; for (int i = 0; i < 2; i++) v.push_back(opn(i) | start_on(p)); int s = 0; for (int i = 0; i < 2; i++) s += sync_wait(std::move(v[i])); MC_REQUIRE(s == 1 && mc::gget(30) == 1 && mc::gget(31) == 1, "each once"); w.reset(); t.join(); u.join(); } mc::noLive(); }
MC_SCENARIO("C22.when_all", P(2, 3).sh(8)) { { thread_pool p; Work w = p.make_work(); std::thread t = runner(p, 1); bool th = mc::flip("throws"); auto r = sync_wait(when_all_ready(start_on(p, opn(0)), start_on(p, th ? opnThrow(1) : opn(1)))); MC_REQUIRE(std::get<0>(r).result() == 0, "value"); bool x = false; try { MC_REQUIRE(std::get<1>(r).result() == 1, "value"); } catch (Boom&) { x = true; } MC_REQUIRE(x == th, "exception"); w.reset(); t.join(); } mc::noLive(); }
// several coroutines start an operation on the same scheduler from their own threads
MC_SCENARIO("C22.starters", P(2, 3).sh(8)) { { thread_pool p; Work w = p.make_work(); std::thread t = runner(p, 1); std::thread o([&] { MC_REQUIRE(sync_wait(opn(0) | start_on(p)) == 0, "value"); }); MC_REQUIRE(sync_wait(opn(1) | start_on(p)) == 1, "value"); o.join(); w.reset(); t.join(); } mc::noLive(); }
// values with operators of their own: none of them may be used
MC_SCENARIO("C22.odd_values", S()) { oddways::odd<8, 9, 13, 17>(); }
