// C07: a thread pool runs every posted continuation exactly once, on its own threads.
#include "common.h"
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
using Work = thread_pool::work;
enum { RAN = 0, TOKENS = 1, POSTED = 2, J0 = 10, OUT0 = 40, IN0 = 60 }; // OUT0+tid: thread never runs a pool, IN0+tid: currently inside run()
static void outside() { mc::gset(OUT0 + mc::tid(), 1); }
static void onPool(int id) { MC_REQUIRE(!mc::gget(OUT0 + mc::tid()), "a continuation runs on a thread of the pool"); if (id >= 0) MC_REQUIRE(mc::gadd(J0 + id) == 1, "a continuation is resumed at most once"); mc::gadd(RAN); }
static void posted() { mc::gadd(POSTED); }
// form: which of the posting interfaces
static Fire job(thread_pool& p, int id, int form = 0, int hops = 1) {
	Val l(id);
	for (int i = 0; i < hops; i++) {
		posted();
		switch (form) { case 0: co_await p.schedule(); break; case 1: co_await p.post(); break; default: { struct A { thread_pool& p; bool post; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { if (post) p.post(coroutine_handle<>(h)); else p.schedule(coroutine_handle<>(h)); } void await_resume() {} }; co_await A{ p, form == 2 }; } }
		onPool(i ? -1 : id); MC_REQUIRE(l.get() == id, "locals");
	}
}
static void runHere(thread_pool& p) { mc::gset(OUT0 + mc::tid(), 0); p.run(); MC_REQUIRE(mc::gget(TOKENS) == 0, "run() returns only when no work token is left"); outside(); }
static void done(int n) { MC_REQUIRE(mc::gget(RAN) == n, "every posted continuation is run"); mc::noLive(); }
static Work token(thread_pool& p) { mc::gadd(TOKENS); return p.make_work(); }
static void release(Work& w) { mc::gadd(TOKENS, -1); w.reset(); }

// main posts n jobs to a pool of t threads, then releases and joins
static void basic(int t, int n, int form, bool early, int hops = 1) {
	outside(); { thread_pool p; Work w = token(p); if (early) p.create_threads(t); for (int i = 0; i < n; i++) job(p, i, form, hops); if (!early) { if (mc::flip("release first")) release(w); p.create_threads(t); } if (mc::gget(TOKENS)) release(w); p.join(); MC_REQUIRE(mc::gget(RAN) == n * hops, "join waits for every posted continuation"); }
	done(n * hops);
}
MC_SCENARIO("C07.one", P(4, 6).spur(1, 2).sh(4)) { basic(1, 2, mc::choose(4, "form"), mc::flip("early")); }
MC_SCENARIO("C07.one_all", D()) { basic(1, 2, 0, mc::flip("early")); }
MC_SCENARIO("C07.two", P(3, 4).spur(1, 1).sh(8)) { basic(2, 2, 0, mc::flip("early")); }
MC_SCENARIO("C07.three", P(2, 3).sh(8)) { basic(3, 3, 1, true); }
MC_SCENARIO("C07.hops", P(3, 4).sh(8)) { basic(2, 2, 0, true, 2); }
MC_SCENARIO("C07.ctor", P(3, 4).sh(8)) { outside(); { Work w; mc::gadd(TOKENS); thread_pool p(2, w); job(p, 0); release(w); } done(1); }
// posters on their own threads, each holding a token while it posts; main runs the pool
static void posters(int np, int n, bool extra) {
	{ thread_pool p; std::vector<std::thread> th; th.reserve(4); std::vector<Work> ws; for (int i = 0; i < np; i++) ws.push_back(token(p)); if (extra) p.create_thread();
	for (int i = 0; i < np; i++) th.emplace_back([&p, i, n, w = std::move(ws[i])]() mutable { outside(); for (int k = 0; k < n; k++) job(p, i * 4 + k); release(w); });
	runHere(p); MC_REQUIRE(extra || mc::gget(RAN) == mc::gget(POSTED), "run() returns only when nothing is queued"); p.join(); for (auto& t : th) t.join(); }
	done(np * n);
}
MC_SCENARIO("C07.run1", D()) { posters(1, 1, false); }
MC_SCENARIO("C07.run1x2", P(4, 6).spur(1, 1).sh(8)) { posters(1, 2, false); }
MC_SCENARIO("C07.run2", P(3, 4).spur(1, 1).sh(8)) { posters(2, 1, false); }
MC_SCENARIO("C07.run2b", P(2, 3).sh(8)) { posters(2, 1, true); }
// the pool is destroyed as soon as join() returns, while the thread that released the last token or posted the last item is still returning
MC_SCENARIO("C07.release_destroy", D()) {
	outside(); auto* p = new thread_pool; Work w = token(*p); p->create_threads(1); std::thread y([w = std::move(w)]() mutable { outside(); release(w); });
	p->join(); delete p; y.join(); done(0);
}
static Fire closer(thread_pool& p, Work w) { posted(); co_await p.schedule(); onPool(0); release(w); }
MC_SCENARIO("C07.post_destroy", D()) {
	outside(); auto* p = new thread_pool; Work w = token(*p); p->create_threads(1); std::thread y([p, w = std::move(w)]() mutable { outside(); closer(*p, std::move(w)); });
	p->join(); delete p; y.join(); done(1);
}
static Fire closerDispatch(thread_pool& p, Work w) { posted(); co_await p.dispatch(); onPool(0); release(w); }
MC_SCENARIO("C07.dispatch_destroy", D()) {
	outside(); auto* p = new thread_pool; Work w = token(*p); p->create_threads(1); std::thread y([p, w = std::move(w)]() mutable { outside(); closerDispatch(*p, std::move(w)); });
	p->join(); delete p; y.join(); done(1);
}
// two jobs that need each other run in parallel on two threads
static Fire blocker(thread_pool& p, int id, mc::Gate& mine, mc::Gate& other) { co_await p.schedule(); onPool(id); mine.set(); other.wait(); }
static void together(bool fromOutside, int form) {
	outside(); mc::Gate a, b; { thread_pool p; Work w = token(p); p.create_threads(2); std::thread t;
		if (fromOutside) { t = std::thread([&] { outside(); blocker(p, 0, a, b); }); blocker(p, 1, b, a); } else { blocker(p, 0, a, b); if (form) job(p, 2); blocker(p, 1, b, a); }
		if (t.joinable()) t.join(); release(w); p.join(); } done(2 + (!fromOutside && form));
}
MC_SCENARIO("C07.together", P(3, 4).spur(1, 1).sh(8)) { together(mc::flip("posters"), 0); }
MC_SCENARIO("C07.together3", P(3, 4).sh(8)) { together(false, 1); }
// a job posts another and blocks until it ran
static Fire child(thread_pool& p, mc::Gate& g) { co_await p.schedule(); onPool(1); g.set(); }
MC_SCENARIO("C07.nested", P(3, 4).spur(1, 1).sh(8)) {
	outside(); mc::Gate g; { thread_pool p; Work w = token(p); p.create_threads(2); [](thread_pool& p, mc::Gate& g, Work w) -> Fire { co_await p.schedule(); onPool(0); child(p, g); g.wait(); release(w); }(p, g, std::move(w)); } done(2);
}
// tokens: copies by move, several holders
MC_SCENARIO("C07.tokens", P(3, 5).sh(8)) {
	outside(); { thread_pool p; Work a = token(p), b = token(p), c; p.create_threads(1); std::thread t([&p, w = std::move(a)]() mutable { outside(); job(p, 0); release(w); }); c = std::move(b); b.reset(); Work d(std::move(c)); job(p, 1); release(d); d.reset(); p.join(); MC_REQUIRE(mc::gget(TOKENS) == 0 && mc::gget(RAN) == 2, "threads stay while a token is held"); t.join(); } done(2);
}
// the pool object is moved while its threads start up
MC_SCENARIO("C07.moved", P(3, 5).sh(4)) {
	outside(); { Work w; mc::gadd(TOKENS); auto a = std::make_unique<thread_pool>(1, w); thread_pool b(std::move(*a)); a.reset(); job(b, 0); release(w); b.join(); } done(1);
}
// tasks on a pool, waited for from outside
static task<int> work3(thread_pool& p) { co_await p.schedule(); onPool(0); co_await p.schedule(); onPool(-1); co_return 3; }
static task<int> work3m(thread_pool& pp) { MC_BEGIN(task<int>, &pp); MC_AWAIT(pp.schedule()); onPool(0); MC_AWAIT(pp.schedule()); onPool(-1); MC_RETURN(3); MC_END(); }
MC_SCENARIO("C07.task", P(3, 4).sh(8)) { outside(); { thread_pool p; Work w = token(p); p.create_threads(1 + mc::flip("threads")); MC_REQUIRE((mc::flip("macro") ? sync_wait(work3m(p)) : sync_wait(work3(p))) == 3, "value"); release(w); } done(2); }
// run() on threads that already run a pool fails, leaving the pool usable; run() without anything to do returns at once
MC_SCENARIO("C07.nested_run", D()) {
	outside(); thread_pool q; q.run(); { thread_pool p; Work w = token(p); p.create_threads(1);
	[](thread_pool& p) -> Fire { co_await p.schedule(); onPool(0); bool t = false; try { p.run(); } catch (std::runtime_error&) { t = true; } MC_REQUIRE(t, "nested run() is refused"); thread_pool o; t = false; try { o.run(); } catch (std::runtime_error&) { t = true; } MC_REQUIRE(t, "nested run() of another pool is refused"); co_await p.schedule(); onPool(1); }(p); release(w); } done(2);
}
MC_SCENARIO("C07.rerun", D()) { { thread_pool p; Work w = token(p); std::thread t([&] { outside(); job(p, 0); release(w); }); runHere(p); t.join(); Work v = token(p); mc::gset(OUT0 + mc::tid(), 0); job(p, 1); release(v); runHere(p); } done(2); }

// a continuation adds threads to the pool while another thread is joining it: the join waits for those as well
static Fire slow(thread_pool& p) { co_await p.schedule(); mc::point(); onPool(1); }
static Fire grower(thread_pool& p, Work w, int n, bool keep) { co_await p.schedule(); onPool(0); for (int i = 0; i < n; i++) p.create_thread(); slow(p); if (keep) { co_await p.schedule(); onPool(2); } release(w); }
MC_SCENARIO("C07.grow", P(3, 5).sh(8)) { outside(); int n = 1 + mc::flip("threads"); bool keep = mc::flip("keep"); { thread_pool p; Work w = token(p); p.create_threads(1); grower(p, std::move(w), n, keep); p.join(); MC_REQUIRE(mc::gget(RAN) == 2 + keep, "join waits for every posted continuation"); } done(2 + keep); }
MC_SCENARIO("C07.grow_destroy", P(3, 5).sh(8)) { outside(); { thread_pool p; Work w = token(p); p.create_threads(1); grower(p, std::move(w), 1, false); } done(2); }
// many queued continuations: each runs once, in one thread or several
static Fire manyJob(thread_pool& p, std::vector<int>& ran, int id, int hops) { Val l(id); for (int i = 0; i < hops; i++) { co_await p.schedule(); MC_REQUIRE(!mc::gget(OUT0 + mc::tid()), "a continuation runs on a thread of the pool"); MC_REQUIRE(++ran[id] == i + 1, "a continuation is resumed at most once"); mc::gadd(RAN); } MC_REQUIRE(l.get() == id, "locals"); }
MC_SCENARIO("C07.many", S().lim(60000)) {
	static const int ns[] = { 15, 16, 17, 33, 64, 65, 129, 257, 300, 600 }; int n = ns[mc::choose(10, "count")], hops = 1 + mc::flip("hops") * 2; std::vector<int> ran(n, 0);
	{ thread_pool p; Work w = token(p); for (int i = 0; i < n; i++) manyJob(p, ran, i, hops); release(w); runHere(p); MC_REQUIRE(mc::gget(RAN) == n * hops, "run() returns only when nothing is queued"); }
	for (int i = 0; i < n; i++) MC_REQUIRE(ran[i] == hops, "every posted continuation is run"); mc::noLive();
}
MC_SCENARIO("C07.many_threads", P(1, 1).lim(60000).sh(4)) {
	int n = mc::thorough() ? 40 : 20, t = 1 + mc::choose(3, "threads"); std::vector<int> ran(n, 0); outside();
	{ thread_pool p; Work w = token(p); p.create_threads(t); for (int i = 0; i < n; i++) manyJob(p, ran, i, 1); release(w); p.join(); }
	for (int i = 0; i < n; i++) MC_REQUIRE(ran[i] == 1, "every posted continuation is run"); mc::noLive();
}
// many tokens: the pool stays in use until the last one is gone
MC_SCENARIO("C07.many_tokens", S().lim(60000)) {
	static const int ns[] = { 17, 65, 127, 128, 129, 255, 256, 257, 1000 }; int n = ns[mc::choose(9, "tokens")], order = mc::choose(4, "order"); std::vector<int> ran(1, 0);
	{ thread_pool p; std::vector<Work> w; for (int i = 0; i < n; i++) w.push_back(p.make_work()); for (int k = 0; k + 1 < n; k++) w[nth(order, k, n)].reset();
	struct L { static Fire last(thread_pool& p, Work& w) { co_await p.schedule(); mc::gadd(RAN); w.reset(); } }; manyJob(p, ran, 0, 1); L::last(p, w[nth(order, n - 1, n)]); runHere(p); }
	MC_REQUIRE(mc::gget(RAN) == 2, "every posted continuation is run"); mc::noLive();
}
MC_SCENARIO("C07.many_tokens_held", P(1, 1).lim(60000)) {
	static const int ns[] = { 128, 255, 256, 257, 512 }; int n = ns[mc::choose(5, "tokens")]; std::vector<int> ran(1, 0); outside();
	{ thread_pool p; std::vector<Work> w; for (int i = 0; i < n; i++) w.push_back(p.make_work()); mc::gset(TOKENS, n); p.create_threads(1); manyJob(p, ran, 0, 1); for (int i = 0; i < n; i++) { mc::gadd(TOKENS, -1); w[i].reset(); } p.join(); MC_REQUIRE(ran[0] == 1, "every posted continuation is run"); }
	mc::noLive();
}
// a token is given back by its destruction, by assignment, by a move; each counts once
MC_SCENARIO("C07.token_ends", P(2, 3)) {
	outside(); { thread_pool p; Work k = token(p); p.create_threads(1); int how = mc::choose(5, "how");
	std::thread y([&p, how] { outside(); { Work w = p.make_work(), v = p.make_work(); job(p, 0); switch (how) { case 0: break; case 1: w = std::move(v); break; case 2: { Work u(std::move(w)); break; } case 3: w.reset(); w.reset(); break; default: { auto h = std::make_unique<Work>(std::move(w)); h.reset(); } } job(p, 1); } });
	release(k); p.join(); y.join(); p.join(); MC_REQUIRE(mc::gget(RAN) <= 2, "once"); if (mc::gget(RAN) < 2) runHere(p); }
	done(2);
}
// a token that was moved from holds no pool in use, also while it lives on
MC_SCENARIO("C07.token_moved", P(2, 3)) {
	outside(); { thread_pool p, q; int how = mc::choose(4, "how"); bool same = mc::flip("same pool"); Work w = p.make_work(), v = same ? p.make_work() : q.make_work(); p.create_threads(1); q.create_threads(1); job(p, 0);
	switch (how) { case 0: w = std::move(v); break; case 1: { Work u(std::move(w)); w = std::move(v); break; } case 2: { Work u(std::move(v)); w = std::move(u); u = {}; if (!same) p.join(); w.reset(); break; } default: w.reset(); w = std::move(v); break; }
	if (!same) p.join(); // w can only hold the other pool now
	w.reset(); p.join(); q.join(); MC_REQUIRE(mc::gget(RAN) == 1, "join waits for every posted continuation"); v.reset(); w.reset(); }
	done(1);
}
// every thread that was asked for works, in however many calls: items that wait for each other all finish
static Fire meet(thread_pool& p, mc::Gate* g, int n) { co_await p.schedule(); onPool(-1); if (mc::gadd(3) == n) g->set(); else g->wait(); }
MC_SCENARIO("C07.threads_added", P(1, 1).sh(4)) {
	outside(); { mc::Gate g; thread_pool p; int a = mc::choose(3, "at first"), b = mc::choose(3, "then"), c = mc::choose(2, "last"), n = a + b + c, how = mc::choose(2, "how"); if (n < 2 || n > 3) mc_prune_(); Work w = p.make_work(); p.create_threads(a); if (how) for (int i = 0; i < n; i++) meet(p, &g, n); p.create_threads(b); if (c) p.create_thread();
	if (!how) for (int i = 0; i < n; i++) meet(p, &g, n); w.reset(); p.join(); MC_REQUIRE(mc::gget(RAN) == n, "join waits for every posted continuation"); } mc::noLive();
}
