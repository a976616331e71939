// C18: time-outs and take-until deliver one outcome and stop the loser.
#include "common.h"
#include "macoro/take_until.h"
#include "macoro/timeout.h"
#include "macoro/thread_pool.h"
#include "macoro/sync_wait.h"
#include "macoro/start_on.h"
using namespace macoro;
using namespace std::chrono_literals;
using Work = thread_pool::work;
enum { REQ = 0, DEADLINE = 1, OUTC = 2, JOINED = 3, OPDONE = 4, PROMPT = 5, PREDONE = 6, TRIG = 7 };
static void requested() { mc::gset(REQ, 1); }
// what a token of the time-out may say at this moment
static void looks(const stop_token& t) { bool r = t.stop_requested(); MC_REQUIRE(!r || mc::gget(REQ) || mc_now_() >= mc::gget(DEADLINE), "a time-out reports stop only once requested or expired"); }
static void expired(timeout& t, const stop_token& tok) { MC_REQUIRE(mc::gget(REQ) || mc_now_() >= mc::gget(DEADLINE), "a time-out completes only once requested or expired"); MC_REQUIRE(tok.stop_requested(), "a time-out that completed reports stop"); MC_REQUIRE(!mc::gget(PROMPT) || !mc::gget(REQ) || mc_now_() < mc::gget(DEADLINE), "a stop request ends the time-out at once"); mc::outcome(mc_now_() >= mc::gget(DEADLINE)); }
static void arm(std::chrono::nanoseconds d) { mc::gset(DEADLINE, mc_now_() + d.count()); }
struct Rig { thread_pool p; Work w = p.make_work(); Rig(int n = 1) { p.create_threads(n); } ~Rig() { w.reset(); p.join(); } };
static task<void> awaitTo(timeout& t, stop_token tok, bool rv) { if (rv) co_await std::move(t); else co_await t; expired(t, tok); }

// --- the time-out alone
static void alone(int how, int threads) { // 0 expires, 1 request_stop on it, 2 on its source, 3 the token it was given
	mc::gset(PROMPT, how != 0 ? 1 : 0); { Rig r(threads); stop_source ext; arm(5s); timeout t(r.p, 5s, how == 3 ? ext.get_token() : stop_token{}); stop_token tok = t.get_token(); stop_source src = t.get_source(); looks(tok); std::thread q;
	if (how) q = std::thread([&, how] { requested(); if (how == 1) t.request_stop(); else if (how == 2) src.request_stop(); else ext.request_stop(); if (how < 3) MC_REQUIRE(tok.stop_requested(), "stop is visible"); });
	sync_wait(awaitTo(t, tok, mc::flip("rvalue"))); if (q.joinable()) q.join(); } mc::noLive();
}
MC_SCENARIO("C18.expires", D()) { alone(0, 1); }
MC_SCENARIO("C18.requested", P(2, 3).sh(8)) { alone(1 + mc::choose(3, "how"), 1); }
MC_SCENARIO("C18.requested_threads", P(1, 2).sh(8)) { alone(1 + mc::choose(3, "how"), 2); }
// request and expiry at the same time
static void both(int how) { { Rig r(1); stop_source ext; arm(5s); mc_time_mark_(mc::gget(DEADLINE)); timeout t(r.p, 5s, how == 3 ? ext.get_token() : stop_token{}); stop_token tok = t.get_token(); stop_source src = t.get_source();
	std::thread q([&, how] { looks(tok); requested(); if (how == 1) t.request_stop(); else if (how == 2) src.request_stop(); else ext.request_stop(); }); sync_wait(awaitTo(t, tok, false)); q.join(); } mc::noLive(); }
MC_SCENARIO("C18.both", P(1, 2).timeb(1, 1).sh(8)) { both(1 + mc::choose(3, "how")); }
// requested before it is made, or before it is awaited; awaited after it completed
MC_SCENARIO("C18.before", P(3, 4).sh(8)) {
	mc::gset(PROMPT, 1); { Rig r(1); stop_source ext; bool early = mc::flip("early"); if (early) { requested(); ext.request_stop(); } arm(5s); timeout t(r.p, 5s, ext.get_token()); stop_token tok = t.get_token(); if (early) MC_REQUIRE(tok.stop_requested(), "passes on an earlier request"); else { requested(); if (mc::flip("ext")) ext.request_stop(); else t.request_stop(); }
	sync_wait(awaitTo(t, tok, true)); } mc::noLive();
}
MC_SCENARIO("C18.polled", P(2, 3).timeb(1, 2).sh(8)) { // a bystander watches the token
	{ Rig r(1); arm(5s); mc_time_mark_(mc::gget(DEADLINE) - 1); mc_time_mark_(mc::gget(DEADLINE)); timeout t(r.p, 5s); stop_token tok = t.get_token(); std::thread q([tok] { bool a = tok.stop_requested(); MC_REQUIRE(!a || mc_now_() >= mc::gget(DEADLINE), "not before it expired"); MC_REQUIRE(!a || tok.stop_requested(), "stays requested"); }); sync_wait(awaitTo(t, tok, true)); q.join(); } mc::noLive();
}
// moved while it is pending
static void moved(int how, bool assign) {
	mc::gset(PROMPT, 1); { Rig r(1); stop_source ext; arm(5s); auto a = std::make_unique<timeout>(r.p, 5s, ext.get_token()); stop_token tok = a->get_token(); std::thread q([&] { requested(); ext.request_stop(); }); timeout b; if (assign) b = std::move(*a); else { timeout c(std::move(*a)); b = std::move(c); } if (how) { stop_token later = a->get_token(); looks(later); if (b.get_token().stop_requested()) MC_REQUIRE(later.stop_requested(), "a moved-from time-out still gives its token"); } a.reset(); sync_wait(awaitTo(b, tok, mc::flip("rvalue"))); q.join(); } mc::noLive();
}
MC_SCENARIO("C18.moved", P(2, 3).sh(8)) { moved(mc::flip("token"), mc::flip("assign")); }
// re-armed after it completed, with or without a token
MC_SCENARIO("C18.rearmed", P(2, 3).sh(8)) {
	{ Rig r(1); stop_source e1, e2; arm(1s); timeout t; t.reset(r.p, 1s, e1.get_token()); stop_token k1 = t.get_token(); if (mc::flip("requested")) { requested(); e1.request_stop(); } sync_wait(awaitTo(t, k1, false)); mc::gset(REQ, 0); arm(3s); t.reset(r.p, 3s, e2.get_token()); stop_token k2 = t.get_token(); looks(k2); std::thread q([&] { requested(); e2.request_stop(); }); e1.request_stop(); sync_wait(awaitTo(t, k2, false)); q.join(); } mc::noLive();
}
// a scheduler that fails: the time-out completes at once and, having completed, reports stop
struct Sick { int how; struct Aw { int how; stop_token k; bool await_ready() { if (how == 1) boom(1); return how == 3; } template<class H> void await_suspend(H) { boom(2); } void await_resume() { boom(3); } }; Aw schedule_after(std::chrono::nanoseconds, stop_token k) { if (how == 0) boom(0); return { how, k }; } };
static task<int> sickUser(Sick& s, stop_token ext, bool until) { requested(); timeout t(s, 5s, ext); stop_token k = t.get_token(); MC_REQUIRE(k.stop_requested(), "a time-out that completed reports stop"); int v = 1; if (until) v = co_await take_until([](stop_token k) -> task<int> { co_await k; co_return 1; }(k), std::move(t)); else { co_await t; timeout u; u.reset(s, 1s); k = u.get_token(); co_await std::move(u); } MC_REQUIRE(k.stop_requested(), "a time-out that completed reports stop"); co_return v; }
MC_SCENARIO("C18.sick_scheduler", S()) { { Sick s{ mc::choose(4, "how") }; stop_source ext; MC_REQUIRE(sync_wait(sickUser(s, mc::flip("outside") ? ext.get_token() : stop_token{}, mc::flip("until"))) == 1, "value"); } mc::noLive(); }
// one outside token stops several time-outs; the outside source is gone before they complete
MC_SCENARIO("C18.shared", P(2, 3).sh(8)) {
	mc::gset(PROMPT, 1); { Rig r(1); auto ext = std::make_unique<stop_source>(); arm(5s); timeout a(r.p, 5s, ext->get_token()), b(r.p, 6s, ext->get_token()); stop_token ka = a.get_token(), kb = b.get_token(); std::thread q([&] { requested(); ext->request_stop(); ext.reset(); }); sync_wait(awaitTo(b, kb, false)); sync_wait(awaitTo(a, ka, false)); q.join(); MC_REQUIRE(ka.stop_requested() && kb.stop_requested(), "all are stopped"); } mc::noLive();
}
MC_SCENARIO("C18.source_gone", D()) { { Rig r(1); arm(5s); timeout a; { stop_source ext; a.reset(r.p, 5s, ext.get_token()); } stop_token k = a.get_token(); MC_REQUIRE(k.stop_possible(), "token"); sync_wait(awaitTo(a, k, false)); MC_REQUIRE(mc_now_() >= mc::gget(DEADLINE), "not early"); } mc::noLive(); }

// --- take_until: the operation decides the outcome, the trigger only stops it
// operation forms: 0 at once, 1 waits for its token, 2 works on the pool, 3 delayed work shorter than the time-out, 4 delayed longer but stoppable, 5 longer, ignores the token
static task<Val> op(thread_pool& p, stop_token tok, int form, bool fail, Val arg) {
	switch (form) { case 0: break; case 1: co_await tok; MC_REQUIRE(tok.stop_requested(), "the token was stopped"); break; case 2: co_await p.schedule(); break; case 3: co_await p.schedule_after(2s, tok); break; case 4: co_await p.schedule_after(9s, tok); MC_REQUIRE(tok.stop_requested() && mc_now_() < 10'000'000'000ll, "stopped by the trigger"); break; default: co_await p.schedule_after(9s); MC_REQUIRE(tok.stop_requested(), "the trigger fired first"); }
	looks(tok); MC_REQUIRE(mc::gadd(OPDONE) == 1, "the operation runs once"); if (fail) boom(arg.get()); co_return Val(arg.get() + 1);
}
static task<void> opv(thread_pool& p, stop_token tok, int form, bool fail) { Val v = co_await op(p, tok, form, fail, Val(4)); MC_REQUIRE(v.get() == 5, "inner value"); }
static task<void> user(thread_pool& p, int form, bool fail, bool isVoid, stop_token outer, bool* ok) {
	arm(5s); timeout to(p, 5s, outer); stop_token tok = to.get_token(); bool thrown = false; int v = -1;
	try { if (isVoid) { co_await take_until(opv(p, to.get_token(), form, fail), std::move(to)); v = 5; } else { Val r = co_await take_until(op(p, to.get_token(), form, fail, Val(4)), std::move(to)); v = r.get(); } } catch (Boom& b) { thrown = true; MC_REQUIRE(b.v == 4, "its own exception"); }
	MC_REQUIRE(mc::gget(OPDONE) == 1, "the operation completed"); MC_REQUIRE(thrown == fail && (fail || v == 5), "its own outcome"); MC_REQUIRE(tok.stop_requested(), "the trigger is cancelled");
	if (form == 0 || form == 2 || form == 3) { MC_REQUIRE(mc_now_() < mc::gget(DEADLINE) || mc::gget(PREDONE), "the trigger does not delay an operation that finished first"); }
	MC_REQUIRE(mc::gadd(OUTC) == 1, "one outcome"); *ok = true;
}
static void until(int form, bool fail, bool isVoid, int threads, bool early) {
	mc::gset(PREDONE, early); { Rig r(threads); bool ok = false; if (early) mc_time_mark_(mc_now_() + 5'000'000'000ll); mc::gset(REQ, 0); sync_wait(user(r.p, form, fail, isVoid, {}, &ok)); MC_REQUIRE(ok, "completed"); } mc::noLive();
}
MC_SCENARIO("C18.until", P(2, 3).sh(8)) { int f = mc::choose(6, "form"); bool e = mc::flip("throws"); until(f, e, mc::flip("void"), 1, false); }
MC_SCENARIO("C18.until_threads", P(1, 2).sh(8)) { int f = mc::choose(6, "form"); until(f, mc::flip("throws"), false, 2, false); }
MC_SCENARIO("C18.until_race", P(2, 3).timeb(1, 2).sh(8)) { int f = mc::choose(3, "form"); until(f, false, false, 1, true); }
// a stop request from outside while the operation runs
MC_SCENARIO("C18.until_outer", P(2, 2).sh(8)) {
	int f = mc::choose(5, "form"); { Rig r(1); stop_source ext; bool ok = false; std::thread q([&] { requested(); ext.request_stop(); }); mc::gset(PREDONE, 1); if (f == 4) f = 1; sync_wait(user(r.p, f, mc::flip("throws"), false, ext.get_token(), &ok)); q.join(); MC_REQUIRE(ok, "completed"); } mc::noLive();
}
// a trigger of our own: started at once or when awaited, may fail, completes on another thread
struct Trigger2 { stop_source s; eager_task<void> t; bool* stopped; Trigger2(eager_task<void> t, stop_source s, bool* st) : s(s), t(std::move(t)), stopped(st) {} void request_stop() { *stopped = true; s.request_stop(); } auto operator co_await() && { return std::move(t).operator co_await(); } };
struct Trigger3 { stop_source s; task<void> t; bool* stopped; Trigger3(task<void> t, stop_source s, bool* st) : s(s), t(std::move(t)), stopped(st) {} void request_stop() { *stopped = true; s.request_stop(); } auto operator co_await() && { return std::move(t).operator co_await(); } };
template<class T> static T trig(stop_token t, Later* l, bool fail) { if (l) co_await l->ref(); else co_await t; mc::gadd(TRIG); if (fail) boom(1); }
static task<int> work(Later& l, bool fail) { co_await l.ref(); mc::gadd(OPDONE); if (fail) boom(3); co_return 8; }
static task<void> custom(Later& a, Later* b, bool lazy, bool fail, bool tfail, bool* stopped) {
	stop_source s; int v = 0; bool thrown = false; stop_token tok = s.get_token();
	try { if (lazy) v = co_await take_until(work(a, fail), Trigger3(trig<task<void>>(tok, b, tfail), s, stopped)); else v = co_await take_until(work(a, fail), Trigger2(trig<eager_task<void>>(tok, b, tfail), s, stopped)); } catch (Boom& x) { thrown = true; MC_REQUIRE(x.v == 3, "the operation's exception, not the trigger's"); }
	MC_REQUIRE(*stopped, "the trigger was cancelled"); MC_REQUIRE(mc::gget(TRIG) == 1, "the trigger was joined"); MC_REQUIRE(mc::gget(OPDONE) == 1 && thrown == fail && (fail || v == 8), "outcome"); MC_REQUIRE(mc::gadd(OUTC) == 1, "once");
}
MC_SCENARIO("C18.trigger_stops", P(4, 6).sh(4)) { bool st = false; Later a; std::thread t([&] { a.complete(); }); sync_wait(custom(a, nullptr, mc::flip("lazy"), mc::flip("throws"), mc::flip("trigger throws"), &st)); t.join(); MC_REQUIRE(mc::gget(OUTC) == 1, "done"); }
MC_SCENARIO("C18.trigger_late", P(3, 5).sh(8)) { bool st = false; Later a, b; std::thread t([&] { a.complete(); }), u([&] { b.complete(); }); sync_wait(custom(a, &b, mc::flip("lazy"), mc::flip("throws"), mc::flip("trigger throws"), &st)); t.join(); u.join(); MC_REQUIRE(mc::gget(OUTC) == 1, "done"); }
// nested: the outer time-out reaches the inner one
static task<int> inner(thread_pool& p, stop_token outer) { timeout t(p, 7s, outer); stop_token k = t.get_token(); int r = co_await take_until([](stop_token k) -> task<int> { co_await k; co_return 2; }(k), std::move(t)); MC_REQUIRE(k.stop_requested(), "stopped"); co_return r + 1; }
static task<int> outer(thread_pool& p) { arm(5s); timeout t(p, 5s); stop_token k = t.get_token(); int r = co_await take_until(inner(p, k), std::move(t)); MC_REQUIRE(k.stop_requested() && mc_now_() >= mc::gget(DEADLINE), "outer expired"); MC_REQUIRE(mc_now_() < mc::gget(DEADLINE) + 2'000'000'000, "the inner one was stopped by it"); co_return r + 1; }
MC_SCENARIO("C18.nested", P(1, 2).sh(8)) { { Rig r(1 + mc::flip("threads")); MC_REQUIRE(sync_wait(outer(r.p)) == 4, "value"); } mc::noLive(); }
// time-outs of every unit and size, made or re-armed, alone and as the trigger: expire exactly at their deadline; one too long to pass ends with a stop request only
using Days = std::chrono::duration<int, std::ratio<86400>>;
enum { UNITS = 10, ENDLESS = 5 };
template<class F> static void unit(int u, F f) { switch (u) { case 0: f(0ns); break; case 1: f(1ns); break; case 2: f(1500us); break; case 3: f(std::chrono::milliseconds(2'160'000'000ll)); break; case 4: f(49h); break; case 5: f(Days(36500)); break; case 6: f(-3min); break; case 7: f(std::chrono::duration<short, std::ratio<1, 2>>(3)); break; case 8: f(std::chrono::duration<unsigned, std::milli>(4'000'000'000u)); break; default: f(1min); } }
template<class F> static void endless(int u, F f) { switch (u) { case 0: f(std::chrono::nanoseconds::max()); break; case 1: f(std::chrono::hours::max()); break; case 2: f(std::chrono::seconds::max()); break; case 3: f(std::chrono::hours(24 * 366 * 300)); break; default: f(Days::max()); } }
static Fire unitRun(thread_pool& p, int u, int how) {
	stop_source ext; timeout t; long long ns = 0, t0 = mc_now_();
	unit(u, [&](auto d) { ns = std::max<long long>(0, std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); if (how == 0 || how == 3) t = timeout(p, d, ext.get_token()); else if (how == 1) t.reset(p, d); else { t.reset(p, 1h); t.request_stop(); } }); stop_token tok = t.get_token();
	if (how == 2) { co_await t; MC_REQUIRE(mc_now_() == t0 && tok.stop_requested(), "a stop request ends the time-out at once"); unit(u, [&](auto d) { t.reset(p, d, ext.get_token()); }); tok = t.get_token(); }
	if (how == 3) { int r = co_await take_until([](thread_pool& p, stop_token k) -> task<int> { co_await k; co_return 3; }(p, tok), std::move(t)); MC_REQUIRE(r == 3, "the operation's outcome"); }
	else { if (ns) MC_REQUIRE(!tok.stop_requested(), "a time-out reports stop only once requested or expired"); co_await t; }
	MC_REQUIRE(tok.stop_requested() && mc_now_() == t0 + ns, "the time-out expires at its deadline"); mc::gadd(OUTC);
}
MC_SCENARIO("C18.units", S()) { { thread_pool p; int u = mc::choose(UNITS, "delay"), v = mc::choose(UNITS, "other"), how = mc::choose(4, "how"); unitRun(p, u, how == 3 ? 0 : how); unitRun(p, v, how); p.run(); MC_REQUIRE(mc::gget(OUTC) == 2, "both ended"); } mc::noLive(); }
static Fire endlessRun(thread_pool& p, timeout& t, stop_token tok, bool until) {
	if (until) { int r = co_await take_until([](thread_pool& p) -> task<int> { co_await p.schedule_after(Days(36501)); co_return 3; }(p), std::move(t)); MC_REQUIRE(r == 3, "value"); MC_REQUIRE(mc_now_() == 1'000'000'000 + 36501ll * 86400 * 1'000'000'000, "a trigger that did not fire is stopped at once"); }
	else { co_await t; MC_REQUIRE(mc::gget(REQ), "a time-out too long to pass ends only with a stop request"); } MC_REQUIRE(tok.stop_requested(), "stopped"); mc::gadd(OUTC);
}
MC_SCENARIO("C18.forever", S()) { { thread_pool p; timeout t; bool reset = mc::flip("reset"), until = mc::flip("until"); endless(mc::choose(ENDLESS, "delay"), [&](auto d) { if (reset) t.reset(p, d); else t = timeout(p, d); }); stop_token tok = t.get_token(); endlessRun(p, t, tok, until);
	[](thread_pool& p, stop_source s, stop_token k) -> Fire { co_await p.schedule_after(Days(36501) + 1s); (void)k; requested(); s.request_stop(); }(p, t.get_source(), tok); p.run(); MC_REQUIRE(mc::gget(OUTC) == 1, "ended"); } mc::noLive(); }
// many time-outs at a time, in several orders of deadlines, some with a common outside token, some stopped one by one: each ends once, when it is due
static Fire manyTo(timeout& t, std::vector<long long>& at, int id) { co_await t; MC_REQUIRE(at[id] < 0, "a time-out completes once"); at[id] = mc_now_(); }
static task<int> manyOp(thread_pool& p, std::chrono::nanoseconds d, stop_token k) { co_await p.schedule_after(d, k); co_return k.stop_requested() ? 2 : 1; }
static Fire manyUntil(thread_pool& p, timeout& t, std::vector<long long>& at, int id, std::chrono::nanoseconds d, std::vector<int>& res) { stop_token k = t.get_token(); res[id] = co_await take_until(manyOp(p, d, k), std::move(t)); MC_REQUIRE(at[id] < 0, "a time-out completes once"); at[id] = mc_now_(); }
MC_SCENARIO("C18.many", S().cas(0, 0).lim(60000).sh(4)) {
	{ static const int sizes[] = { 5, 16, 17, 33, 65 }; int n = sizes[mc::choose(5, "count")], order = mc::choose(4, "order"), how = mc::choose(4, "stopped"), sorder = how == 2 ? mc::choose(4, "order of stops") : 0; bool until = mc::flip("until");
	thread_pool p; stop_source ext; std::vector<timeout> t(n); std::vector<long long> at(n, -1), want(n); std::vector<int> res(n, 0); std::vector<char> st(n, 0); long long t0 = mc_now_();
	for (int i = 0; i < n; i++) { int r = nth(order, i, n); long long s = 10 + r; t[i].reset(p, s * 1s, how == 1 && i % 2 ? ext.get_token() : stop_token{}); want[i] = t0 + s * 1'000'000'000; if (how == 1 && i % 2 || how == 2 && i % 3 == 1 || how == 3 && i != n / 2) want[i] = t0 + 5'000'000'000, st[i] = 1; }
	std::vector<stop_source> src; for (auto& x : t) src.push_back(x.get_source());
	for (int i = 0; i < n; i++) if (until && i % 2) { bool first = i % 4 == 1; long long d = first ? 3 : 1000; if (first) want[i] = t0 + 3'000'000'000; manyUntil(p, t[i], at, i, d * 1s, res); } else manyTo(t[i], at, i);
	auto stops = [&] { if (how == 1) ext.request_stop(); else for (int k = 0; k < n; k++) { int i = how == 2 ? nth(sorder, k, n) : k; if (st[i]) src[i].request_stop(); } };
	struct L { static Fire go(thread_pool& p, decltype(stops)& f) { co_await p.schedule_after(5s); f(); } }; L::go(p, stops); p.run();
	for (int i = 0; i < n; i++) { MC_REQUIRE(at[i] == want[i], "every time-out ends when it is due, or at once when it is stopped"); if (until && i % 2) MC_REQUIRE(res[i] == (i % 4 == 1 ? 1 : 2), "the operation decides the outcome"); } }
	mc::noLive();
}
