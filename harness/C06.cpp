#define MC_CAS 0 // except where a scenario says so
// C06: a scoped coroutine block joins all its children before its awaiter continues.
#include "common.h"
#include "macoro/task.h"
#include "macoro/when_all_scope.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
enum { RES, END, GOT, BODY, BODYEND, FREED, START = 10 };
static Val* target;
struct Probe { int i; Val v; bool armed = true; explicit Probe(int i) : i(i), v(i) {} Probe(Probe&& o) noexcept : i(o.i), v(std::move(o.v)), armed(std::exchange(o.armed, false)) {} ~Probe() { if (armed) mc::gadd(FREED); } };
template<class T> task<T> op(Probe p, Later* l, bool thrown, int* data) {
	mc::gadd(START + p.i); Val local(p.i);
	if (l) co_await l->ref();
	if (data) *data = 1;
	mc::gadd(END);
	if (thrown) boom(100 + p.i);
	if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *target; else co_return T(p.i);
}
// a block with up to three children; fate: 0 dropped at once, 1 awaited in order, 2 held until the end of the block
struct Cfg { int n; int fate[3]; bool thrown[3]; bool later[3]; bool bodyLater; bool bodyThrows; };
static when_all_scope block(Cfg c, Later* l, Later* bl, int* data, Probe pb) {
	mc::gadd(BODY); Val local(9);
	std::vector<scoped_task<Val>> held; std::vector<int> idx;
	for (int i = 0; i < c.n; i++) {
		scoped_task<Val> t = co_await scoped(op<Val>(Probe(i), c.later[i] ? &l[i] : nullptr, c.thrown[i], data + i));
		MC_REQUIRE(mc::gget(START + i) == 1, "a child starts at once");
		if (c.fate[i]) { held.push_back(std::move(t)); idx.push_back(i); }
	}
	if (c.bodyLater) co_await bl->ref();
	for (size_t k = 0; k < held.size(); k++) {
		int i = idx[k]; if (c.fate[i] != 1) continue; bool got = false;
		try { Val v = co_await std::move(held[k]); MC_REQUIRE(v.get() == i, "a child delivers its own value to its awaiter in the block"); }
		catch (Boom& b) { got = true; MC_REQUIRE(b.v == 100 + i, "a child delivers its own exception to its awaiter in the block"); }
		MC_REQUIRE(got == c.thrown[i] && data[i] == 1, "outcome and writes of the awaited child"); mc::gadd(GOT);
	}
	mc::gadd(BODYEND);
	if (c.bodyThrows) boom(50);
}
static int awaited(Cfg& c) { int n = 0; for (int i = 0; i < c.n; i++) n += c.fate[i] == 1; return n; }
static void joined(Cfg& c, int* data) {
	MC_REQUIRE(mc::gget(BODY) == 1 && mc::gget(BODYEND) == 1, "the body ran exactly once and finished");
	MC_REQUIRE(mc::gget(END) == c.n, "every child finished before the awaiter continues");
	for (int i = 0; i < c.n; i++) MC_REQUIRE(data[i] == 1, "writes of the children are visible");
	MC_REQUIRE(mc::gget(GOT) == awaited(c), "each awaited child resumed the block once");
	int dropped = 0; for (int i = 0; i < c.n; i++) dropped += c.fate[i] == 0; 
	MC_REQUIRE(mc::gget(FREED) >= dropped, "dropped children are freed before the awaiter continues");
	MC_REQUIRE(mc::gadd(RES) == 1, "the awaiter is resumed at most once"); mc::outcome(mc::tid());
}
static Fire runBlock(Cfg c, Later* l, Later* bl, int* data) {
	{ co_await block(c, l, bl, data, Probe(8)); joined(c, data); }
}
static Fire runBlockL(Cfg c, Later* l, Later* bl, int* data) {
	auto b = block(c, l, bl, data, Probe(8)); MC_REQUIRE(mc::gget(BODY) == 0, "a block does not start before it is awaited");
	co_await b; joined(c, data);
}
static task<int> runTask(Cfg c, Later* l, Later* bl, int* data) { co_await block(c, l, bl, data, Probe(8)); joined(c, data); co_return 5; }
// the block awaited by every other kind of coroutine and combinator
static task<int> runMacro(Cfg c, Later* l, Later* bl, int* data) { MC_BEGIN(task<int>, c, l, bl, data); MC_AWAIT(block(c, l, bl, data, Probe(8))); joined(c, data); MC_RETURN(5); MC_END(); }
static task<int> runMacroL(Cfg c, Later* l, Later* bl, int* data) { MC_BEGIN(task<int>, c, l, bl, data, b = block(c, l, bl, data, Probe(8))); MC_AWAIT(b); joined(c, data); MC_RETURN(5); MC_END(); }
static eager_task<int> runEager(Cfg c, Later* l, Later* bl, int* data) { co_await block(c, l, bl, data, Probe(8)); joined(c, data); co_return 5; }
static task<int> runScope(Cfg c, Later* l, Later* bl, int* data) { { async_scope s; { auto t = s.add(block(c, l, bl, data, Probe(8))); } co_await s; } joined(c, data); co_return 5; }
static task<int> runScopeTask(Cfg c, Later* l, Later* bl, int* data) { { async_scope s; auto t = s.add(block(c, l, bl, data, Probe(8))); co_await std::move(t); co_await s; } joined(c, data); co_return 5; }
static when_all_scope outer(Cfg c, Later* l, Later* bl, int* data, bool await) { auto t = co_await scoped(block(c, l, bl, data, Probe(8))); if (await) co_await std::move(t); }
static task<int> runOuter(Cfg c, Later* l, Later* bl, int* data, bool await) { co_await outer(c, l, bl, data, await); joined(c, data); co_return 5; }
static task<int> runAll(Cfg c, Later* l, Later* bl, int* data) { { auto r = co_await when_all_ready(block(c, l, bl, data, Probe(8))); std::get<0>(r).result(); } joined(c, data); co_return 5; }
static void fin(Cfg& c) {
	MC_REQUIRE(mc::gget(RES) == 1, "the awaiter is resumed exactly once");
	for (int i = 0; i < c.n; i++) MC_REQUIRE(mc::gget(START + i) == 1, "each child runs once");
	MC_REQUIRE(mc::gget(FREED) == c.n + 1, "the block and each child are freed exactly once");
	MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "everything is freed exactly once");
}
static Cfg pick(int n, bool later) { Cfg c{}; c.n = n; for (int i = 0; i < n; i++) { c.fate[i] = mc::choose(3, "fate"); c.thrown[i] = c.fate[i] == 1 && mc::flip("throw"); c.later[i] = later || mc::flip("later"); } return c; }
static void race(Cfg c, int form) {
	Val t0(0); target = &t0; Later l[3], bl; int data[3] = {}; std::vector<std::thread> th; th.reserve(5);
	for (int i = 0; i < c.n; i++) if (c.later[i]) th.emplace_back([&, i] { l[i].complete(); });
	if (c.bodyLater) th.emplace_back([&] { bl.complete(); });
	if (form == 0) runBlock(c, l, &bl, data); else if (form == 1) runBlockL(c, l, &bl, data); else { auto t = [&]() -> task<int> { switch (form) { case 3: return runMacro(c, l, &bl, data); case 4: return runMacroL(c, l, &bl, data); case 5: return runScope(c, l, &bl, data); case 6: return runScopeTask(c, l, &bl, data); case 7: return runOuter(c, l, &bl, data, false); case 8: return runOuter(c, l, &bl, data, true); case 9: return runAll(c, l, &bl, data); default: return runTask(c, l, &bl, data); } };
		MC_REQUIRE((form == 10 ? sync_wait(runEager(c, l, &bl, data)) : sync_wait(t())) == 5, "task value"); }
	for (auto& x : th) x.join();
	fin(c);
}
MC_SCENARIO("C06.race1", D()) { Cfg c = pick(1, true); race(c, mc::choose(3, "form")); }
MC_SCENARIO("C06.awaiters1", D()) { Cfg c = pick(1, false); race(c, 3 + mc::choose(8, "form")); }
MC_SCENARIO("C06.awaiters1.bodylater", D()) { Cfg c = pick(1, true); c.bodyLater = true; race(c, 3 + mc::choose(8, "form")); }
MC_SCENARIO("C06.awaiters2", P(2,3).sh(8)) { Cfg c = pick(2, false); race(c, 3 + mc::choose(8, "form")); }
MC_SCENARIO("C06.race1.bodylater", D()) { Cfg c = pick(1, true); c.bodyLater = true; race(c, mc::choose(3, "form")); }
MC_SCENARIO("C06.race2", D()) { Cfg c = pick(2, true); race(c, 0); }
MC_SCENARIO("C06.race2.sync", P(2, 4).sh(4)) { Cfg c = pick(2, true); race(c, 2); }
MC_SCENARIO("C06.race2.bodylater", P(2, 4).sh(8)) { Cfg c = pick(2, true); c.bodyLater = true; race(c, mc::choose(2, "form")); }
MC_SCENARIO("C06.race3", P(2, 3).sh(8)) { Cfg c{}; c.n = 3; c.fate[1] = 1; c.fate[2] = 2; for (auto& x : c.later) x = true; c.thrown[1] = mc::flip("throw"); race(c, 0); }
MC_SCENARIO("C06.race2.weak", P(2, 4).weak(1, 3).sh(4)) { Cfg c{}; c.n = 2; c.fate[1] = 1; c.later[0] = c.later[1] = true; race(c, 0); }
// all sequential shapes and completion orders
MC_SCENARIO("C06.orders", S().sh(4)) {
	Val t0(0); target = &t0; Later l[3], bl; int data[3] = {}; Cfg c = pick(mc::choose(4, "children"), false); c.bodyLater = mc::flip("body suspends");
	if (mc::flip("form")) runBlock(c, l, &bl, data); else runBlockL(c, l, &bl, data);
	std::vector<int> pend; for (int i = 0; i < c.n; i++) if (c.later[i]) pend.push_back(i); if (c.bodyLater) pend.push_back(3);
	while (!pend.empty()) { MC_REQUIRE(mc::gget(RES) == 0, "not resumed while the body or a child is pending"); int k = mc::choose((int)pend.size(), "next"); int x = pend[k]; pend.erase(pend.begin() + k); if (x == 3) bl.complete(); else l[x].complete(); }
	fin(c);
}
// children of other kinds, pipe syntax, nested blocks
static when_all_scope innerBlock(Later* l, int* data) { auto t = co_await (op<Val&>(Probe(1), l, false, data) | scoped()); Val& v = co_await std::move(t); MC_REQUIRE(&v == target, "reference result"); mc::gadd(GOT); }
static task<void> innerTask(Later* l, int* data) { co_await innerBlock(l, data); MC_REQUIRE(mc::gget(GOT) == 1 && data[0] == 1, "the nested block joined first"); mc::gadd(GOT); }
static when_all_scope outerBlock(Later* l, int* data) {
	scoped_task<void> a = co_await scoped(innerTask(&l[0], &data[0])); scoped_task<MVal> b = co_await scoped(op<MVal>(Probe(2), &l[1], false, &data[1]));
	MVal m = co_await std::move(b); MC_REQUIRE(m.get() == 2, "move-only result");
}
MC_SCENARIO("C06.nested", D()) {
	Val t0(0); target = &t0; Later l[2]; int data[2] = {}; std::thread a([&] { l[0].complete(); }), b([&] { l[1].complete(); });
	[](Later* l, int* data) -> Fire { co_await outerBlock(l, data); MC_REQUIRE(data[0] && data[1] && mc::gget(GOT) == 2, "all joined"); mc::gadd(RES); }(l, data);
	a.join(); b.join(); MC_REQUIRE(mc::gget(RES) == 1, "resumed once"); MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "all freed");
}
MC_SCENARIO("C06.dropped", S()) { Val t0(0); { auto b = block(Cfg{}, nullptr, nullptr, nullptr, Probe(8)); (void)b; } MC_REQUIRE(mc::gget(BODY) == 0, "never awaited, never runs"); MC_REQUIRE(mc::gget(mc::G_LIVE) == 1, "freed"); }
// exceptions of the body and of dropped children reach the awaiter (documented in when_all_scope.h)
static void documentedExceptions(Cfg c) {
	Val t0(0); target = &t0; Later l[3], bl; int data[3] = {}; int got = 0;
	[](Cfg c, Later* l, Later* bl, int* data, int* got) -> Fire { try { co_await block(c, l, bl, data, Probe(8)); } catch (async_scope_exception& e) { *got = (int)e.m_exceptions.size(); } mc::gadd(RES); }(c, l, &bl, data, &got);
	for (int i = 0; i < c.n; i++) if (c.later[i]) l[i].complete();
	int want = c.bodyThrows; for (int i = 0; i < c.n; i++) want += c.thrown[i] && c.fate[i] != 1;
	MC_REQUIRE(mc::gget(RES) == 1, "resumed once");
	MC_REQUIRE(got == want, "exceptions of the body and of unjoined children are rethrown to the awaiter");
}
MC_SCENARIO("C06.body_exception", S()) { Cfg c{}; c.bodyThrows = true; documentedExceptions(c); }
MC_SCENARIO("C06.child_exception", S()) { Cfg c{}; c.n = 1; c.thrown[0] = true; c.fate[0] = mc::flip("held") ? 2 : 0; c.later[0] = mc::flip("later"); documentedExceptions(c); }
// the body and children it dropped fail on several threads at once: whatever becomes of the exceptions, the block joins them all, once, and frees them
static task<int> failing(Cfg c, Later* l, Later* bl, int* data) { try { co_await block(c, l, bl, data, Probe(8)); } catch (async_scope_exception&) {} joined(c, data); co_return 5; }
static void fails(Cfg c) {
	{ Val t0(0); target = &t0; Later l[3], bl; int data[3] = {}; std::vector<std::thread> th; th.reserve(5); c.bodyThrows = true; c.bodyLater = true;
	for (int i = 0; i < c.n; i++) { c.thrown[i] = true; c.later[i] = true; th.emplace_back([&, i] { l[i].complete(); }); }
	th.emplace_back([&] { bl.complete(); }); MC_REQUIRE(sync_wait(failing(c, l, &bl, data)) == 5, "resumed"); for (auto& x : th) x.join(); fin(c); }
}
MC_SCENARIO("C06.failing1", D()) { Cfg c{}; c.n = 1; c.fate[0] = mc::choose(3, "fate"); fails(c); }
MC_SCENARIO("C06.failing2", P(2, 4).sh(8)) { Cfg c{}; c.n = 2; c.fate[0] = mc::choose(2, "fate"); fails(c); }
// many children in one block
struct Many { int n; std::vector<Held> l; std::vector<int> state; int ended = 0, joined = 0, bodies = 0; explicit Many(int n) : n(n), l(n), state(n, 0) {} };
static bool late(int i, int mod) { return mod && i % mod == mod - 1; }
static task<Val> manyOp(Many* m, int i, bool late) { Val local(i); MC_REQUIRE(++m->state[i] == 1, "a child runs once"); if (late) co_await m->l[i].ref(); MC_REQUIRE(local.get() == i, "locals"); m->ended++; co_return Val(i); }
static when_all_scope manyBlock(Many* m, int mod, int keep) { std::vector<scoped_task<Val>> held; std::vector<int> idx; for (int i = 0; i < m->n; i++) { auto t = co_await scoped(manyOp(m, i, late(i, mod))); MC_REQUIRE(m->state[i] == 1, "a child starts at once"); if (keep && i % 4 < keep) { held.push_back(std::move(t)); idx.push_back(i); } }
	for (size_t k = 0; k < held.size(); k++) { Val v = co_await std::move(held[k]); MC_REQUIRE(v.get() == idx[k], "a child delivers its own value to its awaiter in the block"); } m->bodies++; }
static Fire manyJoin(Many* m, int mod, int keep) { co_await manyBlock(m, mod, keep); MC_REQUIRE(m->bodies == 1 && m->ended == m->n, "every child finished before the awaiter continues"); m->joined++; }
MC_SCENARIO("C06.many", S().lim(100000)) {
	{ static const int ns[] = { 16, 17, 33, 64, 65, 129, 257, 300 }; Many m(ns[mc::choose(8, "count")]); int mod = mc::choose(4, "late"), order = mc::choose(4, "order"), keep = mc::choose(3, "awaited"); manyJoin(&m, mod, keep);
	for (int k = 0; k < m.n; k++) { int i = nth(order, k, m.n); if (late(i, mod)) { MC_REQUIRE(m.joined == 0, "every child finished before the awaiter continues"); m.l[i].complete(); } }
	MC_REQUIRE(m.joined == 1, "the awaiter is resumed once"); }
	mc::noLive();
}
// whichever construction or move of a child's result throws, the block that awaits the child receives the exception
static task<TV> tvOp(Later* l) { Val local(1); if (l) co_await l->ref(); co_return TV(42); }
static when_all_scope tvBlock(Later* l, int k) { int got = 0; try { auto t = co_await scoped(tvOp(l)); TV v = co_await std::move(t); MC_REQUIRE(v.v.get() == 42, "value"); got = 1; } catch (Boom& b) { MC_REQUIRE(b.v == 99, "that exception"); got = 2; } MC_REQUIRE(got == (TV::fired(k) ? 2 : 1), "the exception of a failing move reaches the awaiter in the block"); mc::gadd(50); }
static Fire tvRun(Later* l, int k) { co_await tvBlock(l, k); mc::gadd(51); }
MC_SCENARIO("C06.throwing_moves", S().lim(100000)) { { Later l; int k = mc::choose(8, "k-th"); bool late = mc::flip("late"); TV::arm(k); tvRun(late ? &l : nullptr, k); if (late) { MC_REQUIRE(mc::gget(51) == 0, "pending"); l.complete(); } MC_REQUIRE(mc::gget(50) == 1 && mc::gget(51) == 1, "the block and its awaiter finish once"); } mc::noLive(); }
