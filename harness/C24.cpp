#define MC_CAS 0 // except where a scenario says so
// C24: a captured trace names the chain of awaiting coroutines.
// Every nesting (to a depth) of the library's task kinds and combinators is built; wherever a coroutine of the nest captures a trace, it must
// list exactly the await points of the chain, innermost first. The harness tracks the chain on the side.
#include "common.h"
#include "macoro/task.h"
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/async_scope.h"
#include "macoro/take_until.h"
#include "macoro/trace.h"
#include "macoro/macros.h"
#include <string_view>
using namespace macoro;
namespace {
enum : int { MACRO = -1 };      // an await whose location lies inside the library (macro coroutine)
struct Path { int line; const Path* up; }; // one await point of the chain; lives in the awaiting coroutine
bool in(const std::source_location& l, const char* n) { std::string_view f = l.file_name(), s = n; return f.size() >= s.size() && f.substr(f.size() - s.size()) == s; }
void verify(const trace& t, int line, const Path* up) {
	std::vector<int> got, want; got.reserve(t.stack.size()); want.reserve(t.stack.size() + 1); want.push_back(line); // an await written with the macros has an entry of a line of the library, or its own line
	for (size_t i = 0; i < t.stack.size(); i++) { auto& l = t.stack[i];
		if (l.line() == 0) { MC_REQUIRE(i + 1 == t.stack.size(), "only the outermost entry may lack a location"); }
		else if (in(l, "C24.cpp")) got.push_back((int)l.line()); else if (in(l, "coro_frame.h")) got.push_back(MACRO); else if (in(l, "wrap.h")) got.push_back(-2); /* never wanted */ }
	for (auto p = up; p; p = p->up) want.push_back(p->line);
	bool same = got.size() == want.size(); for (size_t i = 0; same && i < want.size(); i++) same = got[i] == want[i] || want[i] < -99 && (got[i] == MACRO || got[i] == -(want[i] + 100));
	if (!same) { std::string g = "got", w = " want"; for (int x : got) g += " " + std::to_string(x); for (int x : want) w += " " + std::to_string(x); mc_note_((g + w).c_str()); }
	MC_REQUIRE(same, "the trace is exactly the chain of awaiting coroutines");
	mc::gadd(1);
}
struct Cfg { mc::Later* l; int kinds; const int* kind; bool before; };
enum K { Native, Macro, AllVoid, Scoped, AScope, AllInt, AllReady, Eager, Wrap, AllVec, Ref, Until, Body, WrapAll, WrapMoved, AllReadyMac, NK };
task<> node(const Cfg* c, int d, const Path* up);
task<> nodeMac(const Cfg* c, int d, const Path* up) { MC_BEGIN(task<>, c, d, t = std::optional<trace>{}, up, p = Path{ -100 - __LINE__, up });
	MC_AWAIT_SET(t, get_trace{}); verify(*t, __LINE__, up); t.reset();
	MC_AWAIT(node(c, d, &p)); MC_END(); }
task<> allMac(const Cfg* c, int d, const Path* up); task<> allLvMac(const Cfg* c, int d, const Path* up); task<> scopeMac(const Cfg* c, int d, const Path* up); task<> wrapMac(const Cfg* c, int d, const Path* up); task<> untilMac(const Cfg* c, int d, const Path* up); task<> refMac(const Cfg* c, int d, const Path* up);
task<int> nodeInt(const Cfg* c, int d, const Path* up) { Path p{ __LINE__, up }; co_await node(c, d, &p); co_return d; }
task<> quick() { co_return; }
eager_task<> eagerNode(const Cfg* c, int d) { verify(co_await get_trace{}, __LINE__, nullptr); Path p{ __LINE__, nullptr }; co_await node(c, d, &p); }
struct Tok { void request_stop() {} bool await_ready() const noexcept { return true; } void await_suspend(std::coroutine_handle<>) const noexcept {} void await_resume() const noexcept {} };
task<> leaf(const Cfg* c, const Path* up) {
	verify(co_await get_trace{}, __LINE__, up);
	if (c->l) { co_await c->l->ref(); verify(co_await get_trace{}, __LINE__, up); }
	mc::gadd(2);
}
when_all_scope scopeBody(const Cfg* c, int d, const Path* up) { Path p{ __LINE__, up }; auto t = co_await scoped(node(c, d, &p)); co_await std::move(t); }
when_all_scope scopeDirect(const Cfg* c, int d, const Path* up) { Path p{ __LINE__, up }; co_await node(c, d, &p); }
task<> node(const Cfg* c, int d, const Path* up) {
	if (c->before) verify(co_await get_trace{}, __LINE__, up);
	if (d == 0) { Path p{ __LINE__, up }; co_await leaf(c, &p); }
	else switch (c->kind[d]) {
	case Native: { Path p{ __LINE__, up }; co_await node(c, d - 1, &p); break; }
	case Macro: { Path p{ __LINE__, up }; co_await nodeMac(c, d - 1, &p); break; }
	case AllVoid: { Path p{ __LINE__, up }; co_await when_all_ready(quick(), node(c, d - 1, &p)); break; }
	case AllInt: { Path p{ __LINE__, up }; co_await when_all_ready(nodeInt(c, d - 1, &p), quick()); break; }
	case AllVec: { std::vector<task<>> v; Path p{ __LINE__ + 1, up }; v.push_back(node(c, d - 1, &p)); v.push_back(quick());
		co_await when_all_ready(std::move(v)); break; }
	case AllReady: { Path p{ __LINE__ + 1, up }; auto w = when_all_ready(node(c, d - 1, &p), quick());
		co_await w; break; }
	case AScope: { async_scope s; Path p{ __LINE__, nullptr }; auto t = s.add(node(c, d - 1, &p)); if (mc::flip("join task")) co_await std::move(t); co_await s; break; }
	case Scoped: { Path q{ __LINE__, up }; co_await scopeBody(c, d - 1, &q); break; }
	case Body: { Path q{ __LINE__, up }; co_await scopeDirect(c, d - 1, &q); break; }
	case Eager: { auto e = eagerNode(c, d - 1); co_await e; break; }
	case Ref: { Path p{ __LINE__ + 1, up }; auto n = node(c, d - 1, &p);
		co_await n.when_ready(); break; }
	case Wrap: { Path p{ __LINE__, up }; co_await (node(c, d - 1, &p) | wrap()); break; }
	case Until: { Path p{ __LINE__, up }; co_await take_until(node(c, d - 1, &p), Tok{}); break; }
	case WrapAll: { Path p{ __LINE__, up }; co_await wrap(when_all_ready(quick(), node(c, d - 1, &p))); break; }
	case WrapMoved: { Path p{ __LINE__ + 1, up }; auto w = wrap(node(c, d - 1, &p));
		co_await std::move(w); break; }
	case AllReadyMac: { Path p{ __LINE__, up }; co_await allMac(c, d - 1, &p); break; }
	case AllReadyMac + 1: { Path p{ __LINE__, up }; co_await allLvMac(c, d - 1, &p); break; }
	case AllReadyMac + 2: { Path p{ __LINE__, up }; co_await scopeMac(c, d - 1, &p); break; }
	case AllReadyMac + 3: { Path p{ __LINE__, up }; co_await wrapMac(c, d - 1, &p); break; }
	case AllReadyMac + 4: { Path p{ __LINE__, up }; co_await untilMac(c, d - 1, &p); break; }
	case AllReadyMac + 5: { Path p{ __LINE__, up }; co_await refMac(c, d - 1, &p); break; }
	}
	verify(co_await get_trace{}, __LINE__, up);
}
task<> allMac(const Cfg* c, int d, const Path* up) { MC_BEGIN(task<>, c, d, p = Path{ -100 - __LINE__, up }); MC_AWAIT(when_all_ready(node(c, d, &p), quick())); MC_END(); }
using AllLv = decltype(when_all_ready(quick(), quick()));
task<> allLvMac(const Cfg* c, int d, const Path* up) { MC_BEGIN(task<>, c, d, p = Path{ -100 - __LINE__, up }, w = std::optional<AllLv>()); w.emplace(when_all_ready(node(c, d, &p), quick())); MC_AWAIT(*w); MC_END(); }
task<> scopeMac(const Cfg* c, int d, const Path* up) { MC_BEGIN(task<>, c, d, p = Path{ -100 - __LINE__, up }); MC_AWAIT(scopeDirect(c, d, &p)); MC_END(); }
task<> wrapMac(const Cfg* c, int d, const Path* up) { MC_BEGIN(task<>, c, d, p = Path{ -100 - __LINE__, up }); MC_AWAIT(wrap(node(c, d, &p))); MC_END(); }
task<> untilMac(const Cfg* c, int d, const Path* up) { MC_BEGIN(task<>, c, d, p = Path{ -100 - __LINE__, up }); MC_AWAIT(take_until(node(c, d, &p), Tok{})); MC_END(); }
task<> refMac(const Cfg* c, int d, const Path* up) { MC_BEGIN(task<>, c, d, p = Path{ -100 - __LINE__, up }, t = std::optional<task<>>()); t.emplace(node(c, d, &p)); MC_AWAIT(t->when_ready()); MC_END(); }
void nest(int depth, int kinds, mc::Later* l) {
	int kind[8] = {}; for (int d = depth; d > 0; d--) if ((kind[d] = mc::choose(kinds, "kind")) == AllReadyMac) kind[d] += mc::choose(depth < 4 || mc::thorough() ? 6 : 1, "macro form"); Cfg c{ l, kinds, kind, mc::flip("capture before") };
	Path p{ __LINE__, nullptr }; sync_wait(node(&c, depth, &p));
	MC_REQUIRE(mc::gget(2) == 1, "the innermost coroutine ran"); mc::outcome("ok");
}
}
MC_SCENARIO("C24.nest1", S()) { nest(1, NK, nullptr); }
MC_SCENARIO("C24.nest2", S()) { nest(2, NK, nullptr); }
MC_SCENARIO("C24.nest3", S().sh(4)) { nest(3, NK, nullptr); }
MC_SCENARIO("C24.nest4", S().sh(8)) { nest(4, NK, nullptr); }
MC_SCENARIO("C24.nest5", S().sh(16).thorough_only()) { nest(5, NK, nullptr); }
// the innermost coroutine is suspended and resumed by another thread, which captures there
MC_SCENARIO("C24.resumed", P(1, 3).sh(4)) { mc::Later l; std::thread t([&] { l.complete(); }); nest(2, mc::thorough() ? NK : 6, &l); t.join(); }
// two children of one parent capture at the same time, in two threads
namespace {
task<> child(mc::Later* l, const Path* up, int which) { Path p{ __LINE__ + 2, up }; co_await l->ref(); (void)which;
	verify(co_await get_trace{}, __LINE__, up);
	co_await [](const Path* up)->task<> { verify(co_await get_trace{}, __LINE__, up); }(&p);
	verify(co_await get_trace{}, __LINE__, up); }
task<> pair(int kind, mc::Later* a, mc::Later* b, const Path* up) {
	if (kind == 0) { Path p{ __LINE__, up }; co_await when_all_ready(child(a, &p, 0), child(b, &p, 1)); }
	else if (kind == 1) { async_scope s; Path p{ __LINE__, nullptr }; auto x = s.add(child(a, &p, 0)); Path q{ __LINE__, nullptr }; auto y = s.add(child(b, &q, 1)); if (mc::flip("join")) co_await std::move(x); co_await s; }
	else { Path z{ __LINE__ + 1, up };
		co_await [](mc::Later* a, mc::Later* b, const Path* up)->when_all_scope { Path p{ __LINE__, up }, q{ __LINE__, up }; auto x = co_await scoped(child(a, &p, 0)); auto y = co_await scoped(child(b, &q, 1)); co_await std::move(y); co_await std::move(x); }(a, b, &z); }
	verify(co_await get_trace{}, __LINE__, up);
}
void two(int kind) { mc::Later a, b; std::thread t([&] { a.complete(); }), u([&] { b.complete(); }); Path p{ __LINE__, nullptr }; sync_wait(pair(kind, &a, &b, &p)); t.join(); u.join(); MC_REQUIRE(mc::gget(1) == 7, "every capture was made"); mc::outcome("ok"); }
}
MC_SCENARIO("C24.pair.when_all", D()) { two(0); }
MC_SCENARIO("C24.pair.async_scope", P(2, 3).sh(4)) { two(1); }
MC_SCENARIO("C24.pair.when_all_scope", P(2, 3).sh(4)) { two(2); }
// a caller that keeps no trace ends the chain
MC_SCENARIO("C24.untraced", S()) {
	int kind[4] = {}; if ((kind[1] = mc::choose(NK, "kind")) == AllReadyMac) kind[1] += mc::choose(6, "macro form"); Cfg c{ nullptr, NK, kind, true }; Path p{ __LINE__, nullptr };
	[](const Cfg* c)->Fire { Path p{ __LINE__, nullptr }; co_await node(c, 1, &p); }(&c); (void)p;
	MC_REQUIRE(mc::gget(2) == 1, "the innermost coroutine ran");
}
// deep chains: no await point is missing, however many there are
MC_SCENARIO("C24.deep", S().lim(20000).sh(8)) {
	static const int ds[] = { 9, 17, 33, 65, 100 }; int depth = ds[mc::choose(5, "depth")], a = mc::choose(NK, "kind"), b = mc::choose(NK, "other kind"), every = 1 + 6 * mc::flip("seldom"); if (a == AScope || b == AScope) depth = 5; // asks for a choice at every level
	std::vector<int> kind(depth + 1, 0); for (int d = depth; d > 0; d--) kind[d] = d % (every + 1) == 0 ? b : a; Cfg c{ nullptr, NK, kind.data(), false };
	Path p{ __LINE__, nullptr }; sync_wait(node(&c, depth, &p)); MC_REQUIRE(mc::gget(2) == 1, "the innermost coroutine ran");
}
// the printed form has a line for every entry, in order
MC_SCENARIO("C24.printed", S().lim(20000)) {
	struct L { static task<trace> at(int d) { if (d) co_return co_await at(d - 1); co_return co_await get_trace{}; } }; static const int ds[] = { 0, 1, 2, 9, 40 }; trace t = sync_wait(L::at(ds[mc::choose(5, "depth")]));
	std::string s = t.str(); size_t pos = 0, n = 0; while (pos < s.size()) { size_t e = s.find('\n', pos); if (e == s.npos) e = s.size(); std::string l = s.substr(pos, e - pos); if (l.empty()) break; MC_REQUIRE(n < t.stack.size(), "one line for each entry"); MC_REQUIRE(l.find(t.stack[n].file_name()) != l.npos && l.find(std::to_string(t.stack[n].line())) != l.npos, "each line names its await point"); n++; pos = e + 1; }
	MC_REQUIRE(n == t.stack.size(), "one line for each entry");
}
