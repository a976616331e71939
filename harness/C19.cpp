// C19: the result type behaves as a tagged union of value and error; wrapping turns outcomes into results and back.
#include "common.h"
#include "oddways.h"
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
#include <memory>
using namespace macoro;
// --- contents. Each kind says how to make, read and recognise a moved-from one.
struct Er { Val v; explicit Er(int i = 0) : v(i) {} Er(const Er&) = default; Er(Er&&) = default; Er& operator=(const Er&) = default; Er& operator=(Er&&) = default; };
static bool operator==(const Er& a, const Er& b) { return a.v.get() == b.v.get(); }
namespace mc { static bool operator==(const Val& a, const Val& b) { return a.get() == b.get(); } }
static bool gone(const Val& v) { return v.moved(); } static bool gone(const Er& v) { return v.v.moved(); } static bool gone(const int&) { return false; } static bool gone(const std::exception_ptr& e) { return !e; } static bool gone(const std::unique_ptr<int>& p) { return !p; }
static int num(const Val& v) { return v.get(); } static int num(const Er& v) { return v.v.get(); } static int num(const int& v) { return v; } static int num(const std::unique_ptr<int>& p) { return *p; }
static int num(const std::exception_ptr& e) { try { std::rethrow_exception(e); } catch (Boom& b) { return b.v; } }
template<class T> struct Mk { static T mk(int i) { return T(i); } };
template<> struct Mk<std::exception_ptr> { static std::exception_ptr mk(int i) { return boomPtr(i); } };
template<> struct Mk<std::unique_ptr<int>> { static std::unique_ptr<int> mk(int i) { return std::make_unique<int>(i); } };
template<class T> T mk(int i) { return Mk<T>::mk(i); }
template<class T> constexpr bool movable_only = !std::is_copy_constructible_v<T>;
// what a result must look like
struct Model { bool ok; int n; bool moved = false; };
template<class E, class F> static void throwsErr(F&& f, int n) { bool t = false; try { f(); } catch (Boom& b) { t = true; MC_REQUIRE((std::is_same_v<E, std::exception_ptr>) && b.v == n, "the held exception is rethrown"); } catch (E& e) { t = true; MC_REQUIRE(num(e) == n, "the held error is thrown"); } MC_REQUIRE(t, "taking the value of an error fails"); }
template<class F> static void throwsRt(F&& f) { bool t = false; try { f(); } catch (std::runtime_error&) { t = true; } MC_REQUIRE(t, "taking the error of a value fails"); }
template<class E> static bool eqE() { return !std::is_same_v<E, std::exception_ptr>; }
template<class T, class E> static void look(result<T, E>& r, const Model& m) {
	const result<T, E>& c = r;
	MC_REQUIRE(r.has_value() == m.ok && c.has_value() == m.ok && r.has_error() == !m.ok && c.has_error() == !m.ok && bool(r) == m.ok, "exactly one of value or error is held");
	if (m.ok) {
		throwsRt([&] { (void)r.error(); }); throwsRt([&] { (void)c.error(); });
		if constexpr (std::is_void_v<T>) { r.value(); c.value(); *r; *c; MC_REQUIRE(r == Ok() && !(r != Ok()) && c == Ok(), "compares equal to Ok()"); }
		else {
			MC_REQUIRE(gone(r.value()) == m.moved && gone(c.value()) == m.moved, "a value is moved out only when asked for");
			if (m.moved) return;
			MC_REQUIRE(num(r.value()) == m.n && num(c.value()) == m.n && num(*r) == m.n && num(*c) == m.n, "value() is the value held"); MC_REQUIRE(&r.value() == &c.value() && &r.value() == &*r, "one value");
			T alt = mk<T>(77); const T calt = mk<T>(78); MC_REQUIRE(&r.value_or(alt) == &r.value() && &c.value_or(calt) == &c.value(), "value_or is the value"); MC_REQUIRE(num(alt) == 77, "alternative untouched");
			if constexpr (!movable_only<T>) { MC_REQUIRE(num(r.value_or(mk<T>(79))) == m.n, "value_or is the value"); MC_REQUIRE(num(r.value()) == m.n, "still there");
				T same = mk<T>(m.n), other = mk<T>(m.n + 1); MC_REQUIRE(r == Ok(same) && !(r != Ok(same)) && r != Ok(other) && !(c == Ok(other)), "compares by value"); MC_REQUIRE(!gone(same) && !gone(other), "comparing leaves the operands alone"); MC_REQUIRE(c == Ok(mk<T>(m.n)) && c != Ok(mk<T>(m.n + 1)), "compares by value"); if constexpr (!std::is_same_v<E, std::exception_ptr>) { MC_REQUIRE(!(c == Err(mk<E>(m.n))) && c != Err(mk<E>(m.n)), "a value is not an error"); } }
		}
		E alt = mk<E>(87); const E calt = mk<E>(88); MC_REQUIRE(&r.error_or(alt) == &alt && &c.error_or(calt) == &calt && num(r.error_or(mk<E>(89))) == 89 && num(alt) == 87, "error_or is the alternative");
	} else {
		MC_REQUIRE(gone(r.error()) == m.moved && gone(c.error()) == m.moved, "an error is moved out only when asked for");
		if (m.moved) return;
		MC_REQUIRE(num(r.error()) == m.n && num(c.error()) == m.n && &r.error() == &c.error(), "error() is the error held");
		throwsErr<E>([&] { r.value(); }, m.n); throwsErr<E>([&] { c.value(); }, m.n); throwsErr<E>([&] { *r; }, m.n); throwsErr<E>([&] { *c; }, m.n); MC_REQUIRE(num(r.error()) == m.n, "still there");
		E alt = mk<E>(87); const E calt = mk<E>(88); MC_REQUIRE(&r.error_or(alt) == &r.error() && &c.error_or(calt) == &c.error() && num(r.error_or(mk<E>(89))) == m.n && num(r.error()) == m.n, "error_or is the error");
		if constexpr (!std::is_same_v<E, std::exception_ptr>) { E same = mk<E>(m.n), other = mk<E>(m.n + 1); MC_REQUIRE(r == Err(same) && !(r != Err(same)) && r != Err(other) && !(c == Err(other)) && !gone(same), "compares by error"); }
		if constexpr (std::is_void_v<T>) { MC_REQUIRE(!(r == Ok()) && c != Ok(), "an error is not a value"); }
		else { T alt2 = mk<T>(77); const T calt2 = mk<T>(78); MC_REQUIRE(&r.value_or(alt2) == &alt2 && &c.value_or(calt2) == &calt2, "value_or is the alternative"); if constexpr (!movable_only<T>) MC_REQUIRE(num(r.value_or(mk<T>(79))) == 79, "value_or is the alternative"); if constexpr (!movable_only<T>) MC_REQUIRE(!(c == Ok(mk<T>(m.n))) && c != Ok(mk<T>(m.n)), "an error is not a value"); }
	}
}
// --- every sequence of operations on two results
template<class T, class E> struct Play {
	using R = result<T, E>; static constexpr bool V = std::is_void_v<T>; int cnt = 0;
	template<bool constructing> void store(R& r, Model& m, bool ok, int how) { // how: 0 rvalue, 1 lvalue, 2 const lvalue, 3 moved lvalue
		int n = ++cnt; m = { ok, n };
		auto put = [&](auto&& tag) { if constexpr (constructing) { r.~R(); ::new (&r) R(std::forward<decltype(tag)>(tag)); } else r = std::forward<decltype(tag)>(tag); };
		if (ok) { if constexpr (V) put(Ok()); else { if (how == 0) put(Ok(mk<T>(n))); else { T x = mk<T>(n); if (how == 3) { put(Ok(std::move(x))); MC_REQUIRE(gone(x) || std::is_arithmetic_v<T>, "moved when asked for"); return; } if constexpr (!movable_only<T>) { if (how == 1) put(Ok(x)); else put(Ok(std::as_const(x))); MC_REQUIRE(!gone(x) && num(x) == n, "the stored object is copied unless moved"); } else mc_prune_(); } } }
		else { if (how == 0) put(Err(mk<E>(n))); else { E x = mk<E>(n); if (how == 3) { put(Err(std::move(x))); MC_REQUIRE(gone(x), "moved when asked for"); return; } if (how == 1) put(Err(x)); else put(Err(std::as_const(x))); MC_REQUIRE(!gone(x) && num(x) == n, "the stored object is copied unless moved"); } }
	}
	static void take(Model& to, Model& from) { to = from; if constexpr (!std::is_arithmetic_v<T>) { if (!(V && from.ok)) from.moved = true; } else if (!from.ok) from.moved = true; }
	void run(int depth) {
		union Slot { R r; Slot() : r() {} ~Slot() { r.~R(); } }; Slot sa, sb; R& a = sa.r, & b = sb.r; Model ma{ true, 0 }, mb{ true, 0 };
		if constexpr (!V) { if (mc::flip("start")) store<true>(a, ma, true, 0); else store<true>(a, ma, false, 0); store<true>(b, mb, true, 0); } else { look(a, ma); if (mc::flip("start")) store<true>(a, ma, false, 1); }
		for (int i = 0; i < depth; i++) {
			int op = mc::choose(14, "op");
			if (op < 8) store<false>(a, ma, op < 4, op & 3);
			else switch (op) {
			case 8: store<true>(b, mb, mc::flip("ok"), mc::choose(4, "how")); break;
			case 9: if constexpr (!movable_only<T>) { a = std::as_const(b); ma = mb; } else mc_prune_(); break;
			case 10: a = std::move(b); take(ma, mb); break;
			case 11: if constexpr (!movable_only<T>) { b.~R(); ::new (&b) R(std::as_const(a)); mb = ma; } else mc_prune_(); break;
			case 12: b.~R(); ::new (&b) R(std::move(a)); take(mb, ma); break;
			case 13: // change what is held in place
				if (ma.ok) { if constexpr (!V) { a.value() = mk<T>(++cnt); ma = { true, cnt }; } } else { a.error() = mk<E>(++cnt); ma = { false, cnt }; } break;
			}
			if (ma.ok && V) ma.moved = false; if (mb.ok && V) mb.moved = false;
			look(a, ma); look(b, mb);
		}
	}
};
template<class T, class E> static void play() { Play<T, E> p; p.run(mc::thorough() ? 5 : 3); mc::noLive(); }
MC_SCENARIO("C19.counted", S().sh(4)) { play<Val, Er>(); }
MC_SCENARIO("C19.exception", S().sh(4)) { play<Val, std::exception_ptr>(); }
MC_SCENARIO("C19.void", S().sh(4)) { play<void, std::exception_ptr>(); }
MC_SCENARIO("C19.void_error", S().sh(4)) { play<void, Er>(); }
MC_SCENARIO("C19.int", S().sh(4)) { play<int, std::exception_ptr>(); }
#ifndef MC_LESS
MC_SCENARIO("C19.unique", S().sh(4)) { play<std::unique_ptr<int>, Er>(); }
#endif
// copying may fail: nothing changes, nothing leaks
struct Fragile { Val v; static inline bool armed = false; explicit Fragile(int i) : v(i) {} Fragile(const Fragile& o) : v(o.v) { if (armed) boom(66); } Fragile(Fragile&&) noexcept = default; Fragile& operator=(const Fragile& o) { if (armed) boom(66); v = o.v; return *this; } Fragile& operator=(Fragile&&) noexcept = default; };
MC_SCENARIO("C19.copy_fails", S()) {
	{ Fragile::armed = false; using R = result<Fragile, Er>; R a = Ok(Fragile(1)); bool ok = mc::flip("held"); if (!ok) a = Err(Er(2)); R b = Ok(Fragile(3)); Fragile x(4); int how = mc::choose(4, "how"); Fragile::armed = true; bool t = false;
	try { switch (how) { case 0: a = Ok(x); break; case 1: a = Ok(std::as_const(x)); break; case 2: a = b; break; default: { R c(b); } } } catch (Boom& e) { t = e.v == 66; } Fragile::armed = false; MC_REQUIRE(t, "the exception comes through"); MC_REQUIRE(a.has_value() == ok && (ok ? a.value().v.get() == 1 : a.error().v.get() == 2), "what was held is still held"); MC_REQUIRE(x.v.get() == 4 && b.value().v.get() == 3, "sources untouched"); } mc::noLive();
}
struct NoDef { Val v; explicit NoDef(int i) : v(i) {} };
MC_SCENARIO("C19.default", S()) { { result<Er, std::exception_ptr> a; MC_REQUIRE(a.has_value() && a.value().v.get() == 0, "default value"); result<NoDef, Er> b; MC_REQUIRE(b.has_error() && b.error().v.get() == 0, "default error when there is no default value"); result<void> c; MC_REQUIRE(c.has_value(), "default void"); } mc::noLive(); }
// --- coroutines returning results: a value goes on, an error ends the coroutine with that error
static result<int> leafI(int i) { if (i < 0) return Err(boomPtr(-i)); return Ok(int(i)); }
static result<Val> leaf(int i) { if (i < 0) return Err(boomPtr(-i)); return Ok(Val(i)); }
static result<void> leafV(int i) { if (i < 0) return Err(boomPtr(-i)); return Ok(); }
static result<int> sum(int a, int b, int c, bool named) { Val l(1); if (named) { result<Val> r = leaf(a); Val v = co_await r; Val w = co_await leaf(b); co_await leafV(c); co_return Ok(v.get() + w.get()); } Val v = co_await leaf(a); int w = co_await leafI(b); co_await leafV(c); co_return Ok(v.get() + w); }
static result<int> sumM(int aa, int bb, int cc, bool named) { MC_BEGIN(result<int>, a = aa, b = bb, c = cc, l = Val(1), v = Val(0), w = int(0)); MC_AWAIT_SET(v, leaf(a)); MC_AWAIT_SET(w, leafI(b)); MC_AWAIT(leafV(c)); MC_RETURN(Ok(v.get() + w)); MC_END(); }
static result<void> voidC(int a, bool thr) { Val l(2); co_await leafV(a); if (thr) boom(9); co_return Ok(); }
static result<Val> retErr(int how) { switch (how) { case 0: co_return Ok(Val(3)); case 1: co_return Err(boomPtr(3)); case 2: boom(3); default: { Val x(3); co_return Ok(x); } } }
static int pick() { int k = mc::choose(2, "outcome"); int n = 1 + mc::choose(2, "n"); return k ? -n : n; }
template<class F> static void check3(F f) { int a = pick(), b = pick(), c = pick(); bool named = mc::flip("named"); { result<int> r = f(a, b, c, named); int err = a < 0 ? -a : b < 0 ? -b : c < 0 ? -c : 0; MC_REQUIRE(r.has_error() == (err != 0), "the first error ends the coroutine"); if (err) { MC_REQUIRE(num(r.error()) == err, "that error"); } else MC_REQUIRE(r.value() == a + b, "the value"); } mc::noLive(); }
MC_SCENARIO("C19.coroutine", S()) { check3(sum); }
MC_SCENARIO("C19.coroutine_macro", S()) { check3(sumM); }
MC_SCENARIO("C19.coroutine_void", S()) { int a = pick(); bool t = mc::flip("throws"); { result<void> r = voidC(a, t); MC_REQUIRE(r.has_error() == (a < 0 || t), "outcome"); if (r.has_error()) MC_REQUIRE(num(r.error()) == (a < 0 ? -a : 9), "error"); } mc::noLive(); }
MC_SCENARIO("C19.coroutine_return", S()) { int h = mc::choose(4, "how"); { result<Val> r = retErr(h); MC_REQUIRE(r.has_value() == (h == 0 || h == 3), "outcome"); if (r.has_value()) MC_REQUIRE(r.value().get() == 3, "value"); else MC_REQUIRE(num(r.error()) == 3, "error"); } mc::noLive(); }
// --- wrapping operations of every outcome, finished at once or by another thread, then turned back by awaiting the result
static Val* g_obj;
struct Aw { Later* l; int out; bool await_ready() { return !l; } template<class H> void await_suspend(H h) { l->await_suspend(h); } Val await_resume() { if (out < 0) boom(-out); return Val(out); } };
struct AwRef { Later* l; int out; bool await_ready() { return !l; } template<class H> void await_suspend(H h) { l->await_suspend(h); } Val& await_resume() { if (out < 0) boom(-out); return *g_obj; } };
struct AwVoid { Later* l; int out; bool await_ready() { return !l; } template<class H> bool await_suspend(H h) { l->await_suspend(h); return true; } void await_resume() { if (out < 0) boom(-out); } };
struct AwMove { Later* l; int out; Val held{ 5 }; bool await_ready() { return !l; } template<class H> void await_suspend(H h) { l->await_suspend(h); } MVal await_resume() { if (out < 0) boom(-out); return MVal(out); } };
struct AwConv { Later* l; int out; Aw operator co_await() && { return { l, out }; } AwVoid operator co_await()& { return { l, out }; } };
template<class T> static task<T> top(Later* l, int out) { if (l) co_await l->ref(); if (out < 0) boom(-out); if constexpr (std::is_same_v<T, Val&>) co_return *g_obj; else if constexpr (!std::is_void_v<T>) co_return T(out); }
template<class T> static eager_task<T> eop(Later* l, int out) { if (l) co_await l->ref(); if (out < 0) boom(-out); if constexpr (std::is_same_v<T, Val&>) co_return *g_obj; else if constexpr (!std::is_void_v<T>) co_return T(out); }
template<class R> static void outcome(R& r, int out, bool isRef = false) { MC_REQUIRE(r.has_error() == (out < 0), "the outcome becomes the result"); if (out < 0) { MC_REQUIRE(num(r.error()) == -out, "the exception becomes the error"); } else if constexpr (!std::is_void_v<typename R::value_type>) MC_REQUIRE(r.value().get() == (isRef ? 11 : out), "the value becomes the value"); }
enum { NW = 16 };
struct AwKeep { Later* l; int out; Val held; AwKeep(Later* l_, int o) : l(l_), out(o), held(o) {} bool await_ready() { return !l; } template<class H> void await_suspend(H h) { l->await_suspend(h); } Val await_resume() { if (held.moved()) return Val(-99); if (out < 0) boom(-out); return std::move(held); } };
static task<int> wraps(int kind, bool pipe, Later* l, int out) {
	auto w = [&](auto&& a) -> decltype(auto) { return wrap(std::forward<decltype(a)>(a)); }; (void)w;
#define WR(A) (pipe ? co_await ((A) | wrap()) : co_await wrap(A))
	switch (kind) {
	case 0: { auto r = WR((Aw{ l, out })); outcome(r, out); Val v = co_await std::move(r); co_return v.get(); }
	case 1: { auto r = WR((AwRef{ l, out })); outcome(r, out, true); MC_REQUIRE(!g_obj->moved() && g_obj->get() == 11, "the object referred to is left alone"); co_return r.value().get(); }
	case 2: { auto r = WR((AwVoid{ l, out })); outcome(r, out); co_await std::move(r); co_return out; }
	case 3: { auto r = WR((AwMove{ l, out })); outcome(r, out); MVal v = co_await std::move(r); co_return v.get(); }
	case 4: { auto r = WR((AwConv{ l, out })); outcome(r, out); Val v = co_await std::move(r); co_return v.get(); }
	case 5: { AwConv a{ l, out }; auto r = WR(a); outcome(r, out); co_await std::move(r); co_return out; }
	case 6: { auto r = WR(top<Val>(l, out)); outcome(r, out); Val v = co_await std::move(r); co_return v.get(); }
	case 7: { auto r = WR(top<void>(l, out)); outcome(r, out); co_await std::move(r); co_return out; }
	case 8: { auto r = WR(top<Val&>(l, out)); outcome(r, out, true); MC_REQUIRE(!g_obj->moved(), "the object referred to is left alone"); co_return r.value().get(); }
	case 9: { auto r = WR(eop<Val>(l, out)); outcome(r, out); Val v = co_await std::move(r); co_return v.get(); }
	case 10: { auto t = eop<void>(l, out); auto r = WR(std::move(t)); outcome(r, out); co_await std::move(r); co_return out; }
	case 11: { auto t = top<Val>(l, out); { auto r = WR(t); outcome(r, out); } if (out > 0) { Val& v = t.handle().promise().result(); MC_REQUIRE(v.get() == out, "awaiting a named task leaves its value there"); co_return v.get(); } boom(-out); }
	case 12: { auto t = top<MVal>(l, out); auto r = WR(std::move(t)); outcome(r, out); MVal v = co_await std::move(r); co_return v.get(); }
	case 13: { AwKeep a{ l, out }; auto w2 = wrap(a); { auto r = co_await w2; outcome(r, out); } co_return out > 0 ? out : throw Boom{ -out }; }
	case 14: { if (l) co_await l->ref(); auto w2 = wrap(AwKeep{ nullptr, out }); { auto r = co_await w2; outcome(r, out); } auto r = co_await w2; outcome(r, out); Val v = co_await std::move(r); co_return v.get(); }
	default: { Aw a{ l, out }; auto r = WR(a); outcome(r, out); Val v = co_await std::move(r); co_return v.get(); }
	}
}
static task<int> triesM(int kk, Later* ll, int oo) { MC_BEGIN(task<int>, kind = kk, l = ll, out = oo, r = result<Val>(Ok(Val(0))), rv = result<void>{}, rm = result<MVal>(Ok(MVal(0))), t = task<Val>{});
	if (kind == 0) { MC_AWAIT_TRY(r, (Aw{ l, out })); outcome(r, out); }
	else if (kind == 1) { MC_AWAIT_TRY(rv, (AwVoid{ l, out })); outcome(rv, out); MC_AWAIT(std::move(rv)); MC_RETURN(int(out)); }
	else if (kind == 2) { MC_AWAIT_TRY(rm, (AwMove{ l, out })); outcome(rm, out); MC_AWAIT_SET(rm.value(), std::move(rm)); MC_RETURN(rm.value().get()); }
	else if (kind == 3) { MC_AWAIT_TRY(r, top<Val>(l, out)); outcome(r, out); }
	else if (kind == 4) { MC_AWAIT_TRY(r, (AwRef{ l, out })); outcome(r, out, true); MC_REQUIRE(!g_obj->moved(), "the object referred to is left alone"); }
	else if (kind == 5) { MC_AWAIT_SET(r, wrap(top<Val>(l, out))); outcome(r, out); }
	else { t = top<Val>(l, out); MC_AWAIT_TRY(r, std::move(t)); outcome(r, out); }
	MC_AWAIT_SET(r.value(), std::move(r)); MC_RETURN(r.value().get());
	MC_END(); }
template<class F> static void wrapping(F f, bool isRef) {
	{ Val obj(11); g_obj = &obj; static const int outs[] = { 4, -4, -5 }; int out = outs[mc::choose(3, "outcome")]; bool async = mc::flip("other thread"); Later l; std::thread t; if (async) t = std::thread([&] { l.complete(); }); int got = 0; try { got = sync_wait(f(async ? &l : nullptr, out)); } catch (Boom& b) { got = -b.v; } MC_REQUIRE(got == (isRef && out > 0 ? 11 : out), "awaiting the result gives the outcome back"); if (async) t.join(); } mc::noLive();
}
MC_SCENARIO("C19.wrap", D()) { int k = mc::choose(NW, "kind"); bool p = mc::flip("pipe"); wrapping([=](Later* l, int o) { return wraps(k, p, l, o); }, k == 1 || k == 8); }
MC_SCENARIO("C19.try_macro", D()) { int k = mc::choose(7, "kind"); wrapping([=](Later* l, int o) { return triesM(k, l, o); }, k == 4); }
// whichever construction or move of a result throws, that exception is the outcome (an error of the result, or thrown), and nothing is lost or destroyed twice
static task<TV> tvOp(Later* l) { Val local(1); if (l) co_await l->ref(); co_return TV(42); }
static result<TV> tvRes(int depth) { Val local(1); if (depth) { TV v = co_await tvRes(depth - 1); co_return Ok(std::move(v)); } co_return Ok(TV(42)); }
static result<TV> tvResM(int depth) { MC_BEGIN(result<TV>, depth, local = Val(1)); if (depth) { MC_RETURN(tvResM(depth - 1)); } MC_RETURN(Ok(TV(42))); MC_END(); }
static task<int> tvTry(Later* l) { MC_BEGIN(task<int>, l, local = Val(1), r = result<TV>{}); MC_AWAIT_TRY(r, tvOp(l)); if (r.has_error()) { std::rethrow_exception(r.error()); } MC_RETURN(r.value().v.get()); MC_END(); }
static task<int> tvWrap(Later* l, bool second) { Val local(1); auto r = co_await wrap(tvOp(l)); if (second) { TV v = co_await std::move(r); co_return v.v.get(); } if (r.has_error()) std::rethrow_exception(r.error()); co_return r.value().v.get(); }
MC_SCENARIO("C19.throwing_moves", D().lim(100000)) {
	int form = mc::choose(7, "form"), k = mc::choose(12, "k-th"), got = 0; bool late = form < 3 && mc::flip("late"); Later l; Later* p = late ? &l : nullptr; std::thread a; if (late) a = std::thread([&] { l.complete(); }); TV::arm(k);
	try { switch (form) {
	case 0: case 1: MC_REQUIRE(sync_wait(tvWrap(p, form)) == 42, "value"); break;
	case 2: MC_REQUIRE(sync_wait(tvTry(p)) == 42, "value"); break;
	case 3: case 4: { auto r = tvRes(form - 3); MC_REQUIRE(r.value().v.get() == 42, "value"); break; }
	default: { auto r = tvResM(form - 5); MC_REQUIRE(r.value().v.get() == 42, "value"); break; } } }
	catch (Boom& b) { MC_REQUIRE(b.v == 99, "that exception"); got = 1; }
	MC_REQUIRE(got == TV::fired(k), "the exception of a failing move is the outcome, exactly then");
	if (late) a.join(); mc::noLive();
}
// values with operators of their own: none of them may be used
template<class T> static result<T> oddn() { co_return Ok(T(7)); }
template<class T> static result<T> oddm() { MC_BEGIN(result<T>); MC_RETURN(Ok(T(7))); MC_END(); }
template<class T> static result<int> oddraw() { T x = co_await oddn<T>(); co_return x.get(); }
template<class T> static void oddres() { { switch (mc::choose(8, "form")) {
	case 0: { result<T> r(Ok(T(7))); MC_REQUIRE(r.has_value() && r.value().get() == 7, "v"); break; }
	case 1: { result<T> r = Ok(T(7)); result<T> q(std::move(r)); T x = std::move(q.value()); MC_REQUIRE(x.get() == 7, "v"); break; }
	case 2: { result<T> r(Ok(T(8))); r = Ok(T(7)); r = result<T>(Ok(T(7))); MC_REQUIRE(r.value().get() == 7, "v"); r = Err(std::exception_ptr()); MC_REQUIRE(r.has_error(), "e"); break; }
	case 3: { auto r = oddn<T>(); MC_REQUIRE(r.value().get() == 7, "v"); break; }
	case 4: { auto r = oddm<T>(); MC_REQUIRE(r.value().get() == 7, "v"); break; }
	case 5: { result<int, T> r(Err(T(7))); MC_REQUIRE(r.has_error() && r.error().get() == 7, "e"); result<int, T> q(std::move(r)); MC_REQUIRE(q.error().get() == 7, "e"); q = Ok(3); MC_REQUIRE(q.has_value(), "v"); break; }
	case 6: { MC_REQUIRE(oddraw<T>().value() == 7, "v"); break; }
	case 7: if constexpr (std::is_same_v<T, Odd>) { result<T> r = oddn<T>(); T x = r.value_or(T(9)); MC_REQUIRE(x.get() == 7, "v"); break; } } } mc::noLive(); }
MC_SCENARIO("C19.odd_values", S()) { if (mc::flip("move only")) oddres<MOdd>(); else oddres<Odd>(); }
MC_SCENARIO("C19.odd_wrap", S()) { oddways::odd<10>(); }
// the value taken from a result is an object of its own: it outlives the result it was taken from
static result<int> outlive(int a, bool named) {
	Val l(3);
	if (named) { auto r = std::make_unique<result<Val>>(leaf(a)); auto&& v = co_await *r; r.reset(); co_return Ok(v.get() + l.get()); }
	auto&& v = co_await leaf(a); auto&& w = co_await std::move(v.get() ? leaf(a) : leaf(a)); co_return Ok(v.get() + w.get() - a + l.get());
}
MC_SCENARIO("C19.outlive", S()) {
	bool named = mc::flip("named"); int a = mc::flip("fails") ? -4 : 4;
	auto r = outlive(a, named); MC_REQUIRE(r.has_value() == (a > 0), "outcome"); if (a > 0) MC_REQUIRE(r.value() == 7, "value"); mc::noLive();
}
