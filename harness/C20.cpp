// C20: a macro coroutine behaves like the equivalent native one for every control path.
// Every program is written twice; both are driven with the same choices (outcome of every step of every await, resumption form,
// destruction at any suspension) and must produce the same log of observable events.
#include "common.h"
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
using namespace macoro;
// --- choices made once, replayed for the second run
struct Script { std::vector<int> v; size_t pos = 0; int pick(int n, const char* w) { if (pos < v.size()) return v[pos++]; v.push_back(mc::choose(n, w)); return v[pos++]; } };
static Script* S_; static std::string* L_; static int pick(int n, const char* w) { return S_->pick(n, w); }
static void ev(const char* s, int i = -1) { *L_ += s; if (i >= 0) *L_ += std::to_string(i); *L_ += ' '; }
// suspended program
struct Susp { void* a = nullptr; bool std = false; bool set = false; }; static Susp P_;
static void keep(std::coroutine_handle<> h) { P_ = { h.address(), true, true }; }
static void keep(coroutine_handle<> h) { P_ = { h.address(), false, true }; }
// a local that reports its destruction (and only then)
struct Loc { int id; bool on = true; Loc(int i) : id(i) {} Loc(Loc&& o) noexcept : id(o.id), on(std::exchange(o.on, false)) {} ~Loc() { if (on) ev("~l", id); } int get() const { MC_REQUIRE(on, "a local is alive"); return id; } };
// --- the awaited things: what each step does is a choice
struct Other { struct promise_type { Other get_return_object() { return { std::coroutine_handle<promise_type>::from_promise(*this) }; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } }; std::coroutine_handle<> h; };
static Other other(int id) { ev("T", id); co_return; }
enum Kind { Void, Bool, Handle };
template<Kind K, bool StdOnly = false> struct Awt {
	int id; std::unique_ptr<int> own; explicit Awt(int i) : id(i), own(new int(i)) { ev("A", i); } Awt(Awt&&) = delete; ~Awt() { ev("~A", id); }
	bool await_ready() { ev("r", *own); switch (pick(3, "ready")) { case 0: return true; case 1: return false; default: boom(id + 10); } }
	template<class H> auto susp(H h) {
		using V = std::conditional_t<std::is_convertible_v<H, coroutine_handle<>>, coroutine_handle<>, std::coroutine_handle<>>; ev("s", *own);
		int n = K == Void ? 2 : K == Bool ? 3 : 4, c = pick(n, "suspend"); if (c == n - 1) boom(id + 20);
		if constexpr (K == Void) { keep(V(h)); }
		else if constexpr (K == Bool) { if (c) { keep(V(h)); return true; } return false; }
		else { if (c == 0) return V(h); keep(V(h)); if (c == 1) { if constexpr (std::is_same_v<V, coroutine_handle<>>) return V(noop_coroutine()); else return V(std::noop_coroutine()); } return V(other(id).h); }
	}
	template<class P> requires (!StdOnly) auto await_suspend(coroutine_handle<P> h) { return susp(h); }
	template<class P> requires (!StdOnly) auto await_suspend(std::coroutine_handle<P> h) { return susp(h); }
	auto await_suspend(std::coroutine_handle<> h) requires StdOnly { return susp(h); }
	int await_resume() { ev("v", *own); if (pick(2, "result")) boom(id + 30); return id; }
};
using A = Awt<Void>; using B = Awt<Bool>; using C = Awt<Handle>; using SV = Awt<Void, true>; using SB = Awt<Bool, true>; using SH = Awt<Handle, true>;
template<class T> T mkA(int i) { ev("e", i); return T(i); }
template<class T> T mkThrow(int i) { ev("e", i); if (pick(2, "expr")) boom(i + 40); return T(i); }
// awaitables: by member, by free operator, by reference, only as lvalue or rvalue
template<class T> struct Mem { int id; explicit Mem(int i) : id(i) { ev("M", i); } Mem(Mem&&) = delete; ~Mem() { ev("~M", id); } T operator co_await() { ev("o", id); return T(id); } };
template<class T> struct MemLR { int id; explicit MemLR(int i) : id(i) { ev("M", i); } MemLR(MemLR&&) = delete; ~MemLR() { ev("~M", id); } T operator co_await()& { ev("ol", id); return T(id); } T operator co_await()&& { ev("or", id); return T(id + 1); } };
template<class T> struct MemRef { T a; explicit MemRef(int i) : a(i) { ev("M", i); } MemRef(MemRef&&) = delete; ~MemRef() { ev("~M", a.id); } T& operator co_await() { ev("o", a.id); return a; } };
struct Free { int id; explicit Free(int i) : id(i) { ev("F", i); } Free(Free&&) = delete; ~Free() { ev("~F", id); } }; inline B operator co_await(Free&& f) { ev("of", f.id); return B(f.id); }
struct VoidRes : A { using A::A; void await_resume() { A::await_resume(); } };
struct RefRes : A { using A::A; Loc* l = nullptr; RefRes(int i, Loc* p) : A(i), l(p) {} Loc& await_resume() { A::await_resume(); return *l; } };
struct AwAw : A { using A::A; Awt<Bool> await_resume() { A::await_resume(); return Awt<Bool>(id + 100); } };
// --- the coroutine type, Init: 0 suspend, 1 run at once, 2 a choice-driven awaiter; Fin: 0 suspend, 1 destroy itself, 2 continue with another
// X & 1: the promise transforms what is awaited; & 2: unhandled_exception throws on; & 4: constructing the promise or the return object may fail
template<class T> struct Plain { T v; };
template<bool> struct Xf {};
template<> struct Xf<true> { template<class T> T&& await_transform(T&& t) { ev("t"); return static_cast<T&&>(t); } template<class T> B await_transform(Plain<T> t) { ev("tp", t.v); return B(t.v); } };
template<int Init, int Fin, class V, bool Yields, int X = 0> struct Co {
	struct Base : Xf<(X & 1) != 0> {
		int n = 0; Base() { if (X & 4 && pick(2, "promise")) boom(51); ev("P"); } Base(Base&&) = delete; ~Base() { ev("~P"); }
		auto initial_suspend() { ev("i"); if constexpr (Init == 0) return suspend_always{}; else if constexpr (Init == 1) return suspend_never{}; else return B(900); }
		struct FinAw { bool await_ready() noexcept { ev("fr"); return Fin == 1; } template<class H> auto await_suspend(H h) noexcept { ev("fs"); using HV = std::conditional_t<std::is_convertible_v<H, coroutine_handle<>>, coroutine_handle<>, std::coroutine_handle<>>; if constexpr (Fin == 2) return HV(other(99).h); } void await_resume() noexcept { ev("fv"); } };
		FinAw final_suspend() noexcept { ev("f"); return {}; }
		void unhandled_exception() { try { throw; } catch (Boom& b) { ev("x", b.v); if (X & 2) throw; } }
		auto yield_value(int v) requires Yields { ev("y", v); return B(800 + v); }
	};
	template<class R, class = void> struct Prom : Base { void return_value(int v) { ev("R", v); if (pick(2, "return")) boom(50); }
		Co get_return_object() { ev("g"); if (X & 4 && pick(2, "object")) boom(52); return { coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::std) }; } Co macoro_get_return_object() { ev("g"); if (X & 4 && pick(2, "object")) boom(52); return { coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::macoro) }; } };
	template<class D> struct Prom<void, D> : Base { void return_void() { ev("R"); }
		Co get_return_object() { ev("g"); if (X & 4 && pick(2, "object")) boom(52); return { coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::std) }; } Co macoro_get_return_object() { ev("g"); if (X & 4 && pick(2, "object")) boom(52); return { coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::macoro) }; } };
	using promise_type = Prom<V>;
	coroutine_handle<promise_type> h;
};
using CI = Co<0, 0, int, true>; using CV = Co<0, 0, void, true>;
// drive one run to its end (or destroy it at some suspension), collecting the log. forms: how the handle is used
template<class F> static std::string drive(F make, Script& s, int maxRes, bool mayDestroy, bool selfDestroys, bool inner, bool anyForm) {
	std::string log; L_ = &log; S_ = &s; s.pos = 0; P_ = {}; bool thrown = false; decltype(make()) co{};
	try { co = make(); } catch (Boom& b) { ev("X", b.v); thrown = true; }
	if (!thrown) {
		bool first = inner; int k = 0;
		for (;; k++) {
			if (!P_.set && !first) { break; } Susp p = P_; P_ = {};
			if (mayDestroy && pick(2, "destroy")) { ev("D"); co.h.destroy(); co.h = nullptr; break; }
			if (k >= maxRes) mc_prune_();
			int form = anyForm ? pick(3, "form") : 0; ev("resume"); 
			auto h = co.h; try { if (first) { first = false; h.resume(); } else if (form == 0) h.resume(); else if (form == 1) coroutine_handle<>(h)(); else if (p.std) std::coroutine_handle<>::from_address(p.a).resume(); else coroutine_handle<>::from_address(p.a).std_cast().resume(); } catch (Boom& b) { ev("X", b.v); break; }
		}
		if (co.h && !selfDestroys) { bool d = co.h.done(); ev("done", d); MC_REQUIRE(co.h.std_cast().done() == d, "both forms agree on done()"); ev("D"); co.h.destroy(); }
	}
	L_ = nullptr; return log;
}
template<class N, class M> static void same(N n, M m, int maxRes = 8, bool destroys = true, bool self = false, bool inner = true, bool forms = false) {
	Script s; std::string a = drive(n, s, maxRes, destroys, self, inner, forms); size_t used = s.pos; std::string b = drive(m, s, maxRes, destroys, self, inner, forms);
	if (a != b || s.pos != used) { mc_note_(("native: " + a).c_str()); mc_note_(("macro:  " + b).c_str()); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; mc::fail("property", "the macro coroutine behaves differently from the native one"); }
	mc::noLive();
}
// straight line
static CI lineN(int n, Loc p) { int x = co_await mkA<A>(1); ev("b", x + p.get()); int y = co_await mkA<B>(2); ev("b", y + p.get()); co_return x + y; }
static CI lineM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), x = 0, y = 0); MC_AWAIT_SET(x, mkA<A>(1)); ev("b", x + p.get()); MC_AWAIT_SET(y, mkA<B>(2)); ev("b", y + p.get()); MC_RETURN(x + y); MC_END(); }
MC_SCENARIO("C20.line", S().sh(4)) { same([] { return lineN(0, Loc(5)); }, [] { return lineM(0, Loc(5)); }); }
MC_SCENARIO("C20.line_forms", S().sh(4)) { same([] { return lineN(0, Loc(5)); }, [] { return lineM(0, Loc(5)); }, 8, false, false, true, true); }
// symmetric transfer
static CI handleN(int n, Loc p) { int x = co_await mkA<C>(1); ev("b", x); x += co_await mkA<C>(2); co_return x; }
static CI handleM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), x = 0, t = 0); MC_AWAIT_SET(x, mkA<C>(1)); ev("b", x); MC_AWAIT_SET(t, mkA<C>(2)); x += t; MC_RETURN(x); MC_END(); }
MC_SCENARIO("C20.transfer", S().sh(4)) { same([] { return handleN(0, Loc(5)); }, [] { return handleM(0, Loc(5)); }); }
MC_SCENARIO("C20.transfer_forms", S().sh(4)) { same([] { return handleN(0, Loc(5)); }, [] { return handleM(0, Loc(5)); }, 8, false, false, true, true); }
// awaiters that only know native handles
static CI stdN(int n, Loc p) { int x = co_await mkA<SV>(1); x += co_await mkA<SB>(2); ev("b", x); x += co_await mkA<SH>(3); co_return x; }
static CI stdM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), x = 0, t = 0); MC_AWAIT_SET(x, mkA<SV>(1)); MC_AWAIT_SET(t, mkA<SB>(2)); x += t; ev("b", x); MC_AWAIT_SET(t, mkA<SH>(3)); x += t; MC_RETURN(x); MC_END(); }
MC_SCENARIO("C20.native_awaiters", S().sh(8)) { same([] { return stdN(0, Loc(5)); }, [] { return stdM(0, Loc(5)); }); }
MC_SCENARIO("C20.native_awaiters_forms", S().sh(8)) { same([] { return stdN(0, Loc(5)); }, [] { return stdM(0, Loc(5)); }, 8, false, false, true, true); }
// loops and branches; the same await executed again and again
static CI loopN(int n, Loc p) { int s = 0; for (int i = 0; i < n; i++) { if (i & 1) { int t = co_await mkA<B>(i); s += t; continue; } s += co_await mkA<A>(i); if (s > 50) break; ev("b", i); } co_return s; }
static CI loopM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), s = 0, i = 0, t = 0); for (i = 0; i < n; i++) { if (i & 1) { MC_AWAIT_SET(t, mkA<B>(i)); s += t; continue; } MC_AWAIT_SET(t, mkA<A>(i)); s += t; if (s > 50) break; ev("b", i); } MC_RETURN(s); MC_END(); }
MC_SCENARIO("C20.loop", S().sh(8)) { same([] { return loopN(3, Loc(5)); }, [] { return loopM(3, Loc(5)); }); }
static CI branchN(int n, Loc p) { int k = pick(3, "branch"); ev("k", k); if (k == 0) { int a = co_await mkA<B>(1); if (a == 1 && pick(2, "early")) co_return 7; } else if (k == 1) { co_await mkA<C>(2); } else { while (n < 3 && (n++, pick(2, "again"))) { co_await mkA<A>(3); } boom(60); } ev("b"); co_return co_await mkA<B>(4); }
static CI branchM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), k = 0, a = 0); k = pick(3, "branch"); ev("k", k); if (k == 0) { MC_AWAIT_SET(a, mkA<B>(1)); if (a == 1 && pick(2, "early")) MC_RETURN(7); } else if (k == 1) { MC_AWAIT(mkA<C>(2)); } else { while (n < 3 && (n++, pick(2, "again"))) { MC_AWAIT(mkA<A>(3)); } boom(60); } ev("b"); MC_RETURN_AWAIT(mkA<B>(4)); MC_END(); }
MC_SCENARIO("C20.branch", S().sh(8)) { same([] { return branchN(0, Loc(5)); }, [] { return branchM(0, Loc(5)); }, 3); }
// no value: fall off the end, return early, throw
static CV voidN(int n, Loc p) { if (pick(2, "early")) co_return; co_await mkA<VoidRes>(1); if (pick(2, "throw")) boom(61); co_await mkA<B>(2); }
static CV voidM(int nn, Loc pp) { MC_BEGIN(CV, n = nn, p = std::move(pp)); if (pick(2, "early")) MC_RETURN_VOID(); MC_AWAIT(mkA<VoidRes>(1)); if (pick(2, "throw")) boom(61); MC_AWAIT(mkA<B>(2)); MC_END(); }
MC_SCENARIO("C20.void", S().sh(4)) { same([] { return voidN(0, Loc(5)); }, [] { return voidM(0, Loc(5)); }); }
// every way of naming an awaitable
static CI formsN(int w, Loc p) { int x = 0; switch (w) {
	case 0: x = co_await mkA<Mem<B>>(1); break; case 1: { MemLR<B> m(1); x = co_await m; ev("b"); x += co_await std::move(m); break; } case 2: x = co_await mkA<MemRef<B>>(1); break; case 3: x = co_await mkA<Free>(1); break; case 4: { A a(1); x = co_await a; break; }
	case 5: { RefRes r(1, &p); Loc& l = co_await r; x = l.get(); break; } case 6: x = co_await mkThrow<B>(1); break; case 7: x = co_await mkA<MemLR<B>>(1); break; default: { MemRef<C> m(1); x = co_await m; } } ev("b", x); co_return x; }
static CI formsM(int ww, Loc pp) { MC_BEGIN(CI, w = ww, p = std::move(pp), x = 0, t = 0, m = std::unique_ptr<MemLR<B>>(), a = std::unique_ptr<A>(), r = std::unique_ptr<RefRes>(), l = (Loc*)nullptr, mr = std::unique_ptr<MemRef<C>>()); 
	if (w == 0) { MC_AWAIT_SET(x, mkA<Mem<B>>(1)); } else if (w == 1) { m.reset(new MemLR<B>(1)); MC_AWAIT_SET(x, *m); ev("b"); MC_AWAIT_SET(t, std::move(*m)); x += t; m.reset(); } else if (w == 2) { MC_AWAIT_SET(x, mkA<MemRef<B>>(1)); } else if (w == 3) { MC_AWAIT_SET(x, mkA<Free>(1)); } else if (w == 4) { a.reset(new A(1)); MC_AWAIT_SET(x, *a); a.reset(); }
	else if (w == 5) { r.reset(new RefRes(1, &p)); MC_AWAIT_FN(l = &, *r); x = l->get(); r.reset(); } else if (w == 6) { MC_AWAIT_SET(x, mkThrow<B>(1)); } else if (w == 7) { MC_AWAIT_SET(x, mkA<MemLR<B>>(1)); } else { mr.reset(new MemRef<C>(1)); MC_AWAIT_SET(x, *mr); mr.reset(); } ev("b", x); MC_RETURN(x); MC_END(); }
// (where a named local is destroyed by an exception or a destroyed frame the order of parameter and local differs by construction: only paths without failures are compared for those)
MC_SCENARIO("C20.forms", S().sh(4)) { static const int W[5] = { 0, 2, 3, 6, 7 }; int w = W[mc::choose(5, "form")]; same([=] { return formsN(w, Loc(5)); }, [=] { return formsM(w, Loc(5)); }); }
struct Named { std::unique_ptr<MemLR<B>> m; std::unique_ptr<A> a; std::unique_ptr<RefRes> r; std::unique_ptr<MemRef<C>> mr; Named(int w, Loc* p) { if (w == 0) m.reset(new MemLR<B>(1)); else if (w == 1) a.reset(new A(1)); else if (w == 2) r.reset(new RefRes(1, p)); else mr.reset(new MemRef<C>(1)); } };
static CI namedN(int w, Loc p, Named* o) { int x = 0; if (w == 0) { x = co_await *o->m; ev("b"); x += co_await std::move(*o->m); } else if (w == 1) x = co_await *o->a; else if (w == 2) { Loc& l = co_await *o->r; x = l.get(); } else x = co_await *o->mr; ev("b", x); co_return x; }
struct Store { Loc** p; void operator()(Loc& l) const { *p = &l; } };
static CI namedM(int ww, Loc pp, Named* oo) { MC_BEGIN(CI, w = ww, p = std::move(pp), o = oo, x = 0, t = 0, l = (Loc*)nullptr, st = Store());
	if (w == 0) { MC_AWAIT_SET(x, *o->m); ev("b"); MC_AWAIT_SET(t, std::move(*o->m)); x += t; } else if (w == 1) { MC_AWAIT_SET(x, *o->a); } else if (w == 2) { st.p = &l; MC_AWAIT_FN(st, *o->r); x = l->get(); } else { MC_AWAIT_SET(x, *o->mr); } ev("b", x); MC_RETURN(x); MC_END(); }
MC_SCENARIO("C20.named", S().sh(4)) { int w = mc::choose(4, "form"); std::string sink; L_ = &sink; { Loc l(6); Named a(w, &l), b(w, &l); same([&] { return namedN(w, Loc(5), &a); }, [&] { return namedM(w, Loc(5), &b); }); L_ = &sink; } L_ = nullptr; }
// yielding, awaiting what an await gave, returning what was yielded
static CI yieldN(int n, Loc p) { co_yield 1; int x = co_yield 2; ev("b", x); x = co_yield co_await mkA<A>(3); co_return x; }
static CI yieldM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), x = 0); MC_YIELD(1); MC_YIELD_SET(x, 2); ev("b", x); MC_YIELD_AWAIT(mkA<A>(3)); MC_RETURN(803); MC_END(); }
MC_SCENARIO("C20.yield", S().sh(8)) { same([] { return yieldN(0, Loc(5)); }, [] { return yieldM(0, Loc(5)); }, 8, true); }
static CI yield2N(int n, Loc p) { co_yield co_await mkA<A>(3); co_await co_await mkA<AwAw>(4); co_return co_yield 5; }
static CI yield2M(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), x = 0); MC_YIELD_AWAIT(mkA<A>(3)); MC_AWAIT_AWAIT(mkA<AwAw>(4)); MC_RETURN_YIELD(5); MC_END(); }
MC_SCENARIO("C20.nested_awaits", S().sh(8)) { same([] { return yield2N(0, Loc(5)); }, [] { return yield2M(0, Loc(5)); }, 8, true); }
// MC_AWAIT_FN and MC_AWAIT_TRY
static void use(int x) { ev("u", x); if (pick(2, "fn")) boom(62); }
static CI fnN(int n, Loc p) { use(co_await mkA<B>(1)); co_return 3; }
static CI fnM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp)); MC_AWAIT_FN(use, mkA<B>(1)); MC_RETURN(3); MC_END(); }
MC_SCENARIO("C20.fn", S().sh(4)) { same([] { return fnN(0, Loc(5)); }, [] { return fnM(0, Loc(5)); }); }
static int code(result<int>& r) { if (r.has_value()) return r.value(); try { std::rethrow_exception(r.error()); } catch (Boom& b) { return b.v; } }
template<class T> static CI tryN(int n, Loc p) { result<int> r = Ok(0), q = Ok(0); try { r = Ok(co_await mkThrow<T>(1)); } catch (...) { r = Err(std::current_exception()); } ev("b", code(r)); for (int i = 0; i < n; i++) { try { q = Ok(co_await mkA<T>(2)); } catch (...) { q = Err(std::current_exception()); } ev("b", code(q)); } co_return code(r); }
template<class T> static CI tryM(int nn, Loc pp) { MC_BEGIN(CI, n = nn, p = std::move(pp), r = result<int>(Ok(0)), q = result<int>(Ok(0)), i = 0); MC_AWAIT_TRY(r, mkThrow<T>(1)); ev("b", code(r)); for (i = 0; i < n; i++) { MC_AWAIT_TRY(q, mkA<T>(2)); ev("b", code(q)); } MC_RETURN(code(r)); MC_END(); }
MC_SCENARIO("C20.try", S().sh(4)) { if (mc::flip("kind")) same([] { return tryN<B>(1, Loc(5)); }, [] { return tryM<B>(1, Loc(5)); }); else same([] { return tryN<C>(1, Loc(5)); }, [] { return tryM<C>(1, Loc(5)); }); }
static CV tryVN(int n, Loc p) { result<void> r; try { co_await mkThrow<VoidRes>(1); r = Ok(); } catch (...) { r = Err(std::current_exception()); } ev("b", r.has_error()); co_await mkA<B>(2); }
static CV tryVM(int nn, Loc pp) { MC_BEGIN(CV, n = nn, p = std::move(pp), r = result<void>()); MC_AWAIT_TRY(r, mkThrow<VoidRes>(1)); ev("b", r.has_error()); MC_AWAIT(mkA<B>(2)); MC_END(); }
MC_SCENARIO("C20.try_void", S().sh(4)) { same([] { return tryVN(1, Loc(5)); }, [] { return tryVM(1, Loc(5)); }); }
// initial and final suspension of every kind
template<class T> static T startN(int n, Loc p) { int x = co_await mkA<B>(1); co_return x; }
template<class T> static T startM(int nn, Loc pp) { MC_BEGIN(T, n = nn, p = std::move(pp), x = 0); MC_AWAIT_SET(x, mkA<B>(1)); MC_RETURN(x); MC_END(); }
template<class T> static void starts(bool self, bool inner) { same([] { return startN<T>(0, Loc(5)); }, [] { return startM<T>(0, Loc(5)); }, 8, true, self, inner); }
MC_SCENARIO("C20.starts", S().sh(4)) { switch (mc::choose(6, "kind")) { case 0: starts<Co<0, 0, int, false>>(false, true); break; case 1: starts<Co<1, 0, int, false>>(false, false); break; case 2: starts<Co<0, 1, int, false>>(true, true); break; case 3: starts<Co<1, 1, int, false>>(true, false); break; case 4: starts<Co<0, 2, int, false>>(false, true); break; default: starts<Co<1, 2, int, false>>(false, false); } }
MC_SCENARIO("C20.start_awaits", S().sh(4)) { starts<Co<2, 0, int, false>>(false, false); }

// the promise transforms what is awaited, and only that
using CX = Co<0, 0, int, true, 1>;
static CX xfN(int n, Loc p) { int x = co_await mkA<B>(1); x += co_await Plain<int>{ 2 }; ev("b", x); co_return x; }
static CX xfM(int nn, Loc pp) { MC_BEGIN(CX, n = nn, p = std::move(pp), x = 0, t = 0); MC_AWAIT_SET(x, mkA<B>(1)); MC_AWAIT_SET(t, Plain<int>{ 2 }); x += t; ev("b", x); MC_RETURN(x); MC_END(); }
MC_SCENARIO("C20.transform", S().sh(4)) { same([] { return xfN(0, Loc(5)); }, [] { return xfM(0, Loc(5)); }); }
static CX xyN(int n, Loc p) { co_yield 3; int x = co_yield 4; ev("b", x); if (n) co_return co_yield 5; x = co_yield co_await mkA<A>(4); ev("b", x); co_return 1; }
static CX xyM(int nn, Loc pp) { MC_BEGIN(CX, n = nn, p = std::move(pp), x = 0); MC_YIELD(3); MC_YIELD_SET(x, 4); ev("b", x); if (n) MC_RETURN_YIELD(5); MC_YIELD_AWAIT(mkA<A>(4)); x = 804; ev("b", x); MC_RETURN(1); MC_END(); }
MC_SCENARIO("C20.transform_yield", S().sh(8)) { int n = mc::flip("path"); same([=] { return xyN(n, Loc(5)); }, [=] { return xyM(n, Loc(5)); }, 8, true); }
// a failure the promise does not keep: it reaches whoever resumed, and the coroutine is done
MC_SCENARIO("C20.rethrow", S().sh(4)) { starts<Co<0, 0, int, false, 2>>(false, true); }
MC_SCENARIO("C20.rethrow_forms", S().sh(4)) { using T = Co<0, 0, int, false, 2>; same([] { return startN<T>(0, Loc(5)); }, [] { return startM<T>(0, Loc(5)); }, 8, false, false, true, true); }
// failing while the coroutine is created
MC_SCENARIO("C20.create", S().sh(4)) { switch (mc::choose(3, "kind")) { case 0: starts<Co<0, 0, int, false, 4>>(false, true); break; case 1: starts<Co<1, 1, int, false, 4>>(true, false); break; default: starts<Co<2, 0, int, false, 4>>(false, false); } }
// the coroutine is resumed, finished and destroyed by other threads while the thread that ran it is still inside await_suspend
struct Slot { mc::Gate g; void* a = nullptr; bool std = false; };
template<Kind K, bool StdOnly> struct Pub {
	Slot* s; int data = 5; bool await_ready() { return false; }
	auto susp(std::coroutine_handle<> h) { Slot* k = s; k->std = true; k->a = h.address(); k->g.set(); if constexpr (K == Bool) return true; else if constexpr (K == Handle) return std::coroutine_handle<>(std::noop_coroutine()); }
	auto susp(coroutine_handle<> h) { Slot* k = s; k->a = h.address(); k->g.set(); if constexpr (K == Bool) return true; else if constexpr (K == Handle) return coroutine_handle<>(noop_coroutine()); }
	template<class P> requires (!StdOnly) auto await_suspend(coroutine_handle<P> h) { return susp(coroutine_handle<>(h)); }
	auto await_suspend(std::coroutine_handle<> h) requires StdOnly { return susp(h); }
	int await_resume() { return data; }
};
template<int Fin> struct Det {
	struct promise_type { Val v{ 77 };
		suspend_never initial_suspend() noexcept { return {}; } auto final_suspend() noexcept { if constexpr (Fin) return suspend_never{}; else return suspend_always{}; } void unhandled_exception() { std::terminate(); } void return_void() { MC_REQUIRE(v.get() == 77, "promise"); mc::gadd(1); }
		Det get_return_object() { return {}; } Det macoro_get_return_object() { return {}; } };
};
enum { ENDED = 1, STEPS = 2 };
template<int Fin, Kind K, bool So> static Det<Fin> pubM(Slot* a, Slot* b) { MC_BEGIN(Det<Fin>, a, b, l = Val(9), x = 0, p = Pub<K, So>{ b }); MC_AWAIT_SET(x, (Pub<K, So>{ a })); MC_REQUIRE(x == 5 && l.get() == 9, "locals"); mc::gadd(STEPS); MC_AWAIT_SET(x, p); MC_REQUIRE(x == 5 && l.get() == 9, "locals"); mc::gadd(STEPS); MC_END(); }
template<int Fin, Kind K, bool So> static void handoff(int form) {
	Slot s[2]; auto go = [&](int i) { s[i].g.wait(); void* a = s[i].a; bool st = s[i].std; auto native = st ? std::coroutine_handle<>::from_address(a) : coroutine_handle<>::from_address(a).std_cast(); auto ours = st ? coroutine_handle<>(native) : coroutine_handle<>::from_address(a);
		MC_REQUIRE(!native.done() && !ours.done(), "not done while suspended"); if (form) native.resume(); else ours.resume();
		if (i && !Fin) { MC_REQUIRE(native.done() && ours.done(), "done after its end"); if (form) native.destroy(); else ours.destroy(); } };
	std::thread t1([&] { go(0); }), t2([&] { go(1); }); pubM<Fin, K, So>(&s[0], &s[1]); t1.join(); t2.join();
	MC_REQUIRE(mc::gget(STEPS) == 2 && mc::gget(ENDED) == 1, "the coroutine ran to its end once"); mc::noLive();
}
template<int Fin> static void handoffs() { int f = mc::flip("native form"); switch (mc::choose(6, "awaiter")) { case 0: handoff<Fin, Void, false>(f); break; case 1: handoff<Fin, Bool, false>(f); break; case 2: handoff<Fin, Handle, false>(f); break; case 3: handoff<Fin, Void, true>(f); break; case 4: handoff<Fin, Bool, true>(f); break; default: handoff<Fin, Handle, true>(f); } }
MC_SCENARIO("C20.handoff_self", D()) { handoffs<1>(); }
MC_SCENARIO("C20.handoff", D()) { handoffs<0>(); }
// MACORO_TRY ... MACORO_CATCH: a handler that may itself await; reached iff the block failed, with what it failed with
static void say(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (Boom& b) { ev("h", b.v); } }
static CI handlerN(int n, Loc p) { int x = 0; for (int i = 0; i < n; i++) { std::exception_ptr ep; try { x += co_await mkThrow<A>(1); if (i == 1) { std::exception_ptr e2; try { if (pick(2, "inner")) boom(64); } catch (...) { e2 = std::current_exception(); } if (e2) { say(e2); std::rethrow_exception(e2); } } } catch (...) { ep = std::current_exception(); } if (ep) { say(ep); x += co_await mkA<B>(2); if (pick(2, "on")) std::rethrow_exception(ep); } ev("b", x); } co_return x; }
static CI handlerT(int n, Loc p) { int x = 0; for (int i = 0; i < n; i++) { MACORO_TRY { x += co_await mkThrow<A>(1); if (i == 1) { MACORO_TRY { if (pick(2, "inner")) boom(64); } MACORO_CATCH(e) { say(e); std::rethrow_exception(e); } } } MACORO_CATCH(e) { say(e); x += co_await mkA<B>(2); if (pick(2, "on")) std::rethrow_exception(e); } ev("b", x); } co_return x; }
MC_SCENARIO("C20.try_catch", S().sh(8)) { same([] { return handlerN(1, Loc(5)); }, [] { return handlerT(1, Loc(5)); }); }
MC_SCENARIO("C20.try_catch_loop", S().sh(8)) { same([] { return handlerN(2, Loc(5)); }, [] { return handlerT(2, Loc(5)); }, 3, false); }
