// C21: coroutine handles of both kinds are interchangeable.
// A coroutine is driven by every sequence (to a depth) of conversions and operations through handles of every form; after each
// step every form that is held must agree with a reference model of the coroutine.
#include "common.h"
#include "macoro/macros.h"
#include <functional>
using namespace macoro;
namespace {
constexpr int N = 2; // suspension points of the bodies
struct Alive { bool on = true; Alive() { mc::gadd(1, 1); } Alive(Alive&& o) noexcept : on(std::exchange(o.on, false)) {} ~Alive() { if (on) mc::gadd(1, -1); } };
template<int Init> struct Gen {
	struct promise_type {
		int steps = 0, mark = 7; void* self = nullptr; long long pad[2]{}; 
		promise_type() { self = this; mc::gadd(0, 1); } promise_type(promise_type&&) = delete; ~promise_type() { MC_REQUIRE(self == this, "the promise is intact"); mc::gadd(0, -1); }
		Gen get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std), coroutine_handle_type::std }; }
		Gen macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro), coroutine_handle_type::macoro }; }
		auto initial_suspend() noexcept { if constexpr (Init == 0) return suspend_always{}; else return suspend_never{}; }
		suspend_always final_suspend() noexcept { return {}; }
		void return_void() {} void unhandled_exception() { std::terminate(); }
	};
	coroutine_handle<promise_type> h; coroutine_handle_type type;
};
struct alignas(32) Big { long long a[4]; };
struct Over { // over-aligned promise
	struct promise_type {
		Big big{}; int steps = 0, mark = 7; void* self = nullptr;
		promise_type() { self = this; mc::gadd(0, 1); } promise_type(promise_type&&) = delete; ~promise_type() { MC_REQUIRE(self == this, "the promise is intact"); mc::gadd(0, -1); }
		Over macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro), coroutine_handle_type::macoro }; }
		Over get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std), coroutine_handle_type::std }; }
		suspend_always initial_suspend() noexcept { return {}; } suspend_always final_suspend() noexcept { return {}; }
		void return_void() {} void unhandled_exception() { std::terminate(); }
	};
	coroutine_handle<promise_type> h; coroutine_handle_type type;
};
// steps counts the resumptions seen by the body
struct Step { int* n; bool await_ready() const noexcept { return false; } template<class H> void await_suspend(H) const noexcept {} void await_resume() const noexcept { ++*n; } };
template<class P> struct GetP { P* p = nullptr; bool await_ready() const noexcept { return false; } bool await_suspend(std::coroutine_handle<P> h) noexcept { p = &h.promise(); return false; } bool await_suspend(coroutine_handle<P> h) noexcept { p = &h.promise(); return false; } P* await_resume() const noexcept { return p; } };
template<class G> G nat() { Alive a; auto p = co_await GetP<typename G::promise_type>{}; p->steps++; for (int i = 0; i < N; i++) co_await Step{ &p->steps }; }
template<class G> G mac() { using P = typename G::promise_type; MC_BEGIN(G, a = Alive{}, p = (P*)nullptr, i = 0); MC_AWAIT_SET(p, GetP<P>{}); p->steps++; for (; i < N; i++) MC_AWAIT(Step{ &p->steps }); MC_END(); }

template<class P> struct World {
	using T = coroutine_handle<P>; using V = coroutine_handle<>; using SV = std::coroutine_handle<>;
	T t; coroutine_handle_type type; P* prom; int steps; bool done = false, dead = false;
	// the forms at hand. An erased handle that was made from the native form of a macro coroutine is a form of its own (w).
	V v; SV s; V w;
	bool isStd() const { return type == coroutine_handle_type::std; }
	void agree() {
		MC_REQUIRE(bool(t) && bool(v) && bool(s) && bool(w), "no form is empty");
		MC_REQUIRE(&t.promise() == prom && prom->self == prom && prom->mark == 7, "the promise is reached through the handle");
		MC_REQUIRE(prom->steps == steps, "resumption acted on this coroutine once");
		MC_REQUIRE(t.done() == done && v.done() == done && s.done() == done && w.done() == done, "every form agrees on completion");
		MC_REQUIRE(t == v && !(t != v) && !(t < v) && !(t > v) && t <= v && t >= v && t.address() == v.address(), "typed and erased forms are equal");
		MC_REQUIRE(v.is_std() == isStd() && w.is_std(), "is_std tells the kind");
		MC_REQUIRE(v.std_cast() == s && t.std_cast() == s && SV(v) == s && SV(t) == s && w.std_cast() == s, "the native form does not depend on the path");
		if (isStd()) MC_REQUIRE(w == v && s.address() == v.address(), "a native handle goes to the erased form and back");
	}
	void convert(int c) {
		switch (c) {
		case 0: t = T::from_address(t.address()); break;
		case 1: v = t; break;
		case 2: t = T::from_promise(*prom, type); break;
		case 3: v = V::from_address(v.address()); t = T::from_address(v.address()); break;
		case 4: s = t.std_cast(); break;
		case 5: s = static_cast<SV>(v); break;
		case 6: w = V(s); break;
		case 7: w = V::from_address(w.address()); s = static_cast<SV>(w); break;
		case 8: if (isStd()) { auto n = std::coroutine_handle<P>::from_address(t.address()); MC_REQUIRE(&n.promise() == prom, "promise by native form"); t = T(n); w = V(n); s = n; } else { s = SV::from_address(s.address()); } break;
		case 9: { T x; MC_REQUIRE(!x && !x.std_cast() && !V(x) && x == V{} && x != V(t), "an empty handle"); x = t; T y(x); t = nullptr; MC_REQUIRE(!t, "emptied"); t = y; V z = v; v = nullptr; MC_REQUIRE(!v && !v.std_cast() && v == V(nullptr), "emptied"); v = z; break; }
		}
	}
	void resume(int c) {
		MC_REQUIRE(!done, "harness");
		switch (c) { case 0: t.resume(); break; case 1: v.resume(); break; case 2: s.resume(); break; case 3: w.resume(); break; case 4: t(); break; case 5: v(); break; case 6: s(); break; case 7: w(); break; }
		if (steps <= N) { steps++; }
		done = steps == N + 1;
	}
	void destroy(int c) { switch (c) { case 0: t.destroy(); break; case 1: v.destroy(); break; case 2: s.destroy(); break; case 3: w.destroy(); break; } }
};
template<class G, int Init> void drive(G (*mk)(), int depth) {
	using P = typename G::promise_type;
	G g = mk(); World<P> W; W.t = g.h; W.type = g.type; W.prom = &g.h.promise(); W.steps = Init ? 1 : 0; W.v = W.t; W.s = W.t.std_cast(); W.w = coroutine_handle<>(W.s);
	W.agree();
	for (int d = 0; d < depth; d++) {
		int c = mc::choose(12, "op"); if (c == 11) break;
		if (c == 10) { if (W.done) break; W.resume(mc::choose(d < 3 ? 8 : 4, "resume by")); } else W.convert(c);
		W.agree();
	}
	MC_REQUIRE(mc::gget(0) == 1, "one promise"); int st = W.steps;
	W.destroy(mc::choose(4, "destroy by"));
	MC_REQUIRE(mc::gget(0) == 0 && mc::gget(1) == 0, "destroyed through the handle"); mc::outcome(st);
}
int DEP() { return mc::thorough() ? 5 : 4; }
}
#define SC(nm, G, I, F) MC_SCENARIO("C21." nm, S().sh(4)) { drive<G, I>(&F<G>, DEP()); }
SC("native.lazy", Gen<0>, 0, nat)
SC("native.eager", Gen<1>, 1, nat)
SC("macro.lazy", Gen<0>, 0, mac)
SC("macro.eager", Gen<1>, 1, mac)
SC("native.over", Over, 0, nat)
SC("macro.over", Over, 0, mac)
MC_SCENARIO("C21.noop", S()) {
	// every chain of conversions of the no-op handle, and every operation through the result
	coroutine_handle<noop_coroutine_promise> t = noop_coroutine(); coroutine_handle<> v = t; std::coroutine_handle<> s = t.std_cast();
	auto ok = [&] {
		MC_REQUIRE(bool(t) && bool(v) && bool(s), "the no-op handle is not empty");
		MC_REQUIRE(!t.done() && !v.done() && !s.done(), "the no-op handle is never done");
		MC_REQUIRE(t.address() == noop_coroutine().address(), "one no-op handle"); MC_REQUIRE(&t.promise() == &noop_coroutine().promise(), "one promise");
	};
	ok(); MC_REQUIRE(v == noop_coroutine() && v == coroutine_handle<>(t) && v != coroutine_handle<>{}, "identity");
	bool lib = true; // v is the library's no-op (not the compiler's, wrapped)
	for (int d = 0; d < 5; d++) switch (mc::choose(13, "op")) {
	case 0: v = t; lib = true; break;
	case 1: v = coroutine_handle<>::from_address(v.address()); break;
	case 2: s = v.std_cast(); break;
	case 3: s = static_cast<std::coroutine_handle<>>(t); break;
	case 4: v = coroutine_handle<>(s); lib = false; break;
	case 5: s = std::coroutine_handle<>(static_cast<std::noop_coroutine_handle>(t)); break;
	case 6: v.resume(); v(); break;
	case 7: s.resume(); break;
	case 8: t.resume(); t(); break;
	case 9: v.destroy(); break;
	case 10: s.destroy(); break;
	case 11: t.destroy(); break;
	case 12: d = 9; break;
	}
	ok(); if (lib) MC_REQUIRE(v == noop_coroutine() && !(v < noop_coroutine()) && v >= noop_coroutine(), "identity");
	MC_REQUIRE(coroutine_handle<>(noop_coroutine()) == noop_coroutine(), "one no-op handle"); mc::outcome(lib);
}
MC_SCENARIO("C21.empty", S()) {
	using P = Gen<0>::promise_type; using T = coroutine_handle<P>; using V = coroutine_handle<>;
	T t; V v; std::coroutine_handle<> s;
	for (int d = 0; d < 4; d++) { switch (mc::choose(9, "op")) {
		case 0: t = nullptr; break; case 1: v = nullptr; break; case 2: v = t; break; case 3: s = t.std_cast(); break; case 4: s = v.std_cast(); break;
		case 5: v = V(s); break; case 6: t = T::from_address(v.address()); break; case 7: t = T(std::coroutine_handle<P>{}); break; case 8: v = V(nullptr); break; }
		MC_REQUIRE(!t && !v && !s && !t.address() && !v.address(), "an empty handle is empty in every form"); MC_REQUIRE(t == v && v == V{} && T{} == V(nullptr), "empty handles are equal"); MC_REQUIRE(v != noop_coroutine(), "empty is not the no-op"); }
}
// several coroutines: equality and ordering agree across forms, and operations reach only the one meant
MC_SCENARIO("C21.order", S()) {
	using P = Gen<0>::promise_type; using V = coroutine_handle<>;
	Gen<0> g[4] = { nat<Gen<0>>(), mac<Gen<0>>(), nat<Gen<0>>(), mac<Gen<0>>() }; std::vector<V> f[4];
	for (int i = 0; i < 4; i++) f[i] = { V(g[i].h), V::from_address(g[i].h.address()), V(coroutine_handle<P>::from_promise(g[i].h.promise(), g[i].type)) };
	std::less<void*> lt; V noop = noop_coroutine(), nul;
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (auto a : f[i]) for (auto b : f[j]) {
		bool e = i == j, l = lt(g[i].h.address(), g[j].h.address());
		MC_REQUIRE((a == b) == e && (a != b) == !e && (a < b) == l && (a >= b) == !l && (a > b) == (!l && !e) && (a <= b) == (l || e), "comparisons agree across forms");
		MC_REQUIRE((a.std_cast() == b.std_cast()) == e, "native forms identify the coroutine"); MC_REQUIRE(a != noop && a != nul && noop != nul && a.std_cast() != noop.std_cast(), "distinct");
	}
	int st[4] = {}; 
	for (int d = 0; d < 4; d++) { int i = mc::choose(4, "which"), w = mc::choose(4, "by"); if (st[i] > N) continue; V a = w < 3 ? f[i][w] : V(f[i][0].std_cast()); a.resume(); st[i]++;
		for (int k = 0; k < 4; k++) MC_REQUIRE(g[k].h.promise().steps == st[k] && g[k].h.done() == (st[k] == N + 1), "only the coroutine meant is resumed"); }
	int left = 4; for (int i = 0; i < 4; i++) { (i % 2 ? f[i][1] : f[i][2]).destroy(); left--; MC_REQUIRE(mc::gget(0) == left, "only the coroutine meant is destroyed"); }
}
// chains of symmetric transfer between the two kinds: every handle an awaiter or a final awaiter returns is the one that runs next
namespace {
std::string log_;
struct Next { int form; coroutine_handle<> to; std::coroutine_handle<> sto; bool await_ready() const noexcept { return false; }
	template<class P> coroutine_handle<> await_suspend(coroutine_handle<P>) const noexcept { return form == 1 ? coroutine_handle<>(to.std_cast()) : to; }
	template<class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P>) const noexcept { return to.std_cast(); } void await_resume() const noexcept {} };
struct NextStd { coroutine_handle<> to; bool await_ready() const noexcept { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<>) const noexcept { return to.std_cast(); } void await_resume() const noexcept {} };
using G0 = Gen<0>;
G0 natHop(int id, int k, coroutine_handle<>* nx) { log_ += 'a' + id; if (k == 2) co_await NextStd{ *nx }; else co_await Next{ k, *nx, {} }; log_ += 'A' + id; }
G0 macHop(int id, int k, coroutine_handle<>* nx) { MC_BEGIN(G0, id, k, nx); log_ += 'a' + id; if (k == 2) MC_AWAIT((NextStd{ *nx })); else MC_AWAIT((Next{ k, *nx, {} })); log_ += 'A' + id; MC_END(); }
}
MC_SCENARIO("C21.hop", S()) {
	log_.clear(); const int M = mc::thorough() ? 5 : 4; coroutine_handle<> nx[6]; std::vector<G0> g; std::string want;
	for (int i = 0; i < M; i++) { int kind = mc::choose(2, "kind"), form = mc::choose(3, "form"); g.push_back(kind ? macHop(i, form, &nx[i]) : natHop(i, form, &nx[i])); }
	for (int i = 0; i + 1 < M; i++) nx[i] = g[i + 1].h; nx[M - 1] = noop_coroutine();
	g[0].h.resume(); for (int i = 0; i < M; i++) want += 'a' + i; MC_REQUIRE(log_ == want, "each transfer runs the coroutine whose handle was returned, once");
	for (int i = M; i--;) { MC_REQUIRE(!g[i].h.done(), "suspended"); g[i].h.resume(); want += 'A' + i; MC_REQUIRE(log_ == want && g[i].h.done(), "each is resumed where it stopped"); }
	for (auto& x : g) x.h.destroy(); MC_REQUIRE(mc::gget(0) == 0, "all destroyed");
}
