// compositions: an operation passed through two (or three) ways of awaiting, of every kind, then awaited by a third
#include "C23.inc"
struct World { async_scope scope; bool stopped[4] = {}; int stops = 0; };
inline World* W;
template<class T, class E> Val norm(result<T, E>&& r); template<class X> Val norm(std::tuple<X>&& r);
inline Val norm(Val&& v) { return std::move(v); }
template<class T, class E> Val norm(result<T, E>&& r) { if (r.has_error()) std::rethrow_exception(r.error()); return norm(std::move(r.value())); }
template<class X> Val norm(std::tuple<X>&& r) { return norm(std::move(std::get<0>(std::move(r)).result())); }
template<class A> task<Val> pTask(A a) { co_return norm(co_await std::move(a)); }
template<class A> eager_task<Val> pEager(A a) { co_return norm(co_await std::move(a)); }
template<class A> task<Val> pMacro(A&& aa) { using R = awaitable_result_t<A>; using S = std::optional<std::decay_t<R>>; MC_BEGIN(task<Val>, a = std::move(aa), v = S{}); struct Put { S* s; void operator()(R&& r) { s->emplace(std::forward<R>(r)); } }; { } MC_AWAIT_FN(Put{ &v }, std::move(a)); MC_RETURN(norm(std::move(*v))); MC_END(); }
template<class A> when_all_scope pBlockBody(A a, std::optional<Val>& o, std::exception_ptr& e) { auto t = co_await scoped(std::move(a)); try { o.emplace(norm(co_await std::move(t))); } catch (...) { e = std::current_exception(); } }
template<class A> task<Val> pBlock(A a) { std::optional<Val> o; std::exception_ptr e; co_await pBlockBody(std::move(a), o, e); if (e) std::rethrow_exception(e); co_return std::move(*o); }
enum { P_WRAP, P_ALL, P_TASK, P_EAGER, P_MACRO, P_START, P_UNTIL, P_SCOPE, P_BLOCK, N_P };
template<int P, class A> auto produce(A&& a) {
	static inline_scheduler sch;
	if constexpr (P == P_WRAP) return wrap(std::move(a));
	else if constexpr (P == P_ALL) return when_all_ready(std::move(a));
	else if constexpr (P == P_TASK) return pTask<A>(std::move(a));
	else if constexpr (P == P_EAGER) return pEager<A>(std::move(a));
	else if constexpr (P == P_MACRO) return pMacro<A>(std::move(a));
	else if constexpr (P == P_START) return start_on(sch, std::move(a));
	else if constexpr (P == P_UNTIL) return take_until(std::move(a), Until{ &W->stopped[W->stops++] });
	else if constexpr (P == P_SCOPE) return W->scope.add(std::move(a));
	else return pBlock<A>(std::move(a));
}
template<class A> task<Val> last(A a, bool macro) { if (macro) co_return co_await pMacro<A>(std::move(a)); co_return norm(co_await std::move(a)); }
template<int D, class A> Val go(A&& a);
template<int D, int P, class A> Val step(A&& a) { if constexpr (!has<P>) { mc_prune_(); throw 1; } else if constexpr (P == P_UNTIL && !std::is_same_v<awaitable_result_t<A>, Val>) { mc_prune_(); throw 1; /* take_until has no reference or move-only results */ } else { auto y = produce<P, A>(std::move(a)); return go<D - 1>(std::move(y)); } }
template<int D, class A> Val go(A&& a) {
	if constexpr (D == 0) { switch (mc::choose(3, "finally")) { case 0: return norm(sync_wait(std::move(a))); case 1: return sync_wait(last<A>(std::move(a), false)); default: return sync_wait(last<A>(std::move(a), true)); } }
	else switch (mc::choose(N_P, "through")) {
	case 0: return step<D, 0, A>(std::move(a)); case 1: return step<D, 1, A>(std::move(a)); case 2: return step<D, 2, A>(std::move(a)); case 3: return step<D, 3, A>(std::move(a)); case 4: return step<D, 4, A>(std::move(a));
	case 5: return step<D, 5, A>(std::move(a)); case 6: return step<D, 6, A>(std::move(a)); case 7: return step<D, 7, A>(std::move(a)); default: return step<D, 8, A>(std::move(a)); }
}
inline task<> joinAll() { co_await W->scope; }
template<int P, int D> static void compose() {
	{ Cfg c; c.ready = false; int k = mc::choose(3, "when"); c.ready = k == 0; c.how = k == 2; c.at = mc::flip("fails") ? RES : NEVER; c.n = mc::flip("std exception") ? 5 : 4; const int n = c.n; World w; W = &w;
	bool other = k == 1; std::thread t; if (other) t = std::thread([&] { c.complete(); }); bool thrown = false; int at = c.at;
	{ Op<Val, MEMB, SVOID> op(&c); using O = Op<Val, MEMB, SVOID>; auto run = [&](auto&& a) { return step<D, P, O>(std::move(a)); }; try { Val v = run(std::move(op)); MC_REQUIRE(v.get() == n, "the value comes through"); } catch (Boom& b) { thrown = true; MC_REQUIRE(b.v == n, "that exception comes through"); } catch (...) { MC_REQUIRE(false, "another exception"); } }
	sync_wait(joinAll()); MC_REQUIRE(thrown == (at == RES), "fails exactly when the operation does"); MC_REQUIRE(c.log == (c.ready ? "Rre" : "Rrse"), "awaited once"); for (int i = 0; i < w.stops; i++) MC_REQUIRE(w.stopped[i], "every trigger is stopped");
	if (other) t.join(); mc::outcome(thrown); } mc::noLive();
}
