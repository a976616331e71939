// Every way of handing over a value whose own operators must not be used.
#pragma once
#include "odd.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "macoro/start_on.h"
#include "macoro/inline_scheduler.h"
#include "macoro/wrap.h"
#include "macoro/take_until.h"
#include "macoro/macros.h"
namespace oddways {
using namespace macoro;
template<class T> inline task<T> nat(Later* l) { T x(7); if (l) co_await l->ref(); co_return std::move(x); }
template<class T> inline task<T> mac(Later* l) { MC_BEGIN(task<T>, l, x = T(7)); if (l) MC_AWAIT(l->ref()); MC_RETURN(std::move(x)); MC_END(); }
template<class T> inline eager_task<T> enat(Later* l) { T x(7); if (l) co_await l->ref(); co_return std::move(x); }
template<class T> inline eager_task<T> emac(Later* l) { MC_BEGIN(eager_task<T>, l, x = T(7)); if (l) MC_AWAIT(l->ref()); MC_RETURN(std::move(x)); MC_END(); }
template<class T> inline task<T&> ref(Later* l, T& x) { if (l) co_await l->ref(); co_return x; }
template<class T> inline task<T> mk(int k, Later* l) { return k ? mac<T>(l) : nat<T>(l); }
template<class T> inline eager_task<T> emk(int k, Later* l) { return k ? emac<T>(l) : enat<T>(l); }
struct NoStop { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} void request_stop() {} };
constexpr unsigned bits(std::initializer_list<int> l) { unsigned m = 0; for (int i : l) m |= 1u << i; return m; }
template<class T, unsigned M> struct W {
	static task<int> way(int w, int k, Later* l, inline_scheduler& s, async_scope& sc) {
		switch (w) {
		case 0: if constexpr (M >> 0 & 1) { T x = co_await mk<T>(k, l); co_return x.get(); } break;
		case 1: if constexpr (M >> 1 & 1) { auto t = mk<T>(k, l); T x = co_await std::move(t); co_return x.get(); } break;
		case 2: if constexpr (M >> 2 & 1) { auto t = mk<T>(k, l); T& x = co_await t; co_return x.get(); } break;
		case 3: if constexpr (M >> 3 & 1) { T x = co_await emk<T>(k, l); co_return x.get(); } break;
		case 4: if constexpr (M >> 4 & 1) { auto t = emk<T>(k, l); T& x = co_await t; co_return x.get(); } break;
		case 5: if constexpr (M >> 5 & 1) { auto r = co_await when_all_ready(mk<T>(k, l)); T x = std::get<0>(std::move(r)).result(); co_return x.get(); } break;
		case 6: if constexpr (M >> 6 & 1) { std::vector<task<T>> v; v.push_back(mk<T>(k, l)); auto r = co_await when_all_ready(std::move(v)); T& x = r[0].result(); co_return x.get(); } break;
		case 7: if constexpr (M >> 7 & 1) { T x = co_await sc.add(mk<T>(k, l)); co_return x.get(); } break;
		case 8: if constexpr (M >> 8 & 1) { T x = co_await start_on(s, mk<T>(k, l)); co_return x.get(); } break;
		case 9: if constexpr (M >> 9 & 1) { T x = co_await (mk<T>(k, l) | start_on(s)); co_return x.get(); } break;
		case 10: if constexpr (M >> 10 & 1) { auto r = co_await wrap(mk<T>(k, l)); MC_REQUIRE(r.has_value(), "value"); co_return r.value().get(); } break;
		case 11: if constexpr (M >> 11 & 1) { if constexpr (std::is_same_v<T, Odd>) { T x = co_await take_until(mk<T>(k, l), NoStop{}); co_return x.get(); } else co_return 7; } break;
		case 12: if constexpr (M >> 12 & 1) { T y(7); T& x = co_await ref<T>(l, y); co_return x.get(); } break;
		case 13: if constexpr (M >> 13 & 1) { T y(7); T& x = co_await start_on(s, ref<T>(l, y)); co_return x.get(); } break;
		case 14: if constexpr (M >> 14 & 1) { T y(7); auto r = co_await when_all_ready(ref<T>(l, y)); T& x = std::get<0>(r).result(); co_return x.get(); } break;
		// the result of awaiting a temporary is an object of its own, which outlives the full expression
		case 16: if constexpr (M >> 16 & 1) { auto&& x = co_await mk<T>(k, l); co_return x.get(); } break;
		case 17: if constexpr (M >> 17 & 1) { auto&& x = co_await start_on(s, mk<T>(k, l)); co_return x.get(); } break;
		case 18: if constexpr (M >> 18 & 1) { auto&& x = co_await emk<T>(k, l); co_return x.get(); } break;
		case 19: if constexpr (M >> 19 & 1) { auto&& x = co_await sc.add(mk<T>(k, l)); co_return x.get(); } break;
		case 15: if constexpr (M >> 15 & 1) { T y(7); T& x = co_await sc.add(ref<T>(l, y)); co_return x.get(); } break;
		}
		co_return 0;
	}
};
template<class T, int... I> inline void run() { { constexpr int ways[] = { I... }; int w = ways[mc::choose((int)sizeof...(I), "way")], k = mc::choose(2, "macro"), later = mc::choose(2, "later"); Later l; inline_scheduler s; async_scope sc; auto t = make_blocking(W<T, bits({ I... })>::way(w, k, later ? std::addressof(l) : nullptr, s, sc)); if (later && l.g.isSet()) l.complete(); MC_REQUIRE(t.get() == 7, "value"); sync_wait(sc); } mc::noLive(); }
template<int... I> inline void odd() { if (mc::flip("move only")) run<MOdd, I...>(); else run<Odd, I...>(); }
template<class T> inline void blk() { { int k = mc::choose(2, "macro"), f = mc::choose(3, "form"); switch (f) { case 0: { T x = sync_wait(mk<T>(k, nullptr)); MC_REQUIRE(x.get() == 7, "v"); break; } case 1: { auto t = mk<T>(k, nullptr); auto&& x = sync_wait(t); MC_REQUIRE(x.get() == 7, "v"); break; } case 2: { auto b = make_blocking(mk<T>(k, nullptr)); T x = b.get(); MC_REQUIRE(x.get() == 7, "v"); break; } } } mc::noLive(); }
}
