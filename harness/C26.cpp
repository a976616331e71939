// C26: running out of memory or threads is reported by the call that needs them and loses nothing: every position of the failure.
#include "common.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/thread_pool.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/timeout.h"
#include "macoro/take_until.h"
#include "macoro/channel_spsc.h"
#include "macoro/channel.h"
#include "macoro/wrap.h"
#include "macoro/macros.h"
using namespace macoro;
enum { END = 1, RES, TOLD };
struct OomOff { ~OomOff() { mc::oom(0); } };
// runs f with the k-th allocation failing; f must fail with bad_alloc exactly if that allocation happened
template<class F> static bool failing(int k, F&& f) {
	bool threw = false; mc::oom(k);
	try { f(); } catch (std::bad_alloc&) { threw = true; } catch (std::system_error& e) { MC_REQUIRE(e.code() == std::errc::resource_unavailable_try_again, "error"); threw = true; }
	bool hit = mc::oomHit(); mc::oom(0);
	MC_REQUIRE(threw == hit, "a failing allocation is reported by an exception, nothing else is");
	mc::outcome(hit); return hit;
}
static task<int> leaf(Val p, Later* l) { Val local(5); if (l) co_await l->ref(); MC_REQUIRE(p.get() == 3 && local.get() == 5, "locals"); mc::gadd(END); co_return 7; }
static task<int> nest(int d, Later* l) { Val local(5); if (!d) co_return co_await leaf(Val(3), l); co_return co_await nest(d - 1, l); }
static task<int> mleaf(Val p, Later* l) { MC_BEGIN(task<int>, p = std::move(p), l, local = Val(5)); if (l) MC_AWAIT(l->ref()); MC_REQUIRE(p.get() == 3 && local.get() == 5, "locals"); mc::gadd(END); MC_RETURN(7); MC_END(); }
static task<int> mnest(int d, Later* l) { MC_BEGIN(task<int>, d, l, local = Val(5), r = 0); if (!d) { MC_AWAIT_SET(r, mleaf(Val(3), l)); } else { MC_AWAIT_SET(r, mnest(d - 1, l)); } MC_RETURN(int(r)); MC_END(); }
static eager_task<int> eleaf(Val p, Later* l) { Val local(5); if (l) co_await l->ref(); mc::gadd(END); co_return 7; }
static eager_task<int> enest(int d, Later* l) { Val local(5); if (!d) co_return co_await eleaf(Val(3), l); co_return co_await enest(d - 1, l); }
static int K() { return mc::choose(12, "which allocation fails"); }
MC_SCENARIO("C26.task", S()) { int k = K(), d = mc::choose(3, "depth"); bool hit = failing(k, [&] { MC_REQUIRE(sync_wait(nest(d, nullptr)) == 7, "value"); }); MC_REQUIRE(mc::gget(END) == !hit, "ran"); mc::noLive(); }
// macro coroutines: the frame of a nested one, or what an await needs, cannot be allocated
static task<int> mtop(int k, bool awt, bool* hit) { MC_BEGIN(task<int>, k, awt, hit, local = Val(5), t = task<int>{});
	mc::oom(k); if (awt) { MC_AWAIT(macoro::suspend_never{}); } else { t = mleaf(Val(3), nullptr); }
	*hit = mc::oomHit(); mc::oom(0); MC_REQUIRE(!*hit, "a failing allocation is reported"); if (t.handle()) { MC_AWAIT(std::move(t)); } MC_RETURN(7); MC_END(); }
MC_SCENARIO("C26.macro", S()) { bool awt = mc::flip("await"); int k = awt ? mc::choose(4, "k") : mc::choose(2, "k"); bool hit = false, threw = false;
	{ auto t = mtop(k, awt, &hit); try { MC_REQUIRE(sync_wait(std::move(t)) == 7, "value"); } catch (std::bad_alloc&) { threw = true; MC_REQUIRE(mc::oomHit(), "bad_alloc without a failing allocation"); } mc::oom(0); }
	mc::outcome(threw); mc::noLive(); }
static void mrun(bool e, int d) { if (e) { auto f = []() -> eager_task<int> { MC_BEGIN(eager_task<int>, local = Val(5)); MC_AWAIT(macoro::suspend_never{}); MC_RETURN(7); MC_END(); }; auto t = f(); } else auto t = mleaf(Val(3), nullptr); }
MC_SCENARIO("C26.macro_frame", S()) { bool e = mc::flip("eager"); failing(1, [&] { mrun(e, 0); }); mc::noLive(); }
MC_SCENARIO("C26.eager", S()) { int k = K(), d = mc::choose(3, "depth"); failing(k, [&] { MC_REQUIRE(sync_wait(enest(d, nullptr)) == 7, "value"); }); mc::noLive(); }
MC_SCENARIO("C26.blocking", S()) { int k = K(); failing(k, [&] { auto b = make_blocking(nest(1, nullptr)); MC_REQUIRE(b.get() == 7, "value"); }); mc::noLive(); }
static task<int> all(int form) {
	if (form == 0) { auto r = co_await when_all_ready(nest(0, nullptr), nest(0, nullptr)); co_return std::get<0>(r).result() + std::get<1>(r).result(); }
	std::vector<task<int>> v; v.push_back(nest(0, nullptr)); v.push_back(nest(0, nullptr)); auto r = co_await when_all_ready(std::move(v)); co_return r[0].result() + r[1].result(); }
MC_SCENARIO("C26.when_all", S()) { int k = mc::choose(16, "k"), form = mc::choose(2, "form"); failing(k, [&] { MC_REQUIRE(sync_wait(all(form)) == 14, "value"); }); mc::noLive(); }
// a failing add leaves the scope usable; what fails inside the operation is reported by the join
static task<int> scope(async_scope& s, int k, bool keep, Later* l) {
	Val local(1); int n = 0; bool threw = false, hit = false; std::optional<scoped_task<int>> kept;
	for (int i = 0; i < 2; i++) { mc::oom(i ? 0 : k); try { auto t = s.add(leaf(Val(3), l + i)); n++; if (keep) kept.emplace(std::move(t)); } catch (std::bad_alloc&) { threw = true; } if (mc::oomHit()) hit = true; mc::oom(0); }
	MC_REQUIRE(!threw || hit, "bad_alloc without a failing allocation");
	bool failed = false; try { co_await s; } catch (async_scope_exception&) { failed = true; } MC_REQUIRE(hit == (threw || failed), "a failing allocation is reported, by add or by the join"); MC_REQUIRE(threw + failed <= 1, "once"); MC_REQUIRE(mc::gget(END) == n - failed, "every added operation is joined"); mc::outcome(threw ? "not added " : failed ? "failed " : "fine "); co_return n; }
MC_SCENARIO("C26.scope", S()) { { int k = K(); bool keep = mc::flip("keep"); async_scope s; Later l[2]; auto t = make_blocking(scope(s, k, keep, l)); if (l[0].g.isSet()) l[0].complete(); l[1].complete(); t.get(); } mc::noLive(); }
static when_all_scope block(int k, int* n) { Val local(1); for (int i = 0; i < 2; i++) { bool threw = false; mc::oom(i ? 0 : k); try { auto t = co_await scoped(leaf(Val(3), nullptr)); ++*n; } catch (std::bad_alloc&) { threw = true; MC_REQUIRE(mc::oomHit(), "out of memory"); } mc::oom(0); mc::outcome(threw); } }
static task<int> blocks(int k) { int n = 0; co_await block(k, &n); co_return n; }
MC_SCENARIO("C26.block", S()) { int k = K(); int n = sync_wait(blocks(k)); MC_REQUIRE(n == 2 || n == 1 && k, "the others are added"); long e = mc::gget(END); MC_REQUIRE(e == n || e == n - 1 && k && n == 2, "what was added ran"); mc::noLive(); }
MC_SCENARIO("C26.block2", S()) { int k = K(); failing(k, [&] { auto f = []() -> task<int> { int n = 0; auto b = block(0, &n); co_return 1; }; sync_wait(f()); }); mc::noLive(); }

// ---- thread pools ---------------------------------------------------------
using namespace std::chrono_literals;
static task<void> hop(thread_pool& p, int form, int k, stop_token tk, Later* l) {
	Val local(5); bool threw = false;
	mc::oom(k);
	try {
		if (form == 0) co_await p.schedule(); else if (form == 1) co_await p.dispatch(); else if (form == 2) co_await p.schedule_after(1ms, tk); else co_await transfer_to(p);
	} catch (std::bad_alloc&) { threw = true; MC_REQUIRE(mc::oomHit(), "bad_alloc without a failing allocation"); }
	if (threw) mc::gset(TOLD, 1); else MC_REQUIRE(mc::gget(RES), "resumed by the pool"); mc::oom(0); mc::outcome(threw);
	MC_REQUIRE(local.get() == 5, "locals"); mc::gadd(END); }
MC_SCENARIO("C26.pool", S()) { { int form = mc::choose(4, "how"), k = mc::choose(6, "k"), n = mc::choose(2, "earlier") * 3; bool tk = form == 2 && mc::flip("token"), stop = tk && mc::flip("stop"); stop_source src; { thread_pool p; auto w = p.make_work();
	std::vector<eager_task<void>> v; v.reserve(8); for (int i = 0; i < n; i++) { auto f = [](thread_pool& p) -> eager_task<void> { co_await p.schedule_after(2ms); mc::gadd(END); }; v.push_back(f(p)); }
	{ auto t = make_blocking(hop(p, form, k, tk ? src.get_token() : stop_token{}, nullptr)); bool told = mc::gget(TOLD), hit = mc::oomHit(); mc::oom(0); MC_REQUIRE(mc::gget(END) == told, "the coroutine that could not be scheduled is told"); MC_REQUIRE(told || !hit, "told");
	mc::gset(RES, 1); if (stop) src.request_stop(); w.reset(); p.run(); MC_REQUIRE(mc::gget(END) == n + 1, "everything that was scheduled runs, once"); t.get(); } } } mc::noLive(); }
static void post1(thread_pool& p, std::coroutine_handle<> h, bool d) { if (d) { auto x = p.dispatch(coroutine_handle<void>(h)); MC_REQUIRE(x == noop_coroutine(), "queued"); } else p.schedule(coroutine_handle<void>(h)); }
MC_SCENARIO("C26.pool_post", S()) { { int k = mc::choose(3, "k"), n = mc::choose(3, "n"); bool d = mc::flip("dispatch"); int run = 0; std::vector<Later> l(100); thread_pool p; int cnt = n == 0 ? 1 : n == 1 ? 63 : 70;
	std::vector<task<void>> own; auto body = [](Later* l, int* run) -> Fire { co_await l->ref(); ++*run; }; for (int i = 0; i < cnt; i++) body(&l[i], &run); int posted = 0;
	for (int i = 0; i < cnt; i++) { auto h = l[i].h; int kk = i == cnt - 1 ? k : 0; if (!failing(kk, [&] { post1(p, h, d); })) posted++; else h.destroy(); }
	p.run(); MC_REQUIRE(run == posted, "everything that was queued runs, nothing else does"); } }
MC_SCENARIO("C26.threads", P(0,1)) { { int k = mc::choose(8, "k"), form = mc::choose(3, "form"); int run = 0; { thread_pool::work w; bool hit;
	if (form == 0) { hit = failing(k, [&] { thread_pool p(2, w); auto h = [](thread_pool& p, int* run) -> Fire { co_await p.schedule(); ++*run; }; mc::oom(0); h(p, &run); w.reset(); p.join(); }); }
	else { thread_pool p; w = p.make_work(); auto f = [](thread_pool& p, int* run) -> eager_task<void> { co_await p.schedule(); ++*run; }; auto t = f(p, &run);
		hit = failing(k, [&] { p.create_threads(form); }); if (hit) { p.create_thread(); } w.reset(); p.join(); MC_REQUIRE(run == 1, "what was scheduled runs"); } } } }
MC_SCENARIO("C26.pool_new", S()) { int k = mc::choose(4, "k"); failing(k, [&] { thread_pool p; }); }
// ---- stopping -------------------------------------------------------------
MC_SCENARIO("C26.stop", S()) { { int k = mc::choose(8, "k"), n = mc::choose(3, "earlier"); bool have = false; int calls = 0; n = n == 0 ? 0 : n == 1 ? 1 : 16; std::optional<stop_source> src; 
	if (!failing(mc::flip("source") ? k : 0, [&] { src.emplace(); })) { Val big(1); { std::vector<std::unique_ptr<stop_callback>> e; for (int i = 0; i < n; i++) e.emplace_back(new stop_callback(src->get_token(), [&calls] { calls++; }));
		std::unique_ptr<stop_callback> cb; have = !failing(k, [&] { cb.reset(new stop_callback(src->get_token(), [&calls, big, p = &have] { MC_REQUIRE(big.get() == 1, "captures"); MC_REQUIRE(*p, "a callback whose registration failed is called"); calls++; })); });
		if (!have && mc::flip("again")) { have = true; cb.reset(new stop_callback(src->get_token(), [&calls] { calls++; })); }
		if (mc::flip("drop first") && n) { e[0].reset(); n--; }
		src->request_stop(); MC_REQUIRE(calls == n + have, "every registered callback is called exactly once, and no other"); } } } mc::noLive(); }
static task<void> waitstop(stop_token t, int k) { Val local(5); mc::oom(k); bool threw = false; try { co_await t; } catch (std::bad_alloc&) { threw = true; MC_REQUIRE(mc::oomHit(), "bad_alloc"); } mc::oom(0); mc::outcome(threw); if (threw) mc::gset(TOLD, 1); else MC_REQUIRE(mc::gget(RES), "not before the stop"); mc::gadd(END); }
MC_SCENARIO("C26.stop_await", S()) { { int k = mc::choose(6, "k"); stop_source src; { auto t = make_blocking(waitstop(src.get_token(), k)); bool told = mc::gget(TOLD), hit = mc::oomHit(); mc::oom(0); MC_REQUIRE(mc::gget(END) == told && (told || !hit), "told, or waits"); mc::gset(RES, 1); src.request_stop(); MC_REQUIRE(mc::gget(END) == 1, "resumed once"); t.get(); } } mc::noLive(); }
// ---- channels, sequences, results, wrap, timeouts -------------------------
MC_SCENARIO("C26.channel", S()) { int k = mc::choose(5, "k"), f = mc::choose(2, "kind"); failing(k, [&] { if (f) { mpsc::channel<Val> c(4); } else { spsc::channel<Val> c(4); } }); mc::noLive(); }
MC_SCENARIO("C26.sequence", S()) { int k = mc::choose(4, "k"); sequence_barrier<std::size_t> b; failing(k, [&] { sequence_mpsc<std::size_t> m(b, 4); }); }
// a timeout cannot be set up: the constructor says so, or the timeout is over
MC_SCENARIO("C26.timeout", S()) { { int k = mc::choose(9, "k"); bool tk = mc::flip("token"), stop = mc::flip("stop"); stop_source src; thread_pool p; auto w = p.make_work(); std::optional<timeout> t; bool threw = false;
	mc::oom(k); try { t.emplace(p, 1ms, tk ? src.get_token() : stop_token{}); } catch (std::bad_alloc&) { threw = true; } bool hit = mc::oomHit(); mc::oom(0); MC_REQUIRE(!threw || hit, "bad_alloc without a failing allocation");
	if (threw) t.emplace(p, 1ms, tk ? src.get_token() : stop_token{}); else if (hit) mc::outcome("over ");
	if (stop) src.request_stop(); w.reset(); p.run(); MC_REQUIRE(t->get_token().stop_requested(), "over"); sync_wait(std::move(*t)); mc::outcome(threw); } mc::noLive(); }
struct Until { int* stops; struct Aw { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_resume() { mc::gadd(RES); } }; Aw operator co_await() { return {}; } void request_stop() { ++*stops; } };
MC_SCENARIO("C26.take_until", S()) { { int k = mc::choose(8, "k"); int stops = 0; bool nostart = false;
	bool hit = failing(k, [&] { nostart = true; auto t = take_until(nest(1, nullptr), Until{ &stops }); nostart = false; MC_REQUIRE(sync_wait(std::move(t)) == 7, "value"); });
	if (stops || !hit) MC_REQUIRE(stops == 1 && mc::gget(RES) == 1, "the other one is stopped and awaited"); } mc::noLive(); }
MC_SCENARIO("C26.start_on", S()) { { int k = mc::choose(8, "k"); bool pipe = mc::flip("pipe"); thread_pool p; auto w = p.make_work(); std::optional<eager_task<int>> t; bool threw = false;
	mc::oom(k); try { if (pipe) t.emplace(leaf(Val(3), nullptr) | start_on(p)); else t.emplace(start_on(p, leaf(Val(3), nullptr))); } catch (std::bad_alloc&) { threw = true; } bool early = mc::oomHit(); MC_REQUIRE(!threw || early, "bad_alloc without a failing allocation");
	w.reset(); p.run(); bool hit = mc::oomHit(); mc::oom(0); bool failed = false; if (t) try { MC_REQUIRE(sync_wait(std::move(*t)) == 7, "value"); } catch (std::bad_alloc&) { failed = true; } MC_REQUIRE(hit == (threw || failed), "a failing allocation is reported, once"); MC_REQUIRE(mc::gget(END) == !hit, "ran"); mc::outcome(threw ? "threw " : failed ? "failed " : "fine "); } mc::noLive(); }
static result<Val> res(int k, bool* hit) { Val local(5); mc::oom(k); Val v(7); *hit = mc::oomHit(); mc::oom(0); co_return v; }
MC_SCENARIO("C26.result", S()) { { int k = mc::choose(3, "k"); bool hit = false, threw = false; std::optional<result<Val>> r; mc::oom(0); r.emplace(res(k, &hit)); try { MC_REQUIRE(r->value().get() == 7, "value"); } catch (std::bad_alloc&) { threw = true; } MC_REQUIRE(threw == (k == 1), "reported"); mc::oom(0); } mc::noLive(); }
MC_SCENARIO("C26.result_frame", S()) { { bool hit = false, h2 = failing(1, [&] { auto r = res(0, &hit); }); MC_REQUIRE(h2, "frame"); } mc::noLive(); }
MC_SCENARIO("C26.wrap", S()) { { int k = K(); failing(k, [&] { auto f = [&]() -> task<int> { Val l(1); auto r = co_await wrap(nest(1, nullptr)); if (r.has_error()) std::rethrow_exception(r.error()); co_return r.value(); }; MC_REQUIRE(sync_wait(f()) == 7, "value"); }); } mc::noLive(); }
// known findings: what the initial and the final suspend of a macro coroutine need is allocated when they are reached
struct Lazy { struct promise_type { Val v{ 1 }; ~promise_type() { mc::gadd(END); }
		Lazy get_return_object() noexcept { mc::oom(1); return { macoro::coroutine_handle<promise_type>::from_promise(*this, macoro::coroutine_handle_type::std) }; } Lazy macoro_get_return_object() noexcept { mc::oom(1); return { macoro::coroutine_handle<promise_type>::from_promise(*this, macoro::coroutine_handle_type::macoro) }; }
		macoro::suspend_always initial_suspend() noexcept { return {}; } macoro::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} };
	macoro::coroutine_handle<promise_type> h; Lazy(macoro::coroutine_handle<promise_type> x) : h(x) {} Lazy(Lazy&& o) noexcept : h(std::exchange(o.h, nullptr)) {} ~Lazy() { if (h) { MC_REQUIRE(mc::gget(END) == 0, "a coroutine that could not reach its initial suspend is destroyed once"); h.destroy(); } } };
static Lazy lazym() { MC_BEGIN(Lazy); MC_RETURN_VOID(); MC_END(); }
MC_SCENARIO("C26.macro_initial", S()) { { try { auto l = lazym(); } catch (std::bad_alloc&) { mc::outcome("bad_alloc"); } mc::oom(0); } mc::noLive(); }
static task<int> finm() { MC_BEGIN(task<int>, local = Val(5)); mc::oom(1); MC_RETURN(7); MC_END(); }
static task<int> finc(bool* end) { try { int r = co_await finm(); mc::oom(0); *end = true; co_return r; } catch (std::bad_alloc&) { mc::oom(0); *end = true; } co_return 0; }
MC_SCENARIO("C26.macro_final", S()) { { bool end = false; auto t = finc(&end); auto f = [](task<int>& t) -> Fire { co_await t; }; try { f(t); } catch (std::bad_alloc&) {} mc::oom(0); MC_REQUIRE(end, "the awaiter of a coroutine that returned is resumed"); } mc::noLive(); }
