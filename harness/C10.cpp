// C10: stop callbacks run exactly once if stop is requested first, else never. (own stop_token implementation)
#include "common.h"
#include "macoro/stop.h"
using namespace macoro;
enum { RAN /* + i */, REQ = 20, RUNNING = 30, DEREG = 50 };
static void hw() { mc_hw_(1 + mc::choose(mc::thorough() ? 3 : 2, "lists")); }
// a callback's data lives on the heap and is freed right after deregistration
struct Cb {
	int i; int* cell; int hits = 0; stop_callback cb;
	Cb(int i, stop_token t, int* data = nullptr, bool slow = false) : i(i), cell(new int(7)), cb(std::move(t), [this, i, data, slow] {
		mc::gadd(RUNNING + i); MC_REQUIRE(mc::gadd(RAN + i) == 1, "a callback runs at most once");
		MC_REQUIRE(mc::gget(DEREG + i) == 0, "a callback does not start after its deregistration completed");
		if (data) MC_REQUIRE(*data == 1, "writes before the stop request are visible in the callback");
		hits++; *cell = 8; if (slow) { mc::point(); *cell = 9; } mc::gadd(RUNNING + i, -1); }) {}
	~Cb() {}
};
static void destroy(Cb* c) { int i = c->i; int* cell = c->cell; c->cb.~stop_callback(); mc::gset(DEREG + i, 1); MC_REQUIRE(mc::gget(RUNNING + i) == 0, "deregistration returns only once the callback is not running elsewhere"); delete cell; ::operator delete(c); }
static void request(stop_source& s) { s.request_stop(); mc::gset(REQ, 1); MC_REQUIRE(s.stop_requested(), "a source reports its request"); }

// register, then deregister, against one or two requests
static void regVsReq(int requesters, bool keepUntilEnd, bool slow) {
	hw(); int data = 0; stop_source s; std::vector<std::thread> th; th.reserve(4);
	stop_token tok = s.get_token(); MC_REQUIRE(tok.stop_possible() && !tok.stop_requested(), "fresh token");
	if (requesters == 1) th.emplace_back([&] { data = 1; s.request_stop(); mc::gset(REQ, 1); MC_REQUIRE(s.stop_requested(), "reported"); });
	else for (int i = 0; i < requesters; i++) th.emplace_back([&] { stop_source c(s); request(c); });
	auto* c = new Cb(0, tok, requesters == 1 ? &data : nullptr, slow);
	if (!keepUntilEnd) { bool before = mc::gget(REQ); destroy(c); if (before && requesters == 1) MC_REQUIRE(mc::gget(RAN) == 1, "a callback registered before the request ended ran"); }
	for (auto& t : th) t.join();
	if (keepUntilEnd) { MC_REQUIRE(mc::gget(RAN) == 1, "every registered callback runs exactly once"); destroy(c); }
	MC_REQUIRE(mc::gget(RAN) <= 1, "at most once"); mc::outcome(mc::gget(RAN)); MC_REQUIRE(tok.stop_requested(), "the token reports the request");
}
MC_SCENARIO("C10.reg_req", P(7, 9).sh(4)) { regVsReq(1, true, false); }
MC_SCENARIO("C10.dereg_req", P(6, 8).sh(4)) { regVsReq(1, false, true); }
MC_SCENARIO("C10.two_requests", P(4, 5).sh(8)) { regVsReq(2, true, false); }
MC_SCENARIO("C10.dereg_two_requests", P(4, 5).sh(8)) { regVsReq(2, false, true); }
MC_SCENARIO("C10.reg_req.weak", P(5, 6).weak(2, 3).sh(8)) { regVsReq(1, true, false); }
MC_SCENARIO("C10.dereg_req.weak", P(4, 5).weak(1, 2).sh(8)) { regVsReq(1, false, false); }

// several threads register and deregister around a request
static void many(int n, int per, bool drop) {
	hw(); stop_source s; std::vector<std::thread> th; th.reserve(4); Cb* c[8] = {};
	for (int t = 0; t < n; t++) th.emplace_back([&, t] { for (int k = 0; k < per; k++) { int i = t * per + k; c[i] = new Cb(i, s.get_token()); if (drop && k == 0) { destroy(c[i]); c[i] = nullptr; } } });
	request(s);
	for (auto& t : th) t.join();
	for (int i = 0; i < n * per; i++) { if (c[i]) { MC_REQUIRE(mc::gget(RAN + i) == 1, "every registered callback runs exactly once"); destroy(c[i]); } mc::outcome(mc::gget(RAN + i)); }
}
MC_SCENARIO("C10.two_registrants", P(4, 5).sh(8)) { many(2, 1, false); }
MC_SCENARIO("C10.two_registrants.drop", P(3, 4).sh(8)) { many(2, 2, true); }
MC_SCENARIO("C10.one_registrant.drop", P(5, 6).sh(8)) { many(1, 2, true); }
MC_SCENARIO("C10.three_registrants", P(2, 3).sh(8)) { many(3, 1, false); }
MC_SCENARIO("C10.two_registrants.weak", P(2, 4).weak(1, 2).sh(8)) { many(2, 1, false); }

// slots are reused: deregister and register again while a request runs
MC_SCENARIO("C10.reuse", P(4, 5).sh(8)) {
	hw(); stop_source s; auto* a = new Cb(0, s.get_token()); std::thread r([&] { request(s); });
	destroy(a); auto* b = new Cb(1, s.get_token()); auto* c = new Cb(2, s.get_token()); r.join();
	for (int i : { 1, 2 }) MC_REQUIRE(mc::gget(RAN + i) == 1, "every registered callback runs exactly once"); destroy(b); destroy(c); mc::outcome(mc::gget(RAN));
}
MC_SCENARIO("C10.reuse_other_thread", P(3, 5).sh(8)) {
	hw(); stop_source s; auto* a = new Cb(0, s.get_token()); Cb* b = nullptr;
	std::thread r([&] { request(s); }), d([&] { destroy(a); }); b = new Cb(1, s.get_token()); r.join(); d.join();
	MC_REQUIRE(mc::gget(RAN + 1) == 1, "every registered callback runs exactly once"); destroy(b); mc::outcome(mc::gget(RAN));
}
// registering and deregistering from inside callbacks
MC_SCENARIO("C10.inside", P(5, 8).sh(4)) {
	hw(); stop_source s; stop_token t = s.get_token(); Cb* other = nullptr; int what = mc::choose(4, "what"); bool bySelf = mc::flip("main requests");
	std::optional<stop_callback> self; bool fired = false; stop_callback* nested = nullptr; int nestedRan = 0;
	if (what == 1) other = new Cb(0, t);
	self.emplace(t, [&] {
		fired = true;
		if (what == 0) { self.reset(); }                                     // deregister itself
		else if (what == 1) { if (other) { auto o = other; other = nullptr; destroy(o); } } // deregister another one
		else if (what == 2) { stop_callback in(t, [&] { nestedRan++; }); MC_REQUIRE(nestedRan == 1, "registering after the request runs the callback inline"); }
		else { s.request_stop(); MC_REQUIRE(t.stop_requested(), "requesting again is a no-op"); } });
	if (what == 1 && mc::flip("second")) { /* also one after */ }
	if (bySelf) request(s); else { std::thread r([&] { request(s); }); r.join(); }
	MC_REQUIRE(fired, "the callback ran"); if (what == 0) MC_REQUIRE(!self, "self removal"); if (what == 1) MC_REQUIRE(mc::gget(RAN) <= 1, "at most once");
	self.reset(); (void)nested;
}
// a callback deregisters a later one: it must not run afterwards
MC_SCENARIO("C10.removes_next", P(4, 5).sh(4)) {
	hw(); stop_source s; stop_token t = s.get_token(); Cb* next = nullptr; stop_callback first(t, [&] { if (next) { auto o = next; next = nullptr; int before = mc::gget(RAN); destroy(o); mc::gset(DEREG, 1); MC_REQUIRE(mc::gget(RAN) == before, "removed"); } });
	next = new Cb(0, t); std::thread r([&] { request(s); }); std::thread q([&] { request(s); }); r.join(); q.join(); MC_REQUIRE(!next, "first callback ran");
	MC_REQUIRE(mc::gget(RAN) == 0, "a deregistered callback never runs");
}
// the callback runs while its owner deregisters on another thread, owner then frees everything
MC_SCENARIO("C10.owner_frees", P(4, 6).sh(4)) {
	hw(); auto s = std::make_unique<stop_source>(); stop_token t = s->get_token(); auto* c = new Cb(0, t, nullptr, true); auto* d = new Cb(1, t, nullptr, true);
	std::thread r([s = std::move(s)]() mutable { s->request_stop(); s.reset(); }); destroy(d); t = stop_token(); destroy(c); r.join(); mc::outcome(mc::gget(RAN)); mc::outcome(mc::gget(RAN + 1));
}
// more callbacks than one chunk holds
MC_SCENARIO("C10.chunks", S()) {
	mc_hw_(1); int n = 16 + mc::choose(3, "extra") * 17; stop_source s; std::vector<Cb*> v; int drop = mc::choose(3, "drop"), count = 0; int ran = 0;
	std::vector<std::unique_ptr<stop_callback>> cbs; std::vector<int> hits(n + 4, 0);
	for (int i = 0; i < n; i++) cbs.push_back(std::make_unique<stop_callback>(s.get_token(), [&, i] { hits[i]++; }));
	if (drop) for (int i = drop - 1; i < n; i += 3) cbs[i].reset();
	int extra = mc::choose(4, "again"); for (int i = 0; i < extra; i++) cbs.push_back(std::make_unique<stop_callback>(s.get_token(), [&, i] { hits[n + i]++; }));
	s.request_stop(); (void)count; (void)ran;
	for (int i = 0; i < n + extra; i++) MC_REQUIRE(hits[i] == (cbs[i] ? 1 : 0), "exactly the registered callbacks run, once");
}
MC_SCENARIO("C10.chunk_race", P(3, 5).sh(8)) {
	mc_hw_(1); stop_source s; std::vector<std::unique_ptr<stop_callback>> cbs; int hits = 0; for (int i = 0; i < 16; i++) cbs.push_back(std::make_unique<stop_callback>(s.get_token(), [&] { hits++; }));
	Cb *a = nullptr, *b = nullptr; std::thread x([&] { a = new Cb(0, s.get_token()); }), y([&] { b = new Cb(1, s.get_token()); });
	x.join(); y.join(); request(s); MC_REQUIRE(hits == 16, "all run"); MC_REQUIRE(mc::gget(RAN) == 1 && mc::gget(RAN + 1) == 1, "each runs once"); destroy(a); destroy(b);
}
MC_SCENARIO("C10.chunk_race.req", P(3, 5).sh(8)) {
	mc_hw_(1); stop_source s; std::vector<std::unique_ptr<stop_callback>> cbs; int hits = 0; for (int i = 0; i < 16; i++) cbs.push_back(std::make_unique<stop_callback>(s.get_token(), [&] { hits++; }));
	Cb *a = nullptr; std::thread x([&] { a = new Cb(0, s.get_token()); }), y([&] { request(s); });
	x.join(); y.join(); MC_REQUIRE(hits == 16, "all run"); MC_REQUIRE(mc::gget(RAN) == 1, "each runs once"); destroy(a);
}
// ownership: sources and tokens copied, moved and dropped on several threads
MC_SCENARIO("C10.owners", D()) {
	auto s = std::make_unique<stop_source>(); stop_token t = s->get_token(); bool req = mc::flip("request"); mc::Gate g;
	std::thread a([&, c = stop_source(*s)]() mutable { stop_token u = c.get_token(); MC_REQUIRE(u.stop_possible(), "a live source makes stop possible"); if (req) c.request_stop(); stop_source d(std::move(c)); });
	std::thread b([&, u = t]() mutable { bool r = u.stop_requested(); MC_REQUIRE(!r || req, "no request was made"); stop_token w = std::move(u); MC_REQUIRE(!u.stop_possible(), "moved-from"); w = stop_token(); });
	s.reset(); a.join(); b.join();
	MC_REQUIRE(t.stop_requested() == req, "the token agrees with the request");
	MC_REQUIRE(t.stop_possible() == req, "without a source and a request, stop is impossible");
	int ran = 0; { stop_callback cb(t, [&] { ran++; }); MC_REQUIRE(ran == req, "runs inline iff stop was requested"); } MC_REQUIRE(ran == (int)req, "never later");
}
MC_SCENARIO("C10.visibility", D()) {
	stop_source s; int data = 0; stop_token t = s.get_token(); std::thread a([&] { data = 1; s.request_stop(); });
	if (t.stop_requested()) { MC_REQUIRE(data == 1, "observing the request makes earlier writes visible"); mc::outcome("seen"); } a.join(); MC_REQUIRE(t.stop_requested(), "seen after join");
}
MC_SCENARIO("C10.visibility.weak", P(3, 5).weak(2, 3)) {
	stop_source s; int data = 0; stop_token t = s.get_token(); std::thread a([&] { data = 1; s.request_stop(); });
	if (t.stop_requested()) MC_REQUIRE(data == 1, "visible"); a.join(); MC_REQUIRE(t.stop_requested(), "seen after join");
}
// all sequential histories against a reference model
MC_SCENARIO("C10.histories", S().sh(8)) {
	struct M { bool req = false; int src = 0; } st[2]; std::optional<stop_source> s[2]; std::optional<stop_token> t[2]; std::unique_ptr<stop_callback> cb[2]; int sOf[2] = { -1, -1 }, tOf[2] = { -1, -1 }, cOf[2] = { -1, -1 }; int hits[2] = {}, want[2] = {}; bool live[2] = {}; int made = 0;
	int depth = mc::thorough() ? 7 : 6;
	auto dropS = [&](int i) { s[i].reset(); if (sOf[i] >= 0) st[sOf[i]].src--; sOf[i] = -1; };
	for (int k = 0; k < depth; k++) {
		int op = mc::choose(10, "op"), i = mc::choose(2, "slot"), j = 1 - i;
		switch (op) {
		case 0: if (made >= 2) { mc_prune_(); } dropS(i); s[i].emplace(); sOf[i] = made++; st[sOf[i]].src++; break;
		case 1: if (!s[j]) mc_prune_(); if (s[i]) { *s[i] = *s[j]; if (sOf[i] >= 0) st[sOf[i]].src--; } else s[i].emplace(*s[j]); sOf[i] = sOf[j]; if (sOf[i] >= 0) st[sOf[i]].src++; break;
		case 2: if (!s[j]) mc_prune_(); if (s[i]) { *s[i] = std::move(*s[j]); if (sOf[i] >= 0) st[sOf[i]].src--; } else s[i].emplace(std::move(*s[j])); sOf[i] = sOf[j]; sOf[j] = -1; break;
		case 3: if (!s[i]) mc_prune_(); dropS(i); break;
		case 4: if (!s[j]) mc_prune_(); t[i].emplace(s[j]->get_token()); tOf[i] = sOf[j]; break;
		case 5: if (!t[j]) mc_prune_(); if (t[i]) *t[i] = *t[j]; else t[i].emplace(*t[j]); tOf[i] = tOf[j]; break;
		case 6: if (!t[j]) mc_prune_(); if (t[i]) { swap(*t[i], *t[j]); std::swap(tOf[i], tOf[j]); } else { t[i].emplace(std::move(*t[j])); tOf[i] = tOf[j]; tOf[j] = -1; } break;
		case 7: if (cb[i] || !t[j]) mc_prune_(); hits[i] = want[i] = 0; cOf[i] = tOf[j]; live[i] = false; if (cOf[i] >= 0) { if (st[cOf[i]].req) want[i] = 1; else live[i] = st[cOf[i]].src > 0; } cb[i] = std::make_unique<stop_callback>(*t[j], [&hits, i] { hits[i]++; }); break;
		case 8: if (!cb[i]) mc_prune_(); cb[i].reset(); live[i] = false; break;
		case 9: if (!s[i]) mc_prune_(); if (sOf[i] >= 0 && !st[sOf[i]].req) { st[sOf[i]].req = true; for (int q = 0; q < 2; q++) if (live[q] && cOf[q] == sOf[i]) { want[q] = 1; live[q] = false; } } s[i]->request_stop(); break;
		}
		for (int q = 0; q < 2; q++) {
			MC_REQUIRE(hits[q] == want[q], "callbacks run exactly when stop is requested first");
			if (s[q]) { MC_REQUIRE(s[q]->stop_requested() == (sOf[q] >= 0 && st[sOf[q]].req), "source query"); MC_REQUIRE(s[q]->stop_possible() == (sOf[q] >= 0), "source stop_possible"); }
			if (t[q]) { bool rq = tOf[q] >= 0 && st[tOf[q]].req; MC_REQUIRE(t[q]->stop_requested() == rq, "token query"); MC_REQUIRE(t[q]->stop_possible() == (rq || (tOf[q] >= 0 && st[tOf[q]].src > 0)), "token stop_possible"); int th = 0; try { t[q]->throw_if_stop_requested(); } catch (...) { th = 1; } MC_REQUIRE(th == (int)rq, "throw_if_stop_requested"); }
		}
	}
}
// many callbacks, registered, dropped in some order and registered again
MC_SCENARIO("C10.many", S().cas(0, 0).lim(60000)) {
	mc_hw_(1 + mc::choose(3, "lists") * 7); static const int ns[] = { 15, 16, 17, 31, 32, 33, 48, 49, 64, 65, 112, 113, 240 }; int n = ns[mc::choose(13, "callbacks")], order = mc::choose(4, "order"), drop = mc::choose(4, "dropped"), again = mc::choose(3, "again"); bool copies = mc::flip("sources");
	auto s = std::make_unique<stop_source>(); std::vector<std::unique_ptr<stop_callback>> cb; std::vector<int> hits(2 * n, 0); std::vector<stop_source> more; if (copies) for (int i = 0; i < n; i++) more.push_back(*s);
	for (int i = 0; i < n; i++) cb.push_back(std::make_unique<stop_callback>(s->get_token(), [&hits, i] { hits[i]++; }));
	int dropped = drop == 0 ? 0 : drop == 1 ? n / 3 : drop == 2 ? n - 1 : n; for (int k = 0; k < dropped; k++) cb[nth(order, k, n)].reset();
	int more2 = again == 0 ? 0 : again == 1 ? dropped : n; for (int i = 0; i < more2; i++) cb.push_back(std::make_unique<stop_callback>(s->get_token(), [&hits, n, i] { hits[n + i]++; }));
	stop_token t = s->get_token(); if (copies) { s.reset(); stop_source last = more[n - 1]; more.clear(); MC_REQUIRE(t.stop_possible(), "a source is left"); last.request_stop(); } else s->request_stop();
	for (int i = 0; i < n + more2; i++) MC_REQUIRE(hits[i] == (cb[i] ? 1 : 0), "exactly the registered callbacks run, once"); MC_REQUIRE(t.stop_requested(), "reported");
}
