// Programs with known verdicts, used to validate the model checker itself.
#include "mc.h"
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <memory>
#include <coroutine>
using namespace std;
// --- must hold
MC_SCENARIO("ok.mutex", P(2,3)) { int x=0; mutex m; auto f=[&]{ lock_guard<mutex> l(m); x++; }; thread a(f),b(f); a.join(); b.join(); MC_CHECK(x==2); }
MC_SCENARIO("ok.mutexD", D()) { int x=0; mutex m; auto f=[&]{ for(int i=0;i<2;i++){lock_guard<mutex> l(m); x++;} }; thread a(f),b(f); a.join(); b.join(); MC_CHECK(x==4); }
MC_SCENARIO("ok.mp", P(2,3).weak(2,3)) { int d=0; atomic<int> f{0}; thread a([&]{ d=1; f.store(1,memory_order_release);}); thread b([&]{ if(f.load(memory_order_acquire)) { MC_CHECK(d==1); mc::outcome("seen"); } else mc::outcome("no"); }); a.join(); b.join(); }
MC_SCENARIO("ok.sb_sc", P(2,3).weak(2,3)) { atomic<int> x{0},y{0}; int r1,r2; thread a([&]{ x.store(1); r1=y.load();}); thread b([&]{ y.store(1); r2=x.load();}); a.join(); b.join(); mc::outcome(r1*2+r2); MC_CHECK(r1||r2); }
MC_SCENARIO("ok.cv", P(3,3).spur(1,1)) { mutex m; condition_variable c; bool f=false; thread a([&]{ unique_lock<mutex> l(m); c.wait(l,[&]{return f;}); }); { lock_guard<mutex> l(m); f=true; c.notify_one(); } a.join(); }
MC_SCENARIO("ok.cvD", D()) { mutex m; condition_variable c; bool f=false; thread a([&]{ unique_lock<mutex> l(m); c.wait(l,[&]{return f;}); }); { lock_guard<mutex> l(m); f=true; c.notify_one(); } a.join(); }
MC_SCENARIO("ok.exc", P(2,3)) { exception_ptr p; mutex m; thread a([&]{ try{ throw runtime_error("x"); }catch(...){ lock_guard<mutex> l(m); p=current_exception(); } }); a.join(); try { rethrow_exception(p);} catch(runtime_error&e){ mc::outcome(e.what()); } }
MC_SCENARIO("ok.shared", D()) { auto p=make_shared<int>(1); thread a([p]{ (void)*p; }); thread b([p]{ (void)*p; }); p.reset(); a.join(); b.join(); }
MC_SCENARIO("ok.rmw3D", D()) { atomic<int> x{0}; auto f=[&]{ x.fetch_add(1); x.fetch_add(1);}; thread a(f),b(f),c(f); a.join();b.join();c.join(); MC_CHECK(x==6); mc::outcome("o"); }
MC_SCENARIO("ok.rmw3P", P(99,99)) { atomic<int> x{0}; auto f=[&]{ x.fetch_add(1); x.fetch_add(1);}; thread a(f),b(f),c(f); a.join();b.join();c.join(); MC_CHECK(x==6); mc::outcome("o"); }
MC_SCENARIO("ok.rmwOrderD", D()) { atomic<int> x{0}; int r[3]; auto f=[&](int i){ r[i]=x.fetch_add(1);}; thread a(f,0),b(f,1),c(f,2); a.join();b.join();c.join(); for(int i:r) mc::outcome(i); }
MC_SCENARIO("ok.indepD", D()) { atomic<int> x{0},y{0},z{0}; thread a([&]{x=1;x=2;}),b([&]{y=1;y=2;}),c([&]{z=1;z=2;}); a.join();b.join();c.join(); }
MC_SCENARIO("ok.rwD", D()) { atomic<int> x{0},y{0}; int r1,r2; thread a([&]{ x.store(1); r1=y.load();}); thread b([&]{ y.store(1); r2=x.load();}); a.join(); b.join(); mc::outcome(r1); mc::outcome(r2); }
MC_SCENARIO("ok.rwP", P(99,99)) { atomic<int> x{0},y{0}; int r1,r2; thread a([&]{ x.store(1); r1=y.load();}); thread b([&]{ y.store(1); r2=x.load();}); a.join(); b.join(); mc::outcome(r1); mc::outcome(r2); }
MC_SCENARIO("ok.readers3D", D()) { atomic<int> x{0}; int r[2]; thread a([&]{ r[0]=x.load()*10+x.load();}),b([&]{r[1]=x.load()*10+x.load();}),c([&]{x=1;x=2;}); a.join();b.join();c.join(); for(int i:r) mc::outcome(i); }
MC_SCENARIO("ok.readers3P", P(99,99)) { atomic<int> x{0}; int r[2]; thread a([&]{ r[0]=x.load()*10+x.load();}),b([&]{r[1]=x.load()*10+x.load();}),c([&]{x=1;x=2;}); a.join();b.join();c.join(); for(int i:r) mc::outcome(i); }
MC_SCENARIO("ok.lockOrdD", D()) { mutex m; string s; auto f=[&](char c){ for(int i=0;i<2;i++){ lock_guard<mutex> l(m); s+=c; } }; thread a(f,'a'),b(f,'b'); a.join(); b.join(); mc::outcome(s); }
MC_SCENARIO("ok.lockOrdP", P(99,99)) { mutex m; string s; auto f=[&](char c){ for(int i=0;i<2;i++){ lock_guard<mutex> l(m); s+=c; } }; thread a(f,'a'),b(f,'b'); a.join(); b.join(); mc::outcome(s); }
MC_SCENARIO("ok.timer", P(2,2).timeb(1,1)) { mutex m; condition_variable c; unique_lock<mutex> l(m); auto t0=chrono::steady_clock::now(); auto r=c.wait_for(l,10ms); MC_CHECK(r==cv_status::timeout); MC_CHECK(chrono::steady_clock::now()-t0>=10ms); }
MC_SCENARIO("ok.choose", S()) { int a=mc::choose(3),b=mc::choose(4); mc::outcome(a*10+b); }
MC_SCENARIO("ok.spinyield", P(2,2)) { atomic<int> f{0}; thread a([&]{ while(!f.load()) this_thread::yield(); }); f=1; a.join(); }
// --- must be reported
MC_SCENARIO("bad.race", P(2,3)) { int x=0; auto f=[&]{ x++; }; thread a(f),b(f); a.join(); b.join(); }
MC_SCENARIO("bad.mp_relaxed", P(2,3)) { int d=0; atomic<int> f{0}; thread a([&]{ d=1; f.store(1,memory_order_relaxed);}); thread b([&]{ if(f.load(memory_order_acquire)) MC_CHECK(d==1); }); a.join(); b.join(); }
MC_SCENARIO("bad.sb_rel", P(2,3).weak(2,3)) { atomic<int> x{0},y{0}; int r1,r2; thread a([&]{ x.store(1,memory_order_release); r1=y.load(memory_order_acquire);}); thread b([&]{ y.store(1,memory_order_release); r2=x.load(memory_order_acquire);}); a.join(); b.join(); MC_CHECK(r1||r2); }
MC_SCENARIO("bad.lost", D()) { atomic<int> x{0}; auto f=[&]{ int v=x.load(); x.store(v+1);}; thread a(f),b(f); a.join(); b.join(); MC_CHECK(x==2); }
MC_SCENARIO("bad.lostwake", D()) { mutex m; condition_variable c; atomic<bool> f{false}; thread a([&]{ unique_lock<mutex> l(m); if(!f) c.wait(l); }); f=true; c.notify_one(); a.join(); }
MC_SCENARIO("bad.deadlock", D()) { mutex m,n; thread a([&]{ lock_guard<mutex> x(m); lock_guard<mutex> y(n);}); { lock_guard<mutex> y(n); lock_guard<mutex> x(m);} a.join(); }
MC_SCENARIO("bad.uaf", P(1,1)) { int*p=new int(1); atomic<int> f{0}; thread a([&]{ f=1; *p=2; }); if(f) { delete p; a.join(); } else { a.join(); delete p; } }
MC_SCENARIO("bad.leak", P(1,1)) { auto*p=new int(1); asm volatile(""::"r"(p):"memory"); }
MC_SCENARIO("bad.dfree", P(1,1)) { auto*p=new int(1); delete p; asm volatile("":"+r"(p)); delete p; }
MC_SCENARIO("bad.term", P(1,1)) { thread a([]{ throw runtime_error("boom"); }); a.join(); }
MC_SCENARIO("bad.null", P(1,1)) { int*p=nullptr; asm volatile("":"+r"(p)); *p=1; }
MC_SCENARIO("bad.abba3", D()) { atomic<int> x{0},y{0}; thread a([&]{ x=1; if(y==0) x=2; }), b([&]{ y=1; if(x==1) y=2; }); a.join(); b.join(); MC_CHECK(!(x==1&&y==2)||true); MC_CHECK(!(x==2&&y==2)); }
// --- less common primitives
#include <shared_mutex>
#include <semaphore>
#include <latch>
MC_SCENARIO("ok.atomic_waitP", P(2,2)) { std::atomic<int> a{0}; int d = 0; std::thread t([&] { d = 5; a.store(1, std::memory_order_release); a.notify_one(); }); a.wait(0, std::memory_order_acquire); MC_REQUIRE(d == 5, "data"); t.join(); mc::outcome(d); }
MC_SCENARIO("ok.atomic_wait2", P(2,2)) { std::atomic<int> a{0}; int n = 0; std::thread t([&] { a.wait(0); mc::gadd(0); }), u([&] { a.wait(0); mc::gadd(0); }); a = 1; a.notify_all(); t.join(); u.join(); MC_REQUIRE(mc::gget(0) == 2, "both"); (void)n; }
MC_SCENARIO("bad.atomic_wait_no_notify", P(2,2)) { std::atomic<int> a{0}; std::thread t([&] { a.store(1); }); a.wait(0); t.join(); }
MC_SCENARIO("bad.atomic_wait_race", P(2,2)) { std::atomic<int> a{0}; int d = 0; std::thread t([&] { d = 5; a.store(1, std::memory_order_relaxed); a.notify_one(); }); a.wait(0, std::memory_order_relaxed); mc::gset(0, d); t.join(); }
MC_SCENARIO("ok.atomic_flag_wait", P(2,2)) { std::atomic_flag f; int d = 0; std::thread t([&] { d = 1; f.test_and_set(); f.notify_all(); }); f.wait(false); MC_REQUIRE(d == 1, "data"); t.join(); }
MC_SCENARIO("ok.semaphore", P(2,2)) { std::binary_semaphore s{0}; int d = 0; std::thread t([&] { d = 1; s.release(); }); s.acquire(); MC_REQUIRE(d == 1, "data"); t.join(); }
MC_SCENARIO("ok.latch", P(1,2)) { std::latch l{2}; int a = 0, b = 0; std::thread t([&] { a = 1; l.count_down(); }), u([&] { b = 1; l.count_down(); }); l.wait(); MC_REQUIRE(a && b, "data"); t.join(); u.join(); }
MC_SCENARIO("bad.atomic_wait_noneD", D()) { std::atomic<int> a{0}; std::thread t([&] { a.store(1); }); a.wait(0); t.join(); }
MC_SCENARIO("ok.sleep", P(2,2)) { auto b = std::chrono::steady_clock::now(); std::thread t([] { std::this_thread::sleep_for(std::chrono::seconds(2)); }); std::this_thread::sleep_for(std::chrono::seconds(1)); MC_REQUIRE(std::chrono::steady_clock::now() - b >= std::chrono::seconds(1), "slept"); t.join(); MC_REQUIRE(std::chrono::steady_clock::now() - b >= std::chrono::seconds(2), "slept"); }
MC_SCENARIO("ok.recursive", P(2,2)) { std::recursive_mutex m; int d = 0; auto f = [&] { std::lock_guard<std::recursive_mutex> a(m), b(m); d++; }; std::thread t(f); f(); t.join(); MC_REQUIRE(d == 2, "both"); }
MC_SCENARIO("ok.rwlock", P(2,2)) { std::shared_mutex m; int d = 0; std::thread t([&] { std::unique_lock<std::shared_mutex> l(m); d = 1; d = 2; }), u([&] { std::shared_lock<std::shared_mutex> l(m); MC_REQUIRE(d != 1, "no torn read"); }); { std::shared_lock<std::shared_mutex> l(m); MC_REQUIRE(d != 1, "no torn read"); } t.join(); u.join(); }
MC_SCENARIO("bad.rwlock_write_shared", P(2,2)) { std::shared_mutex m; int d = 0; auto f = [&] { std::shared_lock<std::shared_mutex> l(m); d++; }; std::thread t(f); f(); t.join(); }
MC_SCENARIO("ok.once", P(2,2)) { std::once_flag o; int d = 0; auto f = [&] { std::call_once(o, [&] { d++; mc::point(); }); MC_REQUIRE(d == 1, "once"); }; std::thread t(f); f(); t.join(); }
MC_SCENARIO("ok.once_throws", P(2,2)) { std::once_flag o; int n = 0; auto f = [&] { try { std::call_once(o, [&] { if (n++ == 0) throw 1; }); } catch (int) {} }; std::thread t(f); f(); t.join(); MC_REQUIRE(n == 2 || n == 1, "retried"); std::call_once(o, [&] { n = 9; }); MC_REQUIRE(n < 9, "done"); }
struct Slow { int v; int* heap; Slow() { mc::point(); v = 7; heap = new int(3); } ~Slow() { delete heap; } };
static Slow& slow() { static Slow s; return s; }
MC_SCENARIO("ok.local_static", P(2,2)) { std::thread t([] { MC_REQUIRE(slow().v == 7 && *slow().heap == 3, "initialised"); }); MC_REQUIRE(slow().v == 7, "initialised"); t.join(); }
static int counter; static std::atomic<int> acounter{3};
MC_SCENARIO("ok.globals_resetP", P(2,2)) { MC_REQUIRE(counter == 0 && acounter == 3, "every execution starts afresh"); std::thread t([] { acounter++; }); acounter++; t.join(); counter = acounter; mc::outcome(counter); }
MC_SCENARIO("ok.globals_resetD", D()) { MC_REQUIRE(counter == 0 && acounter == 3, "every execution starts afresh"); std::thread t([] { acounter++; }); acounter++; t.join(); counter = acounter; mc::outcome(counter); }
// --- compare-exchange
MC_SCENARIO("ok.cas_weak_loop", D().cas(1,1)) { std::atomic<int> x{0}; auto f = [&] { int v = x.load(); while (!x.compare_exchange_weak(v, v + 1)); }; std::thread t(f); f(); t.join(); MC_REQUIRE(x == 2, "both"); }
MC_SCENARIO("bad.cas_weak_once", D().cas(1,1)) { std::atomic<int> x{0}; int v = 0; MC_REQUIRE(x.compare_exchange_weak(v, 1), "a weak compare-exchange may fail"); }
MC_SCENARIO("bad.cas_weak_onceP", P(1,1).cas(1,1)) { std::atomic<int> x{0}; int v = 0; MC_REQUIRE(x.compare_exchange_weak(v, 1), "a weak compare-exchange may fail"); }
MC_SCENARIO("ok.cas_strong_once", D().cas(1,1)) { std::atomic<int> x{0}; int v = 0; MC_REQUIRE(x.compare_exchange_strong(v, 1), "alone"); }
MC_SCENARIO("bad.cas_strong_stale_fail", P(2,2).weak(1,1)) { std::atomic<int> x{0}, y{0}; std::thread t([&] { x.store(1, std::memory_order_relaxed); y.store(1, std::memory_order_relaxed); }); if (y.load(std::memory_order_relaxed)) { int v = 1; MC_REQUIRE(x.compare_exchange_strong(v, 2), "may fail on the older value"); } t.join(); }
MC_SCENARIO("ok.cas_strong_acquired", P(2,2).weak(2,2)) { std::atomic<int> x{0}, y{0}; std::thread t([&] { x.store(1, std::memory_order_relaxed); y.store(1, std::memory_order_release); }); if (y.load(std::memory_order_acquire)) { int v = 1; MC_REQUIRE(x.compare_exchange_strong(v, 2), "the older value is gone"); } t.join(); }
// --- a loop that neither steps nor touches memory is reported by the CPU-time watchdog
MC_SCENARIO("bad.spin_in_registers", D()) { int go = mc::choose(2, "spin"); if (go) for (;;) asm volatile(""); }
