// Model-checker API used by the harnesses (instrumented code).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <functional>

extern "C" {
int  mc_choose_(int n, const char* what);      // enumerated data choice 0..n-1
void mc_fail_(const char* kind, const char* msg);
void mc_outcome_(const char* s);               // label this execution's outcome (appended)
void mc_gate_set_(void*);  // set a gate (release)
void mc_gate_wait_(void*); // block until the gate is set (acquire)
int  mc_gate_isset_(void*);
void mc_point_(void);                          // extra scheduling point
void mc_time_mark_(long long ns_from_start);   // a moment the virtual clock may jump to
long long mc_now_(void);                       // virtual time (ns), no scheduling point
int  mc_tid_(void);                            // model thread id
long mc_ghost_get_(int i);
 void mc_oom_(long); long mc_oom_hits_();
void mc_ghost_set_(int i, long v);
long mc_ghost_add_(int i, long v);             // returns new value
void mc_note_(const char* s);                  // goes to the replay trace
void mc_prune_(void);                          // abandon this execution (assumption not met)
long mc_live_blocks_(void);
int  mc_param_(void);
int  mc_thorough_(void);
int  mc_replaying_(void);
void mc_hw_(unsigned n);                        // value of std::thread::hardware_concurrency (2 at start)
void mc_hb_release_(void* key);                // ghost happens-before edge (no scheduling point)
void mc_hb_acquire_(void* key);
}

namespace mc {
// ---- scenario registration -------------------------------------------------
#ifndef MC_CAS
#define MC_CAS 1
#endif
struct Opts {
	char mode = 'P';          // 'P' preemption bounded, 'D' dpor (unbounded), 'S' sequential
	int pre_q = 2, pre_t = 3; // preemption bound quick / thorough
	int stale_q = 0, stale_t = 0; // stale-read budget (weak memory)
	int spur_q = 0, spur_t = 0;   // spurious wake-up budget
	int cas_q = MC_CAS, cas_t = MC_CAS; // budget of spurious failures of weak compare-exchanges
	int time_q = 0, time_t = 0;   // early clock-advance budget
	int steps = 4000;         // visible-step limit per execution (livelock)
	int shards = 1;           // parallel shards of one scenario (modes P,S)
	int tier = 0;             // 0: both, 1: thorough only
	int param = 0;
	const char* note = "";
	Opts& P(int q,int t){mode='P';pre_q=q;pre_t=t;return *this;}
	Opts& D(){mode='D';return *this;}
	Opts& S(){mode='S';pre_q=pre_t=0;return *this;}
	Opts& weak(int q,int t){stale_q=q;stale_t=t;return *this;}
	Opts& spur(int q,int t){spur_q=q;spur_t=t;return *this;}
	Opts& cas(int q,int t){cas_q=q;cas_t=t;return *this;}
	Opts& timeb(int q,int t){time_q=q;time_t=t;return *this;}
	Opts& sh(int n){shards=n;return *this;}
	Opts& lim(int n){steps=n;return *this;}
	Opts& thorough_only(){tier=1;return *this;}
	Opts& p(int n){param=n;return *this;}
};
using Fn = void(*)();
struct Scenario { const char* name; Opts o; Fn fn; Scenario* next; };
void add_scenario(const char* name, const Opts& o, Fn fn);
struct Reg { Reg(const char* n, const Opts& o, Fn f){ add_scenario(n,o,f);} };

inline int choose(int n, const char* what=""){ return n<=1?0:mc_choose_(n,what); }
inline bool flip(const char* what=""){ return choose(2,what)!=0; }
inline void fail(const char* kind, const std::string& m){ mc_fail_(kind,m.c_str()); }
inline void check(bool c, const char* msg){ if(!c) mc_fail_("property",msg); }
inline void outcome(const char* s){ mc_outcome_(s); }
inline void outcome(const std::string& s){ mc_outcome_(s.c_str()); }
inline void outcome(long v){ char b[32]; snprintf(b,sizeof b,"%ld ",v); mc_outcome_(b); }
inline void point(){ mc_point_(); }
// the k-th allocation or thread creation from now on fails (0: none); oomHit: it did
inline void oom(long k){ mc_oom_(k); } inline bool oomHit(){ return mc_oom_hits_()!=0; }
inline long gget(int i){ return mc_ghost_get_(i);} 
inline void gset(int i,long v){ mc_ghost_set_(i,v);} 
inline long gadd(int i,long v=1){ return mc_ghost_add_(i,v);} 
// a one-shot gate with happens-before, costs one visible operation per wait
struct Gate { char c=0; void set(){ mc_gate_set_(this);} void wait(){ mc_gate_wait_(this);} bool isSet(){ return mc_gate_isset_(this)!=0; }
	Gate()=default; Gate(const Gate&)=delete; };
inline int tid(){ return mc_tid_(); }
inline int param(){ return mc_param_(); }
inline bool thorough(){ return mc_thorough_()!=0; }
}
#define MC_CAT2(a,b) a##b
#define MC_CAT1(a,b) MC_CAT2(a,b)
#define MC_SCENARIO(NAME, OPTS) \
	static void MC_CAT1(mc_scn_,__LINE__)(); \
	static mc::Reg MC_CAT1(mc_reg_,__LINE__)(NAME, mc::Opts{}.OPTS, &MC_CAT1(mc_scn_,__LINE__)); \
	static void MC_CAT1(mc_scn_,__LINE__)()
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
// checked condition; the text becomes part of the violation's signature
#define MC_CHECK(c) do{ if(!(c)) mc_fail_("property", #c " at line " MC_STR(__LINE__)); }while(0)
#define MC_REQUIRE(c,msg) do{ if(!(c)) mc_fail_("property", msg); }while(0)
