// mcrt: a stateless model-checking runtime for C++20 code instrumented by
// `g++ -fsanitize=thread` (this file replaces libtsan; it is NOT instrumented).
//
// Model threads are fibers on one OS thread. Every atomic/mutex/condvar/thread
// operation of instrumented code arrives here and is a scheduling point; the
// explorer enumerates scheduling decisions and data choices depth first.
#include "mc.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <exception>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <mutex>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t,size_t);
void* __real_realloc(void*,size_t); int __real_clock_gettime(clockid_t, struct timespec*);
void* __real_memcpy(void*,const void*,size_t); void* __real_memmove(void*,const void*,size_t);
void* __real_memset(void*,int,size_t);
long __real_syscall(long,...); int __real___cxa_atexit(void(*)(void*),void*,void*);
void __real_abort() __attribute__((noreturn));
void __real__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void*);
void __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void*);
extern char __libc_single_threaded;
}

extern "C" char mc_data_begin_[], mc_data_end_[], mc_bss_begin_[], mc_bss_end_[]; // the data of the code under test (mc/mark*.s), put back before every execution
// ---------------------------------------------------------------- constants
enum { MAXT = 10, TIMEOPT = 14, MAXNODE = 60000, MAXLOC = 192, NMSG = 8 };
static const size_t STACKSZ = 512*1024;
static const size_t ARENA_PER = 4u<<20;
static char* const ARENA = (char*)0x100000000000ULL;
static char* const STACKS = (char*)0x110000000000ULL;

enum OpKind : u8 { O_NONE, O_START, O_LOAD, O_STORE, O_RMW, O_LOCK, O_TRYLOCK, O_UNLOCK, O_CWAIT, O_CBLOCK,
	O_NOTIFY1, O_NOTIFYALL, O_CREATE, O_JOIN, O_YIELD, O_TIME, O_POINT, O_FENCE, O_EXIT, O_TIMEADV, O_GATESET, O_GATEWAIT };
static const char* opname[] = {"none","start","load","store","rmw","lock","trylock","unlock","cond_wait","cond_block",
	"notify_one","notify_all","create","join","yield","clock","point","fence","exit","time-advance","gate_set","gate_wait"};

struct Op { u8 kind; u8 size; u64 addr; u64 addr2; u32 pc; };

struct VC { u32 c[MAXT]; };
static inline void vjoin(VC& a, const VC& b){ for(int i=0;i<MAXT;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }

struct View { u16 v[MAXLOC]; };

struct Fiber {
	bool used, finished, detached, joined, yielded, signaled, timedwait, timedout, uncaughtEntry;
	void* sp; char* stk;
	Op op;
	void*(*fn)(void*); void* arg; void* ret;
	VC vc, acqf, relf; bool hasRelf;
	View view, acqv, relv;
	VC dep;            // dependence clock (DPOR)
	int immortal;      // initialising a local static
	u16 low, seen; bool everYield; // fairness of yield loops (mode P)
	u64 cv, mtx; long long deadline; u32 waitseq;
	int waitJoin;
	struct { void(*fn)(void*); void* obj; } dtors[16]; int ndtors;
};
static Fiber F[MAXT];
static int NF, cur = -1;
static void* supSp;
static char* tlsBase; static size_t tlsSize, tlsInit; static const void* tlsImg;
static char tlsSave[MAXT][4096];

// ---------------------------------------------------------------- shared results
struct Node {
	u8 kind;          // 0 thread, 1 data
	u8 n, chosen;     // P: index into opt[]; data: 0..n-1 ; D thread: chosen = tid
	u8 def;           // (unused)
	u16 enabled, backtrack, done, sleep, rsleep;
	u8 opt[MAXT+2];
	u8 sub;           // data sub kind: 0 user, 1 stale read
};
struct Shared {
	volatile u64 execs, steps, nodes, pruned, plain;
	volatile int depthNow; volatile int finishedFlag;
	volatile int complete;        // exploration complete
	volatile int curBound; volatile int boundDone;       // highest preemption bound completed
	volatile u64 maxdepth, maxsteps;
	volatile u64 noutcomes;
	char outcomes[24][96]; int nsamp;
	volatile int failed;          // 1 violation, 2 internal error
	char kind[64]; char msg[2048];
	u32 pcs[48]; int npcs; char pcl[48][24];
	int nchoice; u8 choice[MAXNODE];
	volatile u64 stale, spur, timeadv, preempts;
	u64 ohash[8192]; u64 ocount[8192];
	char firstTrace[256];
};
static Shared* SH;
static Node* ND; static int nNodes, pos;
static u8 replayChoice[MAXNODE]; static int nReplay=-1;
static FILE* traceF;
static bool inModel; static int rtDepth;

static const mc::Scenario* scn; static bool thoroughRun; static mc::Scenario* scnHead; static mc::Scenario* scnTail;
static int preBound, staleBound, spurBound, casBound, timeBound, shardIdx, shardCnt;
static int preUsed, staleUsed, spurUsed, timeUsed, wcasUsed, steps; static u64 plainCnt; static bool deviated;
static char outBuf[256]; static int outLen;
static bool pruneFlag;
static long long now_;
static long long marks[64]; static int nMarks;
static long ghost_[4096]; static int ghostMax; static unsigned mcHw=2;
static u32 waitSeq;
static char mode;

static void die(const char* m){ fprintf(stderr,"mcrt internal: %s\n",m); _exit(99); }
static void rep(const char* kind, const char* fmt, ...) __attribute__((noreturn,format(printf,2,3)));
static void endExecution() __attribute__((noreturn));

// ---------------------------------------------------------------- fiber switch
extern "C" void mc_switch_(void** save, void* load);
asm(R"(
.text
.globl mc_switch_
.type mc_switch_,@function
mc_switch_:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch_,.-mc_switch_
)");
static void tlsSwap(int from,int to){
	if(from>=0) __real_memcpy(tlsSave[from],tlsBase,tlsSize);
	if(to>=0) __real_memcpy(tlsBase,tlsSave[to],tlsSize);
}
static char supTls[4096];

// ---------------------------------------------------------------- pcs for reports
static void addPc(const char* label,u32 pc){ if(SH->npcs<48){ SH->pcs[SH->npcs]=pc; snprintf(SH->pcl[SH->npcs],24,"%s",label); SH->npcs++; } }
struct FrameP { FrameP* up; u64 ret; };
static int backtrace_(u32* out,int max,void* fp){
	int n=0; char* f=(char*)fp;
	char* lo= cur>=0? F[cur].stk : nullptr; char* hi= cur>=0? F[cur].stk+STACKSZ : nullptr;
	while(n<max && f>=lo && f+16<=hi && ((u64)f&7)==0){
		FrameP* p=(FrameP*)f; if(p->ret<0x1000||p->ret>0xffffffffULL) break;
		out[n++]=(u32)p->ret; if((char*)p->up<=f) break; f=(char*)p->up;
	}
	return n;
}
static void saveChoices(){
	if(nReplay>=0) return;
	SH->nchoice=pos; for(int i=0;i<pos;i++) SH->choice[i]=ND[i].chosen;
}
static void rep(const char* kind,const char* fmt,...){
	rtDepth++;
	va_list a; va_start(a,fmt); vsnprintf(SH->msg,sizeof SH->msg,fmt,a); va_end(a);
	snprintf(SH->kind,sizeof SH->kind,"%s",kind);
	u32 bt[16]; int n=backtrace_(bt,14,__builtin_frame_address(0));
	for(int i=0;i<n;i++){ char l[24]; snprintf(l,24,"T%d #%d",cur,i); addPc(l,bt[i]); }
	saveChoices(); SH->failed=1;
	if(traceF){ fprintf(traceF,"!! %s: %s\n",kind,SH->msg); fflush(traceF);}	
	_exit(7);
}

// ---------------------------------------------------------------- shadow memory
enum { R_W=1, R_A=2 };
struct Rec { u32 clk; u32 pc; u8 tid, mask, fl; };
struct Cell { u64 key; u32 gen; u8 n; u8 atom; Rec r[10]; };
enum { NCELL = 1<<17 };
static Cell* cells; static u32 gen_=1; static u32 cellsUsed;
static u8* heapState;  // per arena byte: 0 invalid,1 live,2 freed
static size_t arenaUsed[MAXT], arenaUsedMax[MAXT];
struct Block { u64 addr; u32 size; u8 state; u8 tid; bool immortal; u32 pcs[6]; u32 fpcs[4]; u8 ftid; };
enum { MAXBLK = 1<<14 };
static Block* blocks[MAXT]; static int nBlk[MAXT]; static long liveBlocks;

static Cell* cellGet(u64 w, bool create){
	u32 h=(u32)((w*0x9E3779B97F4A7C15ULL)>>40)&(NCELL-1);
	for(;;){ Cell& c=cells[h];
		if(c.gen!=gen_){ if(!create) return nullptr; if(++cellsUsed>NCELL/8*7) die("shadow table full"); c.gen=gen_; c.key=w; c.n=0; c.atom=0; return &c; }
		if(c.key==w) return &c;
		h=(h+1)&(NCELL-1);
	}
}
static Block* blockOf(u64 a){
	if(a<(u64)ARENA||a>=(u64)ARENA+MAXT*ARENA_PER) return nullptr;
	int t=(a-(u64)ARENA)/ARENA_PER; int lo=0,hi=nBlk[t]-1,best=-1;
	while(lo<=hi){ int m=(lo+hi)/2; if(blocks[t][m].addr<=a){best=m;lo=m+1;} else hi=m-1; }
	return best<0?nullptr:&blocks[t][best];
}
static void checkValid(u64 a,int sz,bool w,const char* what,u32 pc){
	if(a<4096+0ULL) { addPc("access",pc); rep("null","%s of %d bytes at address 0x%lx",what,sz,(long)a); }
	if(a>=(u64)ARENA && a<(u64)ARENA+MAXT*ARENA_PER){
		u64 o=a-(u64)ARENA; u8 s=heapState[o], e=heapState[o+sz-1];
		if(s!=1||e!=1){
			Block* b=blockOf(a); addPc("access",pc);
			if(s==2||e==2){ if(b){ addPc("freed at",b->fpcs[0]); addPc("freed at 1",b->fpcs[1]); addPc("freed at 2",b->fpcs[2]); for(int i=0;i<5;i++) addPc("alloc",b->pcs[i]); }
				rep("use-after-free","T%d: %s of %d bytes, offset %ld in a %u-byte block freed by T%d",cur,what,sz,b?(long)(a-b->addr):0,b?b->size:0,b?b->ftid:-1); }
			if(b) for(int i=0;i<5;i++) addPc("alloc",b->pcs[i]);
			rep("heap-overflow","T%d: %s of %d bytes, offset %ld near a %u-byte block",cur,what,sz,b?(long)(a-b->addr):0,b?b->size:0);
		}
	} else if(a>=(u64)STACKS && a<(u64)STACKS+MAXT*STACKSZ){
		int t=(a-(u64)STACKS)/STACKSZ;
		if(t!=cur && (!F[t].used || F[t].finished || a<(u64)F[t].sp)) { addPc("access",pc); rep("dead-stack","T%d: %s of %d bytes in dead stack memory of T%d",cur,what,sz,t); }
	}
}
static void raceRep(const Rec& o,u64 a,int sz,int fl,u32 pc){
	char l[24]; snprintf(l,24,"T%d this access",cur); addPc(l,pc);
	snprintf(l,24,"T%d earlier access",o.tid); addPc(l,o.pc);
	Block* b=blockOf(a); if(b) for(int i=0;i<4;i++) addPc("alloc",b->pcs[i]);
	rep("data-race","T%d %s%s of %d bytes races with T%d %s%s (%s)",cur,fl&R_A?"atomic ":"",fl&R_W?"write":"read",sz,o.tid,o.fl&R_A?"atomic ":"",o.fl&R_W?"write":"read",
		b?"heap":(a>=(u64)STACKS&&a<(u64)STACKS+MAXT*STACKSZ)?"stack":"global");
}
static void touchWord(u64 w,u8 mask,int fl,u64 a,int sz,u32 pc,bool freeing=false){
	Cell* c=cellGet(w,true); Fiber& f=F[cur];
	if(fl&R_W && !(fl&R_A) ) { if(c->atom & mask) c->atom|=0; }
	int k=0; 
	for(int i=0;i<c->n;i++){
		Rec& r=c->r[i]; bool hb = r.tid==cur || r.clk<=f.vc.c[r.tid];
		if(!hb && (r.mask&mask) && ((r.fl|fl)&R_W) && !((r.fl&fl)&R_A)) raceRep(r,a,sz,fl,pc);
		bool sub = hb && (r.mask&~mask)==0 && ((fl&R_W) || (!(r.fl&R_W))) ;
		// a plain record may be subsumed only by an equally strong (plain) one
		if(sub && (fl&R_A) && !(r.fl&R_A)) sub=false;
		if(!sub){ if(k!=i) c->r[k]=r; k++; }
	}
	c->n=k;
	if(freeing) return;
	if(c->n==10){ memmove(c->r,c->r+1,9*sizeof(Rec)); c->n=9; }
	Rec& r=c->r[c->n++]; r.clk=f.vc.c[cur]; r.pc=pc; r.tid=cur; r.mask=mask; r.fl=fl;
}
struct ALoc; static void atomStale(u64 a,int sz);
static inline void access(u64 a,int sz,int fl,u32 pc){
	if(!inModel||rtDepth) return;
	if(sz==0) return;
	if(a-(u64)tlsBase<tlsSize) return; // thread local: swapped per fiber
	if((++plainCnt & 0xfff)==0 && plainCnt>30000000) { rep("livelock","no progress after %llu plain accesses",(unsigned long long)plainCnt); }
	checkValid(a,sz,fl&R_W,fl&R_W?(fl&R_A?"atomic write":"write"):(fl&R_A?"atomic read":"read"),pc);
	if(NF==1 && !(fl&R_A) && !(fl&R_W)) { /* single fiber reads cannot race now but may later */ }
	u64 w=a>>3; int off=a&7; u64 end=a+sz;
	while(sz>0){ int n=8-off<sz?8-off:sz; u8 mask=(u8)(((1u<<n)-1)<<off); 
		touchWord(w,mask,fl,a,end-a,pc); 
		sz-=n; off=0; w++; }
	if((fl&R_W)&&!(fl&R_A)) atomStale(a,(int)(end-a));
}

// ---------------------------------------------------------------- atomics
struct Msg { u64 val; VC rel; View view; u16 idx; bool hasRel; };
struct ALoc { u64 addr; u8 size; u8 stale; u16 id; int n; u16 nextIdx; Msg m[NMSG]; };
static ALoc* alocs; static int nAlocs;
enum { NAH=65536, NALOC=32768 }; static u16 ahash[NAH]; static u32 ahgen[NAH];
static View scView;
static ALoc* alocFind(u64 a,bool create){
	u32 h=(u32)((a*0x9E3779B97F4A7C15ULL)>>48)&(NAH-1);
	for(;;){ if(ahgen[h]!=gen_){ if(!create) return nullptr; if(nAlocs>=(staleBound>0?(int)MAXLOC:(int)NALOC)) {die("too many atomic locations");} ahgen[h]=gen_; ahash[h]=nAlocs; ALoc* l=&alocs[nAlocs]; l->addr=a; l->id=nAlocs; l->n=0; l->nextIdx=0; l->stale=1; nAlocs++; return l; }
		if(alocs[ahash[h]].addr==a) return &alocs[ahash[h]];
		h=(h+1)&(NAH-1); }
}
static void atomStale(u64 a,int sz){
	if(nAlocs==0) return;
	u64 w0=a>>3,w1=(a+sz-1)>>3;
	for(u64 w=w0;w<=w1;w++){ Cell* c=cellGet(w,false); if(!c||!c->atom) continue;
		for(int b=0;b<8;b++) if(c->atom>>b&1){ u64 x=w*8+b; ALoc* l=alocFind(x,false); if(l && x+l->size>a && x<a+sz) l->stale=1; } }
}
static u64 rawLoad(u64 a,int sz){ switch(sz){case 1:return *(volatile u8*)a;case 2:return *(volatile u16*)a;case 4:return *(volatile u32*)a;default:return *(volatile u64*)a;} }
static void rawStore(u64 a,int sz,u64 v){ switch(sz){case 1:*(volatile u8*)a=v;break;case 2:*(volatile u16*)a=v;break;case 4:*(volatile u32*)a=v;break;default:*(volatile u64*)a=v;} }

static inline bool isAcq(int mo){ return mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static inline bool isRel(int mo){ return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static inline bool weak(){ return staleBound>0; }
static inline void viewJoin(View&a,const View&b){ for(int i=0;i<nAlocs;i++) if(b.v[i]>a.v[i]) a.v[i]=b.v[i]; }
static const char* moName(int mo){ switch(mo){case 0:return "relaxed";case 1:return "consume";case 2:return "acquire";case 3:return "release";case 4:return "acq_rel";default:return "seq_cst";} }

static void schedPoint(OpKind k,u64 addr,u32 pc,int size=0,u64 addr2=0);
static int chooseData(int n,int sub,const char* what);
static void trace(const char* fmt,...) __attribute__((format(printf,1,2)));
static const char* addrName(u64 a){
	static char b[4][64]; static int k; k=(k+1)&3; 
	if(a>=(u64)ARENA&&a<(u64)ARENA+MAXT*ARENA_PER){ Block* bl=blockOf(a); int t=(a-(u64)ARENA)/ARENA_PER; snprintf(b[k],64,"heap%d.%ld+%ld",t,bl?(long)(bl-blocks[t]):-1,bl?(long)(a-bl->addr):0);} 
	else if(a>=(u64)STACKS&&a<(u64)STACKS+MAXT*STACKSZ){ int t=(a-(u64)STACKS)/STACKSZ; snprintf(b[k],64,"stackT%d-%ld",t,(long)((u64)STACKS+(t+1)*STACKSZ-a)); }
	else snprintf(b[k],64,"0x%lx",(long)a);
	return b[k];
}
static void trace(const char* fmt,...){ if(!traceF) return; rtDepth++; va_list a; va_start(a,fmt); fprintf(traceF,"[%4d] T%d ",steps,cur); vfprintf(traceF,fmt,a); fputc('\n',traceF); va_end(a); rtDepth--; }

static ALoc* atomEnter(u64 a,int sz,int fl,u32 pc){
	access(a,sz,fl|R_A,pc);
	Cell* c=cellGet(a>>3,true); c->atom|=1u<<(a&7);
	ALoc* l=alocFind(a,true); l->size=sz;
	if(l->stale){ l->stale=0; l->n=1; Msg& m=l->m[0]; m.val=rawLoad(a,sz); memset(&m.rel,0,sizeof(VC)); m.hasRel=false; m.idx=++l->nextIdx; if(weak()) memset(&m.view,0,sizeof(View)); 
		// the initialising plain write precedes everything that does not race with it
		if(weak()) { for(int i=0;i<NF;i++) if(F[i].used) F[i].view.v[l->id]=m.idx; } }
	return l;
}
static void acquireMsg(Fiber& f,ALoc* l,Msg& m,int mo){
	if(weak()){ if(f.view.v[l->id]<m.idx) f.view.v[l->id]=m.idx; }
	if(m.hasRel){ if(isAcq(mo)){ vjoin(f.vc,m.rel); if(weak()) viewJoin(f.view,m.view);} else { vjoin(f.acqf,m.rel); if(weak()) viewJoin(f.acqv,m.view);} }
}
static u64 atomLoad(u64 a,int sz,int mo,u32 pc){
	if(!inModel||rtDepth) return rawLoad(a,sz);
	schedPoint(O_LOAD,a,pc,sz);
	rtDepth++; rtDepth--;
	ALoc* l=atomEnter(a,sz,0,pc); Fiber& f=F[cur];
	int pick=l->n-1;
	if(weak() && l->n>1){
		u16 lo=f.view.v[l->id]; if(mo==__ATOMIC_SEQ_CST && scView.v[l->id]>lo) lo=scView.v[l->id];
		int first=l->n-1; while(first>0 && l->m[first-1].idx>=lo) first--;
		int cnt=l->n-first;
		if(cnt>1 && staleUsed<staleBound){ int k=chooseData(cnt,1,"stale"); if(k){ staleUsed++; SH->stale++; pick=l->n-1-k; } }
	}
	Msg& m=l->m[pick]; acquireMsg(f,l,m,mo);
	if(weak()&&mo==__ATOMIC_SEQ_CST && scView.v[l->id]<m.idx) scView.v[l->id]=m.idx;
	if(traceF) trace("load  %s -> %lld (%s)%s",addrName(a),(long long)m.val,moName(mo),pick!=l->n-1?"  [STALE]":"");
	f.vc.c[cur]++;
	return m.val;
}
static void pushMsg(Fiber& f,ALoc* l,u64 v,int mo,Msg* prev){
	Msg t; memset(&t.rel,0,sizeof t.rel); t.hasRel=false; bool wk=weak(); if(wk) memset(&t.view,0,sizeof(View));
	t.val=v; t.idx=++l->nextIdx; if(wk && l->nextIdx==0xffff) die("mo overflow");
	if(wk){ f.view.v[l->id]=t.idx; }
	if(isRel(mo)){ t.rel=f.vc; t.hasRel=true; if(wk) t.view=f.view; }
	else if(f.hasRelf){ t.rel=f.relf; t.hasRel=true; if(wk) t.view=f.relv; }
	if(prev&&prev->hasRel){ vjoin(t.rel,prev->rel); t.hasRel=true; if(wk) viewJoin(t.view,prev->view); }
	if(wk){ t.view.v[l->id]=t.idx; if(mo==__ATOMIC_SEQ_CST) scView.v[l->id]=t.idx; }
	if(!wk){ l->n=1; l->m[0]=t; return; }
	if(l->n==NMSG){ __real_memmove(l->m,l->m+1,sizeof(Msg)*(NMSG-1)); l->n--; }
	l->m[l->n++]=t;
}
static void atomStore(u64 a,int sz,u64 v,int mo,u32 pc){
	if(!inModel||rtDepth){ rawStore(a,sz,v); return; }
	schedPoint(O_STORE,a,pc,sz);
	ALoc* l=atomEnter(a,sz,R_W,pc); Fiber& f=F[cur];
	pushMsg(f,l,v,mo,nullptr); rawStore(a,sz,v);
	if(traceF) trace("store %s := %lld (%s)",addrName(a),(long long)v,moName(mo));
	f.vc.c[cur]++;
}
// rmw: op 0 xchg,1 add,2 sub,3 and,4 or,5 xor,6 nand ; returns old
static u64 atomRmw(u64 a,int sz,int op,u64 v,int mo,u32 pc){
	auto comp=[&](u64 o)->u64{ switch(op){case 0:return v;case 1:return o+v;case 2:return o-v;case 3:return o&v;case 4:return o|v;case 5:return o^v;default:return ~(o&v);} };
	if(!inModel||rtDepth){ u64 o=rawLoad(a,sz); rawStore(a,sz,comp(o)); return o; }
	schedPoint(O_RMW,a,pc,sz);
	ALoc* l=atomEnter(a,sz,R_W,pc); Fiber& f=F[cur];
	Msg prev=l->m[l->n-1]; acquireMsg(f,l,prev,mo);
	u64 o=prev.val, nv=comp(o); if(sz<8) nv&=((1ULL<<(8*sz))-1);
	pushMsg(f,l,nv,mo,&prev); rawStore(a,sz,nv);
	if(traceF) trace("rmw   %s %lld -> %lld (%s)",addrName(a),(long long)o,(long long)nv,moName(mo));
	f.vc.c[cur]++; return o;
}
static bool atomCas(u64 a,int sz,u64* exp,u64 des,int mo,int fmo,u32 pc,bool weakCas=false){
	if(!inModel||rtDepth){ u64 o=rawLoad(a,sz); if(o==*exp){rawStore(a,sz,des);return true;} *exp=o; return false; }
	schedPoint(O_RMW,a,pc,sz);
	// decide first so that a failing CAS counts as a read
	u64 curv=rawLoad(a,sz); bool ok=curv==*exp;
	checkValid(a,sz,true,"compare-exchange",pc);
	// a weak compare-exchange may fail although the values are equal (within the scenario's budget)
	bool spurious=false; if(ok && weakCas && wcasUsed<casBound && chooseData(2,1,"spurious CAS failure")){ wcasUsed++; SH->spur++; ok=false; spurious=true; }
	ALoc* l=atomEnter(a,sz,0,pc); Fiber& f=F[cur];
	int pick=l->n-1;
	// a compare-exchange that fails is a plain load of its failure order, so it may fail on an older value
	if(weak() && !spurious && l->n>1 && staleUsed<staleBound){
		u16 lo=f.view.v[l->id]; if(fmo==__ATOMIC_SEQ_CST && scView.v[l->id]>lo) lo=scView.v[l->id];
		int c[NMSG],n=0; for(int i=l->n-2;i>=0 && l->m[i].idx>=lo;i--) if(l->m[i].val!=*exp) c[n++]=i;
		if(n){ int k=chooseData(n+1,1,"stale CAS"); if(k){ staleUsed++; SH->stale++; pick=c[k-1]; ok=false; } }
	}
	Msg prev=l->m[pick]; acquireMsg(f,l,prev,ok?mo:fmo);
	if(ok){ access(a,sz,R_W|R_A,pc); pushMsg(f,l,des,mo,&prev); rawStore(a,sz,des); }
	else *exp=prev.val;
	if(!ok && weak() && fmo==__ATOMIC_SEQ_CST && scView.v[l->id]<prev.idx) scView.v[l->id]=prev.idx;
	if(traceF&&spurious) trace("cas   %s fails spuriously",addrName(a));
	else if(traceF) trace("cas   %s %s: saw %lld%s%lld (%s)",addrName(a),ok?"ok":"FAILED",(long long)prev.val,ok?" -> ":" wanted ",ok?(long long)des:(long long)*exp,moName(ok?mo:fmo));
	f.vc.c[cur]++; return ok;
}
static void fence(int mo,u32 pc){
	if(!inModel||rtDepth) return;
	schedPoint(O_FENCE,1,pc); Fiber& f=F[cur]; bool wk=weak();
	if(isAcq(mo)){ vjoin(f.vc,f.acqf); if(wk) viewJoin(f.view,f.acqv); }
	if(mo==__ATOMIC_SEQ_CST && wk){ viewJoin(f.view,scView); viewJoin(scView,f.view); }
	if(isRel(mo)){ f.relf=f.vc; f.hasRelf=true; if(wk) f.relv=f.view; }
	trace("fence %s",moName(mo)); f.vc.c[cur]++;
}
#define PC ((u32)(u64)__builtin_return_address(0))
extern "C" {
#define RW(n) \
 void __tsan_read##n(void*a){ access((u64)a,n,0,PC);} \
 void __tsan_write##n(void*a){ access((u64)a,n,R_W,PC);} \
 void __tsan_unaligned_read##n(void*a){ access((u64)a,n,0,PC);} \
 void __tsan_unaligned_write##n(void*a){ access((u64)a,n,R_W,PC);} \
 void __tsan_volatile_read##n(void*a){ access((u64)a,n,0,PC);} \
 void __tsan_volatile_write##n(void*a){ access((u64)a,n,R_W,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,size_t n){ access((u64)a,(int)n,0,PC); }
void __tsan_write_range(void*a,size_t n){ access((u64)a,(int)n,R_W,PC); }
void __tsan_vptr_update(void**p,void*v){ access((u64)p,8,R_W,PC); (void)v; }
void __tsan_vptr_read(void**p){ access((u64)p,8,0,PC); }
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define AT(bits,T) \
 T __tsan_atomic##bits##_load(const volatile T*a,int mo){ return (T)atomLoad((u64)a,bits/8,mo,PC);} \
 void __tsan_atomic##bits##_store(volatile T*a,T v,int mo){ atomStore((u64)a,bits/8,v,mo,PC);} \
 T __tsan_atomic##bits##_exchange(volatile T*a,T v,int mo){ return (T)atomRmw((u64)a,bits/8,0,v,mo,PC);} \
 T __tsan_atomic##bits##_fetch_add(volatile T*a,T v,int mo){ return (T)atomRmw((u64)a,bits/8,1,v,mo,PC);} \
 T __tsan_atomic##bits##_fetch_sub(volatile T*a,T v,int mo){ return (T)atomRmw((u64)a,bits/8,2,v,mo,PC);} \
 T __tsan_atomic##bits##_fetch_and(volatile T*a,T v,int mo){ return (T)atomRmw((u64)a,bits/8,3,v,mo,PC);} \
 T __tsan_atomic##bits##_fetch_or(volatile T*a,T v,int mo){ return (T)atomRmw((u64)a,bits/8,4,v,mo,PC);} \
 T __tsan_atomic##bits##_fetch_xor(volatile T*a,T v,int mo){ return (T)atomRmw((u64)a,bits/8,5,v,mo,PC);} \
 T __tsan_atomic##bits##_fetch_nand(volatile T*a,T v,int mo){ return (T)atomRmw((u64)a,bits/8,6,v,mo,PC);} \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T*a,T*e,T d,int mo,int fmo){ u64 x=*e; bool r=atomCas((u64)a,bits/8,&x,d,mo,fmo,PC); if(!r) *e=(T)x; return r;} \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T*a,T*e,T d,int mo,int fmo){ u64 x=*e; bool r=atomCas((u64)a,bits/8,&x,d,mo,fmo,PC,true); if(!r) *e=(T)x; return r;} \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T*a,T e,T d,int mo,int fmo){ u64 x=e; atomCas((u64)a,bits/8,&x,d,mo,fmo,PC); return (T)x;}
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
void __tsan_atomic_thread_fence(int mo){ fence(mo,PC); }
void __tsan_atomic_signal_fence(int){}
}

// ---------------------------------------------------------------- heap
static void* arenaAlloc(size_t n,size_t al,void* fp){
	rtDepth++;
	int t=cur; size_t u=arenaUsed[t]; u=(u+16+al-1)&~(al-1);
	if(n==0) n=1;
	if(u+n+32>ARENA_PER){ rtDepth--; rep("oom","model heap exhausted (runaway allocation)"); }
	char* p=ARENA+t*ARENA_PER+u; arenaUsed[t]=u+n; if(arenaUsed[t]>arenaUsedMax[t]) arenaUsedMax[t]=arenaUsed[t];
	if(nBlk[t]>=MAXBLK) rep("oom","too many heap blocks");
	Block& b=blocks[t][nBlk[t]++]; b.addr=(u64)p; b.size=n; b.state=1; b.tid=t; memset(b.pcs,0,sizeof b.pcs);
	int k=backtrace_(b.pcs,6,fp); (void)k;
	__real_memset(heapState+(p-ARENA),1,n); __real_memset(p,0xCD,n);
	b.immortal=F[cur].immortal>0; if(!b.immortal) liveBlocks++;
	rtDepth--; return p;
}
static void arenaFree(void* v,void* fp,u32 pc){
	u64 a=(u64)v; Block* b=blockOf(a);
	if(!b||b->addr!=a){ addPc("free",pc); rep("bad-free","T%d: free of an address that is not the start of a block",cur); }
	if(b->state!=1){ addPc("free",pc); addPc("first free",b->fpcs[0]); addPc("first free 1",b->fpcs[1]); for(int i=0;i<5;i++) addPc("alloc",b->pcs[i]); rep("double-free","T%d: block of %u bytes freed twice (first by T%d)",cur,b->size,b->ftid); }
	// freeing is a write to the whole block
	if(!rtDepth){ u64 x=a,e=a+b->size; while(x<e){ u64 w=x>>3; int off=x&7; int n=8-off; if(x+n>e) n=e-x; if(cellGet(w,false)) touchWord(w,(u8)(((1u<<n)-1)<<off),R_W,x,n,pc,true); x+=n; } 
	atomStale(a,b->size); }
	rtDepth++;
	b->state=2; b->ftid=cur; memset(b->fpcs,0,sizeof b->fpcs); backtrace_(b->fpcs,4,fp);
	__real_memset(heapState+(a-(u64)ARENA),2,b->size); __real_memset(v,0xDD,b->size); if(!b->immortal) liveBlocks--;
	rtDepth--;
}
static inline bool inArena(const void*p){ return (u64)p>=(u64)ARENA && (u64)p<(u64)ARENA+MAXT*ARENA_PER; }
extern "C" {
static bool oomMalloc();
void* __wrap_malloc(size_t n){ if(oomMalloc()){ errno=ENOMEM; return nullptr; } if(inModel&&!rtDepth) return arenaAlloc(n,16,__builtin_frame_address(0)); return __real_malloc(n); }
void __wrap_free(void*p){ if(!p) return; if(inArena(p)) { if(inModel) arenaFree(p,__builtin_frame_address(0),PC); } else __real_free(p); }
void* __wrap_calloc(size_t a,size_t b){ if(inModel&&!rtDepth){ void*p=arenaAlloc(a*b,16,__builtin_frame_address(0)); __real_memset(p,0,a*b); return p;} return __real_calloc(a,b);} 
void* __wrap_realloc(void*p,size_t n){ if(p&&!inArena(p)) return __real_realloc(p,n); if(!inModel) return __real_realloc(nullptr,n); void*q=arenaAlloc(n,16,__builtin_frame_address(0)); if(p){ Block*b=blockOf((u64)p); __real_memcpy(q,p,b->size<n?b->size:n); arenaFree(p,__builtin_frame_address(0),PC);} return q; }
void* __wrap_memcpy(void*d,const void*s,size_t n){ if(inModel&&!rtDepth&&n&&n<100000){ access((u64)s,(int)n,0,PC); access((u64)d,(int)n,R_W,PC);} return __real_memcpy(d,s,n);} 
void* __wrap_memmove(void*d,const void*s,size_t n){ if(inModel&&!rtDepth&&n&&n<100000){ access((u64)s,(int)n,0,PC); access((u64)d,(int)n,R_W,PC);} return __real_memmove(d,s,n);} 
void* __wrap_memset(void*d,int c,size_t n){ if(inModel&&!rtDepth&&n&&n<100000) access((u64)d,(int)n,R_W,PC); return __real_memset(d,c,n);} 
}
// fault injection: the oomLeft-th allocation of the model fails
static long oomLeft, oomHits;
static inline bool oomNow(){ if(inModel&&!rtDepth&&oomLeft>0&&--oomLeft==0){ oomHits++; return true; } return false; }
static void* opnew(size_t n,size_t al,void*fp){ if(inModel&&!rtDepth) return arenaAlloc(n,al<16?16:al,fp); void*p=nullptr; if(al>16){ if(posix_memalign(&p,al,n)) __real_abort(); } else p=__real_malloc(n?n:1); return p; }
static void opdel(void*p,void*fp,u32 pc){ if(!p) return; if(inArena(p)){ if(inModel) arenaFree(p,fp,pc);} else __real_free(p); }
#define FP __builtin_frame_address(0)
extern "C" { static bool oomMalloc(){ return oomNow(); } }
static void oomThrow(){ if(oomNow()) throw std::bad_alloc(); }
void* operator new(size_t n){ oomThrow(); return opnew(n,16,FP);} void* operator new[](size_t n){ oomThrow(); return opnew(n,16,FP);} 
void* operator new(size_t n,const std::nothrow_t&) noexcept { if(oomNow()) return nullptr; return opnew(n,16,FP);} void* operator new[](size_t n,const std::nothrow_t&) noexcept { if(oomNow()) return nullptr; return opnew(n,16,FP);} 
extern "C" void mc_oom_(long k){ oomLeft=k; oomHits=0; } extern "C" long mc_oom_hits_(){ return oomHits; }
void* operator new(size_t n,std::align_val_t a){ oomThrow(); return opnew(n,(size_t)a,FP);} void* operator new[](size_t n,std::align_val_t a){ oomThrow(); return opnew(n,(size_t)a,FP);} 
void operator delete(void*p) noexcept { opdel(p,FP,PC);} void operator delete[](void*p) noexcept { opdel(p,FP,PC);} 
void operator delete(void*p,size_t) noexcept { opdel(p,FP,PC);} void operator delete[](void*p,size_t) noexcept { opdel(p,FP,PC);} 
void operator delete(void*p,std::align_val_t) noexcept { opdel(p,FP,PC);} void operator delete[](void*p,std::align_val_t) noexcept { opdel(p,FP,PC);} 
void operator delete(void*p,size_t,std::align_val_t) noexcept { opdel(p,FP,PC);} void operator delete[](void*p,size_t,std::align_val_t) noexcept { opdel(p,FP,PC);} 
void operator delete(void*p,const std::nothrow_t&) noexcept { opdel(p,FP,PC);} 

// ghost happens-before through a key (used for exception_ptr reference counts)
enum { NHB=4096 }; static u64 hbKey[NHB]; static VC hbVc[NHB]; static u32 hbGen[NHB];
static VC* hbGet(u64 k){ u32 h=(k*0x9E3779B97F4A7C15ULL)>>52; for(int i=0;i<NHB;i++,h=(h+1)&(NHB-1)){ if(hbGen[h]!=gen_){ hbGen[h]=gen_; hbKey[h]=k; memset(&hbVc[h],0,sizeof(VC)); return &hbVc[h]; } if(hbKey[h]==k) return &hbVc[h]; } die("hb table"); return nullptr; }
extern "C" void mc_hb_release_(void*k){ if(!inModel||rtDepth||cur<0) return; vjoin(*hbGet((u64)k),F[cur].vc); F[cur].vc.c[cur]++; }
extern "C" void mc_hb_acquire_(void*k){ if(!inModel||rtDepth||cur<0) return; vjoin(F[cur].vc,*hbGet((u64)k)); }
extern "C" void __wrap__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void*self){ __real__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(self);} 
extern "C" void __wrap__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void*self){ void* o=*(void**)self; if(o){ mc_hb_release_(o); mc_hb_acquire_(o);} __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(self);} 

// ---------------------------------------------------------------- sync objects
struct Obj { u64 addr; u32 gen; int owner, depth; VC vc; View view; bool hasView, gate;
	// dependence bookkeeping
	VC depW, depR; int lastW[2]; /*event idx*/ int lastR[MAXT]; int lastAcq; };
enum { NOBJ=512 }; static Obj objs[NOBJ]; 
static Obj* objGet(u64 a){
	u32 h=(u32)((a*0x9E3779B97F4A7C15ULL)>>44)&(NOBJ-1);
	for(int i=0;i<NOBJ;i++,h=(h+1)&(NOBJ-1)){ Obj&o=objs[h]; if(o.gen!=gen_){ o.gen=gen_; o.addr=a; o.owner=-1; o.depth=0; o.hasView=false; o.gate=false; memset(&o.vc,0,sizeof(VC)); memset(&o.depW,0,sizeof(VC)); memset(&o.depR,0,sizeof(VC)); o.lastW[0]=-1; o.lastAcq=-1; for(int k=0;k<MAXT;k++) o.lastR[k]=-1; return &o; } if(o.addr==a) return &o; }
	die("object table full"); return nullptr;
}

// ---------------------------------------------------------------- scheduler
struct Ev { u8 tid; u32 loc; int node; }; // loc: per-thread index
static Ev* EV; static int nEv; static u32 evCnt[MAXT];
static u16 sleepCur; // mode D: sleep set before the next transition

static bool opEnabled(int t){
	Fiber&f=F[t]; if(!f.used||f.finished) return false;
	switch(f.op.kind){
	case O_LOCK: return objGet(f.op.addr)->owner<0;
	case O_JOIN: return F[f.waitJoin].finished;
	case O_GATEWAIT: return objGet(f.op.addr)->gate;
	case O_CBLOCK: return (f.signaled || (f.timedwait && now_>=f.deadline)) && objGet(f.mtx)->owner<0;
	default: return true;
	}
}
static bool spurPossible(int t){ Fiber&f=F[t]; return f.used&&!f.finished&&f.op.kind==O_CBLOCK&&!f.signaled&&!(f.timedwait&&now_>=f.deadline)&&objGet(f.mtx)->owner<0; }
static long long nextMark(){
	long long b=-1; for(int i=0;i<nMarks;i++) if(marks[i]>now_&&(b<0||marks[i]<b)) b=marks[i];
	for(int i=0;i<NF;i++) if(F[i].used&&!F[i].finished&&F[i].op.kind==O_CBLOCK&&F[i].timedwait&&F[i].deadline>now_&&(b<0||F[i].deadline<b)) b=F[i].deadline;
	return b;
}
static bool timedWaiter(){ for(int i=0;i<NF;i++) if(F[i].used&&!F[i].finished&&F[i].op.kind==O_CBLOCK&&F[i].timedwait&&!F[i].signaled&&F[i].deadline>now_) return true; return false; }
static bool isRead(u8 k){ return k==O_LOAD||k==O_TIME; }
static bool dependent(const Op&a,const Op&b){
	if(a.kind==O_YIELD||b.kind==O_YIELD) return true;
	auto inv=[](u8 k){ return k==O_NONE||k==O_START||k==O_CREATE||k==O_JOIN||k==O_EXIT||k==O_GATESET||k==O_GATEWAIT; };
	if(inv(a.kind)||inv(b.kind)) return false;
	bool same = a.addr==b.addr || (a.addr2&&a.addr2==b.addr) || (b.addr2&&b.addr2==a.addr) || (a.addr2&&a.addr2==b.addr2);
	if(!same) return false;
	return !(isRead(a.kind)&&isRead(b.kind));
}
static void describeBlocked(char*b,size_t n){
	size_t k=0; for(int i=0;i<NF;i++) if(F[i].used&&!F[i].finished){ k+=snprintf(b+k,n-k,"T%d blocked in %s; ",i,opname[F[i].op.kind]); if(k>=n) break; addPc("blocked at",F[i].op.pc);
		// a short stack of the blocked fiber
		if(i!=cur){ void* fp=((void**)F[i].sp)[5]; int sv=cur; cur=i; u32 bt[8]; int m=backtrace_(bt,8,fp); cur=sv; for(int j=0;j<m;j++){ char l[24]; snprintf(l,24,"T%d #%d",i,j); addPc(l,bt[j]); } } }
}
static Node& newNode(int kind){ if(pos!=nNodes) die("node order"); if(nNodes>=MAXNODE) die("too many nodes"); Node&n=ND[nNodes++]; memset(&n,0,sizeof n); n.kind=kind; SH->nodes++; return n; }
static void diverge(const char* w){ rtDepth++; SH->failed=2; snprintf(SH->msg,sizeof SH->msg,"nondeterministic execution: %s (scenario %s, node %d)",w,scn->name,pos); saveChoices(); _exit(8); }

static int chooseData(int n,int sub,const char* what){
	if(n<=1) return 0;
	if(n>255) die("choice too wide");
	int r; SH->steps++;
	if(nReplay>=0){ r= pos<nReplay?replayChoice[pos]:0; if(r>=n) diverge("replay data choice"); pos++; }
	else if(pos<nNodes){ Node&nd=ND[pos]; if(nd.kind!=1||nd.n!=n) diverge("data choice"); r=nd.chosen; pos++; }
	else { Node&nd=newNode(1); nd.n=n; nd.chosen=0; nd.sub=sub; r=0; pos++; }
	if(traceF && sub==0) trace("choose %s -> %d of %d",what,r,n);
	return r;
}
// DPOR: pending-operation race detection
static void dporAnalyse(){
	for(int p=0;p<NF;p++){ Fiber&f=F[p]; if(!f.used||f.finished) continue; const Op&o=f.op;
		if(o.kind==O_NONE||o.kind==O_START||o.kind==O_CREATE||o.kind==O_JOIN||o.kind==O_EXIT||o.kind==O_UNLOCK||o.kind==O_GATESET||o.kind==O_GATEWAIT) continue;
		int best=-1;
		auto cand=[&](int e){ if(e<0) return; Ev&v=EV[e]; if(v.tid==p) return; if(v.loc<=f.dep.c[v.tid]) return; if(e>best) best=e; };
		if(o.kind==O_YIELD){ for(int e=nEv-1;e>=0&&best<0;e--) cand(e); }
		else {
			auto obj=[&](u64 a,bool lock,bool read){ Obj*x=objGet(a); if(lock){ cand(x->lastAcq); return; } cand(x->lastW[0]); if(!read) for(int k=0;k<MAXT;k++) cand(x->lastR[k]); };
			if(o.kind==O_LOCK) obj(o.addr,true,false);
			else if(o.kind==O_TRYLOCK){ obj(o.addr,true,false); cand(objGet(o.addr)->lastW[0]); }
			else if(o.kind==O_CBLOCK) obj(f.mtx,true,false);
			else obj(o.addr,false,isRead(o.kind));
		}
		if(best<0) continue;
		int ni=EV[best].node; if(ni<0) continue; Node&nd=ND[ni];
		if(nd.enabled>>p&1){ nd.backtrack|=1u<<p; continue; }
		u16 E=0; for(int j=best+1;j<nEv;j++){ int q=EV[j].tid; if((nd.enabled>>q&1) && EV[j].loc<=f.dep.c[q]) E|=1u<<q; }
		if(E){ if(!(E&nd.backtrack)) nd.backtrack|=(E&-E); }
		else nd.backtrack|=nd.enabled;
	}
}
static int pickNext(){
	// returns the fiber to run next (its pending op is enabled), or TIMEOPT
	int opts[MAXT+4]; int n=0; u16 en=0;
	for(int i=0;i<NF;i++) if(opEnabled(i)) en|=1u<<i;
	bool curEn = cur>=0 && (en>>cur&1);
	if(mode=='D'){
		if(!en){ if(timedWaiter()) return TIMEOPT; return -1; }
		u16 pen=0; for(int i=0;i<NF;i++) if((en>>i&1)&&!F[i].yielded) pen|=1u<<i; if(!pen) pen=en;
		if(nReplay>=0){ if(pos>=nReplay) { int r=__builtin_ctz(pen); pos++; return r; } int r=replayChoice[pos++]; if(!(pen>>r&1)) diverge("replay thread choice"); return r; }
		if(pos<nNodes){ Node&nd=ND[pos]; if(nd.kind!=0||nd.enabled!=pen) diverge("enabled set"); 
			sleepCur = nd.sleep | nd.done; sleepCur&=~(1u<<nd.chosen);
			pos++; return nd.chosen; }
		u16 cand=pen&~sleepCur; if(!cand){ return -2; }
		int c= (curEn&&(cand>>cur&1))?cur:__builtin_ctz(cand);
		Node&nd=newNode(0); nd.enabled=pen; nd.sleep=sleepCur; nd.chosen=c; nd.backtrack=1u<<c; nd.n=0; pos++;
		return c;
	}
	// preemption-bounded enumeration
	// fairness: a thread that yields a second time waits for every thread that stayed enabled without running in between
	for(int i=0;i<NF;i++){ F[i].low&=en; F[i].seen|=~en; }
	auto held=[&](int i){ return F[i].yielded || F[i].low; };
	bool curPref = curEn && !held(cur);
	if(curPref){ opts[n++]=cur; if(preUsed<preBound) for(int k=1;k<NF;k++){ int i=(cur+k)%NF; if((en>>i&1)&&!held(i)) opts[n++]=i; } }
	else { int base=cur<0?0:cur; for(int k=1;k<=NF;k++){ int i=(base+k)%NF; if((en>>i&1)&&!held(i)) opts[n++]=i; }
		if(n==0) for(int k=0;k<NF;k++){ int i=(base+k)%NF; if(en>>i&1) opts[n++]=i; } }
	bool any=n>0;
	if(any){ if(spurUsed<spurBound) for(int i=0;i<NF;i++) if(spurPossible(i)) opts[n++]=i;
		if(timeUsed<timeBound && nextMark()>=0) opts[n++]=TIMEOPT; }
	else { if(timedWaiter()) return TIMEOPT; return -1; }
	int r;
	if(n==1) r=0;
	else if(nReplay>=0){ r=pos<nReplay?replayChoice[pos]:0; if(r>=n) diverge("replay schedule choice"); pos++; }
	else if(pos<nNodes){ Node&nd=ND[pos]; if(nd.kind!=0||nd.n!=n) diverge("schedule options"); for(int i=0;i<n;i++) if(nd.opt[i]!=opts[i]) diverge("schedule options"); r=nd.chosen; pos++; }
	else { Node&nd=newNode(0); nd.n=n; for(int i=0;i<n;i++) nd.opt[i]=opts[i]; r=0; nd.chosen=0; pos++; }
	int t=opts[r];
	if(t==TIMEOPT){ timeUsed++; SH->timeadv++; }
	else if(!(en>>t&1)){ spurUsed++; SH->spur++; F[t].signaled=true; if(traceF) trace("spurious wake-up of T%d",t); }
	else if(curPref && t!=cur){ preUsed++; }
	return t;
}
static void recordDep(int t){
	// record the visible operation about to be executed by fiber t (mode D)
	Fiber&f=F[t]; const Op&o=f.op; int e=nEv++; if(nEv>=MAXNODE) die("events"); EV[e].tid=t; EV[e].loc=++evCnt[t]; EV[e].node=pos-1;
	VC cv=f.dep; cv.c[t]=evCnt[t];
	auto wr=[&](u64 a){ Obj*x=objGet(a); vjoin(cv,x->depW); vjoin(cv,x->depR); };
	auto wrE=[&](u64 a){ Obj*x=objGet(a); x->depW=cv; memset(&x->depR,0,sizeof(VC)); x->lastW[0]=e; for(int k=0;k<MAXT;k++) x->lastR[k]=-1; };
	switch(o.kind){
	case O_LOAD: case O_TIME: { Obj*x=objGet(o.addr); vjoin(cv,x->depW); vjoin(x->depR,cv); x->lastR[t]=e; break; }
	case O_STORE: case O_RMW: case O_NOTIFY1: case O_NOTIFYALL: case O_POINT: case O_FENCE: case O_TRYLOCK: wr(o.addr); wrE(o.addr); if(o.kind==O_TRYLOCK) objGet(o.addr)->lastAcq=e; break;
	case O_LOCK: wr(o.addr); wrE(o.addr); objGet(o.addr)->lastAcq=e; break;
	case O_UNLOCK: wr(o.addr); wrE(o.addr); break;
	case O_CWAIT: wr(o.addr); wr(o.addr2); wrE(o.addr); wrE(o.addr2); break;
	case O_CBLOCK: wr(f.mtx); wr(o.addr); wrE(f.mtx); objGet(f.mtx)->lastAcq=e; break;
	case O_GATESET: case O_GATEWAIT: wr(o.addr); wrE(o.addr); break;
	case O_JOIN: vjoin(cv,F[f.waitJoin].dep); break;
	default: break;
	}
	if(o.kind==O_YIELD) { for(int i=0;i<NF;i++) vjoin(cv,F[i].dep); }
	f.dep=cv;
	// sleep set propagation
	u16 s=0; for(int q=0;q<NF;q++) if((sleepCur>>q&1) && q!=t){ Op qo=F[q].op; if(qo.kind==O_CBLOCK){ qo.addr2=F[q].mtx; } Op to=o; if(to.kind==O_CBLOCK) to.addr2=f.mtx; if(!dependent(qo,to)) s|=1u<<q; }
	sleepCur=s;
}
static void toSupervisor(){ rtDepth++; int me=cur; tlsSwap(me,-1); __real_memcpy(tlsBase,supTls,tlsSize); cur=-1; void* dummy; mc_switch_(&dummy,supSp); __builtin_unreachable(); }
static int endReason; // 0 normal, 1 pruned
static void endExecution(){ toSupervisor(); __builtin_unreachable(); }

static void schedule(bool exiting){
	for(;;){
		if(mode=='D' && nReplay<0) dporAnalyse();
		int t=pickNext();
		if(t==-2){ endReason=2; endExecution(); }
		if(t==-1){
			bool all=true; for(int i=0;i<NF;i++) if(F[i].used&&!F[i].finished) all=false;
			if(all){ endReason=0; endExecution(); }
			char b[400]; b[0]=0; describeBlocked(b,sizeof b); rep("deadlock","%s",b);
		}
		if(t==TIMEOPT){ now_=nextMark(); steps++; SH->steps++; if(traceF) trace("time advances to %lld",now_); if(steps>scn->o.steps) rep("livelock","step limit %d exceeded",scn->o.steps); continue; }
		steps++; SH->steps++;
		if(steps>scn->o.steps){ char b[400]; b[0]=0; describeBlocked(b,sizeof b); rep("livelock","step limit %d exceeded: %s",scn->o.steps,b); }
		if(mode=='D') recordDep(t);
		for(int i=0;i<NF;i++) if(i!=t){ F[i].yielded=false; F[i].low&=~(1u<<t); F[i].seen|=1u<<t; }
		if(t!=cur||exiting){
			int me=cur; cur=t; tlsSwap(me,t); mc_switch_(&F[me].sp,F[t].sp);
			// resumed
		}
		return;
	}
}
static void schedPoint(OpKind k,u64 addr,u32 pc,int size,u64 addr2){
	Fiber&f=F[cur]; f.op.kind=k; f.op.addr=addr; f.op.addr2=addr2; f.op.size=size; f.op.pc=pc;
	schedule(false);
	rtDepth=0;
}

// ---------------------------------------------------------------- threads
static void runDtors(){ Fiber&f=F[cur]; while(f.ndtors){ auto d=f.dtors[--f.ndtors]; d.fn(d.obj);} }
static void fiberExit(){
	runDtors();
	Fiber&f=F[cur]; f.op.kind=O_EXIT; f.finished=true; f.vc.c[cur]++; trace("exit");
	schedule(true); die("finished fiber resumed");
}
static void fiberMain() noexcept {
	Fiber&f=F[cur]; rtDepth=0;
	f.ret=f.fn(f.arg);
	fiberExit();
}
extern "C" void mc_fiber_tramp_();
asm(R"(
.text
.globl mc_fiber_tramp_
.type mc_fiber_tramp_,@function
mc_fiber_tramp_:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  call mc_fiber_main_
  ud2
  .cfi_endproc
.size mc_fiber_tramp_,.-mc_fiber_tramp_
)");
extern "C" void mc_fiber_main_(){ fiberMain(); }
static int newFiber(void*(*fn)(void*),void*arg){
	if(NF>=MAXT) die("too many model threads");
	int t=NF++; Fiber&f=F[t]; memset(&f,0,sizeof f); f.used=true; f.fn=fn; f.arg=arg; f.stk=STACKS+t*STACKSZ; f.op.kind=O_START;
	void** sp=(void**)(f.stk+STACKSZ-64); *--sp=nullptr; *--sp=nullptr; *--sp=(void*)mc_fiber_tramp_; for(int i=0;i<6;i++) *--sp=nullptr;
	f.sp=sp;
	__real_memset(tlsSave[t],0,tlsSize); __real_memcpy(tlsSave[t],tlsImg,tlsInit);
	f.vc.c[t]=1;
	return t;
}
#define GUARD(x) if(!inModel||rtDepth) return x;
#define RPC ((u32)(u64)__builtin_return_address(0))
extern "C" {
int pthread_create(pthread_t* th,const pthread_attr_t*,void*(*fn)(void*),void*arg){
	if(!inModel) die("pthread_create outside the model");
	if(oomNow()) return EAGAIN;
	if(mode=='D') schedPoint(O_CREATE,0,RPC);
	int t=newFiber(fn,arg); Fiber&c=F[t];
	for(int i=0;i<MAXT;i++) if(i!=t) c.vc.c[i]=F[cur].vc.c[i];
	if(weak()) c.view=F[cur].view; else memset(&c.view,0,sizeof(View));
	c.dep=F[cur].dep; F[cur].vc.c[cur]++;
	*th=(pthread_t)(t+1); trace("create T%d",t);
	return 0;
}
int pthread_join(pthread_t th,void**r){
	GUARD(0)
	int t=(int)th-1; Fiber&f=F[cur]; f.waitJoin=t; schedPoint(O_JOIN,0,RPC);
	vjoin(f.vc,F[t].vc); if(weak()) viewJoin(f.view,F[t].view); F[t].joined=true; if(r) *r=F[t].ret; trace("join T%d",t); return 0;
}
int pthread_detach(pthread_t th){ GUARD(0) F[(int)th-1].detached=true; return 0; }

unsigned __wrap__ZNSt6thread20hardware_concurrencyEv(){ return mcHw; }
void mc_hw_(unsigned n){ mcHw=n; }
pthread_t pthread_self(){ return (pthread_t)(cur+1); }
int pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int __wrap_sched_yield(){ GUARD(0) { Fiber&f=F[cur]; f.yielded=true; f.low=0; if(f.everYield) for(int i=0;i<NF;i++) if(i!=cur&&opEnabled(i)&&!(f.seen>>i&1)) f.low|=1u<<i; f.everYield=true; f.seen=0; }
	if(mode=='D'){ schedPoint(O_YIELD,0,RPC); } else schedPoint(O_YIELD,0,RPC); trace("yield"); return 0; }
static void lockIt(u64 m,u32 pc){ Obj*o=objGet(m); if(o->owner>=0) die("lock of owned mutex"); o->owner=cur; vjoin(F[cur].vc,o->vc); if(weak()&&o->hasView) viewJoin(F[cur].view,o->view); (void)pc; }
static void checkMtx(u64 m,int sz,const char*w,u32 pc){ checkValid(m,sz,true,w,pc); }
int pthread_mutex_lock(pthread_mutex_t*m){ GUARD(0) u32 pc=RPC; checkMtx((u64)m,sizeof(*m),"mutex lock",pc);
	if(objGet((u64)m)->owner==cur && m->__data.__kind==PTHREAD_MUTEX_RECURSIVE_NP){ objGet((u64)m)->depth++; return 0; }
	if(objGet((u64)m)->owner==cur){ addPc("relock",pc); rep("deadlock","T%d locks a mutex it already holds",cur);} 
	schedPoint(O_LOCK,(u64)m,pc); checkMtx((u64)m,sizeof(*m),"mutex lock",pc); access((u64)m,4,R_A|R_W,pc); lockIt((u64)m,pc); trace("lock %s",addrName((u64)m)); F[cur].vc.c[cur]++; return 0; }
int pthread_mutex_trylock(pthread_mutex_t*m){ GUARD(0) u32 pc=RPC; schedPoint(O_TRYLOCK,(u64)m,pc); checkMtx((u64)m,sizeof(*m),"mutex trylock",pc); Obj*o=objGet((u64)m); if(o->owner==cur && m->__data.__kind==PTHREAD_MUTEX_RECURSIVE_NP){ o->depth++; return 0; } if(o->owner>=0) return EBUSY; lockIt((u64)m,pc); return 0; }
static void unlockIt(u64 m){ Obj*o=objGet(m); o->vc=F[cur].vc; o->owner=-1; if(weak()){ o->view=F[cur].view; o->hasView=true; } F[cur].vc.c[cur]++; }
int pthread_mutex_unlock(pthread_mutex_t*m){ GUARD(0) u32 pc=RPC; checkMtx((u64)m,sizeof(*m),"mutex unlock",pc); Obj*o=objGet((u64)m);
	if(o->owner!=cur){ addPc("unlock",pc); rep("mutex-misuse","T%d unlocks a mutex owned by T%d",cur,o->owner);} 
	if(o->depth>0){ o->depth--; return 0; }
	if(mode=='D') schedPoint(O_UNLOCK,(u64)m,pc);
	access((u64)m,4,R_A|R_W,pc);
	unlockIt((u64)m); trace("unlock %s",addrName((u64)m)); return 0; }
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ __real_memset(m,0,sizeof *m); int k=0; if(a) pthread_mutexattr_gettype(a,&k); m->__data.__kind=k; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*m){ GUARD(0) Obj*o=objGet((u64)m); if(o->owner>=0){ addPc("destroy",RPC); rep("mutex-misuse","mutex destroyed while locked by T%d",o->owner);} return 0; }
static int cwait(u64 c,u64 m,bool timed,long long dl,u32 pc){
	Fiber&f=F[cur]; checkMtx(c,sizeof(pthread_cond_t),"condition wait",pc); checkMtx(m,sizeof(pthread_mutex_t),"condition wait mutex",pc);
	if(objGet(m)->owner!=cur){ addPc("wait",pc); rep("mutex-misuse","condition wait without holding the mutex"); }
	if(mode=='D') schedPoint(O_CWAIT,c,pc,0,m);
	access(c,4,R_A|R_W,pc);
	unlockIt(m); f.signaled=false; f.timedwait=timed; f.timedout=false; f.deadline=dl; f.cv=c; f.mtx=m; f.waitseq=++waitSeq;
	trace("cond_wait %s%s",addrName(c),timed?" (timed)":"");
	schedPoint(O_CBLOCK,c,pc,0);
	f.timedout=!f.signaled; f.cv=0; f.timedwait=false;
	checkMtx(m,sizeof(pthread_mutex_t),"condition re-lock",pc); access(m,4,R_A|R_W,pc);
	lockIt(m,pc); F[cur].vc.c[cur]++; trace("cond_wake %s%s",addrName(c),f.timedout?" (timeout)":"");
	return f.timedout?ETIMEDOUT:0;
}
static long long ts2ns(const struct timespec*t){ return (long long)t->tv_sec*1000000000LL+t->tv_nsec; }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ GUARD(0) return cwait((u64)c,(u64)m,false,0,RPC); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*t){ GUARD(0) return cwait((u64)c,(u64)m,true,ts2ns(t),RPC); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t,const struct timespec*t){ GUARD(0) return cwait((u64)c,(u64)m,true,ts2ns(t),RPC); }
int pthread_cond_signal(pthread_cond_t*c){ GUARD(0) u32 pc=RPC; schedPoint(O_NOTIFY1,(u64)c,pc); checkMtx((u64)c,sizeof(*c),"notify_one",pc); access((u64)c,4,R_A|R_W,pc);
	int w[MAXT],n=0; for(int i=0;i<NF;i++) if(F[i].used&&!F[i].finished&&F[i].cv==(u64)c&&F[i].op.kind==O_CBLOCK&&!F[i].signaled) w[n++]=i;
	for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(F[w[j]].waitseq<F[w[i]].waitseq){int x=w[i];w[i]=w[j];w[j]=x;}
	if(n){ int k=chooseData(n,0,"which waiter notify_one wakes"); F[w[k]].signaled=true; vjoin(F[w[k]].dep,F[cur].dep); trace("notify_one %s wakes T%d",addrName((u64)c),w[k]); }
	else trace("notify_one %s (nobody waits)",addrName((u64)c)); F[cur].vc.c[cur]++; return 0; }
int pthread_cond_broadcast(pthread_cond_t*c){ GUARD(0) u32 pc=RPC; schedPoint(O_NOTIFYALL,(u64)c,pc); checkMtx((u64)c,sizeof(*c),"notify_all",pc); access((u64)c,4,R_A|R_W,pc);
	for(int i=0;i<NF;i++) if(F[i].used&&!F[i].finished&&F[i].cv==(u64)c&&F[i].op.kind==O_CBLOCK){ F[i].signaled=true; vjoin(F[i].dep,F[cur].dep);} trace("notify_all %s",addrName((u64)c)); F[cur].vc.c[cur]++; return 0; }
int pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*){ __real_memset(c,0,sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*c){ GUARD(0) for(int i=0;i<NF;i++) if(F[i].used&&!F[i].finished&&F[i].cv==(u64)c&&!F[i].signaled){ addPc("destroy",RPC); rep("cond-misuse","condition variable destroyed while T%d waits",i);} return 0; }
int __wrap_clock_gettime(clockid_t id,struct timespec*t){
	if(!inModel||rtDepth) return __real_clock_gettime(id,t);
	schedPoint(O_TIME,2,RPC); t->tv_sec=now_/1000000000LL; t->tv_nsec=now_%1000000000LL; return 0; }
int __cxa_thread_atexit(void(*fn)(void*),void*obj,void*){ if(!inModel||rtDepth||cur<0) return 0; Fiber&f=F[cur]; if(f.ndtors>=16) die("dtors"); f.dtors[f.ndtors].fn=fn; f.dtors[f.ndtors++].obj=obj; return 0; }

// Less common primitives are built from a hidden mutex and condition variable per object. Their happens-before
// is put back to what the primitive itself guarantees.
struct Hid { u64 key; u32 gen; pthread_mutex_t m; pthread_cond_t c; int readers, writer; VC vw, vr; View iw, ir; };
enum { NHID=64 }; static Hid hid[NHID];
static Hid& hidGet(u64 k){ u32 h=(k*0x9E3779B97F4A7C15ULL)>>58; for(int i=0;i<NHID;i++,h=(h+1)&(NHID-1)){ Hid&x=hid[h]; if(x.gen!=gen_){ memset(&x,0,sizeof x); x.gen=gen_; x.key=k; x.writer=-1; return x; } if(x.key==k) return x; } die("too many futexes, once flags or rw locks"); return hid[0]; }
struct KeepHb { VC vc; View v; u32 own; KeepHb():vc(F[cur].vc){ if(weak()) v=F[cur].view; } ~KeepHb(){ u32 c=F[cur].vc.c[cur]; F[cur].vc=vc; F[cur].vc.c[cur]=c; if(weak()) F[cur].view=v; } };
static int futexWait(u64 a,u32 val,bool timed,long long dl){
	KeepHb k; Hid&h=hidGet(a); int r=0; pthread_mutex_lock(&h.m);
	schedPoint(O_LOAD,a,RPC,4); checkValid(a,4,false,"futex wait",RPC);
	if(*(volatile u32*)a!=val){ r=EAGAIN; } else r=cwait((u64)&h.c,(u64)&h.m,timed,dl,RPC);
	pthread_mutex_unlock(&h.m); return r;
}
static void futexWake(u64 a,int n){ KeepHb k; Hid&h=hidGet(a); pthread_mutex_lock(&h.m); if(n==1) pthread_cond_signal(&h.c); else pthread_cond_broadcast(&h.c); pthread_mutex_unlock(&h.m); }
long __wrap_syscall(long nr,...){
	va_list ap; va_start(ap,nr); u64 a[6]; for(auto&x:a) x=va_arg(ap,u64); va_end(ap);
	if(!inModel||rtDepth||nr!=SYS_futex) return __real_syscall(nr,a[0],a[1],a[2],a[3],a[4],a[5]);
	int op=(int)a[1]&127; 
	if(op==0||op==9){ auto*ts=(const struct timespec*)a[3]; long long dl=0; if(ts){ dl=(long long)ts->tv_sec*1000000000LL+ts->tv_nsec; if(op==0) dl+=now_; } int r=futexWait(a[0],(u32)a[2],ts!=nullptr,dl); if(r){ errno=r; return -1; } return 0; }
	if(op==1||op==10){ futexWake(a[0],(int)a[2]); return 0; }
	die("futex operation in model"); return -1;
}
static void sleepUntil(long long dl){ KeepHb k; Hid&h=hidGet(0x5000+cur); pthread_mutex_lock(&h.m); while(now_<dl) cwait((u64)&h.c,(u64)&h.m,true,dl,RPC); pthread_mutex_unlock(&h.m); }
int __wrap_nanosleep(const struct timespec*t,struct timespec*r){ if(!inModel||rtDepth) return (int)__real_syscall(SYS_nanosleep,(u64)t,(u64)r,0,0,0,0); sleepUntil(now_+ts2ns(t)); return 0; }
int __wrap_clock_nanosleep(clockid_t,int fl,const struct timespec*t,struct timespec*){ if(!inModel||rtDepth) die("clock_nanosleep"); sleepUntil(ts2ns(t)+(fl&TIMER_ABSTIME?0:now_)); return 0; }
// what belongs to the code under test, not to the language run-time library
static bool ours(void*q){ char*p=(char*)q; return inModel&&!rtDepth&&cur>=0&&((p>=mc_bss_begin_&&p<mc_bss_end_)||(p>=mc_data_begin_&&p<mc_data_end_)||inArena(p)||(p>=STACKS&&p<STACKS+MAXT*STACKSZ)); }
// std::call_once passes its callable through two thread-local variables of libstdc++, which model threads share
int pthread_once(pthread_once_t*o,void(*fn)(void)){
	if(!ours(o)){ if(*o==2) return 0; *o=1; fn(); *o=2; return 0; }
	void* ca=std::__once_callable; void(*cl)()=std::__once_call; Hid&h=hidGet((u64)o); checkMtx((u64)o,sizeof *o,"call_once",RPC);
	pthread_mutex_lock(&h.m); while(*o==1) cwait((u64)&h.c,(u64)&h.m,false,0,RPC);
	if(*o==2){ pthread_mutex_unlock(&h.m); return 0; }
	*o=1; pthread_mutex_unlock(&h.m);
	std::__once_callable=ca; std::__once_call=cl;
	bool thrown=true; struct Done{ pthread_once_t*o; Hid&h; bool&t; ~Done(){ pthread_mutex_lock(&h.m); *o=t?0:2; pthread_cond_broadcast(&h.c); pthread_mutex_unlock(&h.m); } } d{o,h,thrown};
	fn(); thrown=false; return 0;
}
// initialisation of local statics; what it allocates lives until the program ends
static int* guardWord(u64*g){ return (int*)g+1; }
int __cxa_guard_acquire(u64*g){
	if(!ours(g)) return *(volatile u8*)g==0;
	Hid&h=hidGet((u64)g); pthread_mutex_lock(&h.m); while(!*(volatile u8*)g&&*guardWord(g)) cwait((u64)&h.c,(u64)&h.m,false,0,RPC);
	int r=*(volatile u8*)g==0; if(r){ *guardWord(g)=1; F[cur].immortal++; } pthread_mutex_unlock(&h.m); return r; }
static void guardEnd(u64*g,u8 v){ if(!ours(g)){ *(volatile u8*)g=v; return; } Hid&h=hidGet((u64)g); pthread_mutex_lock(&h.m); atomStore((u64)g,1,v,__ATOMIC_RELEASE,RPC); *guardWord(g)=0; F[cur].immortal--; pthread_cond_broadcast(&h.c); pthread_mutex_unlock(&h.m); }
void __cxa_guard_release(u64*g){ guardEnd(g,1); }
void __cxa_guard_abort(u64*g){ guardEnd(g,0); }
int __wrap___cxa_atexit(void(*f)(void*),void*a,void*d){ if(inModel) return 0; return __real___cxa_atexit(f,a,d); }
// read-write locks
static int rwLock(u64 l,bool write,bool tryOnly,bool timed,long long dl){
	checkMtx(l,sizeof(pthread_rwlock_t),"rwlock",RPC); { KeepHb k; Hid&h=hidGet(l); pthread_mutex_lock(&h.m);
		if(h.writer==cur) { pthread_mutex_unlock(&h.m); if(tryOnly) return EBUSY; rep("deadlock","T%d locks a rw lock it already holds",cur); }
		while(h.writer>=0||(write&&h.readers)){ if(tryOnly||(timed&&now_>=dl)){ pthread_mutex_unlock(&h.m); return timed?ETIMEDOUT:EBUSY; } cwait((u64)&h.c,(u64)&h.m,timed,dl,RPC); }
		if(write) h.writer=cur; else h.readers++; pthread_mutex_unlock(&h.m); }
	Hid&h=hidGet(l); vjoin(F[cur].vc,h.vw); if(weak()) viewJoin(F[cur].view,h.iw); if(write){ vjoin(F[cur].vc,h.vr); if(weak()) viewJoin(F[cur].view,h.ir); } return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t*l){ GUARD(0) return rwLock((u64)l,false,false,false,0); }
int pthread_rwlock_wrlock(pthread_rwlock_t*l){ GUARD(0) return rwLock((u64)l,true,false,false,0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t*l){ GUARD(0) return rwLock((u64)l,false,true,false,0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t*l){ GUARD(0) return rwLock((u64)l,true,true,false,0); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t*l,clockid_t,const struct timespec*t){ GUARD(0) return rwLock((u64)l,false,false,true,ts2ns(t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t*l,clockid_t,const struct timespec*t){ GUARD(0) return rwLock((u64)l,true,false,true,ts2ns(t)); }
int pthread_rwlock_unlock(pthread_rwlock_t*l){ GUARD(0) checkMtx((u64)l,sizeof *l,"rwlock unlock",RPC); Hid&h=hidGet((u64)l); bool w=h.writer==cur; if(!w&&h.readers<=0) rep("mutex-misuse","T%d unlocks a rw lock it does not hold",cur);
	vjoin(w?h.vw:h.vr,F[cur].vc); if(weak()) viewJoin(w?h.iw:h.ir,F[cur].view);
	{ KeepHb k; pthread_mutex_lock(&h.m); if(w) h.writer=-1; else h.readers--; pthread_cond_broadcast(&h.c); pthread_mutex_unlock(&h.m); } F[cur].vc.c[cur]++; return 0; }
int pthread_rwlock_init(pthread_rwlock_t*l,const pthread_rwlockattr_t*){ __real_memset(l,0,sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*l){ GUARD(0) Hid&h=hidGet((u64)l); if(h.writer>=0||h.readers>0) rep("mutex-misuse","rw lock destroyed while held"); h.gen=0; return 0; }
void __wrap_abort(){ if(inModel) rep("abort","abort() called"); __real_abort(); }
void __assert_fail(const char*e,const char*file,unsigned line,const char*fn){ const char*b=strrchr(file,'/'); if(inModel) rep("assertion","assertion `%s' failed (%s:%u, %s)",e,b?b+1:file,line,fn); fprintf(stderr,"assert %s %s:%u\n",e,file,line); __real_abort(); }
void __wrap___assert_fail(const char*e,const char*file,unsigned line,const char*fn){ __assert_fail(e,file,line,fn); }
}
static void onTerminate(){
	rtDepth++; const char* n="(no exception)"; static char what[300]; what[0]=0;
	if(std::type_info*t=abi::__cxa_current_exception_type()){ n=t->name(); try{ throw; } catch(std::exception&e){ snprintf(what,sizeof what,"%s",e.what()); } catch(...){} }
	rep("terminate","std::terminate called: exception %s %s",n,what);
}

// ---------------------------------------------------------------- harness API
extern "C" {
int mc_choose_(int n,const char*w){ if(!inModel) die("choose outside"); return chooseData(n,0,w); }
void mc_fail_(const char*k,const char*m){ if(!inModel) die(m); rep(k,"%s",m); }
void mc_outcome_(const char*s){ int n=strlen(s); if(outLen+n<(int)sizeof(outBuf)-1){ __real_memcpy(outBuf+outLen,s,n); outLen+=n; outBuf[outLen]=0; } }
void mc_gate_set_(void*g){ u32 pc=RPC; if(mode=='D') schedPoint(O_GATESET,(u64)g,pc); checkValid((u64)g,1,true,"gate",pc); Obj*o=objGet((u64)g); vjoin(o->vc,F[cur].vc); if(weak()){ if(!o->hasView) memset(&o->view,0,sizeof(View)); o->hasView=true; viewJoin(o->view,F[cur].view);} o->gate=true; F[cur].vc.c[cur]++; trace("gate_set %s",addrName((u64)g)); }
void mc_gate_wait_(void*g){ u32 pc=RPC; schedPoint(O_GATEWAIT,(u64)g,pc); checkValid((u64)g,1,false,"gate",pc); Obj*o=objGet((u64)g); vjoin(F[cur].vc,o->vc); if(weak()&&o->hasView) viewJoin(F[cur].view,o->view); trace("gate_wait %s",addrName((u64)g)); }
void mc_gate_reset_(void*g){ if(inModel&&!rtDepth) objGet((u64)g)->gate=false; }
int mc_gate_isset_(void*g){ return objGet((u64)g)->gate; }
void mc_point_(){ schedPoint(O_POINT,3,RPC); }
void mc_time_mark_(long long t){ if(nMarks<64) marks[nMarks++]=t; }
long long mc_now_(){ return now_; }
int mc_tid_(){ return cur; }
long mc_ghost_get_(int i){ return ghost_[i]; }
void mc_ghost_set_(int i,long v){ ghost_[i]=v; }
long mc_ghost_add_(int i,long v){ return ghost_[i]+=v; }
void mc_note_(const char*s){ trace("note: %s",s); }
void mc_prune_(){ endReason=1; endExecution(); }
long mc_live_blocks_(){ return liveBlocks; }
int mc_param_(){ return scn->o.param; }
int mc_thorough_(){ return thoroughRun; }
int mc_replaying_(){ return nReplay>=0; }
}

// ---------------------------------------------------------------- explorer
// the data of the code under test is put back before every execution
static char *dataCopy,*bssCopy; static size_t dataN,bssN;
static void snapshot(){ dataN=mc_data_end_-mc_data_begin_; bssN=mc_bss_end_-mc_bss_begin_; if((long)dataN<0||(long)bssN<0||bssN>(64u<<20)) die("data layout"); dataCopy=(char*)__real_malloc(dataN+1); bssCopy=(char*)__real_malloc(bssN+1); __real_memcpy(dataCopy,mc_data_begin_,dataN); __real_memcpy(bssCopy,mc_bss_begin_,bssN); }
static void* mainBody(void*){ scn->fn(); return nullptr; }
// CPU-time watchdog: a loop that makes no step and no instrumented access would spin for ever
static volatile u64 runSeq; static volatile int wdArmed;
static void onTick(int,siginfo_t*,void*uc){
	static u64 lastSeq; static int lastSteps,ticks;
	if(!inModel || runSeq!=lastSeq || steps!=lastSteps){ lastSeq=runSeq; lastSteps=steps; ticks=0; return; }
	if(++ticks<8) return;
	ucontext_t*u=(ucontext_t*)uc; addPc("loop",(u32)u->uc_mcontext.gregs[REG_RIP]);
	u32 bt[12]; int n=backtrace_(bt,12,(void*)u->uc_mcontext.gregs[REG_RBP]); for(int i=0;i<n;i++) addPc("loop caller",bt[i]);
	rep("livelock","T%d: 10 s of CPU time without a step",cur);
}
static void runOne(){
	runSeq++; oomLeft=oomHits=0; if(!wdArmed){ wdArmed=1; struct sigaction sa{}; sa.sa_sigaction=onTick; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_RESTART; sigaction(SIGVTALRM,&sa,nullptr); struct itimerval iv{{1,250000},{1,250000}}; setitimer(ITIMER_VIRTUAL,&iv,nullptr); }
	gen_++; cellsUsed=0; nAlocs=0; NF=0; steps=0; plainCnt=0; pos=0; preUsed=staleUsed=spurUsed=timeUsed=wcasUsed=0; now_=1000000000LL; mcHw=2; nMarks=0; outLen=0; outBuf[0]=0; waitSeq=0; nEv=0; sleepCur=0; endReason=0; liveBlocks=0;
	memset(evCnt,0,sizeof evCnt); memset(ghost_,0,sizeof ghost_); if(weak()) memset(&scView,0,sizeof scView);
	for(int t=0;t<MAXT;t++){ if(arenaUsed[t]) __real_memset(heapState+t*ARENA_PER,0,arenaUsed[t]); arenaUsed[t]=0; nBlk[t]=0; }
	__real_memcpy(mc_data_begin_,dataCopy,dataN); __real_memcpy(mc_bss_begin_,bssCopy,bssN);
	memset(F,0,sizeof(F));
	__real_memcpy(supTls,tlsBase,tlsSize);
	newFiber(mainBody,nullptr);
	inModel=true; rtDepth=0; 
	// start fiber 0
	F[0].op.kind=O_START; cur=0; steps++; 
	tlsSwap(-1,0); mc_switch_(&supSp,F[0].sp);
	inModel=false; rtDepth=0;
	SH->execs++;
	if((u64)steps>SH->maxsteps) SH->maxsteps=steps; if((u64)pos>SH->maxdepth) SH->maxdepth=pos;
	SH->plain+=plainCnt; SH->preempts+=preUsed;
	if(endReason){ SH->pruned++; return; }
	for(int t=1;t<NF;t++) if(!F[t].joined&&!F[t].detached){ cur=t; rep("thread-leak","T%d was neither joined nor detached",t); }
	if(liveBlocks){ for(int t=0;t<MAXT;t++) for(int i=0;i<nBlk[t];i++) if(blocks[t][i].state==1&&!blocks[t][i].immortal){ for(int k=0;k<6;k++) addPc("alloc",blocks[t][i].pcs[k]); cur=-1; rep("leak","%ld heap block(s) never freed; first: %u bytes allocated by T%d",liveBlocks,blocks[t][i].size,t); } }
	// outcome accounting
	u64 h=1469598103934665603ULL; for(int i=0;i<outLen;i++) h=(h^(u8)outBuf[i])*1099511628211ULL; if(!h) h=1;
	u32 x=h&8191; for(int i=0;i<8192;i++,x=(x+1)&8191){ if(SH->ohash[x]==h){ SH->ocount[x]++; break; } if(!SH->ohash[x]){ SH->ohash[x]=h; SH->ocount[x]=1; SH->noutcomes++; if(SH->nsamp<24){ snprintf(SH->outcomes[SH->nsamp],96,"%s",outBuf); SH->nsamp++; } break; } }
}
// advance the DFS; false when exhausted
static bool backtrack(){
	while(nNodes>0){
		Node&nd=ND[nNodes-1];
		if(nd.kind==0 && mode=='D'){
			nd.done|=1u<<nd.chosen; u16 c=nd.backtrack&~nd.done&~nd.sleep;
			if(c){ nd.chosen=__builtin_ctz(c); return true; }
		} else if(nd.chosen+1<nd.n){
			nd.chosen++;
			if(shardCnt>1){
				bool first=true; for(int i=0;i<nNodes-1;i++) if(ND[i].chosen!=0){ first=false; break; }
				if(first){ bool ok=false; for(;;){ u32 h=(u32)((nNodes*131u+nd.chosen)*2654435761u)>>8; if((int)(h%shardCnt)==shardIdx){ ok=true; break; } if(nd.chosen+1<nd.n) nd.chosen++; else break; } if(!ok){ nNodes--; continue; } }
			}
			return true;
		}
		nNodes--;
	}
	return false;
}
static double rnow(){ struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void onSegv(int s,siginfo_t*si,void*uc){
	ucontext_t*u=(ucontext_t*)uc; u64 pc=u->uc_mcontext.gregs[REG_RIP];
	if(!inModel){ fprintf(stderr,"mcrt crashed outside the model sig %d pc %lx addr %p\n",s,(long)pc,si->si_addr); _exit(98);} 
	addPc("fault",(u32)pc);
	u64 a=(u64)si->si_addr; const char* w=""; if(cur>=0 && a<(u64)F[cur].stk+4096 && a>=(u64)F[cur].stk-65536) w=" (stack overflow)";
	u32 bt[12]; int n=backtrace_(bt,12,(void*)u->uc_mcontext.gregs[REG_RBP]); for(int i=0;i<n;i++) addPc("fault caller",bt[i]);
	rep("crash","T%d: signal %d at address %p%s",cur,s,si->si_addr,w);
}
static void setup(){
	static bool done; if(done) return; done=true;
	__libc_single_threaded=0;
	dl_iterate_phdr([](struct dl_phdr_info*i,size_t,void*)->int{ for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS){ tlsSize=i->dlpi_phdr[k].p_memsz; tlsInit=i->dlpi_phdr[k].p_filesz; tlsImg=(void*)(i->dlpi_addr+i->dlpi_phdr[k].p_vaddr); tlsBase=(char*)i->dlpi_tls_data; } return 1; },nullptr);
	if(tlsSize>4096) die("tls too big");
	static char zero; if(!tlsBase){ tlsBase=&zero; tlsSize=0; tlsInit=0; tlsImg=&zero; }
	auto mm=[](void*at,size_t n)->void*{ void*p=mmap(at,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|(at?MAP_FIXED_NOREPLACE:0),-1,0); if(p==MAP_FAILED) die("mmap"); return p; };
	mm(ARENA,ARENA_PER*MAXT); mm(STACKS,STACKSZ*MAXT); for(int i=0;i<MAXT;i++) mprotect(STACKS+i*STACKSZ,4096,PROT_NONE);
	heapState=(u8*)mm(nullptr,ARENA_PER*MAXT); cells=(Cell*)mm(nullptr,sizeof(Cell)*NCELL); alocs=(ALoc*)mm(nullptr,sizeof(ALoc)*(NALOC+1));
	ND=(Node*)mm(nullptr,sizeof(Node)*MAXNODE); EV=(Ev*)mm(nullptr,sizeof(Ev)*MAXNODE);
	for(int i=0;i<MAXT;i++) blocks[i]=(Block*)mm(nullptr,sizeof(Block)*MAXBLK);
	stack_t ss{}; ss.ss_size=65536; ss.ss_sp=mm(nullptr,65536); sigaltstack(&ss,nullptr);
	struct sigaction sa{}; sa.sa_sigaction=onSegv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; sigaction(SIGSEGV,&sa,nullptr); sigaction(SIGBUS,&sa,nullptr); sigaction(SIGILL,&sa,nullptr); sigaction(SIGFPE,&sa,nullptr); sigaction(SIGTRAP,&sa,nullptr);
	std::set_terminate(onTerminate); snapshot();
}
static void bounds(const mc::Scenario*s,bool th){ const mc::Opts&o=s->o; mode=o.mode=='S'?'P':o.mode; thoroughRun=th; preBound=th?o.pre_t:o.pre_q; staleBound=th?o.stale_t:o.stale_q; spurBound=th?o.spur_t:o.spur_q; casBound=th?o.cas_t:o.cas_q; timeBound=th?o.time_t:o.time_q; if(o.mode=='S') preBound=0; }
static void explore(double deadline){
	int maxPre=preBound; int b0=(mode=='P'&&maxPre>1)?1:maxPre; if(mode=='D') b0=maxPre=0;
	SH->boundDone=-1;
	for(int b=b0;b<=maxPre;b++){
		preBound=b; SH->curBound=b; nNodes=0; SH->nodes=0; u64 k=0;
		bool more=true;
		while(more){
			runOne();
			if(shardCnt>1&&shardIdx!=0&&k==0){ SH->execs--; SH->nodes=0; /* root counted by shard 0 only */ }
			k++; if((k&63)==0 && rnow()>deadline) { _exit(0); }
			more=backtrack();
		}
		SH->boundDone=b;
	}
	SH->complete=1;
}
void mc::add_scenario(const char*n,const mc::Opts&o,mc::Fn f){ auto*s=(mc::Scenario*)__real_malloc(sizeof(mc::Scenario)); new(s) mc::Scenario{n,o,f,nullptr}; if(scnTail) scnTail->next=s; else scnHead=s; scnTail=s; }

static void jstr(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ if(*s=='"'||*s=='\\') {fputc('\\',f);fputc(*s,f);} else if((u8)*s<32) fprintf(f,"\\u%04x",*s); else fputc(*s,f);} fputc('"',f); }
struct Job { const mc::Scenario*s; int shard,shards; Shared*sh; pid_t pid; bool started,done; int status; double t0,t1; u64 lastExec; double lastT; bool hung; bool skipped; };

static int match(const char*pat,const char*s){ // comma separated prefixes / globs '*'
	char b[1024]; snprintf(b,sizeof b,"%s",pat); for(char*p=strtok(b,",");p;p=strtok(nullptr,",")){ size_t n=strlen(p); if(n&&p[n-1]=='*'){ if(!strncmp(p,s,n-1)) return 1; } else if(!strcmp(p,s)) return 1; } return 0; }

int main(int argc,char**argv){
	const char*run="*",*out=nullptr,*replay=nullptr,*only=nullptr; bool th=false,list=false; int jobs=8; double limit=600; const char*traceOut=nullptr; int forceShards=0;
	int opre=-1,ostale=-1,ospur=-1,otime=-1;
	for(int i=1;i<argc;i++){ auto is=[&](const char*k){return !strcmp(argv[i],k)&&i+1<argc;};
		if(is("--run")) run=argv[++i]; else if(is("--out")) out=argv[++i]; else if(is("--tier")) th=!strcmp(argv[++i],"thorough"); else if(is("--jobs")) jobs=atoi(argv[++i]); else if(is("--limit")) limit=atof(argv[++i]); else if(is("--replay")) replay=argv[++i]; else if(is("--trace")) traceOut=argv[++i]; else if(is("--shards")) forceShards=atoi(argv[++i]); else if(!strcmp(argv[i],"--list")) list=true;
		else if(is("--pre")) opre=atoi(argv[++i]); else if(is("--stale")) ostale=atoi(argv[++i]); else if(is("--spur")) ospur=atoi(argv[++i]); else if(is("--time")) otime=atoi(argv[++i]);
		else { fprintf(stderr,"bad arg %s\n",argv[i]); return 2; } }
	(void)only;
	setup();
	if(list){ for(auto*s=scnHead;s;s=s->next) printf("%s mode=%c\n",s->name,s->o.mode); return 0; }
	auto newShared=[]()->Shared*{ void*p=mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) die("mmap sh"); return (Shared*)p; };
	auto setB=[&](const mc::Scenario*s){ bounds(s,th); if(opre>=0)preBound=opre; if(ostale>=0)staleBound=ostale; if(ospur>=0)spurBound=ospur; if(otime>=0)timeBound=otime; };
#if 0
	auto doReplay=[&](const mc::Scenario*s,const u8*ch,int n,const char*tf,Shared*sh)->int{
		fflush(stdout); pid_t p=fork(); if(!p){ SH=sh; scn=s; setB(s); preBound=1000; if(spurBound>0||1){ } 
			nReplay=n; memcpy(replayChoice,ch,n); traceF=tf?fopen(tf,"w"):nullptr; runOne(); if(traceF) fclose(traceF); _exit(0);} int st; double t0=rnow(); 
		for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; if(rnow()-t0>60){ kill(p,SIGKILL); waitpid(p,&st,0); break; } struct timespec ts{0,2000000}; __real_syscall(SYS_nanosleep,&ts,nullptr);} return st; };
#endif
	if(replay){
		FILE*f=fopen(replay,"r"); if(!f){perror("replay");return 2;} char name[256]=""; char line[1<<16]; static u8 ch[MAXNODE]; int n=-1; int rpre=-1;
		while(fgets(line,sizeof line,f)){ if(!strncmp(line,"scenario ",9)) sscanf(line+9,"%255s",name); else if(!strncmp(line,"bounds ",7)){ int th_; sscanf(line+7,"%d %d %d %d %d",&th_,&rpre,&ostale,&ospur,&otime); th=th_; } else if(!strncmp(line,"choices",7)){ n=0; char*p=line+7; int v,k; while(sscanf(p,"%d%n",&v,&k)==1){ ch[n++]=v; p+=k; } } }
		fclose(f); for(auto*s=scnHead;s;s=s->next) if(!strcmp(s->name,name)){ Shared*sh=newShared();
			fflush(stdout); pid_t p=fork(); if(!p){ SH=sh; scn=s; setB(s); preBound=rpre; nReplay=n; memcpy(replayChoice,ch,n); traceF=stdout; runOne(); fflush(stdout); _exit(0);} int st; double t0=rnow();
			for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; if(rnow()-t0>90){ kill(p,SIGKILL); waitpid(p,&st,0); printf("REPRODUCED hang: no end after 90 s\n"); return 1; } struct timespec ts{0,2000000}; __real_syscall(SYS_nanosleep,&ts,nullptr);}
			if(sh->failed){ printf("REPRODUCED %s: %s\n",sh->kind,sh->msg); for(int i=0;i<sh->npcs;i++) printf("  pc %s 0x%x\n",sh->pcl[i],sh->pcs[i]); return 1; } printf("no violation on replay\n"); return 0; }
		printf("scenario %s not found\n",name); return 2; }
	static Job J[4096]; int nj=0;
	double T0=rnow();
	for(auto*s=scnHead;s;s=s->next) if(match(run,s->name)&&!(s->o.tier==1&&!th)){ int k=s->o.mode=='D'?1:(forceShards?forceShards:s->o.shards); for(int i=0;i<k;i++){ if(nj>=4096) die("jobs"); Job&j=J[nj++]; j.s=s; j.shard=i; j.shards=k; j.sh=nullptr; } }
	if(!nj){ fprintf(stderr,"no scenario matches\n"); return 2; }
	int running=0,next=0,ndone=0;
	while(ndone<nj){
		while(running<jobs&&next<nj){ Job&j=J[next++]; 
			// a sibling shard already failed?
			bool skip=false; for(int i=0;i<next-1;i++) if(J[i].s==j.s&&J[i].sh&&J[i].sh->failed) skip=true;
			// slow failures in plenty: enough is known
			if(rnow()-T0>100){ int bad=0; for(int i=0;i<next-1;i++) if(J[i].sh&&(J[i].sh->failed||J[i].hung)) bad++; if(bad>=6) skip=true; }
			j.sh=newShared(); j.started=true; j.t0=rnow(); j.lastT=j.t0;
			if(skip){ j.done=true; j.skipped=true; ndone++; continue; }
			fflush(nullptr); pid_t p=fork();
			if(!p){ SH=j.sh; scn=j.s; setB(j.s); shardIdx=j.shard; shardCnt=j.shards; explore(T0+limit); _exit(0); }
			j.pid=p; running++; }
		int st; pid_t p=waitpid(-1,&st,WNOHANG);
		if(p>0){ for(int i=0;i<nj;i++) if(J[i].started&&!J[i].done&&J[i].pid==p){ J[i].done=true; J[i].status=st; J[i].t1=rnow(); running--; ndone++; 
				if(J[i].sh->failed) for(int k=0;k<nj;k++) if(k!=i&&J[k].s==J[i].s&&J[k].started&&!J[k].done) kill(J[k].pid,SIGKILL); }
			continue; }
		double n=rnow();
		for(int i=0;i<nj;i++) if(J[i].started&&!J[i].done){ if(J[i].sh->execs!=J[i].lastExec){ J[i].lastExec=J[i].sh->execs; J[i].lastT=n; } else if(n-J[i].lastT>60){ J[i].hung=true; kill(J[i].pid,SIGKILL); } }
		struct timespec ts{0,3000000}; __real_syscall(SYS_nanosleep,&ts,nullptr);
	}
	FILE*f=out?fopen(out,"w"):stdout; if(!f) die("out"); fprintf(f,"{\"wall\":%.2f,\"scenarios\":[",rnow()-T0); bool firstS=true; int rc=0;
	for(int i=0;i<nj;){ int k=i; while(k<nj&&J[k].s==J[i].s) k++;
		u64 ex=0,st=0,nd=0,pr=0,md=0,ms=0,no=0,stale=0,spur=0,ta=0,pl=0; bool comp=true,internal=false; int bd=99; Shared*bad=nullptr; double t=0; char imsg[600]="";
		for(int x=i;x<k;x++){ Shared*s=J[x].sh; if(J[x].skipped){comp=false;continue;} ex+=s->execs; st+=s->steps; nd+=s->nodes; pr+=s->pruned; pl+=s->plain; if(s->maxdepth>md)md=s->maxdepth; if(s->maxsteps>ms)ms=s->maxsteps; stale+=s->stale; spur+=s->spur; ta+=s->timeadv; if(!s->complete)comp=false; if(s->boundDone<bd)bd=s->boundDone; t+=J[x].t1-J[x].t0;
			if(s->noutcomes>no) no=s->noutcomes;
			if(s->failed==1&&(!bad||s->nchoice<bad->nchoice)) bad=s; 
			if(s->failed==2){ internal=true; snprintf(imsg,sizeof imsg,"%.500s",s->msg); }
			if(!s->failed && WIFSIGNALED(J[x].status) && WTERMSIG(J[x].status)!=SIGKILL){ internal=true; snprintf(imsg,sizeof imsg,"worker killed by signal %d",WTERMSIG(J[x].status)); }
			if(!s->failed && WIFEXITED(J[x].status) && WEXITSTATUS(J[x].status)!=0){ internal=true; snprintf(imsg,sizeof imsg,"worker exit %d",WEXITSTATUS(J[x].status)); }
			if(J[x].hung){ if(!bad){ s->failed=1; snprintf(s->kind,64,"hang"); snprintf(s->msg,200,"an execution made no progress for 60 s"); bad=s; } }
			else if(WIFSIGNALED(J[x].status)&&WTERMSIG(J[x].status)==SIGKILL&&!bad){ bool sib=false; for(int y=i;y<k;y++) if(J[y].sh&&J[y].sh->failed) sib=true; if(!sib){ internal=true; snprintf(imsg,sizeof imsg,"worker killed"); } } }
		bounds(J[i].s,th); if(opre>=0)preBound=opre; if(ostale>=0)staleBound=ostale; if(ospur>=0)spurBound=ospur; if(otime>=0)timeBound=otime;
		fprintf(f,"%s\n{\"name\":",firstS?"":","); firstS=false; jstr(f,J[i].s->name);
		fprintf(f,",\"mode\":\"%c\",\"pre\":%d,\"stale_b\":%d,\"spur_b\":%d,\"time_b\":%d,\"execs\":%lu,\"steps\":%lu,\"nodes\":%lu,\"pruned\":%lu,\"plain\":%lu,\"maxdepth\":%lu,\"maxsteps\":%lu,\"outcomes\":%lu,\"stale\":%lu,\"spur\":%lu,\"timeadv\":%lu,\"complete\":%s,\"bound_done\":%d,\"cpu\":%.2f",J[i].s->o.mode,preBound,staleBound,spurBound,timeBound,(long)ex,(long)st,(long)nd,(long)pr,(long)pl,(long)md,(long)ms,(long)no,(long)stale,(long)spur,(long)ta,comp?"true":"false",bd,t);
		fprintf(f,",\"samples\":["); { Shared*s=J[i].sh; for(int x=0;x<s->nsamp;x++){ if(x) fputc(',',f); jstr(f,s->outcomes[x]); } } fprintf(f,"]");
		if(internal){ fprintf(f,",\"internal\":"); jstr(f,imsg); rc=2; }
		if(bad){ fprintf(f,",\"violation\":{\"bound\":%d,\"kind\":",bad->curBound); jstr(f,bad->kind); fprintf(f,",\"msg\":"); jstr(f,bad->msg); fprintf(f,",\"choices\":["); for(int x=0;x<bad->nchoice;x++) fprintf(f,"%s%d",x?",":"",bad->choice[x]); fprintf(f,"],\"pcs\":["); for(int x=0;x<bad->npcs;x++){ fprintf(f,"%s[",x?",":""); jstr(f,bad->pcl[x]); fprintf(f,",%u]",bad->pcs[x]); } fprintf(f,"]}"); if(rc==0) rc=1; }
		fprintf(f,"}"); i=k; }
	fprintf(f,"]}\n"); if(out) fclose(f);
	return rc;
}
