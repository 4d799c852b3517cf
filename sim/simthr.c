// Deterministic scheduler, simulated pthread / semaphore / clock calls, tsan-instrumentation hooks, instruction stepping.
#define _GNU_SOURCE
#include "sim.h"
#include "simint.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <signal.h>
#include <limits.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define MAXT 96
#define STK_BASE 0x300000000000ull
#define STK_SZ   (1ull<<20)
#define TH_MAGIC 0x51e40000ull
typedef struct {
  uint32_t fut; int used, done, blocked, zpl, joined, detached, hjoined; bool (*pred)(void*); void *parg; uint64_t deadline; const char *what;
  void *(*fn)(void*); void *arg; void *ret; void (*hfn)(void*); int timedout; int bystep;
} Thr;
static Thr T[MAXT]; static int nthr=1; static __thread int me; static int cur;
static int nocreate_cnt;
static bool enabled_multi;
static uint64_t points, switches, budget=600000; static bool fair; static uint32_t since, quantum=1200;
static int mode; static uint32_t gmean; static uint32_t gap; static int gstate; static int victim=-1;
static bool sched_on; int thr_running_points;
static int live_sems, live_mutexes, live_attrs, zcreated;

static void fwait(uint32_t *f){ while(__atomic_load_n(f,__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,f,FUTEX_WAIT_PRIVATE,0,0,0,0); __atomic_store_n(f,0,__ATOMIC_RELEASE); }
static void fwake(uint32_t *f){ __atomic_store_n(f,1,__ATOMIC_RELEASE); syscall(SYS_futex,f,FUTEX_WAKE_PRIVATE,1,0,0,0); }
int thr_self(void){ return me; }
uint64_t thr_points(void){ return points; }
uint64_t thr_switches(void){ return switches; }
bool thr_fair_phase(void){ return fair; }
void thr_set_budget(uint64_t p){ budget=p; }
int thr_created_by_zpl(void){ return zcreated; }
int thr_alive(void){ int n=0; for(int i=0;i<nthr;i++) if(T[i].used&&!T[i].done) n++; return n; }
int thr_unjoined(void){ int n=0; for(int i=1;i<nthr;i++) if(T[i].zpl&&!T[i].joined&&!T[i].detached) n++; return n; }
int thr_sems_live(void){ return live_sems; } int thr_mutexes_live(void){ return live_mutexes; } int thr_attrs_live(void){ return live_attrs; }

void simthr_init(void){
  memset(T,0,sizeof T); T[0].used=1; me=0; cur=0; nthr=1;
  cpu_set_t s; CPU_ZERO(&s); int c=sched_getcpu(); if(c>=0){ CPU_SET(c,&s); sched_setaffinity(0,sizeof s,&s); }
  prctl(PR_SET_TSC,PR_TSC_SIGSEGV);
}
void thr_enable(void){
  sched_on=true; thr_running_points=1;
  static const uint32_t means[]={400,120,40,12,4,1500};
  mode=ch(ST_CFG,8); gmean=means[ch(ST_CFG,6)];
  // mode 0: run to block; 1-5: random gaps; 6: random gaps and a starved thread; 7: change points chosen far apart
  if(mode==6) victim=(int)ch(ST_CFG,4);
  if(mode==7) gmean=4000;
}
static bool ready(int i){ Thr *t=&T[i]; if(!t->used||t->done) return false; if(!t->blocked) return true; if(t->pred&&t->pred(t->parg)) return true; if(t->deadline&&t->deadline<=sim_mono_ns) return true; return false; }
static _Noreturn void deadlock(void){
  char b[700]; int k=0; b[0]=0; for(int i=0;i<nthr&&k<600;i++) if(T[i].used&&!T[i].done) k+=snprintf(b+k,sizeof b-k,"%sthread %d waits in %s",k?", ":"",i,T[i].what?T[i].what:"?");
  sim_violation("deadlock","no thread can ever run again: %s",b); }
static int in_step;
static void go(int j){
  since=0; if(j==me) return; switches++; sim_ev("sw",j,(int64_t)points); int self=me; cur=j; fwake(&T[j].fut); fwait(&T[self].fut); }
// choose the next thread among ready ones; the current thread is excluded if not ready
static int pick(bool want_other){
  int c[MAXT], n=0; for(;;){ n=0;
    for(int k=1;k<=nthr;k++){ int i=(me+k)%nthr; if(i==me&&want_other) continue; if(ready(i)) c[n++]=i; }
    if(n==0&&want_other&&ready(me)) return me;
    if(n) break;
    uint64_t d=0; for(int i=0;i<nthr;i++) if(T[i].used&&!T[i].done&&T[i].blocked&&T[i].deadline&&(!d||T[i].deadline<d)) d=T[i].deadline;
    if(!d) deadlock();
    if(d>sim_mono_ns) sim_time_advance(d-sim_mono_ns);
  }
  if(!fair&&victim>=0&&n>1){ int m=0; for(int i=0;i<n;i++) if(c[i]!=victim%nthr) c[m++]=c[i]; if(m) n=m; }
  if(fair||mode==0) return c[0];
  return c[ch(ST_SCHED,n)];
}
static void tally(const char *what){
  points++;
  if(points>budget){ char b[400]; int k=0; b[0]=0; for(int i=0;i<nthr&&k<300;i++) if(T[i].used&&!T[i].done) k+=snprintf(b+k,sizeof b-k,"%sthread %d %s",k?", ":"",i,T[i].blocked?T[i].what:"running");
    sim_violation("no-progress","the program did not finish although every thread was scheduled fairly for %llu steps (%s)",(unsigned long long)budget/2,b); }
  if(!fair&&points>budget/2){ fair=true; quantum=300; sim_ev("fair",0,0); }
  (void)what;
}
void thr_point(void){
  if(!sched_on||in_step>1) return;
  tally(0); if(nthr==1) return; since++;
  bool sw=false;
  if(since>=quantum) sw=true;
  else if(!fair&&mode!=0){
    if(gstate==0){ gap=ch_nz(ST_SCHED,2*gmean+2); gstate=gap==0?2:1; }
    if(gstate==1&&--gap==0){ gstate=0; sw=true; sim_fault_count(F_PREEMPT); }
  }
  if(sw){ int j=pick(true); go(j); }
}
void thr_yield(void){ if(!sched_on||nthr==1){ if(sched_on) tally(0); return; } tally(0); int j=pick(true); go(j); }
bool thr_block_int(bool (*pred)(void*),void *arg,uint64_t deadline,const char *what){
  if(sched_on) tally(0);
  if(pred&&pred(arg)) return true;
  Thr *t=&T[me]; t->blocked=1; t->pred=pred; t->parg=arg; t->deadline=deadline; t->what=what;
  int j=pick(false); go(j);
  t->blocked=0; t->pred=0; t->deadline=0;
  if(pred&&pred(arg)) return true;
  return false;
}
void thr_block(bool (*pred)(void*),void *arg,uint64_t deadline,const char *what){ thr_block_int(pred,arg,deadline,what); }

// ---------------------------------------------------------------- creation
static void *thunk(void *p){
  int id=(int)(intptr_t)p; me=id; Thr *t=&T[id];
  static char alts[MAXT][32768]; stack_t ss={.ss_sp=alts[id],.ss_size=sizeof alts[id]}; sigaltstack(&ss,0);
  fwait(&t->fut);
  if(t->hfn) t->hfn(t->arg); else t->ret=t->fn(t->arg);
  thr_bystep(false);
  sim_ev("thread-end",id,0); t->done=1;
  int j=pick(true); since=0; cur=j; switches++; fwake(&T[j].fut);
  for(;;) pause();
}
static int spawn(void *(*fn)(void*),void (*hfn)(void*),void *arg,int zpl){
  if(nthr>=MAXT){ res->status=3; strcpy(res->key,"too-many-threads"); _exit(0); }
  int id=nthr; memset(&T[id],0,sizeof T[id]); T[id].fn=fn; T[id].hfn=hfn; T[id].arg=arg; T[id].zpl=zpl;
  pthread_attr_t a; pthread_attr_init(&a); void *st=mmap((void*)(STK_BASE+id*STK_SZ*2),STK_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0);
  pthread_attr_setstack(&a,st,STK_SZ); pthread_t pt; if(pthread_create(&pt,&a,thunk,(void*)(intptr_t)id)) { res->status=3; strcpy(res->key,"real-thread-create"); _exit(0); }
  pthread_attr_destroy(&a); nthr++; T[id].used=1; sim_ev("thread-create",id,0); return id; }
int thr_spawn(void (*fn)(void*),void *arg){ return spawn(0,fn,arg,0); }
static bool p_done(void *p){ return ((Thr*)p)->done; }
void thr_join_h(int id){ thr_block(p_done,&T[id],0,"harness join"); T[id].hjoined=1; }

typedef struct { uint32_t magic, stack; uint64_t pad; } XAttr;
int sim_pthread_attr_init(pthread_attr_t *a){ thr_point(); XAttr *x=(void*)a; memset(a,0,sizeof *a); x->magic=0xA7712; live_attrs++; return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *a){ thr_point(); XAttr *x=(void*)a; if(x->magic!=0xA7712) sim_violation("thread:attr","pthread_attr_destroy on an object that is not an initialised attribute"); x->magic=0; live_attrs--; return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *a,int s){ ((XAttr*)a)->pad=(uint64_t)s; return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *a,size_t s){ if(s<16384) return EINVAL; ((XAttr*)a)->stack=(uint32_t)s; return 0; }
static uint32_t last_stack; uint32_t thr_last_stack(void){ return last_stack; }
int sim_pthread_attr_getstacksize(const pthread_attr_t *a,size_t *s){ *s=((const XAttr*)a)->stack; return 0; }
int sim_pthread_create(pthread_t *t,const pthread_attr_t *a,void*(*fn)(void*),void *arg){
  sim_syscall("pthread_create");
  if(sim_fault(FB(F_THREAD_CREATE))>=0){ if(ch(ST_DATA,2)) *t=(pthread_t)0x7f7f7f7f7f7f; return EAGAIN; }   // the handle is undefined then
  last_stack=a?((const XAttr*)a)->stack:0;
  int det=a&&((const XAttr*)a)->pad==PTHREAD_CREATE_DETACHED;
  int id=spawn(fn,0,arg,1); T[id].detached=det; zcreated++; 
  *t=(pthread_t)(TH_MAGIC+id); thr_point(); return 0; }
static int tid_of(pthread_t p){ uint64_t v=(uint64_t)p; if(v<TH_MAGIC||v>=TH_MAGIC+MAXT||(int)(v-TH_MAGIC)>=nthr) return -1; return (int)(v-TH_MAGIC); }
int sim_pthread_join(pthread_t p,void **ret){ sim_syscall("pthread_join"); int id=tid_of(p); if(id<0) sim_violation("thread:bad-join","pthread_join on a handle that no successful pthread_create returned"); if(T[id].joined) sim_violation("thread:double-join","a thread was joined twice"); if(T[id].detached) return EINVAL; if(id==me) return EDEADLK;
  T[id].joined=1; thr_block(p_done,&T[id],0,"pthread_join"); if(ret)*ret=T[id].ret; thr_point(); return 0; }
int sim_pthread_detach(pthread_t p){ int id=tid_of(p); if(id<0) return ESRCH; T[id].detached=1; return 0; }
pthread_t sim_pthread_self(void){ return (pthread_t)(TH_MAGIC+me); }
int sim_pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int sim_pthread_setname_np(pthread_t p,const char *n){ (void)p;(void)n; return 0; }
int sim_pthread_yield(void){ thr_yield(); return 0; }
int sim_sched_yield(void){ sim_log("  sys sched_yield"); sim_time_advance(sim_tick_ns); thr_yield(); return 0; }
int sim_gettid(void){ return 4242+me; }
int sim_getpid(void){ return 4242; }

// ---------------------------------------------------------------- mutex
typedef struct { uint32_t magic; int32_t owner; int32_t depth; int32_t type; } XM; // owner: thread id+1
static XM *xm(void *m,const char *op){ XM *x=m; if(x->magic==0&&x->owner==0) { if(((int*)m)[4]==1) x->type=1; x->magic=0x3u; return x;} if(x->magic==0x3u) return x; sim_violation("mutex:not-initialised","%s on a mutex that is not initialised or already destroyed",op); }
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a){ memset(a,0,sizeof *a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a,int t){ *(int*)a=t; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a){ (void)a; return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *m,const pthread_mutexattr_t *a){ thr_point(); memset(m,0,sizeof *m); XM *x=(void*)m; x->magic=3; x->type=a?*(const int*)a:0; live_mutexes++; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m){ thr_point(); XM *x=xm(m,"destroy"); if(x->owner) return EBUSY; x->magic=0x7DEAD; live_mutexes--; return 0; }
static bool p_mfree(void *p){ XM *x=p; return x->magic!=3||x->owner==0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m){ thr_point(); XM *x=xm(m,"lock"); if(x->owner==me+1&&x->type==PTHREAD_MUTEX_RECURSIVE){ x->depth++; return 0; } if(x->owner==me+1&&x->type==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  if(x->owner) sim_probe("mutex contended");
  while(x->owner){ thr_block(p_mfree,x,0,"mutex lock"); xm(m,"lock"); } x->owner=me+1; x->depth=1; thr_point(); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m){ thr_point(); XM *x=xm(m,"trylock"); if(x->owner==me+1&&x->type==PTHREAD_MUTEX_RECURSIVE){ x->depth++; return 0; } if(x->owner){ sim_probe("trylock busy"); return EBUSY; } x->owner=me+1; x->depth=1; thr_point(); return 0; }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m,const struct timespec *ts){ thr_point(); XM *x=xm(m,"timedlock"); uint64_t real=(uint64_t)ts->tv_sec*1000000000ull+ts->tv_nsec; uint64_t dl=real>sim_real_ns?sim_mono_ns+(real-sim_real_ns):sim_mono_ns;
  while(x->owner){ if(dl<=sim_mono_ns) return ETIMEDOUT; thr_block(p_mfree,x,dl,"mutex timedlock"); } x->owner=me+1; x->depth=1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m){ thr_point(); XM *x=xm(m,"unlock"); if(!x->owner) sim_violation("mutex:unlock-of-unlocked","a mutex that nobody holds was unlocked"); if(x->type==PTHREAD_MUTEX_RECURSIVE||x->type==PTHREAD_MUTEX_ERRORCHECK){ if(x->owner!=me+1) return EPERM; if(--x->depth>0) return 0; } x->owner=0; thr_point(); return 0; }
// spin locks are mutexes here: who waits gives way
typedef struct { int owner; } XSpin; static bool p_sfree(void *p){ return ((XSpin*)p)->owner==0; }
int sim_pthread_spin_init(void *l,int sh){ (void)sh; ((XSpin*)l)->owner=0; return 0; } int sim_pthread_spin_destroy(void *l){ (void)l; return 0; }
int sim_pthread_spin_lock(void *l){ thr_point(); XSpin *x=l; while(x->owner) thr_block(p_sfree,x,0,"spin lock"); x->owner=me+1; thr_point(); return 0; }
int sim_pthread_spin_trylock(void *l){ thr_point(); XSpin *x=l; if(x->owner) return EBUSY; x->owner=me+1; thr_point(); return 0; }
int sim_pthread_spin_unlock(void *l){ thr_point(); ((XSpin*)l)->owner=0; thr_point(); return 0; }
int sim_pthread_condattr_init(void *a){ (void)a; return 0; } int sim_pthread_condattr_destroy(void *a){ (void)a; return 0; } int sim_pthread_attr_getdetachstate(const void *a,int *s){ (void)a; *s=PTHREAD_CREATE_JOINABLE; return 0; } int sim_pthread_attr_setguardsize(void *a,size_t n){ (void)a; (void)n; return 0; } int sim_pthread_attr_getguardsize(const void *a,size_t *n){ (void)a; *n=4096; return 0; } int sim_pthread_setcancelstate(int s,int *o){ (void)s; if(o) *o=0; return 0; }
int sim_clock_getres(clockid_t id,struct timespec *t){ (void)id; if(t){ t->tv_sec=0; t->tv_nsec=1; } return 0; }
// condition variables (not used by zpl today; kept so that a change to them is still simulated)
typedef struct { uint32_t seq, waiters, sig; } XC;
int sim_pthread_cond_init(pthread_cond_t *c,const void *a){ (void)a; memset(c,0,sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c){ (void)c; return 0; }
static bool p_sig(void *p){ return ((XC*)p)->sig>0; }
int sim_pthread_cond_timedwait(pthread_cond_t *c,pthread_mutex_t *m,const struct timespec *ts){ XC *x=(void*)c; x->waiters++; sim_pthread_mutex_unlock(m); uint64_t dl=0; if(ts){ uint64_t real=(uint64_t)ts->tv_sec*1000000000ull+ts->tv_nsec; dl=real>sim_real_ns?sim_mono_ns+(real-sim_real_ns):sim_mono_ns+1; }
  bool ok=thr_block_int(p_sig,x,dl,"condition wait"); x->waiters--; if(ok) x->sig--; sim_pthread_mutex_lock(m); return ok?0:ETIMEDOUT; }
int sim_pthread_cond_wait(pthread_cond_t *c,pthread_mutex_t *m){ return sim_pthread_cond_timedwait(c,m,0); }
int sim_pthread_cond_signal(pthread_cond_t *c){ thr_point(); XC *x=(void*)c; if(x->sig<x->waiters) x->sig++; thr_point(); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c){ thr_point(); XC *x=(void*)c; x->sig=x->waiters; thr_point(); return 0; }
int sim_pthread_once(pthread_once_t *o,void(*f)(void)){ thr_point(); if(*(int*)o==0){ *(int*)o=1; f(); } return 0; }

// ---------------------------------------------------------------- semaphores
typedef struct { uint32_t magic; int32_t val; int32_t waiters; } XS;
static XS *xs(sem_t *s,const char *op){ XS *x=(void*)s; if(x->magic!=0x5E3A) sim_violation("sem:not-initialised","%s on a semaphore that is not initialised or already destroyed",op); return x; }
int sim_sem_init(sem_t *s,int sh,unsigned v){ (void)sh; thr_point(); XS *x=(void*)s; if(v>SEM_VALUE_MAX){errno=EINVAL;return -1;} x->magic=0x5E3A; x->val=(int)v; x->waiters=0; live_sems++; return 0; }
int sim_sem_destroy(sem_t *s){ thr_point(); XS *x=xs(s,"sem_destroy"); if(x->waiters) sim_violation("sem:destroy-with-waiters","a semaphore was destroyed while a thread waits on it"); x->magic=0x7DEAD; live_sems--; return 0; }
int sim_sem_post(sem_t *s){ thr_point(); XS *x=xs(s,"sem_post"); if(x->val==INT_MAX){errno=EOVERFLOW;return -1;} x->val++; thr_point(); return 0; }
static bool p_sem(void *p){ XS *x=p; return x->magic!=0x5E3A||x->val>0; }
static int sem_w(sem_t *s,uint64_t dl){ thr_point(); XS *x=xs(s,"sem_wait"); 
  if(!fair&&sim_fault(FB(F_SEM_EINTR))>=0){ errno=EINTR; return -1; }
  if(x->val<=0) sim_probe("semaphore wait blocked");
  while(x->val<=0){ x->waiters++; bool ok=thr_block_int(p_sem,x,dl,"semaphore wait"); xs(s,"sem_wait"); x->waiters--; if(!ok&&dl&&x->val<=0){ errno=ETIMEDOUT; return -1; }
    if(!fair&&x->val>0&&sim_fault(FB(F_SEM_EINTR))>=0){ errno=EINTR; return -1; } }
  x->val--; thr_point(); return 0; }
int sim_sem_wait(sem_t *s){ return sem_w(s,0); }
int sim_sem_timedwait(sem_t *s,const struct timespec *ts){ uint64_t real=(uint64_t)ts->tv_sec*1000000000ull+ts->tv_nsec; return sem_w(s,real>sim_real_ns?sim_mono_ns+(real-sim_real_ns):sim_mono_ns+1); }
int sim_sem_trywait(sem_t *s){ thr_point(); XS *x=xs(s,"sem_trywait"); if(!fair&&sim_fault(FB(F_SEM_EINTR))>=0){ errno=EINTR; return -1; } if(x->val<=0){ errno=EAGAIN; return -1; } x->val--; thr_point(); return 0; }
int sim_sem_getvalue(sem_t *s,int *v){ *v=xs(s,"sem_getvalue")->val; return 0; }

// ---------------------------------------------------------------- clocks
extern uint32_t sim_clock_stalled; extern uint64_t sim_last_real[96]; uint64_t sim_clock_res_ns=1;
uint64_t sim_clock_reads;
static int get_clock(int id,struct timespec *ts){
  sim_clock_reads++; sim_syscall("clock_gettime");
  if(sim_clock_stalled) sim_clock_stalled--;
  int f=sim_fault(FB(F_CLOCK_STALL)|FB(F_CLOCK_JUMP));
  if(f==F_CLOCK_STALL)sim_clock_stalled=1+ch(ST_DATA,50);
  if(f==F_CLOCK_JUMP){ uint32_t k=ch(ST_DATA,6); static const uint64_t js[]={1000000ull,50000000ull,900000000ull,1500000000ull,20000000000ull,3600000000000ull}; 
    if(ch(ST_DATA,2)){ sim_time_advance(js[k]); sim_log("  descheduled for %llu ns",(unsigned long long)js[k]); } else { if(ch(ST_DATA,2)) sim_real_ns-=js[k]; else sim_real_ns+=js[k]; sim_log("  wall clock stepped"); } }
  uint64_t v=(id==CLOCK_REALTIME||id==CLOCK_REALTIME_COARSE)?sim_real_ns:sim_mono_ns;
  if(id==CLOCK_PROCESS_CPUTIME_ID||id==CLOCK_THREAD_CPUTIME_ID) v=sim_mono_ns/2;
  if(id==CLOCK_MONOTONIC_RAW) v=sim_mono_ns/1000*1003; // not disciplined: drifts from the monotonic clock
  if(id==CLOCK_BOOTTIME) v=sim_mono_ns+sim_mono_ns/4; // counts suspended time, too
  if(id==CLOCK_MONOTONIC_COARSE||id==CLOCK_REALTIME_COARSE) v-=v%10000000; // moves once per system tick
  v-=v%sim_clock_res_ns; if(id==CLOCK_REALTIME||id==CLOCK_REALTIME_COARSE) sim_last_real[me]=v; ts->tv_sec=v/1000000000ull; ts->tv_nsec=v%1000000000ull; thr_point(); return 0; }
int sim_clock_gettime(clockid_t id,struct timespec *ts){ return get_clock(id,ts); }
int sim_gettimeofday(struct timeval *tv,void *tz){ (void)tz; struct timespec t; get_clock(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
time_t sim_time(time_t *o){ struct timespec t; get_clock(CLOCK_REALTIME,&t); if(o)*o=t.tv_sec; return t.tv_sec; }
clock_t sim_clock(void){ return (clock_t)(sim_mono_ns/2000); }
uint64_t sim_total_slept;
extern uint64_t sim_oversleep_max; uint64_t sim_oversleep_max=0;
static int do_sleep(uint64_t ns,struct timespec *rem){
  sim_syscall("nanosleep"); uint64_t want=sim_mono_ns+ns;
  if(ns>0&&sim_fault(FB(F_SLEEP_EINTR))>=0){ uint64_t part=ns/16*ch(ST_DATA,16); uint64_t to=sim_mono_ns+part; if(part) while(sim_mono_ns<to) thr_block_int(0,0,to,"nanosleep"); uint64_t left=want>sim_mono_ns?want-sim_mono_ns:0; if(rem){ rem->tv_sec=left/1000000000ull; rem->tv_nsec=left%1000000000ull; } errno=EINTR; return -1; }
  if(sim_oversleep_max) want+=ch(ST_DATA,1000)*(sim_oversleep_max/1000);
  if(ns==0){ thr_point(); return 0; }
  while(sim_mono_ns<want) thr_block_int(0,0,want,"nanosleep");
  return 0; }
int sim_nanosleep(const struct timespec *req,struct timespec *rem){ if(req->tv_nsec<0||req->tv_nsec>999999999||req->tv_sec<0){ sim_log("  nanosleep EINVAL"); errno=EINVAL; return -1; } return do_sleep((uint64_t)req->tv_sec*1000000000ull+req->tv_nsec,rem); }
int sim_clock_nanosleep(clockid_t id,int flags,const struct timespec *req,struct timespec *rem){ if(req->tv_nsec<0||req->tv_nsec>999999999) return EINVAL; uint64_t t=(uint64_t)req->tv_sec*1000000000ull+req->tv_nsec; if(flags&TIMER_ABSTIME){ uint64_t n=id==CLOCK_REALTIME?sim_real_ns:sim_mono_ns; t=t>n?t-n:0; rem=0; } return do_sleep(t,rem)?errno:0; }
int sim_usleep(useconds_t us){ return do_sleep((uint64_t)us*1000,0); }
unsigned sim_sleep(unsigned s){ struct timespec r; return do_sleep((uint64_t)s*1000000000ull,&r)?(unsigned)r.tv_sec:0; }

// rdtsc: made to fault by prctl, answered from the simulated clock
static uint64_t tsc_extra;
uint64_t sim_tsc_fixed, sim_last_tsc[96];
extern char __executable_start, etext;
int sim_tsc_emul(void *u){
  ucontext_t *uc=u; uint8_t *ip=(uint8_t*)uc->uc_mcontext.gregs[REG_RIP]; if(!ip) return 0;
  // only code addresses of this binary or its libraries may be inspected
  if((uintptr_t)ip<0x1000) return 0;
  siginfo_t *dummy=0; (void)dummy;
  int len=0; if(ip[0]==0x0f&&ip[1]==0x31) len=2; else if(ip[0]==0x0f&&ip[1]==0x01&&ip[2]==0xf9) len=3; else return 0;
  uint64_t v=sim_tsc_fixed?sim_tsc_fixed:sim_mono_ns*3+0x5a00000000ull+tsc_extra;
  // reads outside this program (the C library's own clocks) must not disturb what the run sees
  if((char*)ip>=&__executable_start && (char*)ip<&etext){ tsc_extra+=7; sim_last_tsc[thr_self()]=v; }
  uc->uc_mcontext.gregs[REG_RAX]=(uint32_t)v; uc->uc_mcontext.gregs[REG_RDX]=v>>32; uc->uc_mcontext.gregs[REG_RIP]+=len; return 1; }

// ---------------------------------------------------------------- instrumentation of zpl (T build)
static inline void acc(const void *p,size_t n,int w){
#ifdef SIM_THREADS
  if((uint64_t)p-0x200000000000ull<(512ull<<20)) sim_shadow_check(p,n,w);
#endif
  if(thr_running_points) thr_point(); (void)p;(void)n;(void)w; }
#define RW(N) void __tsan_read##N(void*p){acc(p,N,0);} void __tsan_write##N(void*p){acc(p,N,1);} void __tsan_unaligned_read##N(void*p){acc(p,N,0);} void __tsan_unaligned_write##N(void*p){acc(p,N,1);} void __tsan_volatile_read##N(void*p){acc(p,N,0);} void __tsan_volatile_write##N(void*p){acc(p,N,1);} void __tsan_read_write##N(void*p){acc(p,N,1);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,size_t n){acc(p,n,0);} void __tsan_write_range(void*p,size_t n){acc(p,n,1);}
void __tsan_func_entry(void*p){ (void)p; } void __tsan_func_exit(void){}
void __cyg_profile_func_enter(void*a,void*b){(void)a;(void)b; if(thr_running_points) thr_point(); } void __cyg_profile_func_exit(void*a,void*b){(void)a;(void)b; if(thr_running_points) thr_point(); }
void __tsan_init(void){} void __tsan_vptr_update(void**p,void*v){(void)p;(void)v;} void __tsan_vptr_read(void**p){(void)p;} void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
#define AT(B,TY) \
 TY __tsan_atomic##B##_load(const volatile TY*a,int m){(void)m;acc((void*)a,B/8,0); return __atomic_load_n(a,5);} \
 void __tsan_atomic##B##_store(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); __atomic_store_n(a,v,5);} \
 TY __tsan_atomic##B##_exchange(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); return __atomic_exchange_n(a,v,5);} \
 TY __tsan_atomic##B##_fetch_add(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); return __atomic_fetch_add(a,v,5);} \
 TY __tsan_atomic##B##_fetch_sub(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); return __atomic_fetch_sub(a,v,5);} \
 TY __tsan_atomic##B##_fetch_and(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); return __atomic_fetch_and(a,v,5);} \
 TY __tsan_atomic##B##_fetch_or(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); return __atomic_fetch_or(a,v,5);} \
 TY __tsan_atomic##B##_fetch_xor(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); return __atomic_fetch_xor(a,v,5);} \
 TY __tsan_atomic##B##_fetch_nand(volatile TY*a,TY v,int m){(void)m;acc((void*)a,B/8,1); return __atomic_fetch_nand(a,v,5);} \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY*a,TY*c,TY v,int m,int n){(void)m;(void)n;acc((void*)a,B/8,1); return __atomic_compare_exchange_n(a,c,v,0,5,5);} \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY*a,TY*c,TY v,int m,int n){(void)m;(void)n;acc((void*)a,B/8,1); return __atomic_compare_exchange_n(a,c,v,0,5,5);} \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY*a,TY c,TY v,int m,int n){(void)m;(void)n;acc((void*)a,B/8,1); __atomic_compare_exchange_n(a,&c,v,0,5,5); return c;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int m){(void)m; if(thr_running_points) thr_point();} void __tsan_atomic_signal_fence(int m){(void)m;}
void *sim_memcpy(void *d,const void *s,size_t n){
#ifdef SIM_THREADS
  sim_shadow_check(d,n,1); sim_shadow_check(s,n,0);
  if(thr_running_points&&n){ thr_point(); size_t h=n/2&~(size_t)7; memcpy(d,s,h); if(h) thr_point(); memcpy((char*)d+h,(const char*)s+h,n-h); return d; }
#endif
  return memcpy(d,s,n); }
void *sim_memmove(void *d,const void *s,size_t n){
#ifdef SIM_THREADS
  sim_shadow_check(d,n,1); sim_shadow_check(s,n,0); if(thr_running_points) thr_point();
#endif
  return memmove(d,s,n); }
void *sim_memset(void *d,int c,size_t n){
#ifdef SIM_THREADS
  sim_shadow_check(d,n,1); if(thr_running_points) thr_point();
#endif
  return memset(d,c,n); }

// ---------------------------------------------------------------- instruction granular preemption (S build)
extern char __start_zpltext[] __attribute__((weak)), __stop_zpltext[] __attribute__((weak));
static uint64_t stepped; static void fence_decode(const uint8_t *p); extern void (*thr_fence_hook)(int full);
static int rmw_decode(const uint8_t *p,ucontext_t *uc,uint64_t *ea,int *size); 
typedef struct { uint64_t ea; int size; uint8_t m0[16]; int pend; } Rmw;
static __thread Rmw rmw;
static void on_trap(int s,siginfo_t *si,void *u){
  (void)s; ucontext_t *uc=u; uint8_t *ip=(uint8_t*)uc->uc_mcontext.gregs[REG_RIP];
  if(!T[me].bystep){ 
    if(si->si_code==SI_KERNEL||si->si_code==TRAP_BRKPT){ snprintf(res->key,sizeof res->key,"crash:SIGTRAP"); snprintf(res->msg,sizeof res->msg,"the code under test crashed with SIGTRAP"); sim_end(2); }
    uc->uc_mcontext.gregs[REG_EFL]&=~0x100; return; }
  if((char*)ip>=__start_zpltext&&(char*)ip<__stop_zpltext){
    stepped++; uint64_t ea; int size;
    if(thr_fence_hook) fence_decode(ip);
    if(rmw_decode(ip,uc,&ea,&size)){ // an unlocked read-modify-write: another processor may write between its load and its store
      uint8_t m0[16]; memcpy(m0,(void*)ea,size); thr_point(); memcpy((void*)ea,m0,size); sim_probe("unlocked read-modify-write split"); }
    else thr_point();
  }
  uc->uc_mcontext.gregs[REG_EFL]|=0x100; }
// a full fence: what waits in the store buffer becomes visible before the next instruction
void (*thr_fence_hook)(int full);
static void fence_decode(const uint8_t *p){
  int i=0,lock=0; for(;;i++){ if(p[i]==0xf0) lock=1; else if(p[i]!=0x66&&p[i]!=0xf2&&p[i]!=0xf3&&p[i]!=0x2e&&p[i]!=0x3e) break; }
  if((p[i]&0xf0)==0x40) i++;
  if(p[i]==0x0f&&p[i+1]==0xae&&p[i+2]>=0xf0&&p[i+2]<=0xf7) thr_fence_hook(1);       // mfence
  else if(p[i]==0x0f&&p[i+1]==0xa2) thr_fence_hook(1);                               // cpuid
  else if(lock||((p[i]==0x86||p[i]==0x87)&&p[i+1]<0xc0)) thr_fence_hook(1);          // locked operations, xchg with memory
}
static bool trap_installed;
void thr_bystep(bool on){
  if(!__start_zpltext) return;
  if(on&&!trap_installed){ trap_installed=true; struct sigaction sa={0}; sa.sa_sigaction=on_trap; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; sigaction(SIGTRAP,&sa,0); }
  if(T[me].bystep==(int)on) return;
  T[me].bystep=on;
  if(on) __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq":::"memory","cc");
  else __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq":::"memory","cc");
}
static int rmw_decode(const uint8_t *p,ucontext_t *uc,uint64_t *ea,int *size){
  int opsz=4, rex=0, i=0; 
  for(;;i++){ uint8_t b=p[i]; if(b==0xf0) return 0; if(b==0x66){opsz=2;continue;} if(b==0xf2||b==0xf3||b==0x2e||b==0x3e||b==0x26) continue; if(b==0x64||b==0x65) return 0; break; }
  if((p[i]&0xf0)==0x40){ rex=p[i]; if(rex&8) opsz=8; i++; }
  int op=p[i++], rmw_ok=0, imm=0, ext=-1; 
  if(op==0x0f){ op=p[i++]; if(op==0xb0||op==0xc0){opsz=1;rmw_ok=1;} else if(op==0xb1||op==0xc1) rmw_ok=1; else if(op==0xc7){ ext=1; rmw_ok=2; } else if(op==0xab||op==0xb3||op==0xbb) rmw_ok=1; else if(op==0xba){ rmw_ok=3; imm=1; } else return 0; }
  else if(op<0x38&&(op&7)<=1){ rmw_ok=1; if(!(op&1)) opsz=1; }
  else if(op==0x80||op==0x81||op==0x83){ if(op==0x80)opsz=1; imm=op==0x81?(opsz==2?2:4):1; rmw_ok=4; }
  else if(op==0xfe||op==0xff){ if(op==0xfe)opsz=1; rmw_ok=5; }
  else if(op==0xf6||op==0xf7){ if(op==0xf6)opsz=1; rmw_ok=6; }
  else if(op==0xc0||op==0xc1||(op>=0xd0&&op<=0xd3)){ if(op==0xc0||op==0xd0||op==0xd2)opsz=1; imm=op<0xd0?1:0; rmw_ok=1; }
  else return 0;
  int modrm=p[i++], mod=modrm>>6, reg=modrm>>3&7, rm=modrm&7; if(mod==3) return 0;
  if(rmw_ok==2){ if(reg!=ext) return 0; opsz=(rex&8)?16:8; }
  if(rmw_ok==3&&reg<5) return 0; 
  if(rmw_ok==4&&reg==7) return 0;
  if(rmw_ok==5&&reg>1) return 0; 
  if(rmw_ok==6&&reg!=2&&reg!=3) return 0;
  static const int gr[16]={REG_RAX,REG_RCX,REG_RDX,REG_RBX,REG_RSP,REG_RBP,REG_RSI,REG_RDI,REG_R8,REG_R9,REG_R10,REG_R11,REG_R12,REG_R13,REG_R14,REG_R15};
  greg_t *g=uc->uc_mcontext.gregs; int64_t a=0; int base_none=0;
  if(rm==4){ int sib=p[i++]; int b=(sib&7)|((rex&1)<<3), x=((sib>>3)&7)|((rex&2)<<2), sc=sib>>6; if((sib&7)==5&&mod==0){ base_none=1; } else a+=g[gr[b]]; if(x!=4) a+=(int64_t)g[gr[x]]<<sc; if(base_none){ int32_t d; memcpy(&d,p+i,4); i+=4; a+=d; } }
  else if(rm==5&&mod==0){ int32_t d; memcpy(&d,p+i,4); i+=4; a=(int64_t)(uintptr_t)(p+i+imm)+d; }
  else a+=g[gr[rm|((rex&1)<<3)]];
  if(mod==1){ a+=(int8_t)p[i]; } else if(mod==2){ int32_t d; memcpy(&d,p+i,4); a+=d; }
  *ea=(uint64_t)a; *size=opsz;
  // stack operands are private to the thread
  uint64_t sp=g[REG_RSP]; if((uint64_t)a>sp-(1<<16)&&(uint64_t)a<sp+(1<<16)) return 0;
  return 1; }
uint64_t thr_stepped(void){ return stepped; }
