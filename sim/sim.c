// Simulator core: choice streams, fault engine, verdicts, heap, clocks, and the run/search/minimise driver.
#define _GNU_SOURCE
#include "sim.h"
#include "simint.h"
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>

const char *const sim_fault_names[F_N] = {
  "alloc-fail","open-fail","read-short","read-eintr","read-eio","write-short","write-eintr","write-eio","disk-full",
  "truncate-fail","stat-fail","mkdir-fail","rmdir-fail","link-fail","unlink-fail","opendir-fail","sendfile-short","sendfile-error","sendfile-eintr",
  "tmpfile-fail","crash","mmap-fail","munmap-fail","madvise-fail","thread-create-fail","sem-eintr","sleep-eintr","clock-stall","clock-jump",
  "popen-fail","socket-fail","bind-fail","connect-fail","listen-fail","accept-fail","send-short","send-error","recv-short","recv-error",
  "select-eintr","getaddrinfo-fail","fcntl-fail","getsockname-fail","net-drop","net-duplicate","net-delay","net-reset","realpath-fail","lseek-fail","preemption","close-fail","sysconf-fail","affinity-fail","dlopen-fail"
};
static const char *const st_names[ST_N] = { "cfg", "op", "sched", "fault", "data" };

SimRes *res;
int sim_verbose;
static int replaying;
static uint32_t *rp[ST_N]; static uint32_t rpn[ST_N];
static uint64_t prng[ST_N][2];
extern void simthr_init(void);

// ---------------------------------------------------------------- prng / hashing
static uint64_t splitmix(uint64_t *s){ uint64_t z=(*s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
uint64_t sim_mix(uint64_t a, uint64_t b){ uint64_t s=a^(b*0x9e3779b97f4a7c15ull+0x7f4a7c15ull); return splitmix(&s); }
uint64_t sim_hash(const void *p, size_t n){ const uint8_t *b=p; uint64_t h=0xcbf29ce484222325ull^n; for(size_t i=0;i<n;i++){h^=b[i];h*=0x100000001b3ull;} return sim_mix(h,n); }
static uint64_t rnd(int st){ uint64_t s1=prng[st][0], s0=prng[st][1], r=s0+s1; prng[st][0]=s0; s1^=s1<<23; prng[st][1]=s1^s0^(s1>>18)^(s0>>5); return r; }
void sim_fill(void *p, size_t n, uint32_t seed){ uint64_t s=seed; uint8_t *b=p; while(n){ uint64_t v=splitmix(&s); size_t k=n<8?n:8; memcpy(b,&v,k); b+=k;n-=k; } }

static uint32_t draw(int st, uint32_t lo, uint32_t n){
  uint32_t v;
  if (replaying) { uint32_t i=res->nch[st]; v = i<rpn[st] ? rp[st][i] : 0; v%=n; }
  else v = lo + (uint32_t)(rnd(st)%(n-lo));
  if (res->nch[st]<CHCAP) res->ch[st][res->nch[st]]=v;
  res->nch[st]++;
  if (res->nch[st]>=CHCAP) { if(!replaying){ res->status=3; strcpy(res->key,"choice-overflow"); _exit(0);} }
  return v;
}
uint32_t ch(int st, uint32_t n){ if(n<=1) return 0; return draw(st,0,n); }
uint32_t ch_nz(int st, uint32_t n){ if(n<=1) return 0; return draw(st,1,n); }
uint32_t ch_w(int st, const uint32_t *w, uint32_t n){
  uint32_t tot=0; for(uint32_t i=0;i<n;i++) tot+=w[i];
  uint32_t v=ch(st,tot); for(uint32_t i=0;i<n;i++){ if(v<w[i]) return i; v-=w[i]; } return 0; }

// ---------------------------------------------------------------- faults
static uint64_t fmask, fstuck; static uint32_t fpick[F_N]; static uint32_t fmean;
// kinds a broken part of the system shows on every call from the first one on (memory gone, disk broken or full, a limit reached)
#define CAN_STICK (FB(F_ALLOC)|FB(F_OPEN)|FB(F_READ_EIO)|FB(F_WRITE_EIO)|FB(F_ENOSPC)|FB(F_READ_SHORT)|FB(F_WRITE_SHORT)|FB(F_SENDFILE_SHORT)|FB(F_SENDFILE_ERR)|FB(F_TRUNC)|FB(F_STAT)|FB(F_MKDIR)|FB(F_LINK)|FB(F_UNLINK)|FB(F_OPENDIR)|FB(F_TMPFILE)|FB(F_MMAP)|FB(F_THREAD_CREATE)|FB(F_POPEN)|FB(F_SOCKET)|FB(F_REALPATH)|FB(F_LSEEK))
 static uint32_t fgap; static int fstate; static bool fon;
uint64_t sim_fault_mask(void){ return fmask; }
void sim_faults_init(uint64_t kinds){
  fmask=fstuck=0; fon=true; fstate=0;
  uint32_t style=ch(ST_CFG,8);
  if(style<2) return;                    // fault free
  static const uint32_t means[]={60,20,8,3,1};
  fmean=means[ch(ST_CFG,5)];
  if(style<4) fmask=kinds;
  else if(style<6){ int n=__builtin_popcountll(kinds), k=ch(ST_CFG,n); for(int i=0;i<64;i++) if(kinds>>i&1){ if(k--==0){fmask=1ull<<i;break;} } }
  else for(int i=0;i<F_N;i++) if(kinds>>i&1) if(ch(ST_CFG,2)) fmask|=1ull<<i;
}
void sim_faults_enable(bool on){ fon=on; }
uint32_t sim_fault_pick(int kind,uint32_t n){ return fstuck>>kind&1?fpick[kind]%n:ch(ST_DATA,n); } // a fault that stays gives the same reason each time
bool sim_faults_on(void){ return fon && fmask; }
bool sim_faults_raw(void){ return fon; }
void sim_fault_count(int k){ res->nfault[k]++; }
uint32_t sim_fired(int k){ return res->nfault[k]; }
uint32_t sim_fired_total(void){ uint32_t t=0; for(int i=0;i<F_N;i++) if(i!=F_PREEMPT) t+=res->nfault[i]; return t; }
int sim_fault(uint64_t mask){
  mask&=fmask; if(!fon||!mask) return -1;
  if(mask&fstuck){ int k=__builtin_ctzll(mask&fstuck); res->nfault[k]++; sim_ev(sim_fault_names[k],-76,0); return k; }
  if(fstate==0){ fgap=ch_nz(ST_FAULT,2*fmean+2); fstate = fgap==0?2:1; }
  if(fstate==2) return -1;
  if(--fgap>0) return -1;
  fstate=0;
  int n=__builtin_popcountll(mask), k=ch(ST_FAULT,n), kind=-1;
  for(int i=0;i<64;i++) if(mask>>i&1){ if(k--==0){kind=i;break;} }
  res->nfault[kind]++;
  if((CAN_STICK>>kind&1)&&ch(ST_FAULT,8)==7){ fstuck|=1ull<<kind; fpick[kind]=ch(ST_DATA,60); sim_log("  from now on always: %s",sim_fault_names[kind]); }
  sim_ev(sim_fault_names[kind],-77,0);
  return kind;
}

// ---------------------------------------------------------------- verdicts, trace
static __thread int in_log;
static void plain(char *p,size_t n){ for(;n--;p++) if(*p!='\n'&&((unsigned char)*p<32||(unsigned char)*p>126)) *p='?'; }
void sim_log(const char *fmt, ...){
  if(!sim_verbose||in_log) return; in_log=1;
  va_list ap; va_start(ap,fmt);
  uint32_t room=sizeof(res->log)-res->loglen;
  if(room>200){ int k=snprintf(res->log+res->loglen,room,"[%d] ",thr_self()); res->loglen+=k; room-=k;
    k=vsnprintf(res->log+res->loglen,room-2,fmt,ap); if(k>(int)room-3)k=room-3; plain(res->log+res->loglen,k); res->loglen+=k; res->log[res->loglen++]='\n'; res->log[res->loglen]=0; }
  va_end(ap); in_log=0;
}
void sim_ev(const char *tag, int64_t a, int64_t b){
  res->hash=sim_mix(res->hash, sim_hash(tag,strlen(tag))); res->hash=sim_mix(res->hash,(uint64_t)a); res->hash=sim_mix(res->hash,(uint64_t)b); res->hash=sim_mix(res->hash,(uint64_t)thr_self());
  if(sim_verbose){ if(a==-77) sim_log("!! fault injected: %s",tag); else sim_log("%s %lld %lld",tag,(long long)a,(long long)b); }
}
void sim_feature(uint64_t h){ if(res->nfeat<NFEAT){ for(uint32_t i=res->nfeat>16?res->nfeat-16:0;i<res->nfeat;i++) if(res->feat[i]==h) return; res->feat[res->nfeat++]=h; } }
void sim_probe(const char *name){ for(int i=0;i<NPROBE;i++){ if(!res->probe[i].name[0]){ strncpy(res->probe[i].name,name,sizeof(res->probe[i].name)-1); res->probe[i].n=1; return; } if(!strcmp(res->probe[i].name,name)){ res->probe[i].n++; return; } } }
void sim_nontrivial(void){ res->nontrivial=1; }
void sim_op(void){ res->ops++; }
_Noreturn void sim_end(int status){ plain(res->msg,strlen(res->msg)); for(char *p=res->msg;(p=strchr(p,'\n'));) *p=' '; res->simtime=sim_mono_ns; res->points=thr_points(); res->switches=thr_switches(); __atomic_store_n(&res->status,status,__ATOMIC_SEQ_CST); _exit(0); }
_Noreturn void sim_violation(const char *key, const char *fmt, ...){
  va_list ap; va_start(ap,fmt); snprintf(res->key,sizeof res->key,"%s",key); vsnprintf(res->msg,sizeof res->msg,fmt,ap); va_end(ap);
  sim_ev(key,0,0);
  sim_log("VIOLATED %s: %s",res->key,res->msg);
  if(sim_verbose>1) __builtin_trap();
  sim_end(2);
}
static const char *signame(int s){ switch(s){case SIGSEGV:return"SIGSEGV";case SIGBUS:return"SIGBUS";case SIGFPE:return"SIGFPE";case SIGILL:return"SIGILL";case SIGTRAP:return"SIGTRAP";case SIGABRT:return"SIGABRT";case SIGPROF:return"cpu-budget";} return "signal"; }
char sim_stderr_tail[512]; int sim_stderr_len;
int sim_tsc_emul(void *uc);
extern char __executable_start;
static void frames(uintptr_t pc,uintptr_t fp){ if(!sim_verbose) return; for(int i=0;i<14;i++){ sim_log("  frame %#lx",(unsigned long)(pc-(uintptr_t)&__executable_start)); if(!fp||fp&7||fp<0x1000) break; uintptr_t *f=(uintptr_t*)fp; static int fds[2]; if(!fds[1]&&pipe(fds)) break; if(write(fds[1],f,16)!=16) break; char b[16]; if(read(fds[0],b,16)!=16) break; pc=f[1]-1; if(f[0]<=fp||!f[1]) break; fp=f[0]; } }
void sim_frames_here(void){ frames((uintptr_t)__builtin_return_address(0)-1,(uintptr_t)__builtin_frame_address(1)); }
static void on_sig(int s, siginfo_t *si, void *uc){
  if(s==SIGSEGV && sim_tsc_emul(uc)) return;
  if(sim_crash_armed==2) { }
  if(s==SIGPROF){ snprintf(res->key,sizeof res->key,"no-progress:cpu"); snprintf(res->msg,sizeof res->msg,"the call under test did not return within the simulated run's CPU budget (endless loop)"); }
  else { snprintf(res->key,sizeof res->key,"crash:%s",signame(s)); snprintf(res->msg,sizeof res->msg,"the code under test crashed with %s%s%.*s",signame(s),sim_stderr_len?"; stderr: ":"",sim_stderr_len,sim_stderr_tail); }
  ucontext_t *u=uc; (void)si; sim_log("VIOLATED %s %s",res->key,res->msg); frames((uintptr_t)u->uc_mcontext.gregs[REG_RIP],(uintptr_t)u->uc_mcontext.gregs[REG_RBP]); sim_end(2);
}
#if defined(__SANITIZE_ADDRESS__)
const char *__asan_default_options(void){ return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=0:print_summary=0:allow_user_segv_handler=1:symbolize=0:quarantine_size_mb=4:max_malloc_fill_size=65536:malloc_fill_byte=165"; }
void __asan_set_error_report_callback(void (*cb)(const char*));
static void on_asan(const char *rep){
  const char *p=strstr(rep,"AddressSanitizer: "); char kind[64]="error"; if(p){ p+=18; int i=0; while(p[i]&&p[i]!=' '&&p[i]!='\n'&&i<60){kind[i]=p[i];i++;} kind[i]=0; }
  snprintf(res->key,sizeof res->key,"memory:%s",kind); snprintf(res->msg,sizeof res->msg,"AddressSanitizer: %s (%s)",kind,strstr(rep,"WRITE of")?"write":strstr(rep,"READ of")?"read":"");
  sim_log("VIOLATED %s %s",res->key,res->msg); sim_end(2); }
#endif

// ---------------------------------------------------------------- clocks
uint64_t sim_mono_ns, sim_real_ns, sim_tick_ns=1000; uint32_t sim_clock_stalled; uint64_t sim_last_real[96];
void sim_time_advance(uint64_t ns){ sim_mono_ns+=ns; sim_real_ns+=ns; }
uint64_t sim_budget_syscalls=400000; int sim_crash_at, sim_crash_armed; jmp_buf sim_crash_jmp;
static int ev_at; static void (*ev_fn)(void*); static void *ev_arg; static bool ev_ran;
void sim_event_at(int n,void (*fn)(void*),void *arg){ ev_at=n; ev_fn=n>0?fn:0; ev_arg=arg; if(n) ev_ran=false; }
bool sim_event_ran(void){ return ev_ran; }
void sim_syscall(const char *name){
  res->syscalls++; if(!sim_clock_stalled) sim_time_advance(sim_tick_ns);
  sim_log("  sys %s",name);
  if(res->syscalls>sim_budget_syscalls) sim_violation("no-progress:syscalls","more than %llu simulated system calls in one run, last %s: the call under test does not terminate",(unsigned long long)sim_budget_syscalls,name);
  if(ev_fn && --ev_at<=0){ void (*f)(void*)=ev_fn; ev_fn=0; ev_ran=true; bool on=sim_faults_raw(); sim_faults_enable(false); sim_log("  another process acts before %s",name); f(ev_arg); sim_faults_enable(on); sim_ev("other process",-78,0); }
  if(sim_crash_armed && sim_crash_at>0 && --sim_crash_at==0){ sim_crash_armed=0; res->nfault[F_CRASH]++; sim_ev("crash",-77,0); sim_log("  process dies before %s",name); longjmp(sim_crash_jmp,1); }
  thr_point();
}

// ---------------------------------------------------------------- heap used by zpl
typedef struct { void *p; size_t n; uint32_t seq; } Blk;
static Blk *blk; static size_t blkcap, blkn; static uint64_t live_bytes; static uint32_t blkseq; static uint64_t failnext;
static size_t hp(void *p){ return (size_t)(((uintptr_t)p>>4)*0x9e3779b97f4a7c15ull); }
static void blk_put(void *p,size_t n,uint32_t seq){ size_t i=hp(p)&(blkcap-1); while(blk[i].p) i=(i+1)&(blkcap-1); blk[i]=(Blk){p,n,seq}; }
static void blk_add(void *p, size_t n){ if((blkn+1)*2>blkcap){ Blk *o=blk; size_t oc=blkcap; blkcap=blkcap?blkcap*2:1024; blk=__real_calloc(blkcap,sizeof *blk); for(size_t i=0;i<oc;i++) if(o[i].p) blk_put(o[i].p,o[i].n,o[i].seq); __real_free(o);} blk_put(p,n,++blkseq); blkn++; live_bytes+=n; }
static Blk *blk_find(void *p){ if(!blkcap) return 0; size_t i=hp(p)&(blkcap-1); while(blk[i].p){ if(blk[i].p==p) return &blk[i]; i=(i+1)&(blkcap-1);} return 0; }
static void blk_del(Blk *b){ live_bytes-=b->n; blkn--; size_t i=b-blk; blk[i].p=0; size_t j=i; for(;;){ j=(j+1)&(blkcap-1); if(!blk[j].p) break; Blk t=blk[j]; blk[j].p=0; size_t k=hp(t.p)&(blkcap-1); while(blk[k].p) k=(k+1)&(blkcap-1); blk[k]=t; } }
uint64_t sim_live_blocks(void){ return blkn; }
uint64_t sim_live_bytes(void){ return live_bytes; }
uint64_t sim_heap_fail_next(uint64_t n){ uint64_t o=failnext; failnext=n; return o; }
void sim_heap_dump(void){ for(size_t i=0;i<blkcap;i++) if(blk[i].p) sim_log("  live block #%u size %zu",blk[i].seq,blk[i].n); }
#ifdef SIM_THREADS
// Arena heap with a byte shadow: instrumented accesses are checked against it.
#define ARENA ((uint8_t*)0x200000000000ull)
#define ARENA_SZ (512ull<<20)
static uint8_t *shadow; static size_t abump;
void sim_arena_init(void){ void *p=mmap(ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=ARENA) abort(); shadow=mmap(0,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); abump=64; }
void sim_shadow_check(const void *p, size_t n, int w){
  if((uint8_t*)p<ARENA||(uint8_t*)p>=ARENA+ARENA_SZ||!n) return; size_t o=(uint8_t*)p-ARENA;
  uint8_t a=shadow[o], b=shadow[o+n-1]; if(a==1&&b==1) return;
  uint8_t s=a!=1?a:b; sim_violation(s==2?"memory:heap-use-after-free":"memory:heap-buffer-overflow","instrumented %s of %zu bytes at heap offset %zu hits %s memory",w?"write":"read",n,o,s==2?"freed":"unallocated"); }
static void *raw_alloc(size_t al,size_t n){ if(al<16)al=16; size_t o=(abump+al-1)&~(al-1); if(o+n+64>ARENA_SZ){ res->status=3; strcpy(res->key,"arena-full"); _exit(0);} abump=o+n+(n>=64?320:64); memset(shadow+o,1,n); memset(ARENA+o,0xa5,n); return ARENA+o; }
static void raw_free(void *p,size_t n){ memset(shadow+((uint8_t*)p-ARENA),2,n); memset(p,0xdd,n); }
#else
void sim_arena_init(void){}
static void *raw_alloc(size_t al,size_t n){ void *p=0; if(al<16) al=16; if(posix_memalign(&p,al,n)) return 0; return p; }
static void raw_free(void *p,size_t n){ (void)n; __real_free(p); }
#endif
size_t sim_block_size(void *p){ Blk *b=blk_find(p); return b?b->n:0; }
void __asan_unpoison_memory_region(void const volatile*,size_t) __attribute__((weak));
void *__real_calloc(size_t a,size_t b){ return calloc(a,b); }
void __real_free(void *p){ free(p); }
static void *sim_alloc_al(size_t al,size_t n){
  thr_point();
  if(failnext && --failnext==0){ res->nfault[F_ALLOC]++; sim_ev("alloc-fail",-77,0); errno=ENOMEM; return 0; }
  if(sim_fault(FB(F_ALLOC))>=0){ errno=ENOMEM; return 0; }
  if(n>(1ull<<28)||live_bytes+n>(3ull<<27)){ sim_ev("huge-alloc",0,0); errno=ENOMEM; return 0; }   // the simulated machine has 384 MiB
  void *p=raw_alloc(al,n?n:1); if(!p){ errno=ENOMEM; return 0; }
  blk_add(p,n?n:1); return p; }
void *sim_malloc(size_t n){ return sim_alloc_al(16,n); }
void *sim_calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) {errno=ENOMEM;return 0;} void *p=sim_alloc_al(16,n); if(p) memset(p,0,n); return p; }
void *sim_aligned_alloc(size_t al,size_t n){ return sim_alloc_al(al,n); }
void *sim_memalign(size_t al,size_t n){ return sim_alloc_al(al,n); }
int sim_posix_memalign(void **o,size_t al,size_t n){ void *p=sim_alloc_al(al,n); if(!p) return ENOMEM; *o=p; return 0; }
void sim_free(void *p){ thr_point(); if(!p) return; Blk *b=blk_find(p); if(!b) sim_violation("memory:bad-free","free of a pointer that is not a live allocation"); size_t n=b->n; blk_del(b); raw_free(p,n); }
void *sim_realloc(void *p,size_t n); void *sim_reallocarray(void *p,size_t a,size_t b){ if(b&&a>(size_t)-1/b){ errno=ENOMEM; return 0; } return sim_realloc(p,a*b); }
void *sim_realloc(void *p,size_t n){ if(!p) return sim_malloc(n); Blk *b=blk_find(p); if(!b) sim_violation("memory:bad-free","realloc of a pointer that is not a live allocation"); size_t o=b->n; if(__asan_unpoison_memory_region) __asan_unpoison_memory_region(p,o); if(!n){ sim_free(p); return 0; } void *q=sim_malloc(n); if(!q) return 0; memcpy(q,p,o<n?o:n); sim_free(p); return q; }
char *sim_strdup(const char *s){ size_t n=strlen(s)+1; char *p=sim_malloc(n); if(p) memcpy(p,s,n); return p; }
void *sim_malloc_h(size_t n){ void *p=raw_alloc(16,n?n:1); blk_add(p,n?n:1); return p; }  // never fails: for results of simulated libc calls
bool sim_is_live(void *p){ return blk_find(p)!=0; }

void sim_unsupported(const char *n){ res->status=3; snprintf(res->key,sizeof res->key,"unsupported:%s",n); _exit(0); }

// ---------------------------------------------------------------- driver
static void child_setup(void){
  static char alt[65536]; stack_t ss={.ss_sp=alt,.ss_size=sizeof alt}; sigaltstack(&ss,0);
  struct sigaction sa={0}; sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; int sigs[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGTRAP,SIGABRT,SIGPROF};
  for(unsigned i=0;i<sizeof sigs/sizeof*sigs;i++) sigaction(sigs[i],&sa,0);
  struct itimerval it={{0,0},{6,0}}; setitimer(ITIMER_PROF,&it,0);
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_error_report_callback(on_asan); close(2); open("/dev/null",O_WRONLY);
#endif
  sim_arena_init();
  sim_mono_ns=5ull*1000000000; sim_real_ns=1700000000ull*1000000000ull;
  simthr_init(); vfs_reset(); net_reset(); pg_reset(); sys_reset();
}
static void res_clear(void){ size_t off=offsetof(SimRes,nch); memset(res,0,offsetof(SimRes,ch)); (void)off; res->log[0]=0; res->loglen=0; }
static void seed_streams(uint64_t seed,uint64_t idx){ for(int s=0;s<ST_N;s++){ uint64_t z=sim_mix(sim_mix(seed,idx),s+1); prng[s][0]=splitmix(&z); prng[s][1]=splitmix(&z)|1; } }
// run one simulated execution in a child; returns when finished
static void run_child(void){
  fflush(stdout);
  pid_t pid=fork();
  if(pid==0){ child_setup(); scenario(); sim_end(1); }
  int st; 
  while(waitpid(pid,&st,0)<0&&errno==EINTR){}
  if(res->status==0){ res->status=2; if(WIFSIGNALED(st)){ snprintf(res->key,sizeof res->key,"crash:%s",signame(WTERMSIG(st))); snprintf(res->msg,sizeof res->msg,"the simulated process died from signal %d",WTERMSIG(st)); } else if(WIFEXITED(st)&&WEXITSTATUS(st)==77) { snprintf(res->key,sizeof res->key,"memory:asan"); } else { snprintf(res->key,sizeof res->key,"exit:%d",WIFEXITED(st)?WEXITSTATUS(st):-1); snprintf(res->msg,sizeof res->msg,"the code under test exited the process"); } }
}
static void run_seed(uint64_t seed,uint64_t idx){ res_clear(); replaying=0; seed_streams(seed,idx); run_child(); }
static void run_replay(void){ res_clear(); replaying=1; run_child(); }
static void take_choices(void){ for(int s=0;s<ST_N;s++){ rpn[s]=res->nch[s]<CHCAP?res->nch[s]:CHCAP; rp[s]=realloc(rp[s],sizeof(uint32_t)*(rpn[s]+1)); memcpy(rp[s],res->ch[s],sizeof(uint32_t)*rpn[s]); } }
static void load_replay(const char *file){
  FILE *f=fopen(file,"r"); if(!f){ perror(file); exit(3); } char *line=0; size_t cap=0;
  while(getline(&line,&cap,f)>0){ for(int s=0;s<ST_N;s++){ char pre[32]; snprintf(pre,sizeof pre,"stream %s",st_names[s]); size_t l=strlen(pre); if(!strncmp(line,pre,l)&&(line[l]==' '||line[l]=='\n')){ char *p=line+l; rpn[s]=0; for(;;){ char *e; unsigned long v=strtoul(p,&e,10); if(e==p) break; rp[s]=realloc(rp[s],sizeof(uint32_t)*(rpn[s]+2)); rp[s][rpn[s]++]=v; p=e; } } } }
  free(line); fclose(f); }
static void save_replay(const char *file,const char *key,const char *msg,uint64_t hash){
  FILE *f=fopen(file,"w"); if(!f){perror(file);exit(3);} fprintf(f,"zpl-dst-replay 1\nscenario %s\nkey %s\nhash %016llx\nmessage %s\n",scenario_name,key,(unsigned long long)hash,msg);
  for(int s=0;s<ST_N;s++){ fprintf(f,"stream %s",st_names[s]); for(uint32_t i=0;i<rpn[s];i++) fprintf(f," %u",rp[s][i]); fprintf(f,"\n"); }
  fclose(f); }
static void jstr(FILE *f,const char *s){ fputc('"',f); for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }
static void print_res(FILE *f){
  fprintf(f,"{\"status\":%d,\"key\":",res->status); jstr(f,res->key); fprintf(f,",\"msg\":"); jstr(f,res->msg);
  fprintf(f,",\"hash\":\"%016llx\",\"ops\":%u,\"syscalls\":%llu,\"points\":%llu,\"switches\":%llu,\"simtime_ns\":%llu,\"faults\":{",(unsigned long long)res->hash,res->ops,(unsigned long long)res->syscalls,(unsigned long long)res->points,(unsigned long long)res->switches,(unsigned long long)res->simtime);
  int first=1; for(int i=0;i<F_N;i++) if(res->nfault[i]){ fprintf(f,"%s\"%s\":%u",first?"":",",sim_fault_names[i],res->nfault[i]); first=0; }
  fprintf(f,"},\"log\":"); jstr(f,res->log); fprintf(f,"}\n"); }
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

typedef struct { uint64_t *v; size_t cap,n; } Set;
static int set_add(Set *s,uint64_t h){ if(!h)h=1; if((s->n+1)*2>s->cap){ Set o=*s; s->cap=s->cap?s->cap*2:4096; s->v=calloc(s->cap,8); for(size_t i=0;i<o.cap;i++) if(o.v[i]){ size_t k=o.v[i]&(s->cap-1); while(s->v[k])k=(k+1)&(s->cap-1); s->v[k]=o.v[i]; } free(o.v);} size_t k=h&(s->cap-1); while(s->v[k]){ if(s->v[k]==h) return 0; k=(k+1)&(s->cap-1);} s->v[k]=h; s->n++; return 1; }

static int search(int argc,char**argv){
  // search SEED START STRIDE MAXRUNS SECONDS OUTPREFIX [knownkey...]
  uint64_t seed=strtoull(argv[2],0,10), i=strtoull(argv[3],0,10), stride=strtoull(argv[4],0,10), maxr=strtoull(argv[5],0,10); double lim=atof(argv[6]); const char *out=argv[7];
  double t0=now(); uint64_t runs=0,ok=0,disc=0,viol=0,nontriv=0,faultruns=0,sys=0,points=0,sw=0,ops=0; double simt=0; uint64_t nf[F_N]={0}; Set hs={0}, fs={0}, ns={0}; uint64_t minr=getenv("SIM_MINRUNS")?strtoull(getenv("SIM_MINRUNS"),0,10):0; double hard=lim*4+20; 
  struct { char name[40]; uint64_t n; } pr[64]={0}; struct { char key[96]; uint64_t n; uint64_t idx[4]; char msg[512]; } vk[32]={0}; int nvk=0; int newv=0;
  struct { char key[96]; } samples[1]; (void)samples;
  for(;runs<maxr && (now()-t0<lim || (runs<minr && now()-t0<hard));i+=stride){
    run_seed(seed,i); runs++;
    if(res->status==3){ disc++; continue; }
    ops+=res->ops; sys+=res->syscalls; points+=res->points; sw+=res->switches; simt+=res->simtime*1e-9-5; int ff=0; for(int k=0;k<F_N;k++){ nf[k]+=res->nfault[k]; if(k!=F_PREEMPT&&res->nfault[k]) ff=1; } faultruns+=ff;
    int isnew=set_add(&hs,res->hash); if(isnew && (res->nontrivial || (res->ops>=2 && (ff || res->switches>2)))) { nontriv++; set_add(&ns,res->hash); }
    for(uint32_t k=0;k<res->nfeat;k++) set_add(&fs,res->feat[k]);
    for(int k=0;k<NPROBE&&res->probe[k].name[0];k++) for(int j=0;j<64;j++){ if(!pr[j].name[0]) strcpy(pr[j].name,res->probe[k].name); if(!strcmp(pr[j].name,res->probe[k].name)){ pr[j].n+=res->probe[k].n; break; } }
    if(res->status==1){ ok++; continue; }
    viol++;
    int j; for(j=0;j<nvk;j++) if(!strcmp(vk[j].key,res->key)) break;
    if(j==nvk){ if(nvk==32) continue; nvk++; strcpy(vk[j].key,res->key); snprintf(vk[j].msg,sizeof vk[j].msg,"%s",res->msg); int known=0; for(int a=8;a<argc;a++) if(!strcmp(argv[a],res->key)) known=1; if(!known) newv=1; }
    if(vk[j].n<4) vk[j].idx[vk[j].n]=i;
    vk[j].n++;
    if(newv && !getenv("SIM_KEEP_GOING") ){ break; }
  }
  char fn[512]; snprintf(fn,sizeof fn,"%s.hashes",out); FILE *f=fopen(fn,"wb"); for(size_t k=0;k<hs.cap;k++) if(hs.v[k]) fwrite(&hs.v[k],8,1,f); fclose(f);
  snprintf(fn,sizeof fn,"%s.feats",out); f=fopen(fn,"wb"); for(size_t k=0;k<fs.cap;k++) if(fs.v[k]) fwrite(&fs.v[k],8,1,f); fclose(f);
  snprintf(fn,sizeof fn,"%s.nt",out); f=fopen(fn,"wb"); for(size_t k=0;k<ns.cap;k++) if(ns.v[k]) fwrite(&ns.v[k],8,1,f); fclose(f);
  snprintf(fn,sizeof fn,"%s.json",out); f=fopen(fn,"w");
  fprintf(f,"{\"runs\":%llu,\"ok\":%llu,\"discarded\":%llu,\"violating\":%llu,\"nontrivial\":%llu,\"fault_runs\":%llu,\"ops\":%llu,\"syscalls\":%llu,\"points\":%llu,\"switches\":%llu,\"simtime_s\":%.6f,\"wall\":%.3f,\"next\":%llu,\"faults\":{",(unsigned long long)runs,(unsigned long long)ok,(unsigned long long)disc,(unsigned long long)viol,(unsigned long long)nontriv,(unsigned long long)faultruns,(unsigned long long)ops,(unsigned long long)sys,(unsigned long long)points,(unsigned long long)sw,simt,now()-t0,(unsigned long long)i);
  int first=1; for(int k=0;k<F_N;k++) if(nf[k]){ fprintf(f,"%s\"%s\":%llu",first?"":",",sim_fault_names[k],(unsigned long long)nf[k]); first=0; }
  fprintf(f,"},\"probes\":{"); first=1; for(int j=0;j<64&&pr[j].name[0];j++){ fprintf(f,"%s",first?"":","); jstr(f,pr[j].name); fprintf(f,":%llu",(unsigned long long)pr[j].n); first=0; }
  fprintf(f,"},\"violations\":["); for(int j=0;j<nvk;j++){ fprintf(f,"%s{\"key\":",j?",":""); jstr(f,vk[j].key); fprintf(f,",\"msg\":"); jstr(f,vk[j].msg); fprintf(f,",\"n\":%llu,\"idx\":[",(unsigned long long)vk[j].n); for(unsigned k=0;k<vk[j].n&&k<4;k++) fprintf(f,"%s%llu",k?",":"",(unsigned long long)vk[j].idx[k]); fprintf(f,"]}"); }
  fprintf(f,"]}\n"); fclose(f); return 0;
}
static char mkey[96]; static double mdead; static uint64_t mtries;
static int attempt(int s,uint32_t *nv,uint32_t nn){ // try stream s replaced
  if(now()>mdead) return 0; mtries++;
  uint32_t *ov=rp[s], on=rpn[s]; rp[s]=nv; rpn[s]=nn; run_replay(); int good=res->status==2&&!strcmp(res->key,mkey); 
  if(good){ free(ov); return 1; } rp[s]=ov; rpn[s]=on; return 0; }
static uint32_t *dupv(const uint32_t *v,uint32_t n){ uint32_t *r=malloc(sizeof(uint32_t)*(n+1)); memcpy(r,v,sizeof(uint32_t)*n); return r; }
static int minimise(int argc,char**argv){ // minimise IN OUT SECONDS
  (void)argc; load_replay(argv[2]); mdead=now()+atof(argv[4]); run_replay(); if(res->status!=2){ fprintf(stderr,"does not reproduce\n"); return 4; } strcpy(mkey,res->key); take_choices();
  int progress=1; int order[ST_N]={ST_FAULT,ST_SCHED,ST_OP,ST_DATA,ST_CFG};
  while(progress&&now()<mdead){ progress=0;
    for(int oi=0;oi<ST_N;oi++){ int s=order[oi];
      if(rpn[s]){ uint32_t *e=malloc(8); if(attempt(s,e,0)){progress=1;continue;} free(e); }
      for(uint32_t sz=rpn[s]/2+1;sz>=1;sz/=2){ for(uint32_t at=rpn[s];at>0&&now()<mdead;){ uint32_t st=at>sz?at-sz:0; uint32_t k=at-st; if(st+k>rpn[s]){at=rpn[s];if(!at)break;continue;} uint32_t *v=malloc(sizeof(uint32_t)*(rpn[s]+1)); memcpy(v,rp[s],sizeof(uint32_t)*st); memcpy(v+st,rp[s]+st+k,sizeof(uint32_t)*(rpn[s]-st-k)); uint32_t nn=rpn[s]-k; if(attempt(s,v,nn)) progress=1; else free(v); at=st; } if(sz==1)break; }
      for(uint32_t i=0;i<rpn[s]&&now()<mdead;i++) if(rp[s][i]){ uint32_t *v=dupv(rp[s],rpn[s]); v[i]=0; if(attempt(s,v,rpn[s])){progress=1;continue;} free(v); if(rp[s][i]>1){ v=dupv(rp[s],rpn[s]); v[i]=rp[s][i]/2; if(attempt(s,v,rpn[s])){progress=1;i--;continue;} free(v); v=dupv(rp[s],rpn[s]); v[i]=rp[s][i]-1; if(attempt(s,v,rpn[s])){progress=1;i--;continue;} free(v);} }
      uint32_t z=rpn[s]; while(z&&rp[s][z-1]==0) z--; rpn[s]=z;
    } }
  run_replay(); if(res->status!=2||strcmp(res->key,mkey)){ fprintf(stderr,"minimised trace lost the violation\n"); return 4; }
  for(int s=0;s<ST_N;s++) if(rpn[s]>res->nch[s]) rpn[s]=res->nch[s];
  save_replay(argv[3],res->key,res->msg,res->hash); fprintf(stderr,"minimise: %llu candidates\n",(unsigned long long)mtries); return 0; }

int main(int argc,char**argv){
  if(!getenv("SIM_REEXEC")){ int p=personality(0xffffffff); if(p!=-1&&!(p&ADDR_NO_RANDOMIZE)){ if(personality(p|ADDR_NO_RANDOMIZE)!=-1){ setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",argv); } } }
  res=mmap(0,sizeof(SimRes),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  setenv("TZ","UTC0",1);
  sim_verbose = getenv("SIM_VERBOSE")?atoi(getenv("SIM_VERBOSE")):0;
  if(argc<2) return 3;
  if(!strcmp(argv[1],"search")) return search(argc,argv);
  if(!strcmp(argv[1],"one")){ run_seed(strtoull(argv[2],0,10),strtoull(argv[3],0,10)); print_res(stdout); if(argc>4&&res->status==2){ take_choices(); save_replay(argv[4],res->key,res->msg,res->hash);} return 0; }
  if(!strcmp(argv[1],"hashes")){ uint64_t seed=strtoull(argv[2],0,10),a=strtoull(argv[3],0,10),n=strtoull(argv[4],0,10); for(uint64_t i=a;i<a+n;i++){ run_seed(seed,i); printf("%llu %d %016llx %s\n",(unsigned long long)i,res->status,(unsigned long long)res->hash,res->key); } return 0; }
  if(!strcmp(argv[1],"replay")){ load_replay(argv[2]); run_replay(); print_res(stdout); return 0; }
  if(!strcmp(argv[1],"minimise")) return minimise(argc,argv);
  return 3;
}
