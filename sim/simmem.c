// Simulated page mappings: mmap / munmap / madvise / mprotect over one reserved region.
#define _GNU_SOURCE
#include "sim.h"
#include "simint.h"
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#define BASE ((uint8_t*)0x400000000000ull)
#define NP 16384
#define PG 4096
static uint8_t st[NP]; static uint32_t purges[NP]; static bool inited, reuse; static size_t bump=16; static int foreign; static char fdesc[160];
void pg_reset(void){ memset(st,0,sizeof st); memset(purges,0,sizeof purges); inited=false; reuse=false; bump=16; foreign=0; }
static void init(void){ if(inited) return; inited=true; void *p=mmap(BASE,(size_t)NP*PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=BASE){ res->status=3; strcpy(res->key,"region"); _exit(0); } }
void pg_set_reuse(bool on){ reuse=on; }
bool pg_is_mapped(const void *p,size_t n){ uintptr_t a=(uintptr_t)p-(uintptr_t)BASE; if((uint8_t*)p<BASE||a+n>(size_t)NP*PG) return false; for(size_t i=a/PG;i<(a+n+PG-1)/PG;i++) if(!st[i]) return false; return true; }
size_t pg_mapped_bytes(void){ size_t n=0; for(int i=0;i<NP;i++) n+=st[i]?PG:0; return n; }
int pg_foreign(void){ return foreign; } const char *pg_foreign_desc(void){ return fdesc; }
uint64_t pg_purged(const void *p){ uintptr_t a=(uintptr_t)p-(uintptr_t)BASE; return a<(size_t)NP*PG?purges[a/PG]:0; }
static void bad(const char *op,const void *a,size_t n){ foreign++; if(foreign==1) snprintf(fdesc,sizeof fdesc,"%s(region%+lld, %zu)",op,(long long)((uint8_t*)a-BASE),n); sim_log("  foreign %s",fdesc); }
void *sim_mmap(void *hint,size_t len,int prot,int fl,int fd,int64_t off){ (void)fd;(void)off; init(); sim_syscall("mmap");
  if(len==0){ errno=EINVAL; return MAP_FAILED; } if(sim_fault(FB(F_MMAP))>=0||len>(size_t)NP*PG){ errno=ENOMEM; return MAP_FAILED; } size_t np=(len+PG-1)/PG; 
  size_t at=0; if(hint&&(fl&MAP_FIXED)){ uintptr_t a=(uintptr_t)hint-(uintptr_t)BASE; if((uint8_t*)hint<BASE||a%PG||a/PG+np>NP){ bad("mmap fixed",hint,len); errno=EINVAL; return MAP_FAILED; } for(size_t i=0;i<np;i++) if(st[a/PG+i]) bad("mmap fixed over",hint,len); at=a/PG; madvise(hint,np*PG,MADV_DONTNEED); goto got; }
  if(hint){ uintptr_t a=(uintptr_t)hint-(uintptr_t)BASE; if((uint8_t*)hint>=BASE&&a%PG==0&&a/PG+np<NP){ bool ok=true; for(size_t i=0;i<np;i++) if(st[a/PG+i]) ok=false; if(ok) at=a/PG; } }
  if(!at&&reuse){ for(size_t i=16;i+np<NP&&!at;i++){ size_t k=0; while(k<np&&!st[i+k]) k++; if(k==np) at=i; else i+=k; } }
  if(!at){ at=bump; if(at+np+2>NP){ errno=ENOMEM; return MAP_FAILED; } } if(at+np>=bump) bump=at+np+ch(ST_DATA,3);
got: mprotect(BASE+at*PG,np*PG,prot&~PROT_EXEC); for(size_t i=0;i<np;i++){ st[at+i]=1; purges[at+i]=0; } sim_ev("mmap",(int64_t)at,(int64_t)np); return BASE+at*PG; }
void *sim_mmap64(void *h,size_t l,int p,int f,int fd,int64_t o){ return sim_mmap(h,l,p,f,fd,o); }
static int range(const char *op,void *a,size_t len,size_t *s,size_t *n){ uintptr_t o=(uintptr_t)a-(uintptr_t)BASE; if((uintptr_t)a%PG||len==0){ errno=EINVAL; return -1; } size_t np=(len+PG-1)/PG; if((uint8_t*)a<BASE||o/PG+np>NP){ bad(op,a,len); errno=EINVAL; return -1; } *s=o/PG; *n=np; for(size_t i=0;i<np;i++) if(!st[*s+i]){ bad(op,a,len); break; } return 0; }
int sim_munmap(void *a,size_t len){ init(); sim_syscall("munmap"); size_t s,n; if(range("munmap",a,len,&s,&n)) return -1; if(sim_fault(FB(F_MUNMAP))>=0){ errno=ENOMEM; return -1; } sim_ev("munmap",(int64_t)s,(int64_t)n); madvise(BASE+s*PG,n*PG,MADV_DONTNEED); mprotect(BASE+s*PG,n*PG,PROT_NONE); for(size_t i=0;i<n;i++) st[s+i]=0; return 0; }
int sim_madvise(void *a,size_t len,int adv){ init(); sim_syscall("madvise"); size_t s,n; if(range("madvise",a,len,&s,&n)) return -1; if(sim_fault(FB(F_MADVISE))>=0){ errno=EAGAIN; return -1; } sim_ev("madvise",(int64_t)s,adv); for(size_t i=0;i<n;i++) if(!st[s+i]){ errno=ENOMEM; return -1; } if(adv==MADV_DONTNEED||adv==MADV_FREE) { for(size_t i=0;i<n;i++) purges[s+i]++; madvise(BASE+s*PG,n*PG,MADV_DONTNEED); } return 0; }
int sim_posix_madvise(void *a,size_t l,int adv){ return sim_madvise(a,l,adv)?errno:0; }
int sim_mprotect(void *a,size_t l,int p){ init(); size_t s,n; if(range("mprotect",a,l,&s,&n)) return -1; return mprotect(a,l,p); }
void *sim_mremap(void *a,size_t o,size_t n,int f,...){ (void)a;(void)o;(void)n;(void)f; errno=ENOMEM; return MAP_FAILED; }
