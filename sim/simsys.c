// Simulated machine: processors and thread pinning, and dynamic libraries.
#define _GNU_SOURCE
#include "sim.h"
#include "simint.h"
#include <errno.h>
#include <sched.h>
#include <pthread.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#define NCPU 2048
#define NW (NCPU/64)
typedef struct { uint64_t w[NW]; } Mask;
#define NTH 64
static Mask online={{0xf}}, mask_[NTH]; static bool set_[NTH]; static int conf=4, pinned[NTH];
static int popc(const Mask *m){ int n=0; for(int k=0;k<NW;k++) n+=__builtin_popcountll(m->w[k]); return n; }
static int lowest(const Mask *m){ for(int k=0;k<NW;k++) if(m->w[k]) return k*64+__builtin_ctzll(m->w[k]); return -1; }
// ---------------------------------------------------------------- libraries
#define NLIB 6
#define NSYM 8
typedef struct { char path[64]; int refs; bool present; int nsym; struct { char name[40]; void *addr; } s[NSYM]; uint64_t token; bool stays; } Lib;
static Lib libs[NLIB]; static int nlib; static const char *dlerr;
void sys_reset(void){ memset(&online,0,sizeof online); online.w[0]=0xf; conf=4; memset(set_,0,sizeof set_); memset(pinned,0,sizeof pinned); memset(libs,0,sizeof libs); nlib=0; dlerr=0; }
// n processors numbered from 0; when hole>=0 that number is left out
void cpu_setup(int n,int hole,int configured){ memset(&online,0,sizeof online); for(int k=0;n>0;k++) if(k!=hole){ online.w[k/64]|=1ull<<(k%64); n--; } conf=configured; }
static const Mask *eff(int t){ return set_[t]?&mask_[t]:&online; }
int cpu_may(int t){ return popc(eff(t)); }
int cpu_first(int t){ return lowest(eff(t)); }
uint64_t cpu_hash(int t){ return sim_hash(eff(t),sizeof(Mask)); }
long sim_sysconf(int n){ sim_syscall("sysconf"); if(n==_SC_PAGESIZE) return 4096;
  if(n==_SC_NPROCESSORS_ONLN||n==_SC_NPROCESSORS_CONF){ if(sim_fault(FB(F_SYSCONF))>=0) return ch(ST_DATA,2)?-1:0; return n==_SC_NPROCESSORS_ONLN?popc(&online):conf; }
  return -1; }
int sim_get_nprocs(void){ return popc(&online); } int sim_get_nprocs_conf(void){ return conf; }
static int setaff(int t,size_t sz,const void *m){ sim_syscall("sched_setaffinity"); if(t<0||t>=NTH){ errno=ESRCH; return -1; } Mask v; memset(&v,0,sizeof v); memcpy(&v,m,sz<sizeof v?sz:sizeof v);
  if(sim_fault(FB(F_AFFINITY))>=0){ errno=EPERM; return -1; } for(int k=0;k<NW;k++) v.w[k]&=online.w[k]; if(lowest(&v)<0){ errno=EINVAL; return -1; } mask_[t]=v; set_[t]=true; pinned[t]++; sim_ev("pin",t,lowest(&v)*10000+popc(&v)); return 0; }
static int getaff(int t,size_t sz,void *m){ sim_syscall("sched_getaffinity"); if(t<0||t>=NTH){ errno=ESRCH; return -1; } int top=0; for(int k=0;k<NW;k++) if(online.w[k]) top=k; if(sz<(size_t)(top+1)*8){ errno=EINVAL; return -1; } Mask v=*eff(t); memset(m,0,sz); memcpy(m,&v,sz<sizeof v?sz:sizeof v); return 0; }
int sim_gettid(void);
pthread_t sim_pthread_self(void);
static int tid(pid_t p){ return p==0?thr_self():(int)p-(sim_gettid()-thr_self()); }
static int ptid(pthread_t p){ return (int)((intptr_t)p-(intptr_t)sim_pthread_self())+thr_self(); }
int sim_sched_setaffinity(pid_t p,size_t sz,const cpu_set_t *m){ return setaff(tid(p),sz,m); }
int sim_sched_getaffinity(pid_t p,size_t sz,cpu_set_t *m){ return getaff(tid(p),sz,m); }
int sim_pthread_setaffinity_np(pthread_t p,size_t sz,const cpu_set_t *m){ return setaff(ptid(p),sz,m)?errno:0; }
int sim_pthread_getaffinity_np(pthread_t p,size_t sz,cpu_set_t *m){ return getaff(ptid(p),sz,m)?errno:0; }
int sim_sched_getcpu(void){ return cpu_first(thr_self()); }
// ---------------------------------------------------------------- dlopen
int vdl_add(const char *path){ Lib *l=&libs[nlib]; memset(l,0,sizeof *l); snprintf(l->path,sizeof l->path,"%s",path); l->present=true; return nlib++; }
void vdl_sym(int k,const char *name,void *addr){ Lib *l=&libs[k]; snprintf(l->s[l->nsym].name,40,"%s",name); l->s[l->nsym++].addr=addr; }
void vdl_present(int k,bool on){ libs[k].present=on; }
int vdl_refs(int k){ return libs[k].refs; }
void *vdl_handle(int k){ return &libs[k].token; }
static Lib *lib(void *h,const char *op){ for(int k=0;k<nlib;k++) if(h==&libs[k].token){ if(!libs[k].refs) sim_violation("dl:stale-handle","%s of a library that has been unloaded",op); return &libs[k]; } sim_violation("dl:bad-handle","%s of a handle the system never gave out",op); return 0; }
void *sim_dlopen(const char *p,int fl){ sim_syscall("dlopen"); sim_log("    dlopen(\"%s\", %#x)",p?p:"(null)",fl); if(!(fl&(RTLD_LAZY|RTLD_NOW))){ dlerr="invalid mode for dlopen()"; return 0; }
  if(sim_fault(FB(F_DLOPEN))>=0){ dlerr="cannot open shared object file"; return 0; }
  for(int k=0;k<nlib;k++) if(!strcmp(libs[k].path,p?p:"")&&(libs[k].present||libs[k].refs)){ if((fl&RTLD_NOLOAD)&&!libs[k].refs) return 0; libs[k].refs+=1+((fl&RTLD_NODELETE)&&!libs[k].stays); if(fl&RTLD_NODELETE) libs[k].stays=true; sim_ev("dlopen",k,libs[k].refs); return &libs[k].token; }
  dlerr="cannot open shared object file"; return 0; }
int sim_dlclose(void *h){ sim_syscall("dlclose"); Lib *l=lib(h,"dlclose"); l->refs--; sim_ev("dlclose",(int64_t)(l-libs),l->refs); return 0; }
void *sim_dlsym(void *h,const char *n){ sim_syscall("dlsym"); if(!h||h==RTLD_NEXT){ for(int k=0;k<nlib;k++) if(libs[k].refs) for(int i=0;i<libs[k].nsym;i++) if(!strcmp(libs[k].s[i].name,n)) return libs[k].s[i].addr; return 0; }
  Lib *l=lib(h,"dlsym"); for(int i=0;i<l->nsym;i++) if(!strcmp(l->s[i].name,n)) return l->s[i].addr; dlerr="undefined symbol"; return 0; }
char *sim_dlerror(void){ char *e=(char*)dlerr; dlerr=0; return e; }
