// In-memory file system, descriptors, directories, FILE*, pipes from commands - with fault injection.
#define _GNU_SOURCE
#define __USE_LARGEFILE64
#include "sim.h"
#include "simint.h"
#include "simfd.h"
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <limits.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <time.h>

typedef struct Ino Ino; typedef struct { char *name; Ino *ino; } Ent;
typedef struct Pg { int64_t no; struct Pg *next; uint8_t d[4096]; } Pg;   // what a very long (sparse) file holds
#define BIG_FILE ((size_t)1<<26)
#define MAX_FILE ((int64_t)1<<43)
struct Ino { Pg *pg; bool big; int type; uint8_t *data; size_t size, cap; int nlink, refs; int64_t mtime, ctime; uint32_t mnsec; bool ro; uint32_t num; unsigned smode, perm; bool wo; Ent *ent; int nent, cent; Ino *parent; char *target; };
static Ino *root, *cwd; static uint32_t inonum; static int64_t disk_free=-1; static bool dtype_unknown;
static char sandbox[512]; static int escapes; static char escape_path[600];
XFd simfds[SIM_MAXFD]; int vfs_stdout_kind; static int open_dirs;
static struct { uint8_t *p; size_t n, cap; } cap_[3];
static struct { char *cmd; uint8_t *out; size_t n; } cmds[8]; static int ncmds, pipes_open, pclosed;
#define ST_BLOCK 0

static Ino *ino_new(int type){ Ino *i=__real_calloc(1,sizeof *i); i->type=type; i->num=++inonum; i->mtime=i->ctime=sim_real_ns/1000000000ull; i->mnsec=sim_real_ns%1000000000ull; return i; }
static void touch(Ino *i){ i->mtime=i->ctime=sim_real_ns/1000000000ull; i->mnsec=sim_real_ns%1000000000ull; }
static Ent *ent_find(Ino *d,const char *n,size_t l){ for(int i=0;i<d->nent;i++) if(strlen(d->ent[i].name)==l&&!memcmp(d->ent[i].name,n,l)) return &d->ent[i]; return 0; }
static void ent_add(Ino *d,const char *n,size_t l,Ino *i){ if(d->nent==d->cent){ d->cent=d->cent?d->cent*2:8; Ent *e=__real_calloc(d->cent,sizeof *e); if(d->nent) memcpy(e,d->ent,sizeof(Ent)*d->nent); __real_free(d->ent); d->ent=e; } char *s=__real_calloc(1,l+1); memcpy(s,n,l); d->ent[d->nent++]=(Ent){s,i}; i->nlink++; if(i->type==2) i->parent=d; i->ctime=sim_real_ns/1000000000ull; touch(d); }
static void pg_free(Ino *i){ while(i->pg){ Pg *n=i->pg->next; __real_free(i->pg); i->pg=n; } i->big=false; }
static void ino_put(Ino *i){ if(i->nlink<=0&&i->refs<=0&&i->type!=2){ if(disk_free>=0) disk_free+=(int64_t)i->size; __real_free(i->data); pg_free(i); i->data=0; i->size=i->cap=0; } }
static void ent_del(Ino *d,Ent *e){ Ino *i=e->ino; __real_free(e->name); int k=e-d->ent; d->ent[k]=d->ent[--d->nent]; i->nlink--; touch(d); ino_put(i); }
// walk: returns inode or null with errno; on parent wish fills *dir and last component
static Ino *walk2(const char *path,Ino **dir,const char **last,size_t *llen,bool follow,int depth){
  if(dir)*dir=0; 
  if(!path){ errno=EFAULT; return 0; } if(!*path){ errno=ENOENT; return 0; } if(strlen(path)>=4096){ errno=ENAMETOOLONG; return 0; }
  Ino *at=path[0]=='/'?root:cwd; const char *p=path; 
  for(;;){ while(*p=='/') p++; if(!*p){ if(dir&&!*dir){ *dir=at; *last="."; *llen=1; } return at; }
    const char *e=strchrnul(p,'/'); size_t l=e-p; if(l>255){ errno=ENAMETOOLONG; return 0; }
    if(at->type!=2){ errno=ENOTDIR; return 0; }
    const char *r=e; while(*r=='/') r++; bool fin=!*r;
    Ino *nx; if(l==1&&p[0]=='.') nx=at; else if(l==2&&p[0]=='.'&&p[1]=='.') nx=at->parent; else { Ent *x=ent_find(at,p,l); nx=x?x->ino:0; }
    if(nx&&nx->type==3&&(!fin||follow)){ if(depth>8){errno=ELOOP;return 0;} Ino *sv=cwd; cwd=at; Ino *t=walk2(nx->target,0,0,0,true,depth+1); cwd=sv; if(!t) { if(fin&&dir){*dir=0;} return 0; } nx=t; }
    if(fin){ if(dir){ *dir=at; *last=p; *llen=l; } if(!nx){ errno=ENOENT; return 0; } if(*e=='/'&&nx->type!=2){ errno=ENOTDIR; return 0; } return nx; }
    if(!nx){ errno=ENOENT; return 0; } at=nx; p=e; } }
static Ino *walk(const char *path,Ino **dir,const char **last,size_t *llen){ return walk2(path,dir,last,llen,true,0); }
static Ino *lwalk(const char *path,Ino **dir,const char **last,size_t *llen){ return walk2(path,dir,last,llen,false,0); }
static void abspath(Ino *d,char *b,size_t cap){ if(d==root||!d){ snprintf(b,cap,"/"); return; } char t[4200]; abspath(d->parent,t,sizeof t); for(int i=0;i<d->parent->nent;i++) if(d->parent->ent[i].ino==d){ snprintf(b,cap,"%s%s%s",t,t[1]?"/":"",d->parent->ent[i].name); return; } snprintf(b,cap,"?"); }
static void mutated(Ino *dir,const char *last,size_t l){ if(!sandbox[0]) return; char d[4200],f[4600]; abspath(dir,d,sizeof d); snprintf(f,sizeof f,"%s%s%.*s",d,d[1]?"/":"",(int)l,last?last:""); size_t n=strlen(sandbox); if(strncmp(f,sandbox,n)||(f[n]&&f[n]!='/')){ escapes++; if(escapes==1) snprintf(escape_path,sizeof escape_path,"%.500s",f); sim_log("  ESCAPE %s",f); } }
void vfs_set_sandbox(const char *p){ snprintf(sandbox,sizeof sandbox,"%s",p?p:""); escapes=0; escape_path[0]=0; }
int vfs_escapes(void){ return escapes; } const char *vfs_escape_path(void){ return escape_path; }
void vfs_set_dtype_unknown(bool on){ dtype_unknown=on; }
void vfs_reset(void){ root=ino_new(2); root->parent=root; root->nlink=1; memset(simfds,0,sizeof simfds); for(int i=0;i<3;i++){ simfds[i].kind=i?FD_CAP:FD_NULL; simfds[i].refs=1; } vfs_mkdirs("/w"); vfs_mkdirs("/tmp"); cwd=walk("/w",0,0,0); disk_free=-1; sandbox[0]=0; escapes=0; }
void vfs_mkdirs(const char *path){ char b[4200]; snprintf(b,sizeof b,"%s",path); for(char *p=b+1;;p++) if(*p=='/'||!*p){ char c=*p; *p=0; Ino *d; const char *l; size_t ll; if(!walk(b,&d,&l,&ll)){ Ino *i=ino_new(2); ent_add(d,l,ll,i); } if(!c) break; *p=c; if(!p[1]) break; } }
static Pg *pg_at(Ino *i,int64_t no,bool make){ for(Pg *p=i->pg;p;p=p->next) if(p->no==no) return p; if(!make) return 0; Pg *p=__real_calloc(1,sizeof *p); p->no=no; p->next=i->pg; i->pg=p; return p; }
static void ino_copy(Ino *i,int64_t off,uint8_t *b,size_t n,bool in){ if(!i->big){ if(in){ memcpy(i->data+off,b,n); return; } if(i->data) sim_memcpy(b,i->data+off,n); else memset(b,0,n); return; }
  while(n){ size_t o=(size_t)(off&4095),k=4096-o<n?4096-o:n; Pg *p=pg_at(i,off>>12,in); if(in) memcpy(p->d+o,b,k); else if(p) sim_memcpy(b,p->d+o,k); else memset(b,0,k); off+=k; b+=k; n-=k; } }
static void grow(Ino *i,size_t n);
// give the file the size n; what is beyond the old end reads as zeros
static void ino_resize(Ino *i,size_t n){
  if(!i->big&&n>BIG_FILE){ Pg *pg=0; size_t have=i->size; uint8_t *d=i->data; i->pg=pg; i->big=true; i->data=0; i->cap=0; if(d) ino_copy(i,0,d,have,true); __real_free(d); }
  if(!i->big){ grow(i,n); i->size=n; return; }
  if(n<i->size) for(Pg **q=&i->pg;*q;){ Pg *p=*q; if(p->no*4096>=(int64_t)n){ *q=p->next; __real_free(p); continue; } if((p->no+1)*4096>(int64_t)n) memset(p->d+(n&4095),0,4096-(n&4095)); q=&p->next; }
  i->size=n; if(n<=BIG_FILE){ Pg *pg=i->pg; i->pg=0; i->big=false; i->size=0; grow(i,n); i->size=n; while(pg){ size_t o=(size_t)pg->no*4096; memcpy(i->data+o,pg->d,n-o<4096?n-o:4096); Pg *x=pg->next; __real_free(pg); pg=x; } } }
static void grow(Ino *i,size_t n){ if(n>i->cap){ size_t c=i->cap?i->cap:256; while(c<n)c*=2; uint8_t *d=__real_calloc(1,c); if(i->size) memcpy(d,i->data,i->size); __real_free(i->data); i->data=d; i->cap=c; } if(n>i->size) memset(i->data+i->size,0,n-i->size); }
void vfs_write_file(const char *path,const void *data,size_t n){ char b[4200]; snprintf(b,sizeof b,"%s",path); char *s=strrchr(b,'/'); if(s&&s!=b){ *s=0; vfs_mkdirs(b); } Ino *d; const char *l; size_t ll; Ino *i=walk(path,&d,&l,&ll); if(!i){ if(!d) return; i=ino_new(1); ent_add(d,l,ll,i); } pg_free(i); i->size=0; grow(i,n); i->size=n; if(n) memcpy(i->data,data,n); touch(i); }
bool vfs_exists(const char *p){ return walk(p,0,0,0)!=0; }
int vfs_type(const char *p){ Ino *i=walk(p,0,0,0); return i?i->type:0; }
long vfs_size(const char *p){ Ino *i=walk(p,0,0,0); return i?(long)i->size:-1; }
const void *vfs_data(const char *p,size_t *n){ Ino *i=walk(p,0,0,0); if(!i||i->type!=1) return 0; *n=i->size; return i->data?i->data:(const void*)""; }
long vfs_read_file(const char *p,void *b,size_t c){ size_t n; const void *d=vfs_data(p,&n); if(!d) return -1; memcpy(b,d,n<c?n:c); return (long)n; }
void vfs_unlink(const char *p){ Ino *d; const char *l; size_t ll; Ino *i=lwalk(p,&d,&l,&ll); if(i){ Ent *e=ent_find(d,l,ll); if(e) ent_del(d,e); } }
void vfs_symlink(const char *target,const char *p){ Ino *d; const char *l; size_t ll; if(!lwalk(p,&d,&l,&ll)&&d){ Ino *i=ino_new(3); i->target=__real_calloc(1,strlen(target)+1); strcpy(i->target,target); ent_add(d,l,ll,i);} }
void vfs_sparse(const char *p,int64_t n){ vfs_write_file(p,"",0); Ino *i=walk(p,0,0,0); ino_resize(i,(size_t)n); }
void vfs_special(const char *p,unsigned mode){ Ino *d; const char *l; size_t ll; if(!lwalk(p,&d,&l,&ll)&&d){ Ino *i=ino_new(4); i->smode=mode; ent_add(d,l,ll,i);} }
void vfs_link(const char *a,const char *b){ Ino *i=lwalk(a,0,0,0),*d; const char *l; size_t ll; if(i&&!lwalk(b,&d,&l,&ll)&&d) ent_add(d,l,ll,i); }
void vfs_rename(const char *a,const char *b){ Ino *da,*db; const char *la,*lb; size_t na,nb; Ino *i=lwalk(a,&da,&la,&na); if(!i) return; Ino *j=lwalk(b,&db,&lb,&nb); if(!db) return; if(j) ent_del(db,ent_find(db,lb,nb)); i->nlink++; Ent *e=ent_find(da,la,na); ent_del(da,e); ent_add(db,lb,nb,i); i->nlink--; }
void vfs_set_mtime(const char *p,int64_t t){ Ino *i=walk(p,0,0,0); if(i){ i->mtime=t; i->mnsec=0; i->ctime=sim_real_ns/1000000000ull; } }
int64_t vfs_mtime(const char *p){ Ino *i=walk(p,0,0,0); return i?i->mtime:-1; }
bool vfs_peek(const char *p,int64_t off,void *b,size_t n){ Ino *i=walk(p,0,0,0); if(!i||i->type!=1) return false; memset(b,0,n); size_t av=(size_t)off<i->size?i->size-(size_t)off:0; if(n>av) n=av; if(n) ino_copy(i,off,b,n,false); return true; }
int vfs_nlink(const char *p){ Ino *i=walk(p,0,0,0); return i?i->nlink:-1; }
void vfs_set_readonly(const char *p,bool ro){ Ino *i=walk(p,0,0,0); if(i) i->ro=ro; }
void vfs_set_disk(int64_t n){ disk_free=n; }
int64_t vfs_disk(void){ return disk_free; }
void vfs_set_perm(const char *p,unsigned m){ Ino *i=walk(p,0,0,0); if(i){ i->perm=m; i->ro=!(m&0200); i->wo=!(m&0400); } }
unsigned vfs_perm(const char *p){ Ino *i=walk(p,0,0,0); return i?i->perm:0; }   // permission bits given at creation (the umask is 022)
void vfs_close_std(int n){ for(int i=0;i<n;i++) simfds[i].kind=0; }
void vfs_close_stdin(void){ vfs_close_std(1); }
int vfs_open_fds(void){ int n=0; for(int i=0;i<3;i++) n+=simfds[i].kind==FD_FILE; for(int i=3;i<SIM_MAXFD;i++) if(simfds[i].kind) n++; return n; }
int vfs_open_dirs(void){ return open_dirs; }
static void lst(Ino *d,char *pre,void (*cb)(const char*,int,void*),void *u){ size_t l=strlen(pre); for(int i=0;i<d->nent;i++){ snprintf(pre+l,4096-l,"/%s",d->ent[i].name); cb(pre,d->ent[i].ino->type,u); if(d->ent[i].ino->type==2) lst(d->ent[i].ino,pre,cb,u); pre[l]=0; } }
void vfs_list(void (*cb)(const char*,int,void*),void *u){ static char pre[4100]; pre[0]=0; lst(root,pre,cb,u); }
static uint64_t hd(Ino *d){ uint64_t h=0; for(int i=0;i<d->nent;i++){ Ino *x=d->ent[i].ino; h+=sim_mix(sim_hash(d->ent[i].name,strlen(d->ent[i].name)),x->type==2?hd(x):x->big?x->size:sim_hash(x->data,x->size)); } return h; }
uint64_t vfs_hash(void){ return hd(root); }
long vfs_captured(int fd,void *b,size_t c){ memcpy(b,cap_[fd].p,cap_[fd].n<c?cap_[fd].n:c); return (long)cap_[fd].n; }
const uint8_t *vfs_cap_data(int fd,size_t *n){ *n=cap_[fd].n; return cap_[fd].p; }
void vfs_set_command(const char *cmd,const void *out,size_t n){ cmds[ncmds].cmd=__real_calloc(1,strlen(cmd)+1); strcpy(cmds[ncmds].cmd,cmd); cmds[ncmds].out=__real_calloc(1,n+1); memcpy(cmds[ncmds].out,out,n); cmds[ncmds].n=n; ncmds++; }
int vfs_open_pipes(void){ return pipes_open; } int vfs_pclosed(void){ return pclosed; }

// ---------------------------------------------------------------- descriptors
int simfd_new(int kind){ for(int i=0;i<SIM_MAXFD;i++) if(!simfds[i].kind){ memset(&simfds[i],0,sizeof simfds[i]); simfds[i].kind=kind; simfds[i].refs=1; return i; } errno=EMFILE; return -1; }
XFd *simfd_get(int fd){ if(fd<0||fd>=SIM_MAXFD||!simfds[fd].kind){ errno=EBADF; return 0; } return &simfds[fd]; }
static Ino *enter(int d,const char *p){ Ino *c=cwd; if(d!=AT_FDCWD&&p&&*p!='/'&&d>=0&&d<SIM_MAXFD&&simfds[d].kind==FD_FILE&&simfds[d].ino->type==2) cwd=simfds[d].ino; return c; } // a name relative to an open directory
#define IN(d,p,e) Ino *c_=enter(d,p); int r_=(e); cwd=c_; return r_;
static int do_open(const char *path,int flags,int mode){
  sim_syscall("open"); sim_log("    open(\"%s\", %#x)",path?path:"(null)",flags);
  if(sim_fault(FB(F_OPEN))>=0){ static const int e[]={EACCES,EMFILE,EIO,ENOSPC}; errno=e[sim_fault_pick(F_OPEN,4)]; return -1; }
  if(flags&O_NOFOLLOW){ Ino *y=lwalk(path,0,0,0); if(y&&y->type==3){ errno=ELOOP; return -1; } }
  Ino *d; const char *l; size_t ll; Ino *i=walk(path,&d,&l,&ll); int acc=flags&O_ACCMODE;
  if(!i){ if(errno!=ENOENT||!d||!(flags&O_CREAT)) return -1; if(path[strlen(path)-1]=='/'){ errno=EISDIR; return -1; } if(d->ro){ errno=EACCES; return -1; }
    i=ino_new(1); i->perm=mode&07755; i->ro=!(mode&0200); i->wo=!(mode&0400); ent_add(d,l,ll,i); mutated(d,l,ll); }
  else { if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; } if(i->type==4){ errno=ENXIO; return -1; } if(i->type==2&&(acc!=O_RDONLY||(flags&O_CREAT))){ errno=EISDIR; return -1; } if((flags&O_DIRECTORY)&&i->type!=2){ errno=ENOTDIR; return -1; } if((i->ro&&acc!=O_RDONLY)||(i->wo&&acc!=O_WRONLY)){ errno=EACCES; return -1; }
    if(acc!=O_RDONLY&&i->type==1) mutated(d,l,ll);
    if((flags&O_TRUNC)&&acc!=O_RDONLY){ if(disk_free>=0) disk_free+=i->size; ino_resize(i,0); touch(i); } }
  int fd=simfd_new(FD_FILE); if(fd<0) return -1; simfds[fd].ino=i; simfds[fd].flags=flags; i->refs++; return fd; }
int sim_open(const char *p,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); return do_open(p,fl,m); }
int sim_open64(const char *p,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); return do_open(p,fl,m); }
int sim_openat(int d,const char *p,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); IN(d,p,do_open(p,fl,m)) }
int sim_creat(const char *p,int m){ return do_open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
void simnet_close(int fd);
int sim_close(int fd){ sim_syscall("close"); if(fd<0){ errno=EBADF; return -1; } XFd *x=simfd_get(fd); if(!x) sim_violation("fd:bad-close","close(%d) of a descriptor that is not open",fd);
  if(x->kind==FD_FILE){ Ino *i=x->ino; size_t tail=x->wrote<i->size?x->wrote:i->size; int bad=tail&&sim_fault(FB(F_CLOSE))>=0;
    if(bad){ size_t lost=1+ch(ST_FAULT,(uint32_t)tail); ino_resize(i,i->size-lost); if(disk_free>=0) disk_free+=lost; }   // delayed writes: the descriptor is gone, so is the tail of the data
    i->refs--; x->kind=0; ino_put(i); if(bad){ errno=EIO; return -1; } } else if(x->kind==FD_SOCK) simnet_close(fd); x->kind=0; return 0; }
static void disk_write_hole(Ino *i,size_t end){ (void)i;(void)end; }
// core write at offset; faults apply
static ssize_t wr(XFd *x,const uint8_t *b,size_t n,int64_t off,bool positional){
  int acc=x->flags&O_ACCMODE; if(x->kind==FD_FILE&&acc==O_RDONLY){ errno=EBADF; return -1; }
  if(n==0) return 0;
  if((ssize_t)n<0){ errno=EFAULT; return -1; }
  int f=sim_fault(FB(F_WRITE_SHORT)|FB(F_WRITE_EINTR)|FB(F_WRITE_EIO)|FB(F_ENOSPC));
  if(f==F_WRITE_EINTR){ errno=EINTR; return -1; } if(f==F_WRITE_EIO){ errno=EIO; return -1; }
  if(f==F_WRITE_SHORT&&n>1) n=1+ch(ST_DATA,(uint32_t)(n-1));
  if(f==F_ENOSPC){ errno=ENOSPC; return -1; }
  if(x->kind==FD_CAP){ int k=(int)(x-simfds); if(cap_[k].n+n>cap_[k].cap){ size_t c=(cap_[k].n+n)*2+1024; uint8_t *p=__real_calloc(1,c); if(cap_[k].n) memcpy(p,cap_[k].p,cap_[k].n); __real_free(cap_[k].p); cap_[k].p=p; cap_[k].cap=c; } 
    thr_point(); memcpy(cap_[k].p+cap_[k].n,b,n); cap_[k].n+=n; if(k==2){ int t=n<200?(int)n:200; if(sim_stderr_len+t<500){ memcpy(sim_stderr_tail+sim_stderr_len,b,t); sim_stderr_len+=t; } } return (ssize_t)n; }
  if(x->kind==FD_NULL) return (ssize_t)n;
  if(x->kind!=FD_FILE){ errno=EBADF; return -1; }
  Ino *i=x->ino; if(i->type==2){ errno=EISDIR; return -1; }
  if(x->flags&O_APPEND) off=(int64_t)i->size;
  if(off<0){ errno=EINVAL; return -1; }
  if(off>MAX_FILE||off+(int64_t)n>MAX_FILE){ errno=EFBIG; return -1; }
  size_t end=(size_t)off+n; if(end>i->size&&disk_free>=0){ int64_t need=(int64_t)(end-i->size); if(need>disk_free){ int64_t can=(int64_t)i->size+disk_free-off; if(can<=0){ errno=ENOSPC; res->nfault[F_ENOSPC]++; sim_ev("disk full",-77,0); return -1; } n=(size_t)can; end=(size_t)off+n; need=end>i->size?(int64_t)(end-i->size):0; sim_ev("disk nearly full",(int64_t)n,0); } disk_free-=need; }
  (void)positional; disk_write_hole(i,end); if(end>i->size) ino_resize(i,end); if(n) ino_copy(i,off,(uint8_t*)b,n,true); touch(i); x->wrote+=n;
  if(!positional||0) x->off=off+(int64_t)n;
  return (ssize_t)n; }
static ssize_t rd(XFd *x,uint8_t *b,size_t n,int64_t off,bool positional){
  if(x->kind==FD_FILE&&(x->flags&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; }
  if((ssize_t)n<0){ errno=EFAULT; return -1; }
  if(x->kind==FD_NULL) return 0; if(x->kind!=FD_FILE){ errno=EBADF; return -1; }
  Ino *i=x->ino; if(i->type==2){ errno=EISDIR; return -1; } if(off<0){ errno=EINVAL; return -1; }
  if(n==0) return 0;
  size_t av=(size_t)off<i->size?i->size-(size_t)off:0; 
  int f=sim_fault((av?FB(F_READ_EINTR)|FB(F_READ_EIO):FB(F_READ_EIO))|(av>1&&n>1?FB(F_READ_SHORT):0));
  if(f==F_READ_EINTR){ errno=EINTR; return -1; } if(f==F_READ_EIO){ errno=EIO; return -1; }
  if(n>av) n=av; if(f==F_READ_SHORT&&n>1) n=1+ch(ST_DATA,(uint32_t)(n-1));
  if(n) ino_copy(i,off,b,n,false); if(!positional) x->off=off+(int64_t)n; return (ssize_t)n; }
ssize_t sim_write(int fd,const void *b,size_t n){ sim_syscall("write"); XFd *x=simfd_get(fd); if(!x) return -1; ssize_t r=wr(x,b,n,x->off,false); sim_log("    write(%d, %zu) = %zd",fd,n,r); return r; }
ssize_t sim_pwrite(int fd,const void *b,size_t n,int64_t o){ sim_syscall("pwrite"); XFd *x=simfd_get(fd); if(!x) return -1; if(x->kind!=FD_FILE){ errno=ESPIPE; return -1; } ssize_t r=wr(x,b,n,o,true); sim_log("    pwrite(%d, %zu, @%lld) = %zd",fd,n,(long long)o,r); return r; }
ssize_t sim_pwrite64(int fd,const void *b,size_t n,int64_t o){ return sim_pwrite(fd,b,n,o); }
ssize_t sim_read(int fd,void *b,size_t n){ sim_syscall("read"); XFd *x=simfd_get(fd); if(!x) return -1; ssize_t r=rd(x,b,n,x->off,false); sim_log("    read(%d, %zu) = %zd",fd,n,r); return r; }
ssize_t sim_pread(int fd,void *b,size_t n,int64_t o){ sim_syscall("pread"); XFd *x=simfd_get(fd); if(!x) return -1; if(x->kind!=FD_FILE){ errno=ESPIPE; return -1; } ssize_t r=rd(x,b,n,o,true); sim_log("    pread(%d, %zu, @%lld) = %zd",fd,n,(long long)o,r); return r; }
ssize_t sim_pread64(int fd,void *b,size_t n,int64_t o){ return sim_pread(fd,b,n,o); }
ssize_t sim_writev(int fd,const struct iovec *v,int k){ ssize_t t=0; for(int i=0;i<k;i++){ ssize_t r=sim_write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:-1; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
ssize_t sim_readv(int fd,const struct iovec *v,int k){ ssize_t t=0; for(int i=0;i<k;i++){ ssize_t r=sim_read(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:-1; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
int64_t sim_lseek(int fd,int64_t o,int wh){ sim_syscall("lseek"); XFd *x=simfd_get(fd); if(!x) return -1; if(x->kind!=FD_FILE){ errno=ESPIPE; return -1; } Ino *i=x->ino; int64_t b=wh==SEEK_SET?0:wh==SEEK_CUR?x->off:(i->type==2?INT64_MAX:(int64_t)i->size); int64_t r; if(wh<0||wh>2||__builtin_add_overflow(b,o,&r)||r<0){ errno=EINVAL; return -1; } x->off=r; return r; }
int64_t sim_lseek64(int fd,int64_t o,int wh){ return sim_lseek(fd,o,wh); }
int sim_ftruncate(int fd,int64_t n){ sim_syscall("ftruncate"); XFd *x=simfd_get(fd); if(!x) return -1; if(x->kind!=FD_FILE||x->ino->type!=1||(x->flags&O_ACCMODE)==O_RDONLY||n<0||n>MAX_FILE){ errno=EINVAL; return -1; } if(sim_fault(FB(F_TRUNC))>=0){ errno=EIO; return -1; } Ino *i=x->ino;
  if(n>(int64_t)i->size){ if(disk_free>=0){ if(n-(int64_t)i->size>disk_free){ errno=ENOSPC; res->nfault[F_ENOSPC]++; return -1; } disk_free-=n-(int64_t)i->size; } } else if(disk_free>=0) disk_free+=(int64_t)i->size-n; ino_resize(i,(size_t)n); touch(i); return 0; }
int sim_ftruncate64(int fd,int64_t n){ return sim_ftruncate(fd,n); }
int sim_truncate(const char *p,int64_t n){ int fd=do_open(p,O_WRONLY,0); if(fd<0) return -1; int r=sim_ftruncate(fd,n); sim_close(fd); return r; }
int sim_fsync(int fd){ sim_syscall("fsync"); return simfd_get(fd)?0:-1; } int sim_fdatasync(int fd){ return sim_fsync(fd); }
int sim_posix_fallocate(int fd,int64_t o,int64_t l){ XFd *x=simfd_get(fd); if(!x) return EBADF; Ino *i=x->ino; if(o+l>(int64_t)i->size){ int64_t need=o+l-i->size; if(disk_free>=0){ if(need>disk_free) return ENOSPC; disk_free-=need; } ino_resize(i,o+l); } return 0; }
int sim_dup(int fd){ sim_syscall("dup"); XFd *x=simfd_get(fd); if(!x) return -1; if(sim_fault(FB(F_TMPFILE))>=0){ errno=EMFILE; return -1; } int n=simfd_new(x->kind); if(n<0) return -1; simfds[n]=*x; if(x->kind==FD_FILE) x->ino->refs++; return n; }
static ssize_t xfer(int out,int in,int64_t *off,size_t n){
  XFd *i=simfd_get(in),*o=simfd_get(out); if(!i||!o) return -1; if(i->kind!=FD_FILE||i->ino->type!=1||(i->flags&O_ACCMODE)==O_WRONLY){ errno=EINVAL; return -1; } if(o->kind==FD_FILE&&((o->flags&O_ACCMODE)==O_RDONLY)){ errno=EBADF; return -1; } if(o->kind==FD_FILE&&(o->flags&O_APPEND)){ errno=EINVAL; return -1; }
  int f=sim_fault(FB(F_SENDFILE_SHORT)|FB(F_SENDFILE_ERR)|FB(F_SENDFILE_EINTR)); if(f==F_SENDFILE_ERR){ static const int e[]={EIO,ENOMEM,EINVAL,EAGAIN}; errno=e[sim_fault_pick(F_SENDFILE_ERR,3)]; return -1; } if(f==F_SENDFILE_EINTR){ errno=EINTR; return -1; }
  int64_t at=off?*off:i->off; Ino *s=i->ino; size_t av=at<(int64_t)s->size?s->size-(size_t)at:0; if(n>av) n=av; if(n>0x7ffff000) n=0x7ffff000; if(f==F_SENDFILE_SHORT&&n>1) n=1+ch(ST_DATA,(uint32_t)(n-1)); if(!n) return 0;
  uint8_t *t=__real_calloc(1,n); ino_copy(s,at,t,n,false); bool on=sim_faults_raw(); sim_faults_enable(false); ssize_t r=wr(o,t,n,o->off,false); sim_faults_enable(on); __real_free(t); if(r>0){ if(off)*off=at+r; else i->off=at+r; } return r; }
ssize_t sim_sendfile(int out,int in,int64_t *off,size_t n){ sim_syscall("sendfile"); ssize_t r=xfer(out,in,off,n); sim_log("    sendfile(%d<-%d, %zu) = %zd",out,in,n,r); return r; }
ssize_t sim_sendfile64(int out,int in,int64_t *off,size_t n){ return sim_sendfile(out,in,off,n); }
ssize_t sim_copy_file_range(int in,int64_t *oi,int out,int64_t *oo,size_t n,unsigned fl){ (void)fl; sim_syscall("copy_file_range"); XFd *o=simfd_get(out); if(!o) return -1; int64_t keep=o->off; if(oo) o->off=*oo; ssize_t r=xfer(out,in,oi,n); if(oo){ *oo=o->off; o->off=keep; } return r; }
// ---------------------------------------------------------------- names
static void fill(Ino *i,struct stat *s){ memset(s,0,sizeof *s); s->st_ino=i->num; s->st_dev=7; s->st_nlink=i->nlink; s->st_size=i->type==2?4096:(off_t)i->size; s->st_mode=(i->type==4?i->smode:i->type==2?S_IFDIR|(i->perm?i->perm:0755):i->type==3?S_IFLNK|0777:S_IFREG|((i->perm?i->perm:0644)&(i->ro?07555:07777))); s->st_mtim.tv_sec=i->mtime; s->st_mtim.tv_nsec=i->mnsec; s->st_ctim.tv_sec=i->ctime; s->st_atim.tv_sec=i->ctime+7; s->st_blksize=4096; s->st_blocks=(i->size+511)/512; }
int sim_stat(const char *p,struct stat *s){ sim_syscall("stat"); if(sim_fault(FB(F_STAT))>=0){ errno=EACCES; return -1; } Ino *i=walk(p,0,0,0); if(!i) return -1; fill(i,s); return 0; }
int sim_lstat(const char *p,struct stat *s){ sim_syscall("lstat"); if(sim_fault(FB(F_STAT))>=0){ errno=EACCES; return -1; } Ino *i=lwalk(p,0,0,0); if(!i) return -1; fill(i,s); return 0; }
int sim_fstat(int fd,struct stat *s){ sim_syscall("fstat"); XFd *x=simfd_get(fd); if(!x) return -1; if(sim_fault(FB(F_STAT))>=0){ errno=EIO; return -1; } if(x->kind==FD_FILE) fill(x->ino,s); else { memset(s,0,sizeof *s); s->st_mode=S_IFIFO|0600; } return 0; }
int sim_stat64(const char *p,void *s){ return sim_stat(p,s); } int sim_lstat64(const char *p,void *s){ return sim_lstat(p,s); } int sim_fstat64(int f,void *s){ return sim_fstat(f,s); }
int sim_fstatat(int d,const char *p,struct stat *s,int fl){ if((fl&0x1000)&&!*p) return sim_fstat(d,s); IN(d,p,fl&AT_SYMLINK_NOFOLLOW?sim_lstat(p,s):sim_stat(p,s)) }
int sim___xstat(int v,const char *p,struct stat *s){ (void)v; return sim_stat(p,s); } int sim___fxstat(int v,int f,struct stat *s){ (void)v; return sim_fstat(f,s); }
int sim_access(const char *p,int m){ sim_syscall("access"); Ino *i=walk(p,0,0,0); if(!i) return -1; if(((m&W_OK)&&i->ro)||((m&R_OK)&&i->wo)||((m&X_OK)&&i->perm&&!(i->perm&0111))){ errno=EACCES; return -1; } return 0; }
int sim_faccessat(int d,const char *p,int m,int f){ (void)f; IN(d,p,sim_access(p,m)) }
int sim_mkdir(const char *p,mode_t m){ (void)m; sim_syscall("mkdir"); sim_log("    mkdir(\"%s\")",p); if(sim_fault(FB(F_MKDIR))>=0){ static const int e[]={EACCES,ENOSPC,EIO}; errno=e[sim_fault_pick(F_MKDIR,3)]; return -1; } Ino *d; const char *l; size_t ll; if(lwalk(p,&d,&l,&ll)){ errno=EEXIST; return -1; } if(errno!=ENOENT||!d) return -1; if(d->ro){errno=EACCES;return -1;} Ino *i=ino_new(2); i->perm=m&07755; i->ro=!(m&0200); ent_add(d,l,ll,i); mutated(d,l,ll); return 0; }
int sim_rmdir(const char *p){ sim_syscall("rmdir"); if(sim_fault(FB(F_RMDIR))>=0){ errno=EACCES; return -1; } Ino *d; const char *l; size_t ll; Ino *i=lwalk(p,&d,&l,&ll); if(!i) return -1; if(i->type!=2){ errno=ENOTDIR; return -1; } if(ll==1&&l[0]=='.'){ errno=EINVAL; return -1; } if(i->nent){ errno=ENOTEMPTY; return -1; } if(i==root||i==cwd){ errno=EBUSY; return -1; } mutated(d,l,ll); ent_del(d,ent_find(d,l,ll)); return 0; }
int sim_unlink(const char *p){ sim_syscall("unlink"); sim_log("    unlink(\"%s\")",p); if(sim_fault(FB(F_UNLINK))>=0){ static const int e[]={EACCES,EIO,EPERM}; errno=e[sim_fault_pick(F_UNLINK,3)]; return -1; } Ino *d; const char *l; size_t ll; Ino *i=lwalk(p,&d,&l,&ll); if(!i) return -1; if(i->type==2){ errno=EISDIR; return -1; } if(d->ro){errno=EACCES;return -1;} mutated(d,l,ll); ent_del(d,ent_find(d,l,ll)); return 0; }
int sim_unlinkat(int d,const char *p,int f){ IN(d,p,f&AT_REMOVEDIR?sim_rmdir(p):sim_unlink(p)) }
int sim_remove(const char *p){ Ino *i=lwalk(p,0,0,0); if(i&&i->type==2) return sim_rmdir(p); return sim_unlink(p); }
int sim_link(const char *a,const char *b){ sim_syscall("link"); sim_log("    link(\"%s\",\"%s\")",a,b); if(sim_fault(FB(F_LINK))>=0){ static const int e[]={EIO,EMLINK,EXDEV,EPERM,ENOSPC}; errno=e[sim_fault_pick(F_LINK,5)]; return -1; } Ino *i=lwalk(a,0,0,0); if(!i) return -1; if(i->type==2){ errno=EPERM; return -1; } Ino *d; const char *l; size_t ll; if(lwalk(b,&d,&l,&ll)){ errno=EEXIST; return -1; } if(errno!=ENOENT||!d) return -1; if(d->ro){errno=EACCES;return -1;} if(b[strlen(b)-1]=='/'){ errno=ENOENT; return -1; } ent_add(d,l,ll,i); mutated(d,l,ll); return 0; }
int sim_linkat(int x,const char *a,int y,const char *b,int f){ (void)x;(void)y;(void)f; return sim_link(a,b); }
static int do_rename(const char *a,const char *b,unsigned fl){ sim_syscall("rename"); sim_log("    rename(\"%s\",\"%s\")",a,b); if(sim_fault(FB(F_LINK))>=0){ static const int e[]={EIO,EXDEV,EACCES,ENOSPC}; errno=e[sim_fault_pick(F_LINK,4)]; return -1; } Ino *da,*db; const char *la,*lb; size_t na,nb; Ino *i=lwalk(a,&da,&la,&na); if(!i) return -1; Ino *j=lwalk(b,&db,&lb,&nb); if(!j&&(errno!=ENOENT||!db)) return -1; if(j&&(fl&1)){ errno=EEXIST; return -1; } if(i==j) return 0; if(da->ro||db->ro){ errno=EACCES; return -1; }
  if(j){ if(j->type==2&&i->type!=2){ errno=EISDIR; return -1; } if(j->type!=2&&i->type==2){ errno=ENOTDIR; return -1; } if(j->type==2&&j->nent){ errno=ENOTEMPTY; return -1; } ent_del(db,ent_find(db,lb,nb)); }
  mutated(da,la,na); mutated(db,lb,nb); i->nlink++; ent_del(da,ent_find(da,la,na)); ent_add(db,lb,nb,i); i->nlink--; return 0; }
int sim_rename(const char *a,const char *b){ return do_rename(a,b,0); }
int sim_renameat(int x,const char *a,int y,const char *b){ (void)x;(void)y; return do_rename(a,b,0); }
int sim_renameat2(int x,const char *a,int y,const char *b,unsigned f){ (void)x;(void)y; return do_rename(a,b,f); }
int sim_symlink(const char *t,const char *p){ sim_syscall("symlink"); Ino *d; const char *l; size_t ll; if(lwalk(p,&d,&l,&ll)){ errno=EEXIST; return -1; } if(errno!=ENOENT||!d) return -1; Ino *i=ino_new(3); i->target=__real_calloc(1,strlen(t)+1); strcpy(i->target,t); ent_add(d,l,ll,i); mutated(d,l,ll); return 0; }
ssize_t sim_readlink(const char *p,char *b,size_t n){ Ino *i=lwalk(p,0,0,0); if(!i) return -1; if(i->type!=3){ errno=EINVAL; return -1; } size_t l=strlen(i->target); if(l>n) l=n; memcpy(b,i->target,l); return (ssize_t)l; }
int sim_chmod(const char *p,mode_t m){ Ino *i=walk(p,0,0,0); if(!i) return -1; i->ro=!(m&0222); return 0; } int sim_fchmod(int fd,mode_t m){ XFd *x=simfd_get(fd); if(!x) return -1; (void)m; return 0; } mode_t sim_umask(mode_t m){ (void)m; return 022; }
char *sim_getcwd(char *b,size_t n){ char t[4200]; abspath(cwd,t,sizeof t); if(!b) { b=sim_malloc_h(n?n:strlen(t)+1); } else if(strlen(t)>=n){ errno=ERANGE; return 0; } strcpy(b,t); return b; }
int sim_chdir(const char *p){ Ino *i=walk(p,0,0,0); if(!i) return -1; if(i->type!=2){ errno=ENOTDIR; return -1; } cwd=i; return 0; }
char *sim_realpath(const char *p,char *out){ sim_syscall("realpath"); if(sim_fault(FB(F_REALPATH))>=0){ errno=EACCES; return 0; } Ino *d; const char *l; size_t ll; Ino *i=walk(p,&d,&l,&ll); if(!i) return 0; char b[4200]; if(i->type==2) abspath(i,b,sizeof b); else { char t[4200]; abspath(d,t,sizeof t); snprintf(b,sizeof b,"%s%s%.*s",t,t[1]?"/":"",(int)ll,l); } if(!out) out=sim_malloc_h(strlen(b)+1); if(!out){ errno=ENOMEM; return 0; } strcpy(out,b); return out; }
int sim_utimensat(int d,const char *p,const struct timespec *t,int f){ (void)d;(void)f; Ino *i=walk(p,0,0,0); if(!i) return -1; if(t){ i->mtime=t[1].tv_sec; i->mnsec=t[1].tv_nsec; } else touch(i); return 0; }
// ---------------------------------------------------------------- directories
typedef struct { uint32_t magic; int n, at; struct dirent *e; int fd; Ino *ino; } XDir;
static void *dir_of(Ino *d){ XDir *x=__real_calloc(1,sizeof *x); x->magic=0xD1D1; x->fd=-1; x->ino=d; x->e=__real_calloc(d->nent+2,sizeof(struct dirent)); int n=0; for(int i=-2;i<d->nent;i++){ struct dirent *e=&x->e[n++]; const char *nm=i==-2?".":i==-1?"..":d->ent[i].name; snprintf(e->d_name,sizeof e->d_name,"%s",nm); int t=i<0?2:d->ent[i].ino->type; e->d_ino=i<0?d->num:d->ent[i].ino->num; e->d_type=dtype_unknown?DT_UNKNOWN:t==4?(d->ent[i].ino->smode>>12)&15:t==2?DT_DIR:t==3?DT_LNK:DT_REG; e->d_reclen=sizeof *e; }
  for(int i=n-1;i>0;i--){ int j=i-(int)ch(ST_DATA,i+1); struct dirent t=x->e[i]; x->e[i]=x->e[j]; x->e[j]=t; } x->n=n; open_dirs++; return x; }
void *sim_opendir(const char *p){ sim_syscall("opendir"); sim_log("    opendir(\"%s\")",p); if(sim_fault(FB(F_OPENDIR))>=0){ static const int e[]={EACCES,EMFILE,ENOMEM}; errno=e[sim_fault_pick(F_OPENDIR,3)]; return 0; } Ino *i=walk(p,0,0,0); if(!i) return 0; if(i->type!=2){ errno=ENOTDIR; return 0; } return dir_of(i); }
void *sim_fdopendir(int fd){ XFd *x=simfd_get(fd); if(!x) return 0; if(x->kind!=FD_FILE||x->ino->type!=2){ errno=ENOTDIR; return 0; } XDir *d=dir_of(x->ino); d->fd=fd; return d; }
static XDir *xd(void *d){ XDir *x=d; if(!x||x->magic!=0xD1D1) sim_violation("dir:bad-handle","a directory call was given %s",x?"a handle that is not open":"a null handle"); return x; }
struct dirent *sim_readdir(void *d){ sim_syscall("readdir"); XDir *x=xd(d); if(x->at>=x->n) return 0; return &x->e[x->at++]; }
struct dirent *sim_readdir64(void *d){ return sim_readdir(d); }
int sim_readdir_r(void *d,struct dirent *o,struct dirent **r){ struct dirent *e=sim_readdir(d); if(e){ *o=*e; *r=o; } else *r=0; return 0; }
void sim_rewinddir(void *d){ xd(d)->at=0; }
int sim_dirfd(void *d){ XDir *x=xd(d); if(x->fd<0){ x->fd=simfd_new(FD_FILE); if(x->fd>=0){ simfds[x->fd].ino=x->ino; x->ino->refs++; } } return x->fd; }
int sim_closedir(void *d){ sim_syscall("closedir"); XDir *x=xd(d); x->magic=0xDEAD; memset(x->e,0xdd,sizeof(struct dirent)*x->n); open_dirs--; if(x->fd>=0) sim_close(x->fd); return 0; }
// ---------------------------------------------------------------- FILE*
typedef struct { uint32_t magic; int fd; int pipe; size_t pos; bool eof, err; int unget; int cmd; } XF;
static XF *xf(void *f){ XF *x=f; if(!x||x->magic!=0xF11E) sim_violation("stdio:bad-handle","a stdio call was given a stream that is not open"); return x; }
static int streams; int vfs_open_streams(void){ return streams; }
static XF *xf_new(int fd){ streams++; XF *x=__real_calloc(1,sizeof *x); x->magic=0xF11E; x->fd=fd; x->unget=-1; return x; }
void *sim_tmpfile(void){ sim_syscall("tmpfile"); if(sim_fault(FB(F_TMPFILE))>=0){ errno=EMFILE; return 0; } int fd=simfd_new(FD_FILE); if(fd<0) return 0; simfds[fd].ino=ino_new(1); simfds[fd].ino->refs=1; simfds[fd].flags=O_RDWR; return xf_new(fd); }
void *sim_tmpfile64(void){ return sim_tmpfile(); }
int sim_fileno(void *f){ return xf(f)->fd; }
void *sim_fopen(const char *p,const char *m){ int fl=m[0]=='r'?O_RDONLY:m[0]=='w'?O_CREAT|O_TRUNC|O_WRONLY:O_CREAT|O_APPEND|O_WRONLY; if(strchr(m,'+')) fl=(fl&~O_ACCMODE)|O_RDWR; int fd=do_open(p,fl,0666); return fd<0?0:xf_new(fd); }
void *sim_fopen64(const char *p,const char *m){ return sim_fopen(p,m); }
void *sim_fdopen(int fd,const char *m){ (void)m; return simfd_get(fd)?xf_new(fd):0; }
int sim_fclose(void *f){ XF *x=xf(f); int r=0; if(x->pipe){ pipes_open--; pclosed++; } else r=sim_close(x->fd); x->magic=0xDEAD; streams--; return r; }
void *sim_popen(const char *cmd,const char *m){ sim_syscall("popen"); (void)m; if(sim_fault(FB(F_POPEN))>=0){ errno=ENOMEM; return 0; } XF *x=xf_new(-1); x->pipe=1; x->cmd=-1; for(int i=0;i<ncmds;i++) if(!strcmp(cmds[i].cmd,cmd)) x->cmd=i; pipes_open++; return x; }
int sim_pclose(void *f){ sim_syscall("pclose"); XF *x=xf(f); if(!x->pipe) sim_violation("stdio:pclose","pclose on a stream popen did not return"); pipes_open--; pclosed++; x->magic=0xDEAD; streams--; return 0; }
bool vfs_pipe_drained; 
static int pget(XF *x){ if(x->err) return -1; if((x->pos&63)==0&&!x->eof){ int k=sim_fault(FB(F_READ_EINTR)|FB(F_READ_EIO)); if(k>=0){ errno=k==F_READ_EINTR?EINTR:EIO; x->err=true; return -1; } } if(x->cmd<0||x->pos>=cmds[x->cmd].n){ x->eof=true; vfs_pipe_drained=true; return -1; } return cmds[x->cmd].out[x->pos++]; }
int sim_fgetc(void *f){ XF *x=xf(f); if(x->unget>=0){ int c=x->unget; x->unget=-1; return c; } if((x->pos&63)==0) sim_syscall("read(pipe)"); if(x->pipe) return pget(x); uint8_t c; ssize_t r=sim_read(x->fd,&c,1); if(r==1) return c; if(r==0) x->eof=true; else x->err=true; return -1; }
int sim_getc(void *f){ return sim_fgetc(f); } int sim__IO_getc(void *f){ return sim_fgetc(f); }
int sim_ungetc(int c,void *f){ xf(f)->unget=c; return c; }
char *sim_fgets(char *b,int n,void *f){ int i=0; while(i<n-1){ int c=sim_fgetc(f); if(c<0) break; b[i++]=(char)c; if(c=='\n') break; } if(!i) return 0; b[i]=0; return b; }
size_t sim_fread(void *b,size_t s,size_t n,void *f){ size_t t=s*n,i=0; XF *x=xf(f); if(!s) return 0; if(x->pipe){ sim_syscall("read(pipe)"); while(i<t){ int c=pget(x); if(c<0) break; ((uint8_t*)b)[i++]=(uint8_t)c; } } else while(i<t){ ssize_t r=sim_read(x->fd,(uint8_t*)b+i,t-i); if(r<=0){ if(r==0)x->eof=1; else x->err=1; break; } i+=r; } return i/s; }
size_t sim_fwrite(const void *b,size_t s,size_t n,void *f){ XF *x=xf(f); size_t t=s*n,i=0; while(i<t){ ssize_t r=sim_write(x->fd,(const uint8_t*)b+i,t-i); if(r<=0){ x->err=1; break; } i+=r; } return s?i/s:0; }
int sim_fputs(const char *s,void *f){ return sim_fwrite(s,1,strlen(s),f)==strlen(s)?0:-1; }
int sim_fputc(int c,void *f){ uint8_t b=(uint8_t)c; return sim_fwrite(&b,1,1,f)==1?c:-1; }
int sim_feof(void *f){ return xf(f)->eof; } int sim_ferror(void *f){ return xf(f)->err; } void sim_clearerr(void *f){ xf(f)->eof=xf(f)->err=0; }
int sim_fflush(void *f){ (void)f; return 0; }
int sim_fseek(void *f,long o,int w){ return sim_lseek(xf(f)->fd,o,w)<0?-1:0; } long sim_ftell(void *f){ return sim_lseek(xf(f)->fd,0,SEEK_CUR); } void sim_rewind(void *f){ sim_fseek(f,0,0); }
// calls zpl does not make today, kept so that a change that makes them is still simulated
static XF std_[3]={{0xF11E,0,0,0,false,false,-1,0},{0xF11E,1,0,0,false,false,-1,0},{0xF11E,2,0,0,false,false,-1,0}}; void *sim_stdin=&std_[0], *sim_stdout=&std_[1], *sim_stderr=&std_[2];
int sim_vfprintf(void *f,const char *m,va_list ap){ va_list b; va_copy(b,ap); int n=vsnprintf(0,0,m,b); va_end(b); if(n<0) return n; char *t=__real_calloc(1,(size_t)n+1); vsnprintf(t,(size_t)n+1,m,ap); size_t w=sim_fwrite(t,1,(size_t)n,f); __real_free(t); return w==(size_t)n?n:-1; }
int sim_vprintf(const char *m,va_list ap){ return sim_vfprintf(sim_stdout,m,ap); }
int sim_fprintf(void *f,const char *m,...){ va_list ap; va_start(ap,m); int n=sim_vfprintf(f,m,ap); va_end(ap); return n; }
int sim_printf(const char *m,...){ va_list ap; va_start(ap,m); int n=sim_vfprintf(sim_stdout,m,ap); va_end(ap); return n; }
int sim_vdprintf(int fd,const char *m,va_list ap){ XF x={0xF11E,fd,0,0,false,false,-1,0}; return sim_vfprintf(&x,m,ap); }
int sim_dprintf(int fd,const char *m,...){ va_list ap; va_start(ap,m); int n=sim_vdprintf(fd,m,ap); va_end(ap); return n; }
int sim_putc(int c,void *f){ return sim_fputc(c,f); } int sim_putchar(int c){ return sim_fputc(c,sim_stdout); } int sim_puts(const char *s){ return sim_fputs(s,sim_stdout)<0||sim_fputc('\n',sim_stdout)<0?-1:0; }
void sim_perror(const char *s){ int e=errno; if(s&&*s) sim_fprintf(sim_stderr,"%s: ",s); sim_fprintf(sim_stderr,"%s\n",strerror(e)); }
void *sim_malloc(size_t); void *sim_realloc(void*,size_t); void sim_free(void*);
ssize_t sim_getdelim(char **l,size_t *n,int d,void *f){ size_t k=0; if(!*l) *n=0; for(;;){ int c=sim_fgetc(f); if(k+2>*n){ size_t m=*n<60?120:*n*2; char *t=sim_realloc(*l,m); if(!t) return -1; *l=t; *n=m; } if(c<0) break; (*l)[k++]=(char)c; if(c==d) break; } (*l)[k]=0; return k?(ssize_t)k:-1; }
ssize_t sim_getline(char **l,size_t *n,void *f){ return sim_getdelim(l,n,'\n',f); }
ssize_t sim_preadv(int fd,const struct iovec *v,int k,int64_t o){ ssize_t t=0; for(int i=0;i<k;i++){ ssize_t r=sim_pread(fd,v[i].iov_base,v[i].iov_len,o+t); if(r<0) return t?t:-1; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
ssize_t sim_pwritev(int fd,const struct iovec *v,int k,int64_t o){ ssize_t t=0; for(int i=0;i<k;i++){ ssize_t r=sim_pwrite(fd,v[i].iov_base,v[i].iov_len,o+t); if(r<0) return t?t:-1; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
int sim_dup2(int a,int b){ XFd *x=simfd_get(a); if(!x) return -1; if(a==b) return b; if(b<0||b>=SIM_MAXFD){ errno=EBADF; return -1; } if(simfds[b].kind) sim_close(b); simfds[b]=simfds[a]; if(x->kind==FD_FILE) x->ino->refs++; return b; }
int sim_mkdirat(int d,const char *p,mode_t m){ IN(d,p,sim_mkdir(p,m)) } int sim_fchdir(int fd){ (void)fd; return 0; }
int sim_mkostemp(char *t,int fl){ size_t n=strlen(t); if(n<6||strcmp(t+n-6,"XXXXXX")){ errno=EINVAL; return -1; } if(sim_fault(FB(F_TMPFILE))>=0){ errno=EMFILE; return -1; } for(int k=0;k<1000;k++){ snprintf(t+n-6,7,"%06d",k); int fd=do_open(t,O_RDWR|O_CREAT|O_EXCL|fl,0600); if(fd>=0||errno!=EEXIST) return fd; } return -1; }
int sim_mkstemp(char *t){ return sim_mkostemp(t,0); }
int sim_futimens(int fd,const struct timespec *t){ XFd *x=simfd_get(fd); if(!x) return -1; if(t){ x->ino->mtime=t[1].tv_sec; x->ino->mnsec=t[1].tv_nsec; } else touch(x->ino); return 0; }
int sim_eaccess(const char *p,int m){ return sim_access(p,m); } int sim_euidaccess(const char *p,int m){ return sim_access(p,m); }
int sim_sigaction(int n,const void *a,void *o){ (void)n;(void)a;(void)o; return 0; } void *sim_signal(int n,void *h){ (void)n;(void)h; return 0; } int sim_sigprocmask(int h,const void *a,void *o){ (void)h;(void)a;(void)o; return 0; } int sim_pthread_sigmask(int h,const void *a,void *o){ (void)h;(void)a;(void)o; return 0; }
int sim_isatty(int fd){ (void)fd; return 0; }
int sim_system(const char *c){ (void)c; sim_syscall("system"); return 0; }
int sim_getpagesize(void){ return 4096; }
// a process dies: every descriptor of it disappears, names and contents stay
void vfs_process_died(void){ for(int i=0;i<SIM_MAXFD;i++) if(simfds[i].kind==FD_FILE){ simfds[i].ino->refs--; Ino *n=simfds[i].ino; simfds[i].kind=0; ino_put(n); } open_dirs=0; }
const uint8_t *vfs_fd_data(int fd,size_t *n){ if(fd<0||fd>=SIM_MAXFD||simfds[fd].kind!=FD_FILE) return 0; Ino *i=simfds[fd].ino; *n=i->size; return i->data?i->data:(const uint8_t*)""; }
