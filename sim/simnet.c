// Simulated network: one machine with the addresses 127.0.0.1, ::1, 10.0.0.1 and 10.0.0.2, stream and datagram sockets,
// latency, loss, duplication, reordering, partial transfers, resets, failing calls - all on simulated time.
#define _GNU_SOURCE
#include "sim.h"
#include "simint.h"
#include "simfd.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
void sim_free(void *p); void *sim_malloc(size_t n);
typedef struct { int fam; uint8_t ip[16]; uint16_t port; } Ad;                       // port in host order
typedef struct Seg { struct Seg *next; uint64_t at; size_t n, off; bool eof; Ad from; uint8_t d[]; } Seg;
enum { S_NEW, S_LISTEN, S_CONNECTING, S_CONN, S_DEAD };
typedef struct Sock { int used, fam, stream, state, fd; bool nonblock, nodelay, v6only, bound, haspeer, peer_gone, reset, eof_seen, wrshut; Ad local, peer; struct Sock *conn; Seg *rx; uint64_t last_at, conn_at, reset_at; int conn_err, err; struct Sock *bl[16]; int nbl, blmax; size_t inflight; uint64_t appear; } Sock;
#define NS 160
static Sock S[NS]; static int ns, fd_base, next_port; static uint64_t lat_max; static size_t sndbuf; static int default_v6only;
void net_reset(void){ memset(S,0,sizeof S); ns=0; fd_base=3; next_port=40000; lat_max=0; sndbuf=1<<16; default_v6only=1; }
void net_config(uint64_t max_latency,size_t buf,int first_fd){ lat_max=max_latency; sndbuf=buf; fd_base=first_fd; }
int net_open_sockets(void){ int n=0; for(int i=0;i<SIM_MAXFD;i++) if(simfds[i].kind==FD_SOCK) n++; return n; }
static Sock *so(int fd){ XFd *x=simfd_get(fd); if(!x) return 0; if(x->kind!=FD_SOCK){ errno=ENOTSOCK; return 0; } return x->sock; }
static Sock *new_sock(int fam,int stream){ if(ns>=NS){ errno=ENFILE; return 0; } Sock *s=&S[ns++]; memset(s,0,sizeof *s); s->used=1; s->fam=fam; s->stream=stream; s->fd=-1; s->v6only=default_v6only; s->local.fam=fam; return s; }
static int new_fd(Sock *s){ for(int i=fd_base;i<SIM_MAXFD;i++) if(!simfds[i].kind){ memset(&simfds[i],0,sizeof simfds[i]); simfds[i].kind=FD_SOCK; simfds[i].refs=1; simfds[i].sock=s; s->fd=i; return i; } errno=EMFILE; return -1; }
static const uint8_t zero16[16];
static bool wild(const Ad *a){ return !memcmp(a->ip,zero16,16); }
static bool same_ip(const Ad *a,const Ad *b){ return a->fam==b->fam&&!memcmp(a->ip,b->ip,16); }
static bool same_ad(const Ad *a,const Ad *b){ return same_ip(a,b)&&a->port==b->port; }
static Ad mapped(Ad a){ Ad m={.fam=AF_INET6,.port=a.port}; m.ip[10]=m.ip[11]=0xff; memcpy(m.ip+12,a.ip,4); return m; }
static Ad unmapped(Ad a){ static const uint8_t p[12]={0,0,0,0,0,0,0,0,0,0,0xff,0xff}; if(a.fam==AF_INET6&&!memcmp(a.ip,p,12)){ Ad u={.fam=AF_INET,.port=a.port}; memcpy(u.ip,a.ip+12,4); return u; } return a; }
static bool bad_ptr(const void *p){ return (uintptr_t)p<65536; }
static int get_ad(const struct sockaddr *sa,socklen_t l,Ad *a){ memset(a,0,sizeof *a); if(bad_ptr(sa)){ errno=EFAULT; return -1; } if(l>sizeof(struct sockaddr_storage)||l<2){ errno=EINVAL; return -1; }
  if(sa->sa_family==AF_INET){ if(l<sizeof(struct sockaddr_in)){ errno=EINVAL; return -1; } const struct sockaddr_in *i=(const void*)sa; a->fam=AF_INET; memcpy(a->ip,&i->sin_addr,4); a->port=ntohs(i->sin_port); return 0; }
  if(sa->sa_family==AF_INET6){ if(l<24){ errno=EINVAL; return -1; } const struct sockaddr_in6 *i=(const void*)sa; a->fam=AF_INET6; memcpy(a->ip,&i->sin6_addr,16); a->port=ntohs(i->sin6_port); return 0; }
  errno=EAFNOSUPPORT; return -1; }
static socklen_t put_ad(const Ad *a,void *out,socklen_t cap){ struct sockaddr_storage ss; memset(&ss,0,sizeof ss); socklen_t n; if(a->fam==AF_INET6){ struct sockaddr_in6 *i=(void*)&ss; i->sin6_family=AF_INET6; memcpy(&i->sin6_addr,a->ip,16); i->sin6_port=htons(a->port); n=sizeof *i; } else { struct sockaddr_in *i=(void*)&ss; i->sin_family=AF_INET; memcpy(&i->sin_addr,a->ip,4); i->sin_port=htons(a->port); n=sizeof *i; } sim_memcpy(out,&ss,cap<n?cap:n); return n; }
static int out_ad(const Ad *a,struct sockaddr *sa,socklen_t *l){ if(bad_ptr(sa)||bad_ptr(l)||(int)*l<0){ errno=bad_ptr(sa)||bad_ptr(l)?EFAULT:EINVAL; return -1; } *l=put_ad(a,sa,*l); return 0; }
static uint64_t lat(void){ uint64_t l=lat_max?ch(ST_DATA,(uint32_t)(lat_max/1000)+1)*1000ull:0; if(sim_fault(FB(F_NET_DELAY))>=0) l+=(1+ch(ST_DATA,2000))*1000000ull; return l; }
static Ad local_for(Sock *s,const Ad *to){ Ad a=s->local; if(wild(&a)){ memcpy(a.ip,to->ip,16); if(s->fam==AF_INET6&&to->fam==AF_INET){ Ad m=mapped(*to); memcpy(a.ip,m.ip,16); } } return a; }
static void auto_bind(Sock *s){ if(!s->bound){ s->bound=true; s->local.port=(uint16_t)next_port++; } }
static bool accepts(Sock *l,Ad to){ if(!l->bound||l->local.port!=to.port) return false; if(l->fam==to.fam) return wild(&l->local)||same_ip(&l->local,&to); if(l->fam==AF_INET6&&to.fam==AF_INET){ if(wild(&l->local)) return !l->v6only; Ad m=mapped(to); return same_ip(&l->local,&m); } return false; }
static Sock *find(int stream,Ad to){ to=unmapped(to); if(wild(&to)){ to.ip[0]=to.fam==AF_INET?127:0; to.ip[to.fam==AF_INET?3:15]=1; } for(int pass=0;pass<2;pass++) for(int i=0;i<ns;i++){ Sock *l=&S[i]; if(l->fd<0||l->stream!=stream||(stream?l->state!=S_LISTEN:0)||!accepts(l,to)) continue; if(pass==0&&wild(&l->local)) continue; return l; } return 0; }
// ---- the passage of time
static void settle(Sock *s){ if(s->state==S_CONNECTING&&sim_mono_ns>=s->conn_at){ if(s->conn_err){ s->err=s->conn_err; s->state=S_DEAD; } else s->state=S_CONN; } if(s->reset_at&&sim_mono_ns>=s->reset_at&&!s->reset){ s->reset=true; s->err=ECONNRESET; s->state=S_DEAD; } }
static uint64_t next_event(Sock *s){ uint64_t t=UINT64_MAX; settle(s); if(s->state==S_LISTEN){ for(int i=0;i<s->nbl;i++) if(s->bl[i]->appear<t) t=s->bl[i]->appear; return t; } if(s->err||s->eof_seen||(s->stream&&s->state==S_DEAD)) return 0; if(s->rx&&s->state!=S_CONNECTING) t=s->rx->at; else if(s->rx) t=s->rx->at>s->conn_at?s->rx->at:s->conn_at; if(s->state==S_CONNECTING&&s->conn_err&&s->conn_at<t) t=s->conn_at; if(s->reset_at&&s->reset_at<t) t=s->reset_at; if(s->stream&&s->state==S_NEW) t=0; return t; }
bool net_readable(int fd){ Sock *s=simfds[fd].sock; return next_event(s)<=sim_mono_ns; }
uint64_t net_next(int fd){ return next_event(simfds[fd].sock); }
bool net_was_reset(int fd){ Sock *s=simfds[fd].sock; settle(s); return s->reset||s->reset_at||s->err; }
int net_port(int fd){ return ((Sock*)simfds[fd].sock)->local.port; } int net_peer_port(int fd){ return ((Sock*)simfds[fd].sock)->peer.port; }
bool net_nonblocking(int fd){ return ((Sock*)simfds[fd].sock)->nonblock; } bool net_nodelay(int fd){ return ((Sock*)simfds[fd].sock)->nodelay; }
bool net_is_open(int fd){ return fd>=0&&fd<SIM_MAXFD&&simfds[fd].kind==FD_SOCK; } int net_state(int fd){ Sock *s=simfds[fd].sock; settle(s); return s->state; } int net_family(int fd){ return ((Sock*)simfds[fd].sock)->fam; }
bool net_linked(int fd){ Sock *s=simfds[fd].sock; return s->conn!=0; } size_t net_room(int fd){ Sock *s=simfds[fd].sock; if(!s->conn) return 1; return sndbuf>s->conn->inflight?sndbuf-s->conn->inflight:0; } bool net_wild(int fd){ return wild(&((Sock*)simfds[fd].sock)->local); } int net_type(int fd){ return ((Sock*)simfds[fd].sock)->stream; }
int net_peer_fd(int fd){ Sock *s=simfds[fd].sock; return s->conn?s->conn->fd:-1; } int net_backlog(int fd){ return ((Sock*)simfds[fd].sock)->nbl; } size_t net_queued(int fd){ size_t n=0; for(Seg *q=((Sock*)simfds[fd].sock)->rx;q;q=q->next) n++; return n; }
static void wait_for(Sock *s,const char *what){ uint64_t t=next_event(s); if(t==UINT64_MAX) sim_violation("hang:socket","%s waits for something that never comes",what); if(t>sim_mono_ns) sim_time_advance(t-sim_mono_ns); settle(s); }
static void enqueue(Sock *s,const void *d,size_t n,bool eof,const Ad *from,uint64_t at){ Seg *g=__real_calloc(1,sizeof *g+n); if(n) sim_memcpy(g->d,d,n); g->n=n; g->eof=eof; if(from) g->from=*from; if(s->stream){ if(at<s->last_at) at=s->last_at; s->last_at=at; } g->at=at; Seg **q=&s->rx; while(*q&&(*q)->at<=at) q=&(*q)->next; g->next=*q; *q=g; s->inflight+=n; }
static void do_reset(Sock *s){ if(!s||s->fd<0&&!s->appear) return; if(!s->reset_at) s->reset_at=sim_mono_ns+lat()+1; }
static void net_break(Sock *s){ sim_fault_count(F_NET_RESET); Sock *p=s->conn; s->reset_at=sim_mono_ns; settle(s); if(p){ Seg *q=p->rx; while(q){ Seg *n=q->next; __real_free(q); q=n; } p->rx=0; p->inflight=0; p->reset_at=sim_mono_ns; } Seg *q=s->rx; while(q){ Seg *n=q->next; __real_free(q); q=n; } s->rx=0; s->inflight=0; }
void net_inject_reset(int fd){ Sock *s=simfds[fd].sock; if(s->stream&&(s->state==S_CONN)) net_break(s); }
// ---- names
static const struct { const char *n; int fam; const char *ip; } HOSTS[]={{"localhost",AF_INET6,"::1"},{"localhost",AF_INET,"127.0.0.1"},{"node-a",AF_INET,"10.0.0.1"},{"node-b",AF_INET,"10.0.0.2"}};
static const struct { const char *n; int port; } SERVS[]={{"echo",7},{"http",80},{"https",443}};
static void host_of(const Ad *a,char *o,size_t n){ char b[64]; inet_ntop(a->fam,a->ip,b,sizeof b); for(unsigned i=0;i<sizeof HOSTS/sizeof *HOSTS;i++) if(HOSTS[i].fam==a->fam&&!strcmp(HOSTS[i].ip,b)){ snprintf(o,n,"%s",HOSTS[i].n); return; } snprintf(o,n,"%s",b); }
static void serv_of(int port,char *o,size_t n){ for(unsigned i=0;i<sizeof SERVS/sizeof *SERVS;i++) if(SERVS[i].port==port){ snprintf(o,n,"%s",SERVS[i].n); return; } snprintf(o,n,"%d",port); }
void net_local_name(int fd,char *host,size_t hn,char *serv,size_t sn){ Sock *s=simfds[fd].sock; host_of(&s->local,host,hn); serv_of(s->local.port,serv,sn); }
void net_peer_name(int fd,char *host,size_t hn,char *serv,size_t sn){ Sock *s=simfds[fd].sock; host_of(&s->peer,host,hn); serv_of(s->peer.port,serv,sn); }
static struct addrinfo *mk_ai(const struct addrinfo *h,int fam,const uint8_t *ip,int port,int st){ struct addrinfo *a=sim_malloc_h(sizeof *a+sizeof(struct sockaddr_in6)); memset(a,0,sizeof *a+sizeof(struct sockaddr_in6)); Ad ad={.fam=fam,.port=(uint16_t)port}; memcpy(ad.ip,ip,fam==AF_INET?4:16); a->ai_flags=h?h->ai_flags:0; a->ai_family=fam; a->ai_socktype=st; a->ai_protocol=st==SOCK_STREAM?IPPROTO_TCP:IPPROTO_UDP; a->ai_addr=(struct sockaddr*)(a+1); a->ai_addrlen=fam==AF_INET?sizeof(struct sockaddr_in):sizeof(struct sockaddr_in6); put_ad(&ad,a->ai_addr,sizeof(struct sockaddr_in6)); return a; }
int sim_getaddrinfo(const char *host,const char *serv,const struct addrinfo *h,struct addrinfo **out){ sim_syscall("getaddrinfo"); if(!host&&!serv) return EAI_NONAME; if(sim_fault(FB(F_GAI))>=0) return ch(ST_DATA,2)?EAI_MEMORY:EAI_AGAIN; int fam=h?h->ai_family:AF_UNSPEC, st=h&&h->ai_socktype?h->ai_socktype:SOCK_STREAM, port=0; if(fam!=AF_UNSPEC&&fam!=AF_INET&&fam!=AF_INET6) return EAI_FAMILY; if(st!=SOCK_STREAM&&st!=SOCK_DGRAM) return EAI_SOCKTYPE;
  if(serv){ char *e; long p=strtol(serv,&e,10); if(*serv&&!*e){ if(p<0||p>65535) return EAI_SERVICE; port=(int)p; } else { port=-1; for(unsigned i=0;i<sizeof SERVS/sizeof *SERVS;i++) if(!strcmp(SERVS[i].n,serv)) port=SERVS[i].port; if(port<0) return EAI_SERVICE; } }
  struct { int fam; uint8_t ip[16]; } c[4]; int n=0; memset(c,0,sizeof c); uint8_t ip[16];
  if(!host){ int pas=h&&(h->ai_flags&AI_PASSIVE); if(pas){ c[0].fam=AF_INET; c[1].fam=AF_INET6; } else { c[0].fam=AF_INET6; c[0].ip[15]=1; c[1].fam=AF_INET; c[1].ip[0]=127; c[1].ip[3]=1; } n=2; }
  else if(inet_pton(AF_INET,host,ip)==1){ c[0].fam=AF_INET; memcpy(c[0].ip,ip,4); n=1; } else if(inet_pton(AF_INET6,host,ip)==1){ c[0].fam=AF_INET6; memcpy(c[0].ip,ip,16); n=1; }
  else for(unsigned i=0;i<sizeof HOSTS/sizeof *HOSTS;i++) if(!strcmp(HOSTS[i].n,host)){ c[n].fam=HOSTS[i].fam; inet_pton(HOSTS[i].fam,HOSTS[i].ip,c[n].ip); n++; }
  struct addrinfo *first=0,**q=&first; for(int i=0;i<n;i++) if(fam==AF_UNSPEC||fam==c[i].fam){ *q=mk_ai(h,c[i].fam,c[i].ip,port,st); q=&(*q)->ai_next; } if(!first) return EAI_NONAME; *out=first; return 0; }
void sim_freeaddrinfo(struct addrinfo *a){ while(a){ struct addrinfo *n=a->ai_next; sim_free(a); a=n; } }
int sim_getnameinfo(const struct sockaddr *sa,socklen_t l,char *host,socklen_t hn,char *serv,socklen_t sn,int fl){ sim_syscall("getnameinfo"); Ad a; if(get_ad(sa,l,&a)) return EAI_FAMILY; if((!host||!hn)&&(!serv||!sn)) return EAI_NONAME; if(sim_fault(FB(F_GAI))>=0) return EAI_AGAIN; char b[80]; if(host&&hn){ if(fl&NI_NUMERICHOST) inet_ntop(a.fam,a.ip,b,sizeof b); else host_of(&a,b,sizeof b); if(strlen(b)+1>hn) return EAI_OVERFLOW; sim_memcpy(host,b,strlen(b)+1); } if(serv&&sn){ if(fl&NI_NUMERICSERV) snprintf(b,sizeof b,"%d",a.port); else serv_of(a.port,b,sizeof b); if(strlen(b)+1>sn) return EAI_OVERFLOW; sim_memcpy(serv,b,strlen(b)+1); } return 0; }
// ---- calls
int sim_socket(int fam,int type,int proto){ sim_syscall("socket"); (void)proto; if(fam!=AF_INET&&fam!=AF_INET6){ errno=EAFNOSUPPORT; return -1; } int t=type&0xf; if(t!=SOCK_STREAM&&t!=SOCK_DGRAM){ errno=EINVAL; return -1; } if(sim_fault(FB(F_SOCKET))>=0){ errno=ch(ST_DATA,2)?ENOBUFS:EMFILE; return -1; } Sock *s=new_sock(fam,t==SOCK_STREAM); if(!s) return -1; s->nonblock=!!(type&SOCK_NONBLOCK); return new_fd(s); }
int sim_setsockopt(int fd,int lv,int op,const void *v,socklen_t l){ sim_syscall("setsockopt"); Sock *s=so(fd); if(!s) return -1; if(bad_ptr(v)){ errno=EFAULT; return -1; } int i=0; if(l<sizeof i){ errno=EINVAL; return -1; } sim_memcpy(&i,v,sizeof i); if(lv==IPPROTO_IPV6&&op==IPV6_V6ONLY){ if(s->fam!=AF_INET6){ errno=ENOPROTOOPT; return -1; } if(s->bound){ errno=EINVAL; return -1; } s->v6only=!!i; return 0; } if(lv==IPPROTO_TCP&&op==TCP_NODELAY){ if(!s->stream){ errno=EOPNOTSUPP; return -1; } s->nodelay=!!i; return 0; } if(lv==SOL_SOCKET) return 0; errno=ENOPROTOOPT; return -1; }
int sim_getsockopt(int fd,int lv,int op,void *v,socklen_t *l){ sim_syscall("getsockopt"); Sock *s=so(fd); if(!s) return -1; settle(s); int i=0; if(lv==SOL_SOCKET&&op==SO_ERROR){ i=s->err; s->err=0; } else if(lv==SOL_SOCKET&&op==SO_TYPE) i=s->stream?SOCK_STREAM:SOCK_DGRAM; else if(lv==IPPROTO_TCP&&op==TCP_NODELAY) i=s->nodelay; else if(lv==IPPROTO_IPV6&&op==IPV6_V6ONLY) i=s->v6only; sim_memcpy(v,&i,sizeof i); *l=sizeof i; return 0; }
int sim_bind(int fd,const struct sockaddr *sa,socklen_t l){ sim_syscall("bind"); Sock *s=so(fd); Ad a; if(!s||get_ad(sa,l,&a)) return -1; if(a.fam!=s->fam){ errno=EINVAL; return -1; } if(s->bound){ errno=EINVAL; return -1; } if(sim_fault(FB(F_BIND))>=0){ errno=ch(ST_DATA,2)?EACCES:EADDRINUSE; return -1; }
  char b[64]; inet_ntop(a.fam,a.ip,b,sizeof b); bool mine=wild(&a); for(unsigned i=0;i<sizeof HOSTS/sizeof *HOSTS;i++) if(HOSTS[i].fam==a.fam&&!strcmp(HOSTS[i].ip,b)) mine=true; if(!mine){ errno=EADDRNOTAVAIL; return -1; }
  if(a.port) for(int i=0;i<ns;i++) if(S[i].fd>=0&&S[i].bound&&S[i].stream==s->stream&&S[i].local.port==a.port&&!S[i].conn&&((S[i].fam==a.fam&&(wild(&S[i].local)||wild(&a)||same_ip(&S[i].local,&a)))||(S[i].fam!=a.fam&&((S[i].fam==AF_INET6&&wild(&S[i].local)&&!S[i].v6only)||(a.fam==AF_INET6&&wild(&a)&&!s->v6only))))){ errno=EADDRINUSE; return -1; }
  s->local=a; s->bound=true; if(!a.port) s->local.port=(uint16_t)next_port++; return 0; }
int sim_listen(int fd,int n){ sim_syscall("listen"); Sock *s=so(fd); if(!s) return -1; if(!s->stream||s->conn){ errno=s->stream?EINVAL:EOPNOTSUPP; return -1; } if(sim_fault(FB(F_LISTEN))>=0){ errno=EADDRINUSE; return -1; } auto_bind(s); s->state=S_LISTEN; s->blmax=n<1?1:n>15?15:n; return 0; }
int sim_connect(int fd,const struct sockaddr *sa,socklen_t l){ sim_syscall("connect"); Sock *s=so(fd); Ad a; if(!s||get_ad(sa,l,&a)) return -1; if(a.fam!=s->fam&&!(s->fam==AF_INET6)){ errno=EAFNOSUPPORT; return -1; } settle(s); if(s->stream&&s->state!=S_NEW){ errno=s->state==S_CONNECTING?EALREADY:EISCONN; return -1; }
  if(!s->stream){ if(sim_fault(FB(F_CONNECT))>=0){ errno=ENETUNREACH; return -1; } auto_bind(s); s->local=local_for(s,&a); s->peer=a; s->haspeer=true; return 0; }
  if(sim_fault(FB(F_CONNECT))>=0){ static const int E[]={ECONNREFUSED,ETIMEDOUT,ENETUNREACH,EINTR}; int e=E[ch(ST_DATA,4)]; if(s->nonblock&&(e==ETIMEDOUT||e==EINTR)) e=ECONNREFUSED; errno=e; s->state=S_DEAD; sim_time_advance(e==ETIMEDOUT?3000000000ull:1000); return -1; }
  Sock *L=find(1,a); uint64_t d=lat(); int err=0; if(!L) err=ECONNREFUSED; else if(L->nbl>=L->blmax) err=ETIMEDOUT; Sock *t=0; if(!err){ t=new_sock(L->fam,1); if(!t) err=ECONNREFUSED; }
  if(!err){ auto_bind(s); s->local=local_for(s,&a); s->peer=a; s->haspeer=true; t->local=L->fam==a.fam?a:mapped(a); t->bound=true; t->peer=L->fam==s->fam?s->local:mapped(unmapped(s->local)); if(wild(&a)){ t->local=s->local=a; } t->haspeer=true; t->state=S_CONN; t->conn=s; s->conn=t; t->appear=sim_mono_ns+d+1; L->bl[L->nbl++]=t; }
  if(s->nonblock){ s->state=S_CONNECTING; s->conn_at=sim_mono_ns+2*d+1; s->conn_err=err; errno=EINPROGRESS; return -1; }
  sim_time_advance(err==ETIMEDOUT?3000000000ull:2*d+1); if(err){ s->state=S_DEAD; errno=err; return -1; } s->state=S_CONN; return 0; }
int sim_accept4(int fd,struct sockaddr *sa,socklen_t *l,int fl){ sim_syscall("accept"); Sock *s=so(fd); if(!s) return -1; if(s->state!=S_LISTEN){ errno=EINVAL; return -1; } if(sim_fault(FB(F_ACCEPT))>=0){ static const int E[]={EINTR,ECONNABORTED,EMFILE,ENOBUFS}; errno=E[ch(ST_DATA,4)]; return -1; } if(next_event(s)>sim_mono_ns){ if(s->nonblock){ errno=EAGAIN; return -1; } wait_for(s,"accept"); }
  int b=0; for(int i=1;i<s->nbl;i++) if(s->bl[i]->appear<s->bl[b]->appear) b=i; Sock *t=s->bl[b]; if(sa&&out_ad(&t->peer,sa,l)) return -1; int n=new_fd(t); if(n<0) return -1; t->nonblock=!!(fl&SOCK_NONBLOCK); memmove(s->bl+b,s->bl+b+1,sizeof(*s->bl)*(size_t)(s->nbl-b-1)); s->nbl--; settle(t); return n; }
int sim_accept(int fd,struct sockaddr *sa,socklen_t *l){ return sim_accept4(fd,sa,l,0); }
int sim_getsockname(int fd,struct sockaddr *sa,socklen_t *l){ sim_syscall("getsockname"); Sock *s=so(fd); if(!s) return -1; if(sim_fault(FB(F_SOCKNAME))>=0){ errno=ENOBUFS; return -1; } return out_ad(&s->local,sa,l); }
int sim_getpeername(int fd,struct sockaddr *sa,socklen_t *l){ sim_syscall("getpeername"); Sock *s=so(fd); if(!s) return -1; if(!s->haspeer){ errno=ENOTCONN; return -1; } return out_ad(&s->peer,sa,l); }
static void epipe(int fl){ if(!(fl&MSG_NOSIGNAL)) sim_violation("killed:SIGPIPE","sending on a connection the peer has closed raises SIGPIPE, which ends the process"); errno=EPIPE; }
static ssize_t dgram(Sock *s,const void *b,size_t n,Ad to){ if(n>65507){ errno=EMSGSIZE; return -1; } int k=sim_fault(FB(F_SEND_ERR)); if(k>=0){ errno=s->nonblock?EAGAIN:ch(ST_DATA,2)?EINTR:ENOBUFS; return -1; } if(to.fam!=s->fam){ if(s->fam==AF_INET6&&to.fam==AF_INET) to=mapped(to); else { errno=EAFNOSUPPORT; return -1; } } auto_bind(s); Ad src=local_for(s,&to); Sock *d=find(0,to); k=sim_fault(FB(F_NET_DROP)|FB(F_NET_DUP));
  if(!d){ if(s->haspeer) s->err=ECONNREFUSED; return (ssize_t)n; } if(k==F_NET_DROP) return (ssize_t)n; if(d->fam!=src.fam) src=d->fam==AF_INET?unmapped(src):mapped(src); if(d->haspeer&&!same_ad(&d->peer,&src)) return (ssize_t)n; for(int i=0;i<=(k==F_NET_DUP);i++) enqueue(d,b,n,false,&src,sim_mono_ns+lat()); return (ssize_t)n; }
ssize_t sim_sendto(int fd,const void *b,size_t n,int fl,const struct sockaddr *sa,socklen_t l){ sim_syscall("send"); Sock *s=so(fd); if(!s) return -1; settle(s); if((fl&MSG_OOB)&&!s->stream){ errno=EOPNOTSUPP; return -1; }
  if((fl&MSG_DONTWAIT)&&!s->nonblock&&!ch(ST_DATA,3)){ errno=EAGAIN; return -1; } /* the buffers are full for a moment: only a call that asked not to wait notices */
  if(!s->stream){ Ad a; if(s->err){ errno=s->err; s->err=0; return -1; } if(sa){ if(get_ad(sa,l,&a)) return -1; } else if(s->haspeer) a=s->peer; else { errno=EDESTADDRREQ; return -1; } return dgram(s,b,n,a); }
  if(s->state==S_CONNECTING){ if(s->nonblock){ errno=EAGAIN; return -1; } } if(s->err){ if(s->err==ECONNRESET&&s->peer_gone){ s->err=0; epipe(fl); return -1; } errno=s->err; s->err=0; return -1; } if(s->state==S_DEAD||s->wrshut){ epipe(fl); return -1; } if(s->state!=S_CONN){ epipe(fl); return -1; }
  int k=sim_fault(FB(F_SEND_SHORT)|FB(F_SEND_ERR)|FB(F_NET_RESET)); if(k==F_NET_RESET){ net_break(s); s->err=0; errno=ECONNRESET; return -1; } if(k==F_SEND_ERR){ errno=s->nonblock?EAGAIN:ch(ST_DATA,2)?EINTR:ENOBUFS; return -1; }
  Sock *p=s->conn; if(!n) return 0; if(s->peer_gone||!p){ do_reset(s); if(!s->reset_at) s->reset_at=sim_mono_ns+1; return (ssize_t)n; } size_t m=n; if(s->nonblock||(fl&MSG_DONTWAIT)){ size_t room=sndbuf>p->inflight?sndbuf-p->inflight:0; if(!room){ errno=EAGAIN; return -1; } if(m>room) m=room; } if(k==F_SEND_SHORT&&m>1) m=1+ch(ST_DATA,(uint32_t)m-1); if(m-!!(fl&MSG_OOB)) enqueue(p,b,m-!!(fl&MSG_OOB),false,0,sim_mono_ns+lat()); /* the last byte of an urgent message leaves the stream */ return (ssize_t)m; }
ssize_t sim_send(int fd,const void *b,size_t n,int fl){ return sim_sendto(fd,b,n,fl,0,0); }
ssize_t sim_recvfrom(int fd,void *b,size_t n,int fl,struct sockaddr *sa,socklen_t *l){ sim_syscall("recv"); Sock *s=so(fd); if(!s) return -1; settle(s); if(fl&(MSG_OOB|MSG_ERRQUEUE)){ errno=fl&MSG_OOB?s->stream?EINVAL:EOPNOTSUPP:EAGAIN; return -1; } bool nb=s->nonblock||(fl&MSG_DONTWAIT); int k=sim_fault(FB(F_RECV_SHORT)|FB(F_RECV_ERR)); if(k==F_RECV_ERR){ errno=nb?EAGAIN:ch(ST_DATA,2)?EINTR:ENOMEM; return -1; }
  if(s->stream&&(s->state==S_NEW||s->state==S_LISTEN)){ errno=ENOTCONN; return -1; }
  if(next_event(s)>sim_mono_ns||(s->state==S_CONNECTING)){ if(nb){ errno=EAGAIN; return -1; } wait_for(s,"recv"); }
  Seg *g=s->rx; if(g&&g->at>sim_mono_ns) g=0;
  if(!g){ if(s->err){ errno=s->err; s->err=0; return -1; } return 0; }
  if(!s->stream){ size_t dn=g->n, m=n<dn?n:dn; if(m) sim_memcpy(b,g->d,m); int r=sa?out_ad(&g->from,sa,l):0; if(!(fl&MSG_PEEK)){ s->rx=g->next; s->inflight-=g->n; __real_free(g); } return r?-1:(ssize_t)(fl&MSG_TRUNC?dn:m); }
  if(fl&MSG_PEEK){ size_t got=0; for(g=s->rx;g&&got<n&&g->at<=sim_mono_ns&&!g->eof;g=g->next){ size_t m=g->n-g->off; if(m>n-got) m=n-got; sim_memcpy((uint8_t*)b+got,g->d+g->off,m); got+=m; } if(sa&&!bad_ptr(l)) *l=0; return (ssize_t)got; }
  size_t got=0; again: while(got<n&&(g=s->rx)&&g->at<=sim_mono_ns&&!g->eof){ size_t m=g->n-g->off; if(m>n-got) m=n-got; if(!(fl&MSG_TRUNC)) sim_memcpy((uint8_t*)b+got,g->d+g->off,m); got+=m; g->off+=m; s->inflight-=m; if(g->off==g->n){ s->rx=g->next; __real_free(g); } if(k==F_RECV_SHORT) break; }
  if((fl&MSG_WAITALL)&&!nb&&got<n&&k!=F_RECV_SHORT&&!s->err&&!(s->rx&&s->rx->eof&&s->rx->at<=sim_mono_ns)){ wait_for(s,"recv"); goto again; }
  if(!got&&s->rx&&s->rx->eof&&s->rx->at<=sim_mono_ns) s->eof_seen=true; if(sa&&!bad_ptr(l)) *l=0; return (ssize_t)got; }
ssize_t sim_recv(int fd,void *b,size_t n,int fl){ return sim_recvfrom(fd,b,n,fl,0,0); }
ssize_t sim_sendmsg(int fd,const struct msghdr *m,int fl){ size_t n=0; for(size_t i=0;i<m->msg_iovlen;i++) n+=m->msg_iov[i].iov_len; uint8_t *t=__real_calloc(1,n+1); n=0; for(size_t i=0;i<m->msg_iovlen;i++){ memcpy(t+n,m->msg_iov[i].iov_base,m->msg_iov[i].iov_len); n+=m->msg_iov[i].iov_len; } ssize_t r=sim_sendto(fd,t,n,fl,m->msg_name,m->msg_namelen); int e=errno; __real_free(t); errno=e; return r; }
ssize_t sim_recvmsg(int fd,struct msghdr *m,int fl){ size_t n=0,k=0; for(size_t i=0;i<m->msg_iovlen;i++) n+=m->msg_iov[i].iov_len; uint8_t *t=__real_calloc(1,n+1); m->msg_flags=0; ssize_t r=sim_recvfrom(fd,t,n,fl,m->msg_name,m->msg_name?&m->msg_namelen:0); int e=errno; if(r>0) for(size_t i=0;i<m->msg_iovlen&&k<(size_t)r;i++){ size_t c=(size_t)r-k<m->msg_iov[i].iov_len?(size_t)r-k:m->msg_iov[i].iov_len; memcpy(m->msg_iov[i].iov_base,t+k,c); k+=c; } __real_free(t); errno=e; return r; }
int sim_shutdown(int fd,int how){ sim_syscall("shutdown"); Sock *s=so(fd); if(!s) return -1; settle(s); if(s->state!=S_CONN){ errno=ENOTCONN; return -1; } if(how!=SHUT_RD&&!s->wrshut){ s->wrshut=true; if(s->conn) enqueue(s->conn,0,0,true,0,sim_mono_ns+lat()); } return 0; }
void simnet_close(int fd){ Sock *s=simfds[fd].sock; settle(s); s->fd=-1; s->bound=false; if(s->state==S_LISTEN){ for(int i=0;i<s->nbl;i++){ Sock *c=s->bl[i]->conn; if(c){ c->peer_gone=true; do_reset(c); } } s->nbl=0; } Sock *p=s->conn; bool unread=false; for(Seg *q=s->rx;q;q=q->next) if(!q->eof) unread=true; if(p){ p->peer_gone=true; if(unread) do_reset(p); else if(!s->wrshut&&!s->reset) enqueue(p,0,0,true,0,sim_mono_ns+lat()); } Seg *q=s->rx; while(q){ Seg *n=q->next; __real_free(q); q=n; } s->rx=0; if(p) p->conn=0; s->conn=0; s->state=S_DEAD; }
int sim_fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); sim_syscall("fcntl"); XFd *x=simfd_get(fd); if(!x) return -1; if(sim_fault(FB(F_FCNTL))>=0){ errno=EINVAL; return -1; } if(x->kind==FD_SOCK){ Sock *s=x->sock; if(cmd==F_GETFL) return O_RDWR|(s->nonblock?O_NONBLOCK:0); if(cmd==F_SETFL){ s->nonblock=!!(a&O_NONBLOCK); return 0; } return 0; } if(cmd==F_GETFL) return x->flags; if(cmd==F_SETFL){ x->flags=(x->flags&O_ACCMODE)|((int)a&~O_ACCMODE); } return 0; }
int sim_fcntl64(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); return sim_fcntl(fd,cmd,a); }
int sim_ioctl(int fd,unsigned long c,...){ va_list ap; va_start(ap,c); void *a=va_arg(ap,void*); va_end(ap); sim_syscall("ioctl"); Sock *s=so(fd); if(!s) return -1; if(sim_fault(FB(F_FCNTL))>=0){ errno=EINVAL; return -1; } if(c==FIONBIO){ s->nonblock=*(int*)a!=0; return 0; } if(c==FIONREAD){ *(int*)a=s->rx&&s->rx->at<=sim_mono_ns?(int)(s->rx->n-s->rx->off):0; return 0; } errno=ENOTTY; return -1; }
typedef struct { int fd; bool r, w, x, or, ow; } Want;
static int want(Want *w,int n,uint64_t deadline){ // fds are valid sockets or files
  for(;;){ int k=0; uint64_t t=deadline; for(int i=0;i<n;i++){ XFd *x=&simfds[w[i].fd]; w[i].or=w[i].ow=false; if(x->kind!=FD_SOCK){ w[i].or=w[i].r; w[i].ow=w[i].w; } else { Sock *s=x->sock; uint64_t e=next_event(s); if(w[i].r){ if(e<=sim_mono_ns) w[i].or=true; else if(e<t) t=e; } if(w[i].w){ if(s->state!=S_CONNECTING) w[i].ow=true; else if(s->conn_at<t) t=s->conn_at; } } k+=w[i].or+w[i].ow; }
    if(k||sim_mono_ns>=deadline) return k; if(t==UINT64_MAX) sim_violation("hang:socket","waiting without a time limit for something that never comes"); sim_time_advance(t-sim_mono_ns); } }
int sim_select(int nfds,fd_set *r,fd_set *w,fd_set *e,struct timeval *tv){ sim_syscall("select"); if(nfds<0){ errno=EINVAL; return -1; } if(nfds>FD_SETSIZE) sim_violation("select:too-large","select over %d descriptors reads past the set of %d",nfds,FD_SETSIZE); if(tv&&(tv->tv_sec<0||tv->tv_usec<0)){ errno=EINVAL; return -1; } static Want q[FD_SETSIZE]; int n=0; for(int i=0;i<nfds;i++){ bool a=r&&FD_ISSET(i,r), b=w&&FD_ISSET(i,w), c=e&&FD_ISSET(i,e); if(!a&&!b&&!c) continue; if(i>=SIM_MAXFD||!simfds[i].kind){ errno=EBADF; return -1; } q[n++]=(Want){i,a,b,c}; }
  uint64_t ns_=tv?(uint64_t)tv->tv_sec*1000000000ull+(uint64_t)tv->tv_usec*1000ull:UINT64_MAX; if(sim_fault(FB(F_SELECT_EINTR))>=0){ if(ns_&&ns_!=UINT64_MAX) sim_time_advance(ch(ST_DATA,(uint32_t)(ns_/1000>1000000?1000000:ns_/1000)+1)*1000ull); errno=EINTR; return -1; } int k=want(q,n,tv?sim_mono_ns+ns_:UINT64_MAX); if(r) FD_ZERO(r); if(w) FD_ZERO(w); if(e) FD_ZERO(e); for(int i=0;i<n;i++){ if(q[i].or) FD_SET(q[i].fd,r); if(q[i].ow) FD_SET(q[i].fd,w); } return k; }
int sim_pselect(int nfds,fd_set *r,fd_set *w,fd_set *e,const struct timespec *ts,const sigset_t *m){ (void)m; struct timeval tv; if(ts){ tv.tv_sec=ts->tv_sec; tv.tv_usec=ts->tv_nsec/1000; } return sim_select(nfds,r,w,e,ts?&tv:0); }
int sim_poll(struct pollfd *p,nfds_t np,int ms){ sim_syscall("poll"); static Want q[FD_SETSIZE]; static int at[FD_SETSIZE]; int n=0,bad=0; for(nfds_t i=0;i<np&&n<FD_SETSIZE;i++){ p[i].revents=0; if(p[i].fd<0) continue; if(p[i].fd>=SIM_MAXFD||!simfds[p[i].fd].kind){ p[i].revents=POLLNVAL; bad++; continue; } at[n]=(int)i; q[n++]=(Want){p[i].fd,!!(p[i].events&(POLLIN|POLLRDNORM)),!!(p[i].events&(POLLOUT|POLLWRNORM))}; } if(bad) return bad; if(sim_fault(FB(F_SELECT_EINTR))>=0){ errno=EINTR; return -1; } want(q,n,ms<0?UINT64_MAX:sim_mono_ns+(uint64_t)ms*1000000ull); int k=0; for(int i=0;i<n;i++){ if(q[i].or) p[at[i]].revents|=POLLIN; if(q[i].ow) p[at[i]].revents|=POLLOUT; k+=!!p[at[i]].revents; } return k; }
