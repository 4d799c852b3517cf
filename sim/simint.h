#ifndef SIMINT_H
#define SIMINT_H
#include "sim.h"
#define CHCAP 60000
#define NFEAT 2048
#define NPROBE 48
typedef struct {
  int status; char key[96]; char msg[1024]; uint64_t hash, points, switches, syscalls, simtime; uint32_t ops, nontrivial;
  uint32_t nfault[F_N]; struct { char name[40]; uint32_t n; } probe[NPROBE]; uint32_t nfeat;
  uint32_t nch[ST_N];
  uint32_t ch[ST_N][CHCAP]; uint64_t feat[NFEAT]; uint32_t loglen; char log[1<<20];
} SimRes;
extern SimRes *res;
uint32_t ch_nz(int st, uint32_t n);
void *__real_calloc(size_t a,size_t b); void __real_free(void *p);
void sim_shadow_check(const void *p, size_t n, int w);
bool sim_is_live(void *p);
extern char sim_stderr_tail[512]; extern int sim_stderr_len;
#endif
