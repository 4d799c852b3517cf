// variants: S
#include "common.h"
const char *const scenario_name = "C36";
const char *const scenario_rule = "a run counts when some fence was reached with a write of its thread still invisible to the others, and its schedule differs from every other run";
// Simulated processors with store buffers: a write waits in its thread's buffer, first in first out, until it drains at a point the scheduler
// chooses or the thread executes an instruction that drains it. A thread sees its own waiting writes.
#define NT 4
#define NB 8
static int mem[16]; static struct { int at[NB], v[NB], n; } B[NT]; static int nt, rounds, drained_by_fence, lazy; static bool buffering;
static int tid_of_self[64];
static int me_(void) { return tid_of_self[thr_self()]; }
static void drain1(int t) { if (!B[t].n) return; mem[B[t].at[0]] = B[t].v[0]; for (int i = 1; i < B[t].n; i++) { B[t].at[i - 1] = B[t].at[i]; B[t].v[i - 1] = B[t].v[i]; } B[t].n--; }
static void drain_all(int t) { while (B[t].n) drain1(t); }
static void hook(int full) { int t = me_(); if (B[t].n) drained_by_fence = 1; drain_all(t); }
static void background(void) { if (ch(ST_DATA, lazy) == 0) drain1(ch(ST_DATA, nt)); }
static void wr(int at, int v) { int t = me_(); if (B[t].n == NB) drain1(t); B[t].at[B[t].n] = at; B[t].v[B[t].n++] = v; thr_point(); background(); }
static int rd(int at) { int t = me_(); background(); thr_point(); for (int i = B[t].n - 1; i >= 0; i--) if (B[t].at[i] == at) return B[t].v[i]; return mem[at]; }
static void fence(void) { sim_op(); thr_bystep(true); zpl_mfence(); thr_bystep(false); }
// every thread writes its word, fences, and reads all others: somebody's write comes first, and everybody who fenced later has to see it
static int got[NT][NT], kind, in_cs, inside, cs_entered;
static void sb(void *arg) { int i = (int)(intptr_t)arg; tid_of_self[thr_self()] = i;
  int pre = ch(ST_OP, 3); for (int k = 0; k < pre; k++) wr(8 + ch(ST_OP, 4), k);
  for (int k = ch(ST_OP, 4); k > 0; k--) thr_point();
  wr(i, 1); if (ch(ST_OP, 3) == 0) zpl_sfence(); fence();
  for (int j = 0; j < nt; j++) got[i][j] = rd(j); sim_ev("read", i, got[i][0] * 8 + got[i][1] * 4); }
// two threads and a lock made of plain words and fences (Peterson)
static void pet(void *arg) { int i = (int)(intptr_t)arg, o = 1 - i; tid_of_self[thr_self()] = i;
  for (int r = 0; r < rounds; r++) { wr(i, 1); wr(2, o); fence(); 
    for (int n = 0; rd(o) && rd(2) == o; n++) { thr_yield(); background(); }
    in_cs++; CHECK(in_cs == 1, "both-inside", "two threads are inside a critical section guarded by writes, full fences and reads"); cs_entered++; int v = rd(4); for (int k = ch(ST_OP, 3); k > 0; k--) thr_point(); wr(4, v + 1); CHECK(in_cs == 1, "both-inside", "two threads are inside a critical section guarded by writes, full fences and reads");
    fence(); in_cs--; wr(i, 0); }
  fence(); }
void scenario(void) {
  kind = ch(ST_CFG, 3); nt = kind == 2 ? 2 : 2 + ch(ST_CFG, NT - 1); lazy = 1 << ch(ST_CFG, 5); rounds = 1 + ch(ST_CFG, 3);
  thr_enable(); thr_set_budget(60000); thr_fence_hook = hook;
  int t[NT]; 
  if (kind < 2) {
    for (int i = 1; i < nt; i++) t[i] = thr_spawn(sb, (void *)(intptr_t)i);
    sb((void *)0); for (int i = 1; i < nt; i++) thr_join_h(t[i]);
    for (int i = 0; i < nt; i++) { CHECK(got[i][i] == 1, "own-write-lost", "harness"); for (int j = 0; j < i; j++) CHECK(got[i][j] || got[j][i], "write-read-reordered", "threads %d and %d each wrote a word, fenced, and read the other's word: both read the old value", j, i); }
    sim_feature(sim_mix(nt, sim_mix(got[0][1] + 2 * got[1][0], got[nt - 1][0])));
  } else {
    t[1] = thr_spawn(pet, (void *)1); pet((void *)0); thr_join_h(t[1]); drain_all(0); drain_all(1);
    CHECK(mem[4] == 2 * rounds, "update-lost", "%d updates made inside the critical section left %d", 2 * rounds, mem[4]); sim_feature(sim_mix(rounds, lazy));
  }
  if (drained_by_fence) sim_nontrivial();
}
