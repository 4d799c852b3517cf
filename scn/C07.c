// variants: T
#include "common.h"
const char *const scenario_name = "C07";
const char *const scenario_rule = "a run counts when some thread waited at the merge point, and its schedule differs from every other run";
static zpl_sync s; static int rounds, nth, arr[6], arrived[6], released[6], got[6][1100], plan[6][64], plan_n[6][64], target[6]; static int returned[6]; static int setting;
// every thread takes part in every round in which plan[r][i] is set: 1 reach_and_wait, 2 reach; the setter opens the rounds
static int opened = -1; static int quiet_reached[6];
static void part(int r, int i) {
  sim_op(); int how = plan[r][i]; if (!how) return;
  arrived[r]++; sim_ev("arrive", r * 64 + i, how);
  if (how == 1) { zpl_sync_reach_and_wait(&s); CHECK(arrived[r] >= target[r], "released-early", "round %d: a waiter continued after %d of %d arrivals", r, arrived[r], target[r]); }
  else { zpl_i32 n = zpl_sync_reach(&s); CHECK(n >= 1 && n <= target[r], "arrival-number", "round %d: arrival number %d of %d", r, n, target[r]); CHECK(!got[r][n]++, "arrival-number", "round %d: arrival number %d was returned twice", r, n); }
  if (how == 3) { sim_probe("one thread reached twice"); arrived[r]++; zpl_i32 n = zpl_sync_reach(&s); CHECK(n >= 1 && n <= target[r], "arrival-number", "round %d: arrival number %d of %d", r, n, target[r]); CHECK(!got[r][n]++, "arrival-number", "round %d: arrival number %d was returned twice", r, n); returned[r]++; }
  if (how > 3) { sim_probe("one thread reached many times"); for (int k = 1; k < how; k++) { arrived[r]++; zpl_i32 n = zpl_sync_reach(&s); CHECK(n >= 1 && n <= target[r], "arrival-number", "round %d: arrival number %d of %d", r, n, target[r]); CHECK(!got[r][n]++, "arrival-number", "round %d: arrival number %d was returned twice", r, n); returned[r]++; } }
  returned[r]++; sim_ev("leave", r * 64 + i, returned[r]); sim_feature(sim_mix(r, sim_mix(arrived[r], returned[r] * 8 + how)));
}
static bool p_open(void *a) { return opened >= (int)(intptr_t)a; }
static void worker(void *a) { int i = (int)(intptr_t)a; for (int r = 0; r < rounds; r++) if (plan[r][i]) { if (opened < r) thr_block(p_open, (void *)(intptr_t)r, 0, "round to open"); for (int d = plan_n[r][i]; d > 0; d--) thr_point(); part(r, i); } }
void scenario(void) {
  rounds = 1 + ch(ST_CFG, 5); nth = 2 + ch(ST_CFG, 4); int waiters = 0, wide = (int)ch(ST_CFG, 30); if (wide == 29) { nth = 6 + ch(ST_CFG, 50); sim_probe("many threads"); } if (wide >= 28 && rounds > 2) rounds = 2;
  for (int r = 0; r < rounds; r++) { target[r] = 0; for (int i = 0; i < nth; i++) { plan[r][i] = ch(ST_OP, 5) == 4 ? 0 : ch(ST_OP, 3) == 2 ? 2 + ch(ST_OP, 2) : 1; plan_n[r][i] = ch(ST_OP, 3) == 2 ? ch(ST_OP, 40) : 0; if (wide == 28 && plan[r][i] == 3 && target[r] < 400) plan[r][i] = 4 + (int)ch(ST_OP, 300); if (plan[r][i]) target[r] += plan[r][i] >= 3 ? plan[r][i] - (plan[r][i] == 3) : 1; if (plan[r][i] == 1) waiters++; } if (!target[r]) { plan[r][0] = 1; target[r] = 1; } }
  // thread 0 is the setter and may take part itself
  sim_faults_init(FB(F_SEM_EINTR));
  memset(&s, 0x33, sizeof s); zpl_sync_init(&s); thr_enable(); thr_set_budget(wide >= 28 ? 1500000 : 200000);
  int t[64]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(worker, (void *)(intptr_t)i);
  for (int r = 0; r < rounds; r++) {
    sim_ev("set-target", r, target[r]);
    zpl_sync_set_target(&s, target[r]);
    // the previous merge has drained: everyone who waited has been let go
    if (r) CHECK(arrived[r - 1] == target[r - 1], "target-early", "a new target was accepted before the previous merge completed (%d of %d)", arrived[r - 1], target[r - 1]);
    opened = r; part(r, 0);
  }
  for (int i = 1; i < nth; i++) thr_join_h(t[i]);
  for (int r = 0; r < rounds; r++) { CHECK(returned[r] == target[r], "stuck", "round %d", r); }
  // the barrier is idle again
  zpl_sync_set_target(&s, 1); CHECK(zpl_sync_reach(&s) == 1, "arrival-number", "a barrier of one");
  zpl_sync_destroy(&s);
  CHECK(thr_sems_live() == 0 && thr_mutexes_live() == 0, "leak:sync-object", "the barrier left %d semaphores and %d mutexes", thr_sems_live(), thr_mutexes_live());
  if (waiters) sim_nontrivial();
}
