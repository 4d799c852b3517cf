// variants: T
#include "common.h"
const char *const scenario_name = "C05";
const char *const scenario_rule = "a run counts when a wait really blocked or was interrupted by a signal, and its schedule differs from every other run";
static zpl_semaphore s; static long posted_max, posted_min, consumed, started; static int nw, np, nt; static int waits[8], posts[8][8], npost[8], tries[8]; static int blocked_seen;
static void inv(const char *w) { CHECK(consumed <= posted_max, "invented-wakeup", "%s: %ld units consumed, only %ld posted", w, consumed, posted_max); }
static void waiter(void *a) { int id = (int)(intptr_t)a; for (int k = 0; k < waits[id]; k++) { sim_op(); if (posted_max <= consumed) blocked_seen = 1; zpl_semaphore_wait(&s); consumed++; sim_ev("wait-returned", id, consumed); inv("a wait returned"); sim_feature(sim_mix(posted_min, consumed)); } }
static void poster(void *a) { int id = (int)(intptr_t)a; for (int k = 0; k < npost[id]; k++) { int c = posts[id][k]; sim_op(); if (c > 0) posted_max += c; if (c == 1 && id & 1) zpl_semaphore_release(&s); else zpl_semaphore_post(&s, c); if (c > 0) posted_min += c; sim_ev("posted", id, c); } }
static int trying;
static void trier(void *a) { int id = (int)(intptr_t)a; for (int k = 0; k < tries[id]; k++) { sim_op(); 
    trying++; zpl_i32 r = zpl_semaphore_trywait(&s); trying--;
    if (r == 0) { consumed++; inv("a trywait succeeded"); }
    sim_ev("trywait", id, r); thr_yield(); } }
void scenario(void) {
  sim_faults_init(FB(F_SEM_EINTR));
  nw = 1 + ch(ST_CFG, 3); np = 1 + ch(ST_CFG, 3); nt = ch(ST_CFG, 3);
  memset(&s, 0x5a, sizeof s);
  zpl_semaphore_init(&s);
  CHECK(zpl_semaphore_trywait(&s) != 0, "invented-wakeup", "a new semaphore handed out a unit");
  long tot_wait = 0, tot_post = 0, tot_try = 0;
  for (int i = 0; i < nw; i++) { waits[i] = ch(ST_OP, 5); tot_wait += waits[i]; }
  for (int i = 0; i < np; i++) { npost[i] = 1 + ch(ST_OP, 4); for (int k = 0; k < npost[i]; k++) { posts[i][k] = (int)ch(ST_OP, 6) - 1; if (ch(ST_OP, 12) == 11) posts[i][k] = -3; if (posts[i][k] > 0) tot_post += posts[i][k]; } }
  for (int i = 0; i < nt; i++) { tries[i] = 1 + ch(ST_OP, 6); tot_try += tries[i]; }
  int huge = ch(ST_OP, 80) == 79 ? (int)(uint32_t[]){250, 256, 1000, 32767, 32769, 65535, 65537, 70000}[ch(ST_OP, 8)] : 0; if (huge) { posts[0][0] = huge; tot_post += huge; sim_probe("a great many units at once"); }
  thr_enable(); thr_set_budget(huge > 2000 ? 4000000 : 400000);
  int t[12], n = 0; 
  for (int i = 0; i < nw; i++) t[n++] = thr_spawn(waiter, (void *)(intptr_t)i);
  int tw = n;
  for (int i = 0; i < np; i++) t[n++] = thr_spawn(poster, (void *)(intptr_t)i);
  for (int i = 0; i < nt; i++) t[n++] = thr_spawn(trier, (void *)(intptr_t)i);
  for (int i = tw; i < n; i++) thr_join_h(t[i]);
  // all posters and triers are done: waiters must be served while units remain
  long left = posted_max - consumed; (void)left;
  // give the units still missing, one by one or at once
  long have = tot_post; long tries_ok = 0; (void)tries_ok; 
  long missing = tot_wait - (have - 0);
  // units consumed by triers shrink what the waiters can get: count afresh after everything has settled
  for (int i = 0; i < 200; i++) thr_yield();
  sim_faults_enable(false);
  (void)missing;
  long waits_done = 0; for (;;) { int alive = thr_alive() - 1; if (!alive) break; waits_done = consumed; zpl_i32 one = 1 + ch(ST_OP, 2); posted_max += one; zpl_semaphore_post(&s, one); posted_min += one; for (int i = 0; i < 60; i++) thr_yield(); if (thr_alive() - 1 == alive && consumed == waits_done) { for (int i = 0; i < 3000; i++) thr_yield(); CHECK(consumed > waits_done || thr_alive() - 1 < alive, "lost-wakeup", "a unit was posted and %d waiters stay asleep", alive); } }
  for (int i = 0; i < tw; i++) thr_join_h(t[i]);
  // whatever was posted and not consumed is still there, exactly
  long rest = 0; while (zpl_semaphore_trywait(&s) == 0) { rest++; CHECK(consumed + rest <= posted_max, "invented-wakeup", "more units than were posted"); }
  CHECK(consumed + rest == posted_max, "lost-unit", "%ld units posted, %ld consumed, only %ld left", posted_max, consumed, rest);
  CHECK(zpl_semaphore_trywait(&s) != 0, "invented-wakeup", "an empty semaphore handed out a unit");
  zpl_semaphore_destroy(&s);
  if (blocked_seen || sim_fired_total()) sim_nontrivial();
}
