// variants: T
#include "common.h"
const char *const scenario_name = "C03";
const char *const scenario_rule = "a run counts when some queue was full and refused a job or at least three jobs of equal priority were served, and its trace differs from every other run";
#include "jobs.inc"
static int q[5][MAXJ], qh[5], qt[5], limit; static int served_same[5];
static int waiting(int p) { return qt[p] - qh[p]; }
static void verify(void) {
  int all_e = 1, all_f = 1;
  for (int p = 0; p < 5; p++) {
    int e = zpl_jobs_empty(pool, (zpl_jobs_priority)p) != 0, f = zpl_jobs_full(pool, (zpl_jobs_priority)p) != 0;
    CHECK(e == (waiting(p) == 0), "empty-query", "priority %d: empty query says %d with %d jobs waiting", p, e, waiting(p));
    CHECK(f == (waiting(p) >= limit), "full-query", "priority %d: full query says %d with %d of %d jobs waiting", p, f, waiting(p), limit);
    if (waiting(p)) all_e = 0; if (waiting(p) < limit) all_f = 0;
  }
  CHECK((zpl_jobs_empty_all(pool) != 0) == all_e, "empty-all-query", "the all-priority empty query disagrees with the waiting jobs");
  CHECK((zpl_jobs_full_all(pool) != 0) == all_f, "full-all-query", "the all-priority full query disagrees with the waiting jobs");
}
// the started jobs that the model has not seen yet
static int seen;
static void absorb(void) {
  while (seen < started_total) { int k = start_log[seen++], p = J[k].prio; 
    CHECK(waiting(p) > 0, "phantom-start", "job %d started although none of its priority was waiting", k);
    int h = q[p][qh[p]]; CHECK(h == k, "not-fifo", "priority %d: job %d started before job %d, which was accepted earlier", p, k, h); qh[p]++; served_same[p]++; }
}
static void settle(void) { // run until one more job started; the freed worker serves exactly one
  int s0 = started_total;
  while (started_total == s0) { process(); for (int i = 0; i < 3; i++) thr_yield(); }
  absorb();
}
void scenario(void) { pick_alloc();
  int nw = 1 + ch(ST_CFG, 3); int def = ch(ST_CFG, 6) == 5; limit = def ? 100 : ch(ST_CFG, 8) == 7 ? 100 + ch(ST_CFG, 12) : 1 + ch(ST_CFG, 7);
  if (ch(ST_CFG, 12) == 11) nw = 4 + ch(ST_CFG, 30); // many workers
  if (ch(ST_CFG, 60) == 59) { def = 0; limit = (int)(uint32_t[]){127, 255, 256, 300, 511, 512, 1023, 1024, 2000}[ch(ST_CFG, 9)] + ch(ST_CFG, 3); nw = 1 + ch(ST_CFG, 3); sim_probe("a long queue"); }
  if (nw > 3) sim_probe("many workers");
  thr_enable(); thr_set_budget(4000000); body_kind = 0;
  static zpl_jobs_system jp; pool = &jp;
  if (def) zpl_jobs_init(pool, ALLOC, nw); else zpl_jobs_init_with_limit(pool, ALLOC, nw, limit);
  verify();
  // occupy every worker with a gated job
  for (int i = 0; i < nw; i++) { int p = ch(ST_OP, 5); CHECK(enqueue(p, 1, 1), "refused-below-limit", "an empty queue refused a job"); q[p][qt[p]++] = nj - 1; settle(); }
  verify();
  int focus = ch(ST_OP, 5), refused = 0, nops = ch(ST_OP, 60); if (limit > 50) nops = limit + 10 + ch(ST_OP, 20); if (limit > 120) nops += limit / 12;
  for (int i = 0; i < nops && nj < MAXJ - 5; i++) {
    int op = ch(ST_OP, limit > 120 ? 200 : limit > 50 ? 24 : 8);
    if (op == 0 && accepted_total - started_total > 0) { gate_open++; settle(); verify(); }
    else if (op == 1) { process(); for (int n = ch(ST_OP, 3); n > 0; n--) thr_yield(); CHECK(seen == started_total, "over-dispatch", "a job started although every worker is busy"); verify(); }
    else {
      int p = ch(ST_OP, limit > 120 ? 60 : 4) ? focus : ch(ST_OP, 5); int room = waiting(p) < limit;
      int ok = enqueue(p, 1, p != 2 || ch(ST_OP, 2));
      CHECK(!ok || room, "over-limit", "priority %d accepted a job with %d of %d already waiting", p, waiting(p), limit);
      CHECK(ok || !room, "refused-below-limit", "priority %d refused a job with %d of %d waiting", p, waiting(p), limit);
      if (ok) q[p][qt[p]++] = nj - 1; else refused++;
      if (limit < 50 || ch(ST_OP, 8) == 0 || waiting(p) >= limit) verify();
    }
    sim_feature(sim_mix(limit, sim_mix(waiting(focus), sim_mix(qh[focus] % 16, nw))));
  }
  while (accepted_total > started_total) { gate_open++; settle(); }
  verify(); gate_open = 1 << 20;
  while (!zpl_jobs_done(pool)) thr_yield();
  for (int k = 0; k < nj; k++) CHECK(J[k].finished == J[k].accepted, "job-lost", "job %d", k);
  int same = 0; for (int p = 0; p < 5; p++) if (served_same[p] >= 3) same = 1;
  if (refused) sim_probe("a full queue refused"); if (refused || same) sim_nontrivial();
  zpl_jobs_free(pool);
}
