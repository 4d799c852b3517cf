// variants: T
#include "common.h"
const char *const scenario_name = "C01";
const char *const scenario_rule = "a run counts when at least two jobs were accepted and either two jobs overlapped or the owner processed while a job ran, or a part of the pool was refused by the system, and its schedule differs from every other run";
#include "jobs.inc"
static int overlap;
static void poll_done(void) {
  int acc = accepted_total; zpl_b32 d = zpl_jobs_done(pool);
  if (running) overlap = 1;
  // nothing is accepted during the call (one owner), so every accepted job must already have finished
  if (d) CHECK(finished_total == acc, "done-too-early", "the pool said done while %d of %d accepted jobs had not finished", acc - finished_total, acc);
  sim_feature(sim_mix(d, sim_mix(acc - started_total, running)));
}
void scenario(void) { pick_alloc();
  int nw = 1 + ch(ST_CFG, 4); int deflimit = ch(ST_CFG, 4) == 3; int limit = deflimit ? 100 : 1 + ch(ST_CFG, 6); body_kind = ch(ST_CFG, 4); int prios = ch(ST_CFG, 3); if (ch(ST_CFG, 12) == 11) nw = 5 + ch(ST_CFG, 28);
  if (ch(ST_CFG, 3) == 2) sim_faults_init(FB(F_ALLOC) | FB(F_THREAD_CREATE) | FB(F_SEM_EINTR)); // what the pool is made of may be refused
  thr_enable(); thr_set_budget(1500000);
  zpl_jobs_system jp; memset(&jp, 0x5c, sizeof jp); pool = &jp; uint64_t b0 = sim_live_blocks();
  if (deflimit) zpl_jobs_init(pool, ALLOC, nw); else zpl_jobs_init_with_limit(pool, ALLOC, nw, limit);
  sim_faults_enable(false); sim_ev("made", (uint64_t)thr_alive() - 1, (uint64_t)nw); if (sim_fired_total()) sim_probe(thr_alive() == 1 ? "a pool no worker of which could be made" : thr_alive() - 1 < nw ? "a pool with fewer workers" : "a pool of which something was refused");
  int rounds = 1 + ch(ST_OP, 3);
  for (int r = 0; r < rounds; r++) {
    int nops = ch(ST_OP, 24);
    for (int i = 0; i < nops; i++) switch (ch(ST_OP, 8)) {
      case 0: case 1: case 2: case 3: if (nj < MAXJ - 10) { int p = prios == 0 ? 2 : prios == 1 ? ch(ST_OP, 2) * 4 : ch(ST_OP, 5); enqueue(p, 0, !(p == 2 && ch(ST_OP, 2))); } break;
      case 4: case 5: sim_ev("process", process(), 0); break;
      case 6: poll_done(); break;
      case 7: for (int n = ch(ST_OP, 6); n > 0; n--) thr_yield(); break;
    }
    // the owner stops adding and keeps processing: the pool must report done after finitely many steps
    int steps = 0;
    for (;;) { poll_done(); if (finished_total == accepted_total && zpl_jobs_done(pool)) break; sim_ev("process", process(), 0); thr_yield(); if (running) overlap = 1; steps++; }
    for (int k = 0; k < nj; k++) CHECK(J[k].finished == J[k].accepted, "job-lost", "job %d was accepted and never ran", k);
    CHECK(!process(), "process-empty", "processing an empty pool claims there was work");
    CHECK(zpl_jobs_done(pool), "done-lost", "an idle pool with nothing queued is not done");
  }
  // jobs that wait for each other: as many as there are workers have to run at the same time
  int have = thr_alive() - 1; if (have && have <= limit && !sim_fired(F_ALLOC) && ch(ST_OP, 4) == 3) {
    int r0 = running; for (int i = 0; i < have; i++) CHECK(enqueue(prios == 0 ? 2 : ch(ST_OP, 5), 1, 1), "refused-below-limit", "an empty queue refused a job"); sim_ev("jobs that wait for each other", (uint64_t)have, (uint64_t)r0);
    while (running < have) { process(); thr_yield(); poll_done(); }
    sim_probe("a job on every worker at once"); overlap = 1; gate_open = have; while (!zpl_jobs_done(pool)) thr_yield(); poll_done();
    for (int k = 0; k < nj; k++) CHECK(J[k].finished == J[k].accepted, "job-lost", "job %d was accepted and never ran", k); }
  zpl_jobs_free(pool); freed = 1;
  for (int i = 0; i < 50; i++) thr_yield();
  CHECK(sim_live_blocks() == b0, "leak:memory", "freeing the pool left memory behind");
  if ((accepted_total >= 2 && overlap) || sim_fired(F_THREAD_CREATE) || sim_fired(F_ALLOC)) sim_nontrivial();
}
