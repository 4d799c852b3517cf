// variants: T
#include "common.h"
const char *const scenario_name = "C02";
const char *const scenario_rule = "a run counts when the pool was freed with a job queued, just handed out or running, or after a part of it was refused by the system, and its schedule differs from every other run";
#include "jobs.inc"
static long cnt_live; static zpl_allocator backing;
static ZPL_ALLOCATOR_PROC(cnt_proc) { zpl_unused(allocator_data);
  void *p = backing.proc(backing.data, type, size, alignment, old_memory, old_size, flags);
  if (type == ZPL_ALLOCATION_ALLOC && p) cnt_live++; if (type == ZPL_ALLOCATION_FREE && old_memory) cnt_live--; return p; }
void scenario(void) { pick_alloc();
  int cycles = 1 + ch(ST_CFG, 2); if (ch(ST_CFG, 3) == 2) sim_faults_init(FB(F_ALLOC) | FB(F_THREAD_CREATE) | FB(F_SEM_EINTR));
  thr_enable(); thr_set_budget(900000); backing = ALLOC;
  for (int c = 0; c < cycles; c++) {
    int nw = 1 + ch(ST_CFG, 4); if (ch(ST_CFG, 14) == 13) nw = 5 + ch(ST_CFG, 20); int limit = 1 + ch(ST_CFG, 5); body_kind = ch(ST_CFG, 4);
    memset(J, 0, sizeof J); null_job = -1; nj = running = freed = started_total = finished_total = accepted_total = 0;
    zpl_allocator a = {cnt_proc, NULL}; cnt_live = 0; uint64_t b0 = sim_live_blocks();
    static zpl_jobs_system jp; memset(&jp, 0x5c, sizeof jp); pool = &jp;
    sim_faults_enable(true); zpl_jobs_init_with_limit(pool, a, nw, limit); sim_faults_enable(false);
    int nops = ch(ST_OP, 14), last = 0;
    for (int i = 0; i < nops; i++) switch (last = ch(ST_OP, 6)) {
      case 0: case 1: case 2: enqueue(ch(ST_OP, 5), 0, 1); break;
      case 3: case 4: process(); break;
      case 5: for (int n = ch(ST_OP, 8); n > 0; n--) thr_yield(); break;
    }
    int q = accepted_total - started_total, r = running; if (q || r || sim_fired(F_ALLOC) || sim_fired(F_THREAD_CREATE)) sim_nontrivial();
    sim_probe(r ? "freed while jobs run" : q ? "freed with jobs waiting or handed out" : "freed idle");
    sim_ev("free", q, r); sim_feature(sim_mix(nw, sim_mix(q, r + 10 * last)));
    zpl_jobs_free(pool); freed = 1;
    CHECK(running == 0, "running-after-free", "%d jobs were still running when free returned", running);
    CHECK(thr_alive() == 1, "thread-left", "%d worker threads had not ended when free returned", thr_alive() - 1);
    CHECK(thr_unjoined() == 0, "thread-left", "%d worker threads were never joined", thr_unjoined());
    CHECK(cnt_live == 0 && sim_live_blocks() == b0, "leak:memory", "free left %ld blocks of the pool's allocator behind", cnt_live);
    CHECK(thr_sems_live() == 0 && thr_attrs_live() == 0 && thr_mutexes_live() == 0, "leak:sync-object", "free left %d semaphores, %d attributes, %d mutexes behind", thr_sems_live(), thr_attrs_live(), thr_mutexes_live());
    memset(&jp, 0xdd, sizeof jp);
    for (int i = 0; i < 40; i++) thr_yield();
    for (int k = 0; k < nj; k++) CHECK(J[k].started == J[k].finished, "running-after-free", "job %d had not returned", k);
  }
}
