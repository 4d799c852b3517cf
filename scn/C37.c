// variants: T
#include "common.h"
const char *const scenario_name = "C37";
const char *const scenario_rule = "a run counts when the machine has several processors or the count cannot be had, at least one pinning was attempted, and its schedule and trace differ from every other run";
static zpl_affinity af; static int nthreads, ncpu; static struct { uint64_t want; } T[8];
static void pin(int k, int ops) {
  for (int i = 0; i < ops; i++) {
    sim_op(); zpl_isize core = ch(ST_OP, (uint32_t)af.core_count), n = zpl_affinity_thread_count_for_core(&af, core), th = ch(ST_OP, (uint32_t)n);
    int me = thr_self(); uint64_t before = cpu_hash(me); uint32_t f0 = sim_fired(F_AFFINITY);
    zpl_b32 ok = zpl_affinity_set(&af, core, th); uint64_t now = cpu_hash(me); sim_ev("set", core * 100 + th, ok);
    if (ok) { CHECK(cpu_may(me) == 1, "not-pinned", "pinning to core %d thread %d reported success, the thread may still run on %d processors", (int)core, (int)th, cpu_may(me)); T[k].want = now; sim_probe("pinned"); }
    else { CHECK(now == before, "failed-but-pinned", "pinning reported failure, yet the thread's processors changed"); sim_probe("refused"); }
    (void)f0; thr_point(); CHECK(cpu_hash(me) == now, "moved", "a thread's processors changed because of another thread");
    sim_feature(sim_mix(now, sim_mix(ok, core)));
  }
}
static void body(void *p) { pin((int)(intptr_t)p, 1 + ch(ST_OP, 4)); }
void scenario(void) {
  sim_faults_init(FB(F_SYSCONF) | FB(F_AFFINITY)); thr_enable(); thr_set_budget(100000);
  ncpu = 1 + (ch(ST_CFG, 4) == 3 ? ch(ST_CFG, ch(ST_CFG, 3) == 2 ? 1400 : 70) : ch(ST_CFG, 8)); if (ncpu > 1024) sim_probe("more processors than the set holds"); int hole = ch(ST_CFG, 3) == 2 ? (int)ch(ST_CFG, (uint32_t)ncpu) : -1; bool sparse = hole >= 0;
  cpu_setup(ncpu, hole, ncpu + sparse + (int)ch(ST_CFG, 2));
  memset(&af, 0x55, sizeof af); uint32_t f0 = sim_fired(F_SYSCONF); zpl_affinity_init(&af); bool known = sim_fired(F_SYSCONF) == f0; sim_ev("init", af.core_count, af.thread_count);
  CHECK(af.core_count >= 1 && af.thread_count >= af.core_count, "impossible-count", "%ld cores, %ld threads", (long)af.core_count, (long)af.thread_count);
  if (known) { CHECK(af.is_accurate && af.thread_count == ncpu, "wrong-count", "the machine has %d processors, the library counts %ld%s", ncpu, (long)af.thread_count, af.is_accurate ? "" : " and calls that inaccurate"); sim_probe("counted"); }
  else { CHECK(!af.is_accurate, "claimed-accurate", "the number of processors could not be had, the library claims to know it"); CHECK(af.thread_count == 1, "invented", "the number of processors could not be had, the library says %ld", (long)af.thread_count); sim_probe("could not count"); }
  zpl_isize sum = 0; for (zpl_isize c = 0; c < af.core_count; c++) { zpl_isize n = zpl_affinity_thread_count_for_core(&af, c); CHECK(n >= 1, "empty-core", "core %ld has %ld threads", (long)c, (long)n); sum += n; }
  CHECK(sum == af.thread_count, "sum", "the cores have %ld threads together, the machine has %ld", (long)sum, (long)af.thread_count);
  nthreads = (int)ch(ST_OP, 4); int id[4]; if (ncpu > 1 || !known) sim_nontrivial();
  for (int k = 0; k < nthreads; k++) id[k] = thr_spawn(body, (void *)(intptr_t)(k + 1));
  pin(0, 1 + (int)ch(ST_OP, 4)); for (int k = 0; k < nthreads; k++) thr_join_h(id[k]);
  // where nothing is refused, every pair has a processor of its own
  sim_faults_enable(false);
  if (known && !sparse) { static uint8_t seen[2048]; memset(seen, 0, sizeof seen); int me = thr_self(), got = 0, at = ncpu > 100 ? (int)ch(ST_OP, (uint32_t)ncpu) : 0;
    for (zpl_isize c = 0; c < af.core_count; c++) for (zpl_isize t = 0; t < zpl_affinity_thread_count_for_core(&af, c); t++) { if (ncpu > 100 && !(c < 3 || c > af.core_count - 3 || (c >= 1021 && c < 1028) || (c >= at && c < at + 20))) { got += c < 1024; continue; }
      uint64_t was = cpu_hash(me); zpl_b32 ok = zpl_affinity_set(&af, c, t); if (!ok && c >= 1024) { CHECK(cpu_hash(me) == was, "failed-but-pinned", "pinning reported failure, yet the thread's processors changed"); continue; }
      CHECK(ok, "refused-without-cause", "pinning to core %ld thread %ld failed although nothing was refused", (long)c, (long)t); CHECK(cpu_may(me) == 1, "not-pinned", "pinning to core %ld reported success, the thread may still run on %d processors", (long)c, cpu_may(me)); int f = cpu_first(me); CHECK(!seen[f], "same-processor", "two cores are the same processor %d", f); seen[f] = 1; got++; }
    CHECK(got >= (ncpu < 1024 ? ncpu : 1024), "unreachable", "some processors cannot be reached"); }
  zpl_affinity_destroy(&af);
}
