// variants: T S X P
#include "common.h"
const char *const scenario_name = "C04";
const char *const scenario_rule = "a run counts when at least two threads contended for the same lock (an acquire found it held or a try failed) and its schedule differs from every other run";
enum { L_MUTEX, L_S32, L_S64, L_PTR, L_KINDS };
static int kind; static zpl_mutex mx; static zpl_atomic32 a32; static zpl_atomic64 a64; static zpl_atomic_ptr ap;
static volatile int holder = -1; static long shared[6]; static long total_holds; static int nth, nit; static int contended; static uint8_t script[8][16]; static int timeouts[8][16];
static bool step;
static int acquire(int how, int tmo) { // 1 got it
  if (step) thr_bystep(true);
  int r = 0;
  switch (kind) {
    case L_MUTEX: if (how == 0) { zpl_mutex_lock(&mx); r = 1; } else r = zpl_mutex_try_lock(&mx) == 0; break;
    case L_S32: r = how == 1 ? zpl_atomic32_try_acquire_lock(&a32) != 0 : zpl_atomic32_spin_lock(&a32, how == 0 ? -1 : tmo) != 0; break;
    case L_S64: r = how == 1 ? zpl_atomic64_try_acquire_lock(&a64) != 0 : zpl_atomic64_spin_lock(&a64, how == 0 ? -1 : tmo) != 0; break;
    default: r = how == 1 ? zpl_atomic_ptr_try_acquire_lock(&ap) != 0 : zpl_atomic_ptr_spin_lock(&ap, how == 0 ? -1 : tmo) != 0; break;
  }
  thr_bystep(false);
  return r;
}
static void release(void) {
  if (step) thr_bystep(true);
  switch (kind) { case L_MUTEX: zpl_mutex_unlock(&mx); break; case L_S32: zpl_atomic32_spin_unlock(&a32); break; case L_S64: zpl_atomic64_spin_unlock(&a64); break; default: zpl_atomic_ptr_spin_unlock(&ap); }
  thr_bystep(false);
}
static int releasing;
static int acquiring_now, acq_events;
static void worker(void *p) {
  int id = (int)(intptr_t)p;
  for (int k = 0; k < nit; k++) {
    int how = script[id][k] % 3; if (kind == L_MUTEX && how == 2) how = 1;
    sim_op(); int quiet = holder == -1 && acquiring_now == 0 && releasing == 0; int seq0 = acq_events; acquiring_now++; acq_events++;
    int h0 = holder; if (h0 != -1) contended = 1;
    uint64_t p0 = thr_points(); (void)p0;
    int got = acquire(how, timeouts[id][k]);
    acquiring_now--;
    sim_ev("acquire", id * 100 + how, got);
    if (!got) {
      contended = 1; sim_probe(how == 1 ? "try failed" : "timed out");
      CHECK(how != 0, "untimed-gave-up", "an untimed acquire gave up");
      // nobody held it, nobody else was trying at any time during this call: it had to succeed
      CHECK(!(quiet && seq0 + 1 == acq_events), "spurious-failure", "%s failed although the lock was free and nobody else touched it", how == 1 ? "a try" : "a timed acquire");
      continue;
    }
    CHECK(holder == -1, "two-holders", "thread %d acquired the lock while thread %d holds it (lock kind %d, by %s)", id, holder, kind, how == 0 ? "blocking acquire" : how == 1 ? "try" : "timed acquire");
    holder = id; total_holds++;
    for (int j = 0; j < 6; j++) { long v = shared[j]; CHECK(v == shared[0], "stale-read", "the previous holder's writes are not all visible"); thr_point(); }
    for (int j = 0; j < 6; j++) { shared[j]++; thr_point(); CHECK(holder == id, "two-holders", "thread %d entered while thread %d holds the lock", holder, id); }
    releasing++; holder = -1; release(); releasing--;
    sim_ev("release", id, 0);
    sim_feature(sim_mix(id, sim_mix(how, total_holds)));
  }
}
// sections under a spin lock that are compiled into one unit with the library
extern int (*zc_lock[3][2])(int, int *) __attribute__((weak)); extern int zc_sum __attribute__((weak)); extern void zc_reset(void) __attribute__((weak)); static int zk, zdone;
static void inlined(void *p) { int id = (int)(intptr_t)p; for (int k = 0; k < nit; k++) { int how = script[id][k] % 3, seen = 0; sim_op(); thr_bystep(true); int got = zc_lock[zk][how == 1](how == 0 ? -1 : timeouts[id][k], &seen); thr_bystep(false); sim_ev("section", id * 10 + how, got); if (got) zdone++; else contended = 1; CHECK(got || how, "untimed-gave-up", "an untimed acquire gave up"); CHECK(seen <= zc_sum, "lost-update", "the counter went back"); } }
void scenario(void) {
  kind = ch(ST_CFG, L_KINDS); nth = 2 + ch(ST_CFG, 3); nit = 1 + ch(ST_CFG, 5);
  extern char __start_zpltext[] __attribute__((weak)); step = __start_zpltext != 0;
  for (int i = 0; i < nth; i++) for (int k = 0; k < nit; k++) { script[i][k] = ch(ST_OP, 6) < 3 ? 0 : ch(ST_OP, 3); timeouts[i][k] = ch(ST_OP, 3) ? ch(ST_OP, 6) : ch(ST_OP, 60); }
  if (step && !ch(ST_CFG, 4)) { zk = (int)ch(ST_CFG, 3); zc_reset(); thr_enable(); thr_set_budget(60000); int t[8]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(inlined, (void *)(intptr_t)i); inlined((void *)0); for (int i = 1; i < nth; i++) thr_join_h(t[i]); CHECK(zc_sum == zdone, "lost-update", "%d critical sections ran, a counter changed under the lock says %d (everything in one unit)", zdone, zc_sum); sim_feature(sim_mix((uint64_t)zk, (uint64_t)zdone)); sim_nontrivial(); return; }
  thr_enable(); thr_set_budget(step ? 60000 : 300000);
  if (kind == L_MUTEX) zpl_mutex_init(&mx);
  int t[8]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(worker, (void *)(intptr_t)i);
  worker((void *)0);
  for (int i = 1; i < nth; i++) thr_join_h(t[i]);
  for (int j = 0; j < 6; j++) CHECK(shared[j] == total_holds, "lost-update", "%ld critical sections ran, a counter changed under the lock says %ld", total_holds, shared[j]);
  // a released lock can be taken again, by try, immediately, and then refuses others
  CHECK(acquire(1, 0), "released-not-takeable", "a try on the released lock failed");
  CHECK(!acquire(1, 0), "two-holders", "a try succeeded while the lock is held");
  if (kind != L_MUTEX) CHECK(!acquire(2, ch(ST_OP, 20)), "two-holders", "a timed acquire succeeded while the lock is held");
  release(); if (kind != L_MUTEX) { CHECK(acquire(2, 0), "released-not-takeable", "a timed acquire of the released lock failed"); release(); }
  if (kind == L_MUTEX) zpl_mutex_destroy(&mx);
  if (contended) sim_nontrivial();
}
