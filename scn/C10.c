// variants: T A
#include "common.h"
#include <time.h>
const char *const scenario_name = "C10";
const char *const scenario_rule = "a run counts when a clock stalled, jumped or a sleep was interrupted, or two threads asked for the first time at once, and its trace differs from every other run";
static uint64_t rel_max, first_lo, first_hi; static int any_first, inflight, raced, nth; static uint8_t plan[5][12]; static uint32_t arg[5][12]; static int nops[5]; 
#define MS(ns) ((ns) / 1000000ull)
#define EPOCH 11644473600000ull
static bool real_ok(uint64_t got, uint64_t real) { uint64_t w = MS(real) + EPOCH; return got >= w - 1 && got <= w + 1; }
static void ask_rel(int id, int how) {
  uint64_t before = rel_max, inv = sim_mono_ns; int none_done = first_hi == 0; if (!any_first) { any_first = 1; first_lo = inv; } if (inflight && none_done) raced = 1; inflight++;
  uint64_t v; double d = 0; if (how == 0) v = zpl_time_rel_ms(); else { d = how == 2 ? zpl_time_now() : zpl_time_rel(); v = (uint64_t)(d * 1000 + 0.5); }
  inflight--; uint64_t ret = sim_mono_ns; if (!first_hi) first_hi = ret ? ret : 1;
  sim_ev("rel", id, (int64_t)v);
  CHECK(v < (1ull << 50), "time-garbage", "relative time is %llu ms", (unsigned long long)v);
  CHECK(v >= before, "time-backwards", "relative time went from %llu to %llu ms", (unsigned long long)before, (unsigned long long)v);
  uint64_t res = sim_clock_res_ns / 1000000 + 2, hi = MS(ret) - MS(first_lo) + res, lo = MS(inv) > MS(first_hi) + res ? MS(inv) - MS(first_hi) - res : 0;
  CHECK(v >= lo && v <= hi, "time-wrong", "relative time %llu ms is outside [%llu,%llu] which the monotonic clock allows", (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi);
  if (v > rel_max) rel_max = v; sim_feature(sim_mix(v / 100, id));
}
static void ask_utc(int id, int how) {
  int me = thr_self(); uint64_t v; if (how == 0) v = zpl_time_utc_ms(); else v = (uint64_t)((how == 2 ? zpl_utc_time_now() : zpl_time_utc()) * 1000 + 0.5); CHECK(zpl_time_unix_to_win32(zpl_time_win32_to_unix(v)) == v && zpl_time_win32_to_unix(v) == v - EPOCH, "epoch-wrong", "changing the epoch of %llu ms loses time", (unsigned long long)v);
  sim_ev("utc", id, (int64_t)v);
  CHECK(real_ok(v, sim_last_real[me]), "utc-wrong", "UTC time is %llu ms, the wall clock says %llu", (unsigned long long)v, (unsigned long long)(MS(sim_last_real[me]) + EPOCH));
}
static void ask_tz(int id, int how) {
  int me = thr_self(); uint64_t v; if (how == 0) v = zpl_time_tz_ms(); else v = (uint64_t)(zpl_time_tz() * 1000 + 0.5);
  time_t t = sim_last_real[me] / 1000000000ull; struct tm tm; localtime_r(&t, &tm); int64_t off = tm.tm_gmtoff; sim_ev("tz", id, (int64_t)v);
  uint64_t w = MS(sim_last_real[me]) + EPOCH + off * 1000; CHECK(v >= w - 1 && v <= w + 1, "tz-wrong", "local time is off by %lld ms (zone offset %lld s, tz %s)", (long long)(v - w), (long long)off, getenv("TZ"));
}
static void ask_tsc(int id) { int me = thr_self(); sim_last_tsc[me] = 0; uint64_t v = zpl_rdtsc(); sim_ev("tsc", id, (int64_t)v); if (sim_last_tsc[me]) CHECK(v == sim_last_tsc[me], "tsc-wrong", "the processor's time stamp is %llx, read as %llx", (unsigned long long)sim_last_tsc[me], (unsigned long long)v); }
static void do_sleep(int id, uint32_t ms) {
  bool sec = ms % 125 == 0 && ms < 4000000 && !ch(ST_OP, 2); // whole eighths of a second can also be slept as seconds
  uint64_t a = sim_mono_ns; uint32_t e0 = sim_fired(F_SLEEP_EINTR); if (sec) zpl_sleep((float)ms / 1000.0f); else zpl_sleep_ms(ms); uint64_t el = sim_mono_ns - a; sim_ev("slept", ms, (int64_t)MS(el)); (void)id;
  CHECK(el >= (uint64_t)ms * 1000000ull, "sleep-short", "a sleep of %u ms took %llu ns", ms, (unsigned long long)el);
  if (nth == 1) { uint64_t most = (uint64_t)ms * 1000000ull + (uint64_t)(sim_fired(F_SLEEP_EINTR) - e0 + 1) * (sim_oversleep_max + 2 * sim_tick_ns + 1000000) + 1000000; CHECK(el <= most, "sleep-long", "a sleep of %u ms took %llu ms, the system overslept at most %llu ms", ms, (unsigned long long)MS(el), (unsigned long long)MS(most)); }
}
static void worker(void *a) { int id = (int)(intptr_t)a; for (int k = 0; k < nops[id]; k++) { sim_op(); uint32_t x = arg[id][k]; switch (plan[id][k]) { case 0: case 1: case 2: ask_rel(id, x > 2 ? 2 : (int)(x & 1)); break; case 3: ask_utc(id, x > 2 ? 2 : (int)(x & 1)); break; case 4: ask_tz(id, x & 1); break; case 5: do_sleep(id, x); break; case 6: if (x & 1) ask_tsc(id); else thr_yield(); break; } } }
void scenario(void) {
  static const char *const tz[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "XYZ-5:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0/2", "CET-1CEST,M3.5.0,M10.5.0/3", "AAA12"};
  setenv("TZ", tz[ch(ST_CFG, 6)], 1); tzset();
  sim_faults_init(FB(F_CLOCK_STALL) | FB(F_CLOCK_JUMP) | FB(F_SLEEP_EINTR));
  static const uint64_t tick[] = {1000, 300000, 17, 2500000}; sim_tick_ns = tick[ch(ST_CFG, 4)]; static const uint64_t res[] = {1, 1, 1000000, 4000000, 10000000}; sim_clock_res_ns = res[ch(ST_CFG, 5)];
  static const uint64_t over[] = {0, 60000, 5000000, 50000000}; sim_oversleep_max = over[ch(ST_CFG, 4)];
  sim_mono_ns = (uint64_t)ch(ST_CFG, 4) * 4999999999ull + 20000000 + ch(ST_CFG, 1000) * 1234567ull; sim_real_ns = 1600000000ull * 1000000000ull + (uint64_t)ch(ST_CFG, 3000) * 100000ull * 1000000000ull + ch(ST_CFG, 1000) * 999983ull;
  nth = 1 + ch(ST_CFG, 4); int shape = ch(ST_CFG, 3);
  static const uint32_t ms[] = {1, 0, 2, 10, 999, 1000, 1001, 1500, 5000, 61001, 3600000, 100000000, 4294967295u};
  for (int i = 0; i < nth; i++) { nops[i] = 1 + ch(ST_OP, 10); for (int k = 0; k < nops[i]; k++) { plan[i][k] = shape == 0 && k == 0 ? 0 : ch(ST_OP, 7); arg[i][k] = plan[i][k] == 5 ? ms[ch(ST_OP, 4) ? ch(ST_OP, 9) : ch(ST_OP, 13)] : ch(ST_OP, 4); } }
  thr_enable(); thr_set_budget(200000);
  int t[6]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(worker, (void *)(intptr_t)i);
  worker(0); for (int i = 1; i < nth; i++) thr_join_h(t[i]);
  if (raced) sim_probe("first calls raced"); if (raced || sim_fired_total()) sim_nontrivial();
}
