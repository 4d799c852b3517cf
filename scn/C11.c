// variants: T A
#include "common.h"
const char *const scenario_name = "C11";
const char *const scenario_rule = "a run counts when a clock stalled or jumped, or several generators were initialised at the same instant or by overlapping threads, and its trace differs from every other run";
#define NG 24
static zpl_random G[NG]; static zpl_u64 seq[NG][4]; static int ng, inflight, overlapped, nth, cnt[5];
static void worker(void *a) { (void)a; int id = (int)(intptr_t)a; for (int k = 0; k < cnt[id]; k++) { int g = ng++; sim_op(); memset(&G[g], 0x77 + id, sizeof G[g]); if (inflight) overlapped = 1; inflight++; zpl_random_init(&G[g]); inflight--; sim_ev("init", id, g); } }
static zpl_random *R; 
void scenario(void) {
  sim_faults_init(FB(F_CLOCK_STALL) | FB(F_CLOCK_JUMP));
  static const uint64_t tick[] = {1000, 0, 0, 300000, 1200000000ull}; sim_tick_ns = tick[ch(ST_CFG, 5)]; static const uint64_t res[] = {1, 1000000, 10000000, 1000000000ull}; sim_clock_res_ns = res[ch(ST_CFG, 4)];
  int fixed = ch(ST_CFG, 2); if (fixed) sim_tsc_fixed = 123456789; sim_mono_ns = 1000000 + (uint64_t)ch(ST_CFG, 4000) * 1000003ull; sim_budget_syscalls = 20000;
  nth = 1 + ch(ST_CFG, 4); for (int i = 0; i < nth; i++) cnt[i] = 1 + ch(ST_OP, 4); int nlead = ch(ST_OP, 3);
  thr_enable(); thr_set_budget(250000); for (int i = 0; i < nlead; i++) zpl_time_rel_ms();
  int t[6]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(worker, (void *)(intptr_t)i);
  worker(0); for (int i = 1; i < nth; i++) thr_join_h(t[i]);
  sim_faults_enable(false); thr_running_points = 0;
  // copies repeat their original; different generators give different sequences
  for (int g = 0; g < ng; g++) { zpl_random c = G[g]; for (int k = 0; k < 4; k++) seq[g][k] = zpl_random_gen_u64(&c); zpl_random d = G[g]; zpl_u32 noise = zpl_random_gen_u32(&G[(g + 1) % ng]); (void)noise; for (int k = 0; k < 4; k++) CHECK(zpl_random_gen_u64(&d) == seq[g][k], "not-own-state", "a copied generator does not repeat its original");
    if (memcmp(&c, &d, sizeof c)) CHECK(zpl_random_gen_u64(&c) == zpl_random_gen_u64(&d), "not-own-state", "two copies that made the same draws differ");
    for (int h = 0; h < g; h++) CHECK(memcmp(seq[g], seq[h], sizeof seq[g]), "same-sequence", "generators %d and %d of one process produce the same sequence", h, g); sim_feature(seq[g][0] & 0xff); }
  R = &G[ch(ST_OP, ng)];
  // a generator keeps moving: successive draws differ and every bit takes both values
  if (ch(ST_OP, 3) == 2) { sim_probe("bits of successive draws"); zpl_random c = *R; uint64_t o64 = 0, a64 = ~0ull, oi = 0, ai = ~0ull; uint32_t d32[200]; int dup = 0; double lo = 1, hi = 0;
    for (int k = 0; k < 200; k++) { d32[k] = zpl_random_gen_u32(&c); for (int h = 0; h < k; h++) if (d32[h] == d32[k]) { dup++; break; } zpl_u64 v = zpl_random_gen_u64(&c); o64 |= v; a64 &= v; zpl_isize w = zpl_random_gen_isize(&c); oi |= (uint64_t)w; ai &= (uint64_t)w; double f = zpl_random_range_f64(&c, 0, 1); if (f < lo) lo = f; if (f > hi) hi = f; }
    int same = 0, ones = 0; for (int k = 0; k < 100; k++) { zpl_u64 v = zpl_random_gen_u64(&c); same += (uint32_t)v == (uint32_t)(v >> 32); ones += (uint32_t)(v >> 32) == 0xffffffffu; } CHECK(same < 5 && ones < 5, "stuck", "of 100 64-bit draws %d had two equal halves and %d had only ones in one half", same, ones);
    CHECK(dup < 4, "stuck", "%d of 200 successive 32-bit draws repeated an earlier one", dup);
    CHECK(o64 == ~0ull && a64 == 0, "bits-missing", "200 64-bit draws never set bits %llx, never cleared bits %llx", (unsigned long long)~o64, (unsigned long long)a64);
    CHECK(oi == ~0ull && ai == 0, "bits-missing", "200 size draws never set bits %llx, never cleared bits %llx", (unsigned long long)~oi, (unsigned long long)ai);
    CHECK(lo < 0.25 && hi > 0.75, "range-unreached", "200 draws from [0,1] only covered [%g,%g]", lo, hi); }
  // ranged draws
  int nr = ch(ST_OP, 12);
  for (int k = 0; k < nr; k++) {
    static const zpl_i64 lim[] = {0, 1, -1, 5, -5, 100, 2147483647ll, -2147483648ll, 4294967296ll, -4294967296ll, 0x3fffffffffffffffll, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1};
    zpl_i64 a = lim[ch(ST_OP, 15)], b = lim[ch(ST_OP, 15)]; if (a > b) { zpl_i64 x = a; a = b; b = x; } sim_op();
    for (int j = 0; j < 6; j++) { zpl_i64 v = zpl_random_range_i64(R, a, b); CHECK(v >= a && v <= b, "out-of-range", "a draw from [%lld,%lld] gave %lld", (long long)a, (long long)b, (long long)v);
      zpl_isize w = zpl_random_range_isize(R, a, b); CHECK(w >= a && w <= b, "out-of-range", "a draw from [%lld,%lld] gave %lld", (long long)a, (long long)b, (long long)w);
      double fa = a * 0.5, fb = b * 0.5; double f = zpl_random_range_f64(R, fa, fb); CHECK(f >= fa && f <= fb, "out-of-range", "a draw from [%g,%g] gave %g", fa, fb, f); }
    uint64_t wd = (uint64_t)b - (uint64_t)a; if (wd > 1000) { int e1 = 0, e2 = 0; zpl_i64 v0 = zpl_random_range_i64(R, a, b); zpl_isize w0 = zpl_random_range_isize(R, a, b); for (int j = 0; j < 12; j++) { e1 += zpl_random_range_i64(R, a, b) == v0; e2 += zpl_random_range_isize(R, a, b) == w0; } CHECK(e1 < 11 && e2 < 11, "stuck", "13 draws from [%lld,%lld] gave the same value", (long long)a, (long long)b); }
    if (wd < 8 && wd > 0) { unsigned seen = 0; for (int j = 0; j < 600; j++) seen |= 1u << (zpl_random_range_i64(R, a, b) - a); CHECK(seen == (2u << (b - a)) - 1, "range-unreached", "600 draws from [%lld,%lld] never gave one of its values", (long long)a, (long long)b); } }
  // unique draws
  if (ch(ST_OP, 8) == 7) { uint32_t n = 1000 << ch(ST_OP, 8); sim_probe("unique draws"); uint32_t *tab = calloc(1 << 19, 4); int zero = 0; if (ch(ST_OP, 3) == 2) { R->value = (zpl_u32)0 - ch(ST_OP, n); sim_probe("unique draws late in the sequence"); } else if (ch(ST_OP, 2)) R->value = ch(ST_OP, 1u << 31) * 2u; /* a generator with a long history */
    for (uint32_t k = 0; k < n; k++) { zpl_u32 v = zpl_random_gen_u32_unique(R); if (!v) { CHECK(!zero, "not-unique", "0 was drawn twice"); zero = 1; continue; } uint32_t h = (v * 2654435761u) >> 13; while (tab[h] && tab[h] != v) h = (h + 1) & ((1 << 19) - 1); CHECK(!tab[h], "not-unique", "unique draw %u repeated the value %u", k, v); tab[h] = v; }
    free(tab); }
  if (overlapped || sim_fired_total() || sim_tick_ns == 0) sim_nontrivial();
}
