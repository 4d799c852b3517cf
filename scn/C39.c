// variants: T A
#include "common.h"
const char *const scenario_name = "C39";
const char *const scenario_rule = "a run counts when at least two elements were reordered by shuffling, and its trace differs from every other run";
// every element: u32 identity (or as much of it as fits), then filler made from the identity; the keys sit at fixed offsets because the comparators remember one offset for the process
typedef struct { uint32_t id; uint8_t k8; uint8_t pad; int16_t k16; int32_t k32; float f32; double f64; int64_t k64; const char *str; uint8_t rest[24]; } E;
static const char *const names[] = {"", "a", "ab", "abc", "b", "\xc3\xa9", "zz", "Zz"};
static int nth, reps[5], inflight, overlapped;
static uint8_t fill_of(uint32_t id, uint32_t k) { return (uint8_t)sim_mix(id * 2654435761u, k); }
static void element(uint8_t *p, uint32_t sz, uint32_t id) { for (uint32_t k = 0; k < sz; k++) p[k] = k < 4 ? (uint8_t)(id >> (8 * k)) : fill_of(id, k); }
// the array must hold every identity once; small elements only carry the low bytes of theirs
static void conserved(const uint8_t *a, uint32_t n, uint32_t sz, const char *what) {
  uint8_t seen[1024] = {0}; uint32_t cnt[256] = {0};
  for (uint32_t i = 0; i < n; i++) {
    const uint8_t *p = a + (size_t)i * sz; if (sz == 1) { cnt[p[0]]++; continue; }
    uint32_t id = p[0] | p[1] << 8; if (sz > 2) id |= p[2] << 16; if (sz > 3) id |= (uint32_t)p[3] << 24;
    CHECK(id < n, "lost-element", "%s %u elements of %u bytes left %u where an element should be", what, n, sz, id); CHECK(!seen[id], "lost-element", "%s %u elements of %u bytes: element %u is there twice", what, n, sz, id); seen[id] = 1;
    for (uint32_t k = 4; k < sz; k++) CHECK(p[k] == fill_of(id, k), "torn-element", "%s %u elements of %u bytes: byte %u of element %u belongs to another", what, n, sz, k, id);
  }
  if (sz == 1) for (uint32_t v = 0; v < 256; v++) { uint32_t w = 0; for (uint32_t i = 0; i < n; i++) w += (uint8_t)i == v; CHECK(cnt[v] == w, "lost-element", "%s %u bytes: the value %u is there %u times, it was %u times", what, n, v, cnt[v], w); }
}
static void plain(int id) {
  static const uint32_t szs[] = {4, 8, 1, 2, 3, 5, 12, 16, 40, 256, 257, 600}; uint32_t sz = szs[ch(ST_OP, 12)], n = ch(ST_OP, nth > 1 || sz > 100 ? 40 : 300); if (ch(ST_OP, 4) == 0) n = ch(ST_OP, 4); if (nth == 1 && !ch(ST_OP, 25)) { n = 400 + ch(ST_OP, 620); if (sz > 100) n = 260 + ch(ST_OP, 60); sim_probe("a long array"); }
  uint8_t *a = malloc((size_t)n * sz + 1 - (n > 0)), *b = malloc((size_t)n * sz + 1), *c = malloc((size_t)n * sz + 1); for (uint32_t i = 0; i < n; i++) element(a + (size_t)i * sz, sz, i);
  memcpy(b, a, (size_t)n * sz); if (inflight++) overlapped = 1; sim_op(); zpl_shuffle(a, n, sz); inflight--; sim_ev("shuffle", n, sz); conserved(a, n, sz, "shuffling"); sim_feature(sim_mix(n > 1 ? a[0] : 0, sz)); if (n > 1) sim_nontrivial();
  if (n >= 24 && sz >= 1) { CHECK(memcmp(a, b, (size_t)n * sz), "not-shuffled", "shuffling %u elements of %u bytes changed nothing", n, sz); memcpy(c, b, (size_t)n * sz); zpl_shuffle(c, n, sz); CHECK(memcmp(a, c, (size_t)n * sz), "same-shuffle", "two shuffles of the same %u elements gave the same order", n); }
  memcpy(b, a, (size_t)n * sz); zpl_reverse(a, n, sz); sim_ev("reverse", n, sz); conserved(a, n, sz, "reversing");
  for (uint32_t i = 0; i < n; i++) CHECK(!memcmp(a + (size_t)i * sz, b + (size_t)(n - 1 - i) * sz, sz), "not-reversed", "reversing %u elements of %u bytes left element %u in the wrong place", n, sz, i);
  free(a); free(b); free(c); (void)id;
}
// few elements: every order has to come up
static void reach(void) { uint32_t n = 2 + ch(ST_OP, 3), all = n == 2 ? 2 : n == 3 ? 6 : 24, got = 0; bool hit[256] = {0}; for (int k = 0; k < (n == 4 ? 700 : 300); k++) { uint32_t a[4] = {0, 1, 2, 3}, code = 0; zpl_shuffle(a, n, 4); for (uint32_t i = 0; i < n; i++) { CHECK(a[i] < n, "lost-element", "shuffling %u numbers produced %u", n, a[i]); code = code * 4 + a[i]; } if (!hit[code]) { hit[code] = true; got++; } } sim_probe("all orders reached"); CHECK(got >= all, "order-unreached", "%d shuffles of %u elements gave only %u of the %u possible orders", n == 4 ? 700 : 300, n, got, all); }
static int order(int how, const E *x, const E *y) {
  switch (how) { case 0: return (x->k8 > y->k8) - (x->k8 < y->k8); case 1: return (x->k16 > y->k16) - (x->k16 < y->k16); case 2: return (x->k32 > y->k32) - (x->k32 < y->k32); case 3: case 4: return (x->k64 > y->k64) - (x->k64 < y->k64); case 5: return (x->f32 > y->f32) - (x->f32 < y->f32); case 6: return (x->f64 > y->f64) - (x->f64 < y->f64); default: { int r = strcmp(x->str, y->str); return (r > 0) - (r < 0); } }
}
static zpl_compare_proc *cmp_of(int how) {
  switch (how) { case 0: return zpl_u8_cmp(zpl_offset_of(E, k8)); case 1: return zpl_i16_cmp(zpl_offset_of(E, k16)); case 2: return zpl_i32_cmp(zpl_offset_of(E, k32)); case 3: return zpl_i64_cmp(zpl_offset_of(E, k64)); case 4: return zpl_isize_cmp(zpl_offset_of(E, k64)); case 5: return zpl_f32_cmp(zpl_offset_of(E, f32)); case 6: return zpl_f64_cmp(zpl_offset_of(E, f64)); default: return zpl_str_cmp(zpl_offset_of(E, str)); }
}
static E make(uint32_t id, uint32_t range) {
  E e; memset(&e, 0, sizeof e); static const int64_t odd[] = {INT64_MIN, INT64_MAX, -1, 0, 1, 1ll << 32, -(1ll << 32), 255}; int64_t v = ch(ST_OP, 12) == 11 ? odd[ch(ST_OP, 8)] : (int64_t)ch(ST_OP, range) - range / 2;
  e.id = id; e.k8 = (uint8_t)v; e.k16 = (int16_t)v; e.k32 = (int32_t)v; e.k64 = v * (ch(ST_OP, 3) ? 1 : 70001); e.f32 = v * 0.25f; e.f64 = v * 0.125; e.str = names[ch(ST_OP, 8)]; for (uint32_t k = 0; k < sizeof e.rest; k++) e.rest[k] = fill_of(id, k); return e;
}
// an opponent that answers comparisons so that the sort makes as little progress as possible, and never contradicts itself; then its numbers again with a supplied comparator
static int foe_val[600], foe_solid, foe_cand, foe_sign; static uint32_t foe_n;
static zpl_isize foe_cmp(void const *a, void const *b) { int x = (int)((const E *)a)->id, y = (int)((const E *)b)->id, gas = (int)foe_n; CHECK(x >= 0 && x < (int)foe_n && y >= 0 && y < (int)foe_n, "torn-element", "a comparison was asked of something that is no element"); if (foe_val[x] == gas && foe_val[y] == gas) foe_val[x == foe_cand ? x : y] = foe_solid++; if (foe_val[x] == gas) foe_cand = x; else if (foe_val[y] == gas) foe_cand = y; return foe_sign * (foe_val[x] - foe_val[y]); }
static void opponent(void) { uint32_t n = 2 + ch(ST_OP, 590); int how = 1 + (int)ch(ST_OP, 6); foe_n = n; foe_sign = ch(ST_OP, 2) ? -1 : 1; foe_solid = 0; foe_cand = 0; E *a = malloc(n * sizeof *a); for (uint32_t i = 0; i < n; i++) { memset(&a[i], 0, sizeof a[i]); a[i].id = i; foe_val[i] = (int)n; } sim_op(); sim_probe("sorted against an opponent"); 
  for (int round = 0; round < 2; round++) { zpl_sort(a, n, sizeof *a, round ? cmp_of(how) : foe_cmp); sim_ev("sort", n, how); uint8_t seen[600] = {0};
    for (uint32_t i = 0; i < n; i++) { CHECK(a[i].id < n && !seen[a[i].id], "lost-element", "after sorting %u elements, element %u is there twice or not at all", n, a[i].id); seen[a[i].id] = 1; if (i) CHECK(foe_sign * foe_val[a[i - 1].id] <= foe_sign * foe_val[a[i].id], "not-sorted", "after sorting %u elements against an opponent, places %u and %u are out of order", n, i - 1, i); }
    if (!round) for (uint32_t i = 0; i < n; i++) { int v = foe_sign * foe_val[i]; a[i].id = i; a[i].k16 = (int16_t)v; a[i].k32 = v; a[i].k64 = v; a[i].f32 = (float)v; a[i].f64 = v; } }
  free(a); }
static void sorting(int id) { if (nth == 1 && ch(ST_OP, 4) == 3) { opponent(); return; }
  uint32_t n = ch(ST_OP, nth > 1 ? 40 : 400), range = 1 + ch(ST_OP, ch(ST_OP, 2) ? 1000 : 4); int how = ch(ST_OP, 8), shape = ch(ST_OP, 4);
  E *a = malloc(n * sizeof *a + !n), *was = malloc(n * sizeof *a + 1); for (uint32_t i = 0; i < n; i++) { a[i] = make(i, range); if (shape == 1) { a[i].k8 = i / 2; a[i].k16 = i; a[i].k32 = i; a[i].k64 = i; a[i].f32 = i; a[i].f64 = i; } if (shape == 2) { a[i].k8 = 255 - i; a[i].k16 = -(int)i; a[i].k32 = -(int)i; a[i].k64 = -(int)i; a[i].f32 = -(float)i; a[i].f64 = -(double)i; } if (shape == 3) { int64_t w = i < n / 2 ? i : n - i; a[i].k8 = w; a[i].k16 = w; a[i].k32 = w; a[i].k64 = w; a[i].f32 = w; a[i].f64 = w; } }
  memcpy(was, a, n * sizeof *a); sim_op(); if (inflight++) overlapped = 1; if (ch(ST_OP, 2)) zpl_shuffle_array(a, n); zpl_sort_array(a, n, cmp_of(how)); inflight--; sim_ev("sort", n, how);
  uint8_t seen[512] = {0}; for (uint32_t i = 0; i < n; i++) { CHECK(a[i].id < n && !seen[a[i].id], "lost-element", "after sorting %u elements, element %u is there twice or not at all", n, a[i].id); seen[a[i].id] = 1; CHECK(!memcmp(&a[i], &was[a[i].id], sizeof *a), "torn-element", "sorting changed element %u", a[i].id); if (i) CHECK(order(how, &a[i - 1], &a[i]) <= 0, "not-sorted", "after sorting %u elements by key %d, places %u and %u are out of order", n, how, i - 1, i); }
  for (int k = 0; k < 6; k++) { E key = n && k < 3 ? a[ch(ST_OP, n)] : make(0, range * 2); bool there = false; for (uint32_t i = 0; i < n; i++) there |= !order(how, &key, &a[i]); zpl_isize at = zpl_binary_search_array(a, n, &key, cmp_of(how)); if (there) { CHECK(at >= 0 && at < (zpl_isize)n && !order(how, &key, &a[at]), "search-missed", "a key among %u sorted elements was looked for and %lld returned", n, (long long)at); } else CHECK(at == -1, "search-invented", "a key that is not among %u sorted elements was found at %lld", n, (long long)at); }
  sim_feature(sim_mix(how, sim_mix(n, shape))); free(a); free(was); (void)id;
}
#define RADIX(T, C) do { zpl_##T *a = malloc(n * sizeof *a + !n), *t = malloc(n * sizeof *a + !n), *w = malloc(n * sizeof *a + 1); for (uint32_t i = 0; i < n; i++) { uint64_t v = (uint64_t)ch(ST_OP, 65536) << (16 * ch(ST_OP, 4)); if (sparse) { v = sparse == 1 ? (uint64_t)(ch(ST_OP, 2)) << bit : sparse == 2 ? (uint64_t)ch(ST_OP, 4) << bit : (uint64_t)ch(ST_OP, 3) << bit | ch(ST_OP, 2); } else if (ch(ST_OP, 4) == 3) v = ~v; a[i] = (zpl_##T)v; w[i] = a[i]; } \
    zpl_radix_sort_##T(a, t, n); sim_ev("radix", n, C); for (uint32_t i = 1; i < n; i++) { zpl_##T x = w[i]; uint32_t j = i; for (; j && w[j - 1] > x; j--) w[j] = w[j - 1]; w[j] = x; } for (uint32_t i = 0; i < n; i++) CHECK(a[i] == w[i], "not-sorted", "sorting %u %d-bit numbers by digits left %llx at place %u, expected %llx", n, C, (unsigned long long)a[i], i, (unsigned long long)w[i]); free(a); free(t); free(w); } while (0)
static void radix(void) { uint32_t n = ch(ST_OP, nth > 1 ? 30 : 300), sparse = ch(ST_OP, 2) ? 1 + ch(ST_OP, 3) : 0, width = ch(ST_OP, 4), bit = ch(ST_OP, 8u << width); switch (width) { case 0: RADIX(u8, 8); break; case 1: RADIX(u16, 16); break; case 2: RADIX(u32, 32); break; default: RADIX(u64, 64); } }
static void worker(void *arg) { int id = (int)(intptr_t)arg; for (int k = 0; k < reps[id]; k++) { uint32_t what = ch(ST_OP, 8); if (what < 4) plain(id); else if (what < 6) sorting(id); else if (what < 7) radix(); else if (nth == 1) reach(); } }
void scenario(void) {
  sim_faults_init(FB(F_CLOCK_STALL) | FB(F_CLOCK_JUMP)); inflight = overlapped = 0; sim_budget_syscalls = 200000;
  static const uint64_t tick[] = {1000, 0, 0, 300000, 1200000000ull}; sim_tick_ns = tick[ch(ST_CFG, 5)]; static const uint64_t res[] = {1, 1000000, 10000000, 1000000000ull}; sim_clock_res_ns = res[ch(ST_CFG, 4)];
  if (ch(ST_CFG, 2)) sim_tsc_fixed = 123456789; sim_mono_ns = 1000000 + (uint64_t)ch(ST_CFG, 4000) * 1000003ull;
  nth = 1 + ch(ST_CFG, 4); for (int i = 0; i < nth; i++) reps[i] = 1 + ch(ST_OP, 4); thr_enable(); thr_set_budget(4000000);
  int t[6]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(worker, (void *)(intptr_t)i);
  worker(0); for (int i = 1; i < nth; i++) thr_join_h(t[i]); if (overlapped) sim_probe("overlapping calls");
}
