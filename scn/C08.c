// variants: T S X P
#include "common.h"
const char *const scenario_name = "C08";
const char *const scenario_rule = "a run counts when two operations on one word overlapped in time and its history differs from every other run";
enum { OP_LOAD, OP_STORE, OP_XCHG, OP_CAS, OP_ADD, OP_AND, OP_OR, OP_N };
static const char *const opname[] = {"load", "store", "exchange", "compare-exchange", "fetch-add", "fetch-and", "fetch-or"};
typedef struct { int op, w; uint64_t a, b, ret; int inv, res, th; } Ev;
#define MAXE 14
static Ev E[MAXE * 2]; static int ne, stamp;
static struct { uint64_t g0; zpl_atomic32 a32; uint32_t g1; zpl_atomic32 a32b; uint32_t g2; zpl_atomic64 a64; uint64_t g3; zpl_atomic_ptr ap; uint64_t g4; } W;
static int kind, nth, per, step; static uint64_t init0[2]; static Ev plan[6][8];
static uint64_t apply(uint64_t v, const Ev *e, uint64_t *ret) {
  *ret = v;
  switch (e->op) { case OP_LOAD: return v; case OP_STORE: *ret = 0; return e->a; case OP_XCHG: return e->a; case OP_CAS: return v == e->a ? e->b : v; case OP_ADD: v += e->a; break; case OP_AND: v &= e->a; break; case OP_OR: v |= e->a; break; }
  return kind == 0 || kind == 3 ? (uint32_t)v : v;
}
static uint64_t doop(const Ev *e) {
  zpl_atomic32 *p32 = e->w ? &W.a32b : &W.a32; void *p = (void *)(uintptr_t)e->a, *q = (void *)(uintptr_t)e->b; uint64_t r = 0;
  if (step) thr_bystep(true);
  switch (kind) {
    case 0: case 3: switch (e->op) { case OP_LOAD: r = (uint32_t)zpl_atomic32_load(p32); break; case OP_STORE: zpl_atomic32_store(p32, (zpl_i32)e->a); break; case OP_XCHG: r = (uint32_t)zpl_atomic32_exchange(p32, (zpl_i32)e->a); break; case OP_CAS: r = (uint32_t)zpl_atomic32_compare_exchange(p32, (zpl_i32)e->a, (zpl_i32)e->b); break;
      case OP_ADD: r = (uint32_t)zpl_atomic32_fetch_add(p32, (zpl_i32)e->a); break; case OP_AND: r = (uint32_t)zpl_atomic32_fetch_and(p32, (zpl_i32)e->a); break; case OP_OR: r = (uint32_t)zpl_atomic32_fetch_or(p32, (zpl_i32)e->a); break; } break;
    case 1: switch (e->op) { case OP_LOAD: r = zpl_atomic64_load(&W.a64); break; case OP_STORE: zpl_atomic64_store(&W.a64, e->a); break; case OP_XCHG: r = zpl_atomic64_exchange(&W.a64, e->a); break; case OP_CAS: r = zpl_atomic64_compare_exchange(&W.a64, e->a, e->b); break;
      case OP_ADD: r = zpl_atomic64_fetch_add(&W.a64, e->a); break; case OP_AND: r = zpl_atomic64_fetch_and(&W.a64, e->a); break; case OP_OR: r = zpl_atomic64_fetch_or(&W.a64, e->a); break; } break;
    default: switch (e->op) { case OP_LOAD: r = (uintptr_t)zpl_atomic_ptr_load(&W.ap); break; case OP_STORE: zpl_atomic_ptr_store(&W.ap, p); break; case OP_XCHG: r = (uintptr_t)zpl_atomic_ptr_exchange(&W.ap, p); break; case OP_CAS: r = (uintptr_t)zpl_atomic_ptr_compare_exchange(&W.ap, p, q); break;
      case OP_ADD: r = (uintptr_t)zpl_atomic_ptr_fetch_add(&W.ap, p); break; case OP_AND: r = (uintptr_t)zpl_atomic_ptr_fetch_and(&W.ap, p); break; case OP_OR: r = (uintptr_t)zpl_atomic_ptr_fetch_or(&W.ap, p); break; } break;
  }
  thr_bystep(false); return r;
}
static int overlapped, inflight;
static void worker(void *arg) {
  int id = (int)(intptr_t)arg;
  for (int k = 0; k < per; k++) {
    int x = ne++; E[x] = plan[id][k]; E[x].th = id; sim_op(); E[x].inv = stamp++; E[x].res = 1 << 30; if (inflight) overlapped = 1; inflight++;
    uint64_t r = doop(&E[x]); inflight--; E[x].ret = r; E[x].res = stamp++; sim_ev(opname[E[x].op], id, (int64_t)r);
  }
}
// search for an order; memo over (done set, value)
static uint8_t *seen_tab; static uint64_t (*seen_val)[1]; static uint64_t memo[1 << 16]; 
static Ev L[MAXE]; static int nl; static uint64_t finalv;
static int lin(unsigned done, uint64_t v) {
  if (done == (1u << nl) - 1) return v == finalv;
  uint64_t h = sim_mix(done, v) | 1; unsigned s = h & 0xffff; for (int i = 0; i < 8; i++) { if (memo[(s + i) & 0xffff] == h) return 0; if (!memo[(s + i) & 0xffff]) break; }
  int minres = 1 << 30; for (int i = 0; i < nl; i++) if (!(done >> i & 1) && L[i].res < minres) minres = L[i].res;
  for (int i = 0; i < nl; i++) if (!(done >> i & 1) && L[i].inv <= minres) { uint64_t r, n = apply(v, &L[i], &r); if (L[i].op != OP_STORE && r != L[i].ret) continue; if (lin(done | 1u << i, n)) return 1; }
  for (int i = 0; i < 8; i++) if (!memo[(s + i) & 0xffff]) { memo[(s + i) & 0xffff] = h; break; }
  return 0;
}
// what a thread wrote before an operation on the word is there for whoever sees the result, when all of it is compiled into one unit with the library
extern void (*zc_put[3][6])(int) __attribute__((weak)); extern int (*zc_get[3][5])(int *) __attribute__((weak)); extern void zc_reset(void) __attribute__((weak)); extern int zc_data __attribute__((weak));
static int zk, zw, zr, zv, tries; static const char *const putname[] = {"store", "exchange", "compare-exchange", "fetch-add", "fetch-and", "fetch-or"}, *const getname[] = {"load", "compare-exchange", "fetch-add", "fetch-and", "fetch-or"};
static void reader(void *a) { for (int i = 0; i < tries; i++) { int o[2] = {0, 0}; sim_op(); thr_bystep(true); int got = zc_get[zk][zr](o); thr_bystep(false); sim_ev("read", got, o[1]); if (!got) continue;
  overlapped = 1; CHECK(o[1] == zv || o[1] == zv + 1, "write-not-visible", "what was written (%d) before a %s was not there after a %s that saw the word changed: %d", zv, putname[zw], getname[zr], o[1]); CHECK(o[0] == 0 || o[0] == zv || o[0] == zv + 1, "write-not-visible", "an earlier read gave %d", o[0]); sim_feature(sim_mix((uint64_t)(zw * 8 + zr), (uint64_t)(o[0] == 0))); } }
static void hand_over(void) {
  zk = (int)ch(ST_CFG, 3); zw = (int)ch(ST_CFG, 6); zr = (int)ch(ST_CFG, 5); zv = 5 + (int)ch(ST_OP, 90); tries = 1 + (int)ch(ST_CFG, 6); int readers = 1 + (int)ch(ST_CFG, 2); zc_reset();
  thr_enable(); thr_set_budget(60000); int t[2]; for (int i = 0; i < readers; i++) t[i] = thr_spawn(reader, NULL); sim_op(); thr_bystep(true); zc_put[zk][zw](zv); thr_bystep(false); sim_ev("put", zw, zv); for (int i = 0; i < readers; i++) thr_join_h(t[i]); CHECK(zc_data == zv + 1, "write-not-visible", "the last write is missing"); if (overlapped) sim_nontrivial();
}
void scenario(void) {
  extern char __start_zpltext[] __attribute__((weak)); step = __start_zpltext != 0;
  if (step && !ch(ST_CFG, 3)) { hand_over(); return; }
  kind = ch(ST_CFG, 4); nth = 2 + ch(ST_CFG, 2); per = 1 + ch(ST_CFG, nth == 2 ? 6 : 4); int mix = ch(ST_CFG, 4);
  uint64_t hi = kind == 1 || kind == 2 ? 0x1234567800000000ull : 0;
  for (int i = 0; i < nth; i++) for (int k = 0; k < per; k++) { Ev *e = &plan[i][k]; e->w = kind == 3 ? ch(ST_OP, 2) : 0;
    e->op = mix == 0 ? OP_ADD : mix == 1 ? (ch(ST_OP, 3) ? OP_CAS : OP_LOAD) : mix == 2 ? OP_AND + ch(ST_OP, 2) : ch(ST_OP, OP_N);
    if (mix == 2 && !ch(ST_OP, 4)) e->op = OP_XCHG;
    uint64_t full = kind == 0 || kind == 3 ? 0xffffffffull : ~0ull;
    switch (e->op) { case OP_ADD: e->a = ch(ST_OP, 3) ? (1 + ch(ST_OP, 5)) * (hi ? 0x100000001ull : 1) : full; break; case OP_AND: e->a = full ^ (1ull << ch(ST_OP, 8)) ^ (ch(ST_OP, 3) ? 0 : full / 2 + 1) ^ (hi ? 1ull << (40 + ch(ST_OP, 4)) : 0); break; case OP_OR: e->a = (1ull << ch(ST_OP, 8)) | (hi ? 1ull << (40 + ch(ST_OP, 4)) : 0); break;
      case OP_CAS: e->a = ch(ST_OP, 3) | hi; e->b = ch(ST_OP, 3) | hi; break; default: e->a = ch(ST_OP, 4) | hi; if (ch(ST_OP, 4) == 3) e->a = full - ch(ST_OP, 3); } }
  memset(&W, 0xa7, sizeof W); uint64_t v0 = ch(ST_OP, 3) | hi; if (mix == 2) v0 = hi | 0xff;
  W.a32.value = (zpl_i32)v0; W.a32b.value = (zpl_i32)v0; W.a64.value = (zpl_i64)v0; W.ap.value = (void *)(uintptr_t)v0;
  thr_enable(); thr_set_budget(step ? 60000 : 200000);
  int t[6]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(worker, (void *)(intptr_t)i);
  worker(0); for (int i = 1; i < nth; i++) thr_join_h(t[i]);
  uint64_t pat64; uint32_t pat32; memset(&pat64, 0xa7, 8); memset(&pat32, 0xa7, 4);
  CHECK(W.g0 == pat64 && W.g1 == pat32 && W.g2 == pat32 && W.g3 == pat64 && W.g4 == pat64, "neighbour-touched", "memory next to the atomic word changed");
  for (int w = 0; w < (kind == 3 ? 2 : 1); w++) {
    nl = 0; for (int i = 0; i < ne; i++) if (E[i].w == w) L[nl++] = E[i];
    finalv = kind == 0 ? (uint32_t)W.a32.value : kind == 3 ? (w ? (uint32_t)W.a32b.value : (uint32_t)W.a32.value) : kind == 1 ? (uint64_t)W.a64.value : (uint64_t)(uintptr_t)W.ap.value;
    memset(memo, 0, sizeof memo);
    if (!lin(0, kind == 0 || kind == 3 ? (uint32_t)v0 : v0)) {
      char b[600]; int k = 0; b[0] = 0; for (int i = 0; i < nl && k < 500; i++) k += snprintf(b + k, sizeof b - k, " t%d[%d-%d] %s(%llx,%llx)=%llx", L[i].th, L[i].inv, L[i].res, opname[L[i].op], (unsigned long long)L[i].a, (unsigned long long)L[i].b, (unsigned long long)L[i].ret);
      sim_violation("not-linearizable", "word starts as %llx, ends as %llx; no order explains:%s", (unsigned long long)v0, (unsigned long long)finalv, b); }
    sim_feature(sim_mix(finalv, sim_mix(nl, kind)));
  }
  if (overlapped) sim_nontrivial();
}
