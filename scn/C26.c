// variants: A
#include "common.h"
const char *const scenario_name = "C26";
const char *const scenario_rule = "a run counts when a table grows, is refused memory, removes a pair from a chain or rehashes, and its trace differs from every other run";
typedef struct { uint64_t id; uint32_t w[5]; } wide;
ZPL_TABLE(static inline, tabw, tabw_, wide);
ZPL_TABLE(static inline, tabb, tabb_, zpl_u8);
#define NK 48
static uint64_t key[NK]; static int nk; static uint32_t serial; static char what[120];
static wide mk_wide(uint32_t s) { wide v = {s * 0x100000001ull}; for (int i = 0; i < 5; i++) v.w[i] = s + i * 77; return v; }
static zpl_u8 mk_byte(uint32_t s) { return (zpl_u8)(s * 11 + 3); }
static int seen[NK]; static uint64_t strange; static bool have_strange, bad_value; static int nseen;
static int which(uint64_t k) { for (int i = 0; i < nk; i++) if (key[i] == k) return i; strange = k; have_strange = true; return -1; }
static void refused(const char *w, uint32_t a0) { CHECK(sim_fired(F_ALLOC) != a0, "failed-without-cause", "%s failed although memory was there", w); sim_nontrivial(); sim_probe("refused memory"); }
#define TABLE(N, V, MK, CMP) \
typedef struct { N t; bool open; bool has[NK]; V val[NK]; int n; } M_##N; static M_##N m_##N[2], *c_##N; \
static void mp_##N(zpl_u64 k, V v) { int i = which(k); nseen++; if (i >= 0) { seen[i]++; if (!c_##N->has[i] || !CMP(v, c_##N->val[i])) bad_value = true; } } \
static void mm_##N(zpl_u64 k, V *v) { int i = which(k); nseen++; if (i >= 0) { seen[i]++; if (!c_##N->has[i] || !CMP(*v, c_##N->val[i])) bad_value = true; c_##N->val[i] = *v = MK(++serial); } } \
static void walk_##N(M_##N *q, bool mut) { memset(seen, 0, sizeof seen); nseen = 0; have_strange = bad_value = false; c_##N = q; if (mut) N##_map_mut(&q->t, mm_##N); else N##_map(&q->t, mp_##N); CHECK(!have_strange, "iteration-differs", "after %s the iteration gave the key %#llx, which was never set", what, (unsigned long long)strange); for (int i = 0; i < nk; i++) CHECK(seen[i] == q->has[i], "iteration-differs", "after %s the iteration gave the key %#llx %d times, which is %sin the table", what, (unsigned long long)key[i], seen[i], q->has[i] ? "" : "not "); CHECK(!bad_value, "iteration-differs", "after %s the iteration gave another value", what); } \
static void v_##N(M_##N *q) { for (int i = 0; i < nk; i++) { V *p = N##_get(&q->t, key[i]); CHECK(!p == !q->has[i], p ? "found-what-is-not-there" : "pair-lost", "after %s the key %#llx is %sfound (%d pairs)", what, (unsigned long long)key[i], p ? "" : "not ", q->n); if (p) CHECK(CMP(*p, q->val[i]), "value-differs", "after %s the key %#llx has another value", what, (unsigned long long)key[i]); zpl_isize s = N##_slot(&q->t, key[i]); CHECK((s >= 0) == q->has[i], "slot-differs", "after %s the key %#llx has slot %ld", what, (unsigned long long)key[i], (long)s); if (s >= 0) CHECK(s < zpl_array_count(q->t.entries) && q->t.entries[s].key == key[i] && &q->t.entries[s].value == p, "slot-differs", "after %s the slot of key %#llx holds another pair", what, (unsigned long long)key[i]); } CHECK(zpl_array_count(q->t.entries) == q->n, "count-differs", "after %s the table has %ld pairs, expected %d", what, (long)zpl_array_count(q->t.entries), q->n); walk_##N(q, false); } \
static void op_##N(void) { M_##N *q = &m_##N[ch(ST_OP, 4) == 3]; uint32_t a0 = sim_fired(F_ALLOC); uint64_t b0 = sim_live_blocks(); \
  if (!q->open) { memset(&q->t, 0xA5, sizeof q->t); N##_init(&q->t, ALLOC); snprintf(what, sizeof what, "creating a table"); bool ok = q->t.hashes && q->t.entries; sim_ev(what, ok, 0); if (!ok) { refused(what, a0); N##_destroy(&q->t); CHECK(sim_live_blocks() == b0, "leak:memory", "a table that could not be created left %d blocks behind", (int)(sim_live_blocks() - b0)); return; } q->open = true; memset(q->has, 0, sizeof q->has); q->n = 0; v_##N(q); return; } \
  uint32_t op = ch(ST_OP, 20); int i = (int)ch(ST_OP, nk); unsigned long long kk = key[i]; zpl_isize h0 = zpl_array_count(q->t.hashes); bool mut = true; \
  if (op < 9) { V v = MK(++serial); snprintf(what, sizeof what, "setting the %s key %#llx among %d", q->has[i] ? "known" : "new", kk, q->n); N##_set(&q->t, key[i], v); V *p = N##_get(&q->t, key[i]); sim_ev(what, p != 0, (uint64_t)q->n); if (!p && !q->has[i]) refused(what, a0); else { CHECK(p, "pair-lost", "%s lost it", what); if (!q->has[i]) { q->has[i] = true; q->n++; } q->val[i] = v; } } \
  else if (op < 14) { snprintf(what, sizeof what, "removing the %s key %#llx among %d", q->has[i] ? "known" : "unknown", kk, q->n); zpl_isize col = 0; if (zpl_array_count(q->t.hashes)) for (int j = 0; j < nk; j++) col += j != i && q->has[j] && key[j] % zpl_array_count(q->t.hashes) == key[i] % zpl_array_count(q->t.hashes); N##_remove(&q->t, key[i]); if (q->has[i]) { q->has[i] = false; q->n--; if (col) { sim_nontrivial(); sim_probe("removed from a chain"); } } } \
  else switch (op) { case 14: if (ch(ST_OP, 3)) return; snprintf(what, sizeof what, "clearing %d pairs", q->n); N##_clear(&q->t); memset(q->has, 0, sizeof q->has); q->n = 0; break; \
    case 15: snprintf(what, sizeof what, "growing a table of %d", q->n); N##_grow(&q->t); break; \
    case 16: { zpl_isize c = ch(ST_OP, 4) ? 1 + ch(ST_OP, 40) : ch(ST_OP, 3) ? (zpl_isize)q->n : 0; snprintf(what, sizeof what, "rehashing %d pairs into %d", q->n, (int)c); N##_rehash(&q->t, c); if (zpl_array_count(q->t.hashes) != h0) { sim_nontrivial(); sim_probe("rehashed"); } break; } \
    case 17: snprintf(what, sizeof what, "relinking %d pairs", q->n); if (!q->n && !h0) return; N##_rehash_fast(&q->t); break; \
    case 18: if (ch(ST_OP, 2)) { snprintf(what, sizeof what, "changing every value of %d", q->n); walk_##N(q, true); } else { zpl_isize s = N##_slot(&q->t, key[i]); if (s < 0) return; snprintf(what, sizeof what, "removing the pair in slot %ld of %d", (long)s, q->n); N##_remove_entry(&q->t, s); N##_rehash_fast(&q->t); q->has[i] = false; q->n--; } break; \
    case 19: if (ch(ST_OP, 3)) return; snprintf(what, sizeof what, "destroying a table of %d", q->n); N##_destroy(&q->t); q->open = false; sim_ev(what, 0, 0); CHECK(sim_live_blocks() == b0 - 2, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - (b0 - 2))); return; } \
  (void)mut; sim_ev(what, (uint64_t)q->n, (uint64_t)zpl_array_count(q->t.hashes)); CHECK(sim_live_blocks() == b0, "leak:memory", "%s changed the number of blocks by %d", what, (int)(sim_live_blocks() - b0)); if (zpl_array_count(q->t.hashes) > h0) { sim_nontrivial(); sim_probe("table grew"); } \
  v_##N(q); sim_feature(sim_mix(op, sim_mix((uint64_t)q->n, (uint64_t)zpl_array_count(q->t.hashes)))); }
#define CMPW(a, b) (!memcmp(&(a), &(b), sizeof(wide)))
#define CMPB(a, b) ((a) == (b))
TABLE(tabw, wide, mk_wide, CMPW) TABLE(tabb, zpl_u8, mk_byte, CMPB)
// a great many pairs
static uint32_t mg_seen, mg_bad; static uint64_t mg_sum, mg_x; static uint64_t many_key(uint32_t mode, uint32_t i);
static void mg_one(zpl_u64 k) { mg_seen++; mg_sum += k; mg_x ^= sim_mix(k, 5); }
static void mg_map(zpl_u64 k, zpl_u8 v) { mg_one(k); mg_bad += v; }
static void mg_mut(zpl_u64 k, zpl_u8 *v) { mg_one(k); mg_bad += *v; *v = (zpl_u8)(*v + 1); }
static uint64_t many_key(uint32_t mode, uint32_t i) { return mode == 0 ? i : mode == 1 ? i * 0x9E3779B97F4A7C15ull : mode == 2 ? (uint64_t)i << 40 : i * 8ull; }
static void many(void) { static const int l[] = {200, 257, 600, 1000, 2000, 4000, 9000, 40000, 70000}; uint32_t n = (uint32_t)l[ch(ST_OP, 9)] + ch(ST_OP, 5), mode = ch(ST_OP, 4), base = ch(ST_OP, 1000); tabb t; tabb_init(&t, ALLOC); sim_nontrivial(); sim_probe("a great many pairs"); sim_ev("many", n, mode);
  for (int round = 0; round < 2; round++) {
    uint32_t step = n > 5000 ? n / 400 + 1 : n / 60 + 1;
    for (uint32_t i = 0; i < n; i++) { tabb_set(&t, many_key(mode, i), (zpl_u8)(i * 7 + base)); }
    CHECK(zpl_array_count(t.entries) == (zpl_isize)n, "count-differs", "after setting %u keys the table has %ld pairs", n, (long)zpl_array_count(t.entries));
    for (uint32_t i = 0; i < n; i++) { zpl_u8 *p = tabb_get(&t, many_key(mode, i)); CHECK(p, "pair-lost", "after setting %u keys key %u is not found", n, i); CHECK(*p == (zpl_u8)(i * 7 + base), "value-differs", "after setting %u keys key %u has another value", n, i); }
    for (uint32_t i = base % step; i < n; i += step) { zpl_isize s = tabb_slot(&t, many_key(mode, i)); CHECK(s >= 0 && t.entries[s].key == many_key(mode, i), "slot-differs", "of %u keys key %u has slot %ld", n, i, (long)s); }
    CHECK(!tabb_get(&t, many_key(mode, n)) && tabb_slot(&t, many_key(mode, n)) < 0, "found-what-is-not-there", "a key that was never set is found among %u", n);
    uint32_t gone[6], ng = n > 20000 ? 2 : 6; for (uint32_t k = 0; k < ng; k++) { gone[k] = ch(ST_OP, n); if (ch(ST_OP, 3) == 2) gone[k] = n - 1 - ch(ST_OP, 3); tabb_remove(&t, many_key(mode, gone[k])); }
    if (ch(ST_OP, 3) == 2) tabb_rehash(&t, ch(ST_OP, 2) ? zpl_array_count(t.entries) * 3 : 1 + ch(ST_OP, 2000));
    if (ch(ST_OP, 3) == 2) tabb_rehash_fast(&t);
    for (uint32_t i = 0; i < n; i += (n > 20000 || zpl_array_count(t.hashes) < 300) ? 1 + n / 300 : 1) { bool out = false; for (uint32_t k = 0; k < ng; k++) out |= gone[k] == i; zpl_u8 *p = tabb_get(&t, many_key(mode, i)); CHECK(!p == out, out ? "found-what-is-not-there" : "pair-lost", "after removing %u of %u keys key %u is %sfound", ng, n, i, p ? "" : "not "); if (p) CHECK(*p == (zpl_u8)(i * 7 + base), "value-differs", "after removing some key %u of %u has another value", i, n); }
    { uint64_t sum = 0, x = 0; uint32_t left = 0, vs = 0; for (uint32_t i = 0; i < n; i++) { bool out = false; for (uint32_t k = 0; k < ng; k++) out |= gone[k] == i; if (out) continue; uint64_t k = many_key(mode, i); left++; sum += k; x ^= sim_mix(k, 5); vs += (zpl_u8)(i * 7 + base); }
      for (int w = 0; w < 3; w++) { mg_seen = mg_bad = 0; mg_sum = mg_x = 0; if (w == 1) { tabb_map_mut(&t, mg_mut); } else tabb_map(&t, mg_map); CHECK(mg_seen == left && mg_sum == sum && mg_x == x, "iteration-differs", "iterating over %u pairs gave %u, or other keys", left, mg_seen); if (w == 2) { vs = 0; for (uint32_t i = 0; i < n; i++) { bool out = false; for (uint32_t k = 0; k < ng; k++) out |= gone[k] == i; if (!out) vs += (zpl_u8)(i * 7 + base + 1); } } CHECK(mg_bad == vs, "iteration-differs", "iterating over %u pairs gave other values", left); } }
    if (round) break; tabb_clear(&t); CHECK(!zpl_array_count(t.entries), "count-differs", "a cleared table has pairs"); if (ch(ST_OP, 2)) for (uint32_t i = 0; i < n; i += step) CHECK(!tabb_get(&t, many_key(mode, i)), "found-what-is-not-there", "after clearing %u pairs key %u is found", n, i); base++; if (ch(ST_OP, 2)) n = n / 3 + 1; }
  tabb_destroy(&t); }
void scenario(void) { pick_alloc();
  if (ch(ST_CFG, 150) == 149) { uint64_t l0 = sim_live_blocks(); many(); no_leaks(l0, "destroying the table"); return; }
  sim_faults_init(FB(F_ALLOC)); uint64_t b0 = sim_live_blocks(); nk = 2 + (int)ch(ST_OP, ch(ST_OP, 3) ? 12 : NK - 1); uint32_t mode = ch(ST_OP, 5);
  for (int i = 0; i < nk; i++) { uint64_t k; uint32_t r = ch(ST_OP, 1u << 20); switch (mode) { case 0: k = r % 64; break; case 1: k = (uint64_t)(r % 64) * 24 * 64; break; case 2: k = (uint64_t)(r % 64) << 56 | r % 3; break; case 3: k = r % 5 ? (uint64_t)r * 0x9E3779B97F4A7C15ull : r % 2 ? ~0ull - r % 7 : r % 4; break; default: k = (uint64_t)(r % 64) * 8 + (r & 64 ? 1 : 0); } for (int j = 0; j < i; j++) if (key[j] == k) { k += 131; j = -1; } key[i] = k; sim_ev("key", k, 0); }
  uint32_t nops = 4 + ch(ST_OP, ch(ST_OP, 3) ? 60 : 200), w = ch(ST_OP, 3);
  for (uint32_t k = 0; k < nops; k++) { sim_op(); if (w == 0 || (w == 2 && ch(ST_OP, 2))) op_tabw(); else op_tabb(); }
  for (int i = 0; i < 2; i++) { if (m_tabw[i].open) tabw_destroy(&m_tabw[i].t); if (m_tabb[i].open) tabb_destroy(&m_tabb[i].t); }
  no_leaks(b0, "destroying every table");
}
