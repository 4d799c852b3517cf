// variants: A
#include "common.h"
const char *const scenario_name = "C25";
const char *const scenario_rule = "a run counts when an array grows, shrinks or is refused memory, a ring overflows or wraps, or a list is relinked, and its trace differs from every other run";
typedef struct { int32_t a, b, c; } tri; typedef uint8_t u8_; typedef int64_t i64_; typedef struct { uint64_t v[5]; } big5; typedef struct { uint16_t v[3]; } odd6; typedef struct { uint8_t v[11]; } odd11;
ZPL_RING_DECLARE(extern, ringb_, u8_); ZPL_RING_DEFINE(ringb_, u8_); ZPL_RING_DECLARE(extern, ringt_, tri); ZPL_RING_DEFINE(ringt_, tri);
#define MAXN 400
static uint32_t serial; static char what[160]; static const char *cur = "";
static int len(int big) { uint32_t k = ch(ST_OP, 10); return k < 7 ? (int)ch(ST_OP, 6) : k < 9 ? (int)ch(ST_OP, 20) : (int)ch(ST_OP, big); }
static void fault_or(const char *w, uint32_t a0) { CHECK(sim_fired(F_ALLOC) != a0, "failed-without-cause", "%s failed although memory was there", w); sim_nontrivial(); sim_probe("refused memory"); }
static u8_ mk_u8_(uint32_t s) { return (u8_)(s * 7 + 1); } static i64_ mk_i64_(uint32_t s) { return (i64_)s * 0x100000001ll; } static tri mk_tri(uint32_t s) { return (tri){(int)s, (int)~s, (int)(s * 3)}; } static big5 mk_big5(uint32_t s) { return (big5){{s, ~(uint64_t)s, s * 5ull, 9, s}}; } static odd6 mk_odd6(uint32_t s) { return (odd6){{(uint16_t)s, (uint16_t)~s, (uint16_t)(s * 3)}}; } static odd11 mk_odd11(uint32_t s) { odd11 o; for (int i = 0; i < 11; i++) o.v[i] = (uint8_t)(s * (i + 3) + i); return o; }
#define EQ(a, b) (!memcmp(&(a), &(b), sizeof(a)))
// ---------------------------------------------------------------- arrays
#define ARRAY(T) \
typedef struct { zpl_array(T) x; T m[MAXN + 700]; int n; } A_##T; static A_##T A##T[2]; \
static void av_##T(A_##T *q) { CHECK(zpl_array_count(q->x) == q->n, "count-differs", "after %s the array has %ld elements, expected %d", what, (long)zpl_array_count(q->x), q->n); CHECK(zpl_array_capacity(q->x) >= q->n, "capacity", "after %s the capacity is %ld for %d elements", what, (long)zpl_array_capacity(q->x), q->n); CHECK(zpl_array_elem_size(q->x) == (int)sizeof(T), "elem-size", "after %s the element size is %ld", what, (long)zpl_array_elem_size(q->x)); \
  for (int i = 0; i < q->n; i++) CHECK(EQ(q->x[i], q->m[i]), "content-differs", "after %s element %d of %d differs", what, i, q->n); if (q->n) { CHECK(EQ(zpl_array_front(q->x), q->m[0]) && EQ(zpl_array_back(q->x), q->m[q->n - 1]) && zpl_array_end(q->x) == q->x + q->n - 1, "ends-differ", "after %s front, back or end is wrong", what); } \
  for (int i = q->n; i < zpl_array_capacity(q->x); i++) memset(&q->x[i], 0x33, sizeof(T)); /* the capacity is there to be used */ } \
static void aop_##T(void) { A_##T *q = &A##T[ch(ST_OP, 2)]; uint32_t a0 = sim_fired(F_ALLOC); \
  if (!q->x) { int cap = len(60); zpl_b8 ok = true; uint64_t b0 = sim_live_blocks(); A_##T *o = &A##T[q == &A##T[0]]; uint32_t how = ch(ST_OP, 4); \
    if (how == 0 || (how == 3 && !o->x)) { ok = zpl_array_init(q->x, ALLOC); snprintf(what, sizeof what, "creating an array of " #T); q->n = 0; } else if (how == 1) { ok = zpl_array_init_reserve(q->x, ALLOC, cap); snprintf(what, sizeof what, "creating an array of " #T " for %d", cap); q->n = 0; if (ok) CHECK(zpl_array_capacity(q->x) == cap, "capacity", "%s gave room for %ld", what, (long)zpl_array_capacity(q->x)); } else if (how == 2) { zpl_array_make(T, t, ALLOC); (void)t; zpl_array(T) u = 0; (void)u; snprintf(what, sizeof what, "making an array of " #T); ok = sim_fired(F_ALLOC) == a0; q->x = ok ? t : 0; q->n = 0; } else { ok = zpl_array_copy_init(q->x, o->x); snprintf(what, sizeof what, "copying an array of " #T); if (ok) { memcpy(q->m, o->m, sizeof(T) * o->n); q->n = o->n; av_##T(o); } } \
    sim_ev(what, ok, cap); if (!ok) { q->x = 0; fault_or(what, a0); CHECK(sim_live_blocks() == b0, "leak:memory", "%s failed and left blocks behind", what); return; } CHECK(sim_live_blocks() == b0 + 1, "leak:memory", "%s took %d blocks", what, (int)(sim_live_blocks() - b0)); av_##T(q); return; } \
  uint32_t op = ch(ST_OP, 16); if (q->n > MAXN && op < 6) op = 8; T v = mk_##T(++serial); zpl_b8 ok = true; uint64_t b0 = sim_live_blocks(); int cap0 = (int)zpl_array_capacity(q->x), n0 = q->n; static T vs[700]; \
  switch (op) { \
  case 0: case 1: case 2: snprintf(what, sizeof what, "appending to %d of %d " #T, q->n, cap0); ok = zpl_array_append(q->x, v); if (ok) q->m[q->n++] = v; if (n0 < cap0) CHECK(ok, "failed-without-cause", "%s failed although there is room", what); break; \
  case 3: { int k = len(200); for (int i = 0; i < k; i++) vs[i] = mk_##T(++serial); snprintf(what, sizeof what, "appending %d to %d of %d " #T, k, q->n, cap0); ok = zpl_array_appendv(q->x, vs, k); if (ok) { memcpy(q->m + q->n, vs, sizeof(T) * k); q->n += k; } break; } \
  case 4: { int at = ch(ST_OP, 8) ? (int)ch(ST_OP, q->n + 1) : ch(ST_OP, 3) ? q->n + (int)ch(ST_OP, 20) : -1 - (int)ch(ST_OP, 3); snprintf(what, sizeof what, "inserting at %d into %d of %d " #T, at, q->n, cap0); ok = zpl_array_append_at(q->x, v, at); if (at > q->n) at = q->n; if (at < 0) at = 0; if (ok) { memmove(q->m + at + 1, q->m + at, sizeof(T) * (q->n - at)); q->m[at] = v; q->n++; } break; } \
  case 5: { int k = len(100), at = ch(ST_OP, 8) ? (int)ch(ST_OP, q->n + 1) : q->n + (int)ch(ST_OP, 20); for (int i = 0; i < k; i++) vs[i] = mk_##T(++serial); snprintf(what, sizeof what, "inserting %d at %d into %d of %d " #T, k, at, q->n, cap0); ok = zpl_array_appendv_at(q->x, vs, k, at); if (at > q->n) at = q->n; if (at < 0) at = 0; if (ok) { memmove(q->m + at + k, q->m + at, sizeof(T) * (q->n - at)); memcpy(q->m + at, vs, sizeof(T) * k); q->n += k; } break; } \
  case 6: case 7: if (!q->n) return; { int at = ch(ST_OP, q->n); snprintf(what, sizeof what, "removing %d of %d " #T, at, q->n); zpl_array_remove_at(q->x, at); memmove(q->m + at, q->m + at + 1, sizeof(T) * (q->n - at - 1)); q->n--; break; } \
  case 8: if (!q->n) return; snprintf(what, sizeof what, "popping from %d " #T, q->n); zpl_array_pop(q->x); q->n--; break; \
  case 9: snprintf(what, sizeof what, "clearing %d " #T, q->n); zpl_array_clear(q->x); q->n = 0; break; \
  case 10: { int c = ch(ST_OP, 3) ? (int)ch(ST_OP, q->n + 30) : q->n ? (int)ch(ST_OP, q->n) : 0; snprintf(what, sizeof what, "setting the capacity of %d of %d " #T " to %d", q->n, cap0, c); ok = zpl_array_set_capacity(q->x, c); if (ok) { CHECK(zpl_array_capacity(q->x) == c, "capacity", "%s gave %ld", what, (long)zpl_array_capacity(q->x)); if (c < q->n) q->n = c; } break; } \
  case 11: { int c = (int)ch(ST_OP, q->n + 40); snprintf(what, sizeof what, "reserving %d for %d of %d " #T, c, q->n, cap0); ok = zpl_array_reserve(q->x, c); if (ok) CHECK(zpl_array_capacity(q->x) >= c && zpl_array_capacity(q->x) >= cap0, "capacity", "%s gave %ld", what, (long)zpl_array_capacity(q->x)); break; } \
  case 12: { int c = (int)ch(ST_OP, q->n + 20); if (q->n > MAXN && c > q->n) return; snprintf(what, sizeof what, "resizing %d of %d " #T " to %d", q->n, cap0, c); ok = zpl_array_resize(q->x, c); if (ok) { CHECK(zpl_array_count(q->x) == c && zpl_array_capacity(q->x) >= c, "count-differs", "%s gave %ld of %ld", what, (long)zpl_array_count(q->x), (long)zpl_array_capacity(q->x)); for (int i = q->n; i < c; i++) q->x[i] = q->m[i] = mk_##T(++serial); q->n = c; } break; } \
  case 13: { int c = (int)ch(ST_OP, cap0 + 30); snprintf(what, sizeof what, "growing %d of %d " #T " to at least %d", q->n, cap0, c); ok = zpl_array_grow(q->x, c); if (ok) CHECK(zpl_array_capacity(q->x) >= c && zpl_array_capacity(q->x) > cap0, "capacity", "%s gave %ld", what, (long)zpl_array_capacity(q->x)); break; } \
  case 14: if (!q->n) return; { int b = ch(ST_OP, q->n), e = b + (int)ch(ST_OP, q->n - b + 1); snprintf(what, sizeof what, "filling %d to %d of %d " #T, b, e, q->n); zpl_array_fill(q->x, b, e, v); for (int i = b; i < e; i++) q->m[i] = v; break; } \
  case 15: snprintf(what, sizeof what, "freeing %d " #T, q->n); zpl_array_free(q->x); q->x = 0; sim_ev(what, 0, 0); CHECK(sim_live_blocks() == b0 - 1, "leak:memory", "%s left its block behind", what); return; } \
  sim_ev(what, ok, q->n); if (!ok) { fault_or(what, a0); CHECK(zpl_array_capacity(q->x) == cap0, "capacity", "%s failed and changed the capacity", what); } else if (zpl_array_capacity(q->x) != cap0) { sim_nontrivial(); sim_probe(zpl_array_capacity(q->x) > cap0 ? "array grew" : "array shrank"); } CHECK(sim_live_blocks() == b0, "leak:memory", "%s changed the number of blocks by %d", what, (int)(sim_live_blocks() - b0)); av_##T(q); sim_feature(sim_mix(op, sim_mix(sizeof(T), sim_mix(q->n > 12 ? 12 : q->n, ok)))); }
ARRAY(u8_) ARRAY(i64_) ARRAY(tri) ARRAY(big5) ARRAY(odd6) ARRAY(odd11)
// ---------------------------------------------------------------- fixed buffers
typedef struct { zpl_buffer(tri) x; tri m[80]; int n, cap; } Bf; static Bf bf[2];
static void bverify(Bf *q) { CHECK(zpl_buffer_count(q->x) == q->n && zpl_buffer_capacity(q->x) == q->cap, "count-differs", "after %s the buffer has %ld of %ld, expected %d of %d", what, (long)zpl_buffer_count(q->x), (long)zpl_buffer_capacity(q->x), q->n, q->cap); for (int i = 0; i < q->n; i++) CHECK(EQ(q->x[i], q->m[i]), "content-differs", "after %s element %d differs", what, i); if (q->n) CHECK(zpl_buffer_end(q->x) == q->x + q->n - 1, "ends-differ", "after %s the end is wrong", what); for (int i = q->n; i < q->cap; i++) memset(&q->x[i], 0x44, sizeof(tri)); }
static void bop(void) { Bf *q = &bf[ch(ST_OP, 2)], *o = &bf[q == &bf[0]]; uint32_t a0 = sim_fired(F_ALLOC); tri v = mk_tri(++serial); uint64_t b0 = sim_live_blocks();
  if (!q->x) { q->x = (void *)16; if (o->x && ch(ST_OP, 3) == 2) { snprintf(what, sizeof what, "copying a buffer of %d", o->cap); zpl_buffer_copy_init(q->x, o->x); if (q->x) { q->n = o->n; q->cap = o->cap; memcpy(q->m, o->m, sizeof q->m); bverify(o); } } else { q->cap = len(60); q->n = 0; snprintf(what, sizeof what, "creating a buffer of %d", q->cap); zpl_buffer_init(q->x, ALLOC, q->cap); } sim_ev(what, q->x != 0, q->cap); if (!q->x) { fault_or(what, a0); zpl_buffer_free(q->x); return; } bverify(q); return; }
  switch (ch(ST_OP, 7)) { case 0: case 1: case 2: if (q->n == q->cap) return; snprintf(what, sizeof what, "appending to a buffer"); zpl_buffer_append(q->x, v); q->m[q->n++] = v; break;
    case 3: { int k = (int)ch(ST_OP, q->cap - q->n + 1); static tri vs[80]; for (int i = 0; i < k; i++) vs[i] = mk_tri(++serial); snprintf(what, sizeof what, "appending %d to a buffer", k); zpl_buffer_appendv(q->x, vs, k); memcpy(q->m + q->n, vs, sizeof(tri) * k); q->n += k; if (q->n == q->cap) sim_probe("buffer full"); break; }
    case 4: if (!q->n) return; snprintf(what, sizeof what, "popping from a buffer"); zpl_buffer_pop(q->x); q->n--; break; case 5: snprintf(what, sizeof what, "clearing a buffer"); zpl_buffer_clear(q->x); q->n = 0; break;
    case 6: snprintf(what, sizeof what, "freeing a buffer"); zpl_buffer_free(q->x); q->x = 0; sim_ev(what, 0, 0); CHECK(sim_live_blocks() == b0 - 1, "leak:memory", "%s left its block behind", what); return; }
  sim_ev(what, q->n, q->cap); CHECK(sim_live_blocks() == b0, "leak:memory", "%s changed the number of blocks", what); bverify(q); }
// ---------------------------------------------------------------- rings
#define RING(T, F) \
typedef struct { bool open; ZPL_JOIN2(F, T) r; T m[2000]; int h, n, cap; } R_##T; static R_##T R##T; \
static void rv_##T(void) { R_##T *q = &R##T; CHECK(!F##empty(&q->r) == !!q->n, "empty-differs", "after %s a ring with %d elements is reported %sempty", what, q->n, q->n ? "" : "not "); CHECK(!F##full(&q->r) == (q->n != q->cap), "full-differs", "after %s a ring with %d of %d elements is reported %sfull", what, q->n, q->cap, q->n == q->cap ? "not " : ""); } \
static void push_##T(T v) { R_##T *q = &R##T; q->m[q->h + q->n++] = v; if (q->n > q->cap) { q->h++; q->n--; if (q->cap) { sim_nontrivial(); sim_probe("ring overflowed"); } } } \
static void rop_##T(void) { R_##T *q = &R##T; uint32_t a0 = sim_fired(F_ALLOC); uint64_t b0 = sim_live_blocks(); if (q->h + q->n > 1800) return; \
  if (!q->open) { q->cap = 1 + len(40); q->n = q->h = 0; snprintf(what, sizeof what, "creating a ring of %d " #T, q->cap); F##init(&q->r, ALLOC, q->cap); sim_ev(what, q->r.buf != 0, q->cap); if (!q->r.buf) { fault_or(what, a0); F##free(&q->r); CHECK(sim_live_blocks() == b0, "leak:memory", "%s left a block behind", what); return; } q->open = true; rv_##T(); return; } \
  switch (ch(ST_OP, 9)) { case 0: case 1: case 2: { T v = mk_##T(++serial); snprintf(what, sizeof what, "appending to a ring of %d " #T, q->cap); F##append(&q->r, v); push_##T(v); break; } \
    case 3: case 4: case 5: { snprintf(what, sizeof what, "getting from a ring of %d " #T, q->cap); T *v = F##get(&q->r); if (!q->n) { CHECK(!v, "got-nothing", "%s gave an element of an empty ring", what); } else { CHECK(v && EQ(*v, q->m[q->h]), "wrong-element", "%s did not give the oldest of %d elements", what, q->n); q->h++; q->n--; } break; } \
    case 6: { sim_faults_enable(false); zpl_array(T) d; zpl_array_init(d, ALLOC); int k = len(40); for (int i = 0; i < k; i++) { T v = mk_##T(++serial); zpl_array_append(d, v); } snprintf(what, sizeof what, "appending an array of %d to a ring of %d " #T, k, q->cap); F##append_array(&q->r, d); for (int i = 0; i < k; i++) push_##T(d[i]); zpl_array_free(d); sim_faults_enable(true); break; } \
    case 7: { zpl_usize k = ch(ST_OP, 5) ? ch(ST_OP, q->n + 3) : ch(ST_OP, 2) ? 0 : 100; snprintf(what, sizeof what, "taking up to %d of %d " #T " out of a ring", (int)k, q->n); zpl_array(T) d = F##get_array(&q->r, k, ALLOC); int want = (int)k < q->n ? (int)k : q->n, got = d ? (int)zpl_array_count(d) : 0; sim_ev(what, got, d != 0); if (got < want) { CHECK(sim_fired(F_ALLOC) != a0, "failed-without-cause", "%s gave %d although memory was there", what, got); sim_nontrivial(); sim_probe("refused memory"); } CHECK(got <= want, "took-more", "%s gave %d", what, got); for (int i = 0; i < got; i++) CHECK(EQ(d[i], q->m[q->h + i]), "wrong-element", "%s: element %d differs", what, i); q->h += got; q->n -= got; zpl_array_free(d); break; } \
    case 8: snprintf(what, sizeof what, "freeing a ring of " #T); F##free(&q->r); q->open = false; sim_ev(what, 0, 0); CHECK(sim_live_blocks() == b0 - 1, "leak:memory", "%s left its block behind", what); return; } \
  sim_ev(what, q->n, q->h); CHECK(sim_live_blocks() == b0, "leak:memory", "%s changed the number of blocks", what); rv_##T(); sim_feature(sim_mix(q->n, sim_mix(q->cap, q->h % (q->cap + 1)))); }
RING(u8_, ringb_) RING(tri, ringt_)
// ---------------------------------------------------------------- linked lists
#define NN 14
static zpl_list nd[NN]; static int order[2][NN], cnt[2]; static signed char inl[NN];
static void lverify(void) { for (int l = 0; l < 2; l++) { if (!cnt[l]) continue; zpl_list *p = &nd[order[l][0]]; CHECK(!p->prev, "links-differ", "after %s the first node has a predecessor", what); for (int i = 0; i < cnt[l]; i++) { CHECK(p == &nd[order[l][i]], "links-differ", "after %s node %d of %d forwards is another", what, i, cnt[l]); CHECK(p->ptr == (void *)(intptr_t)(0x1000 + order[l][i]), "content-differs", "after %s a node holds another pointer", what); CHECK(p->prev == (i ? &nd[order[l][i - 1]] : 0), "links-differ", "after %s node %d of %d has the wrong predecessor", what, i, cnt[l]); p = p->next; } CHECK(!p, "links-differ", "after %s the list does not end after %d nodes", what, cnt[l]); } }
static void lop(void) { int l = ch(ST_OP, 2); int f = -1; for (int i = 0, s = ch(ST_OP, NN); i < NN && f < 0; i++) if (!inl[(s + i) % NN]) f = (s + i) % NN;
  if (!cnt[l]) { if (f < 0) return; snprintf(what, sizeof what, "starting a list"); memset(&nd[f], 0x66, sizeof nd[f]); zpl_list_init(&nd[f], (void *)(intptr_t)(0x1000 + f)); inl[f] = 1; order[l][cnt[l]++] = f; }
  else if (ch(ST_OP, 5) < 3 && f >= 0) { int at = ch(ST_OP, cnt[l]); if (ch(ST_OP, 2)) { zpl_list t = {(void *)(intptr_t)(0x1000 + f)}; nd[f] = t; } else { nd[f].ptr = (void *)(intptr_t)(0x1000 + f); } snprintf(what, sizeof what, "adding behind node %d of %d", at, cnt[l]); zpl_list *r = zpl_list_add(&nd[order[l][at]], &nd[f]); CHECK(r == &nd[f], "wrong-node", "%s gave another node", what); memmove(&order[l][at + 2], &order[l][at + 1], sizeof(int) * (cnt[l] - at - 1)); order[l][at + 1] = f; cnt[l]++; inl[f] = 1; if (at + 2 < cnt[l]) { sim_nontrivial(); sim_probe("inserted in the middle"); } }
  else { int at = ch(ST_OP, cnt[l]), x = order[l][at]; snprintf(what, sizeof what, "removing node %d of %d", at, cnt[l]); zpl_list *r = zpl_list_remove(&nd[x]); CHECK(r == (at + 1 < cnt[l] ? &nd[order[l][at + 1]] : 0), "wrong-node", "%s did not give the node behind it", what); memmove(&order[l][at], &order[l][at + 1], sizeof(int) * (cnt[l] - at - 1)); cnt[l]--; inl[x] = 0; if (cnt[l]) { sim_nontrivial(); sim_probe("list relinked"); } }
  sim_ev(what, cnt[0], cnt[1]); lverify(); }
// ---------------------------------------------------------------- a great many elements
static int lots(void) { static const int l[] = {127, 255, 256, 500, 1000, 4000, 10000, 32767, 40000, 65535, 65536, 70000}; return l[ch(ST_OP, 12)] + (int)ch(ST_OP, 3); }
#define MANY(T, F) \
static void many_##T(void) { int n = lots(), k; T *m = (T *)malloc(sizeof(T) * (size_t)(2 * n + 20)), *is; int mn = 0; zpl_array(T) x; zpl_array(T) y; CHECK(zpl_array_init(x, ALLOC), "failed-without-cause", "creating an array failed"); sim_nontrivial(); sim_probe("a great many elements"); \
  uint32_t how = ch(ST_OP, 3); if (how == 0) for (int i = 0; i < n; i++) { T v = mk_##T(++serial); CHECK(zpl_array_append(x, v), "failed-without-cause", "appending failed"); m[mn++] = v; } else { T *vs = (T *)malloc(sizeof(T) * (size_t)n); for (int i = 0; i < n; i++) vs[i] = mk_##T(++serial); int a = how == 1 ? 0 : (int)ch(ST_OP, (uint32_t)n); CHECK(zpl_array_appendv(x, vs + a, n - a), "failed-without-cause", "appending failed"); CHECK(zpl_array_appendv_at(x, vs, a, 0), "failed-without-cause", "inserting failed"); memcpy(m, vs, sizeof(T) * (size_t)n); mn = n; free(vs); } \
  for (int r = 0, ops = 2 + (int)ch(ST_OP, 6); r < ops; r++) { int at = ch(ST_OP, 2) ? (int)ch(ST_OP, 4) : (int)ch(ST_OP, (uint32_t)mn); switch (ch(ST_OP, 7)) { case 0: { T v = mk_##T(++serial); snprintf(what, sizeof what, "inserting at %d of %d " #T, at, mn); CHECK(zpl_array_append_at(x, v, at), "failed-without-cause", "%s failed", what); memmove(m + at + 1, m + at, sizeof(T) * (size_t)(mn - at)); m[at] = v; mn++; break; } case 1: snprintf(what, sizeof what, "removing %d of %d " #T, at, mn); zpl_array_remove_at(x, at); memmove(m + at, m + at + 1, sizeof(T) * (size_t)(mn - at - 1)); mn--; break; \
      case 5: { int want = mn + (ch(ST_OP, 2) ? (int)ch(ST_OP, 300) : n) ; if (want > 2 * n) want = 2 * n; if (want < mn) break; snprintf(what, sizeof what, "resizing %d " #T " to %d", mn, want); CHECK(zpl_array_resize(x, want), "failed-without-cause", "%s failed", what); CHECK(zpl_array_capacity(x) >= want, "capacity", "%s left the capacity at %ld", what, (long)zpl_array_capacity(x)); for (int i = mn; i < want; i++) m[i] = x[i] = mk_##T(++serial); mn = want; break; } \
      case 6: { int want = (int)ch(ST_OP, 2) ? n : mn; snprintf(what, sizeof what, "making %d " #T " anew and resizing to %d", mn, want); zpl_array_free(x); CHECK(zpl_array_init_reserve(x, ALLOC, 1 + (int)ch(ST_OP, 20)), "failed-without-cause", "%s failed", what); CHECK(zpl_array_resize(x, want), "failed-without-cause", "%s failed", what); for (int i = 0; i < want; i++) m[i] = x[i] = mk_##T(++serial); mn = want; break; } \
      case 2: snprintf(what, sizeof what, "changing the capacity of %d " #T, mn); CHECK(zpl_array_set_capacity(x, mn + (int)ch(ST_OP, 3)), "failed-without-cause", "%s failed", what); break; case 3: { snprintf(what, sizeof what, "copying %d " #T, mn); CHECK(zpl_array_copy_init(y, x), "failed-without-cause", "%s failed", what); zpl_array_free(x); x = y; break; } case 4: { T v = mk_##T(++serial); int e = mn - (int)ch(ST_OP, 3); if (e < at) e = at; snprintf(what, sizeof what, "filling %d to %d of %d " #T, at, e, mn); zpl_array_fill(x, at, e, v); for (int i = at; i < e; i++) m[i] = v; break; } } \
    sim_ev(what, (uint64_t)mn, 0); CHECK(zpl_array_count(x) == mn, "count-differs", "after %s the array has %ld elements, expected %d", what, (long)zpl_array_count(x), mn); for (int i = 0; i < mn; i++) CHECK(EQ(x[i], m[i]), "content-differs", "after %s element %d of %d differs", what, i, mn); } \
  is = m; k = ch(ST_OP, 3) ? mn : 1 + (int)ch(ST_OP, (uint32_t)mn); snprintf(what, sizeof what, "a ring of %d " #T " given %d", k, mn); ZPL_JOIN2(F, T) r; F##init(&r, ALLOC, k); F##append_array(&r, x); if (mn > k) is = m + mn - k; else k = mn; CHECK(!F##full(&r) == (k == mn && mn < (int)r.capacity - 1), "full-differs", "%s has the wrong idea of being full", what); \
  int g = (int)ch(ST_OP, 3); for (int i = 0; i < g && i < k; i++) { T *v = F##get(&r); CHECK(v && EQ(*v, is[i]), "wrong-element", "%s: get %d gave another element", what, i); } if (g > k) g = k; zpl_array(T) d = F##get_array(&r, ch(ST_OP, 2) ? (zpl_usize)(k - g) : (zpl_usize)1 << 40, ALLOC); CHECK(d && zpl_array_count(d) == k - g, "wrong-count", "%s: taking all gave %ld of %d", what, d ? (long)zpl_array_count(d) : -1, k - g); for (int i = g; i < k; i++) CHECK(EQ(d[i - g], is[i]), "wrong-element", "%s: element %d of all differs", what, i); CHECK(F##empty(&r), "empty-differs", "%s is not empty after taking all", what); \
  zpl_array_free(d); F##free(&r); zpl_array_free(x); \
  zpl_buffer(T) bu; zpl_buffer_init(bu, ALLOC, mn); zpl_buffer_appendv(bu, m, mn); CHECK(zpl_buffer_count(bu) == mn && !memcmp(bu, m, sizeof(T) * (size_t)mn), "content-differs", "a buffer of %d " #T " differs", mn); zpl_buffer_free(bu); free(m); }
MANY(u8_, ringb_) MANY(tri, ringt_)
void scenario(void) { pick_alloc();
  if (ch(ST_CFG, 120) == 119) { uint64_t l0 = sim_live_blocks(); if (ch(ST_OP, 2)) many_u8_(); else many_tri(); no_leaks(l0, "freeing everything"); return; }
  sim_faults_init(FB(F_ALLOC)); uint64_t b0 = sim_live_blocks(); uint32_t nops = 4 + ch(ST_OP, 80), focus = 0; (void)cur;
  for (uint32_t k = 0; k < nops; k++) { sim_op(); if (k == 0 || ch(ST_OP, 16) == 15) focus = ch(ST_OP, 10); switch (ch(ST_OP, 5) ? focus : ch(ST_OP, 10)) { case 0: aop_tri(); break; case 1: aop_u8_(); break; case 2: aop_i64_(); break; case 3: aop_big5(); break; case 8: aop_odd6(); break; case 9: aop_odd11(); break; case 4: bop(); break; case 5: rop_u8_(); break; case 6: rop_tri(); break; case 7: lop(); break; } }
  for (int i = 0; i < 2; i++) { zpl_array_free(Atri[i].x); zpl_array_free(Au8_[i].x); zpl_array_free(Ai64_[i].x); zpl_array_free(Abig5[i].x); zpl_array_free(Aodd6[i].x); zpl_array_free(Aodd11[i].x); if (bf[i].x) zpl_buffer_free(bf[i].x); } if (Ru8_.open) ringb_free(&Ru8_.r); if (Rtri.open) ringt_free(&Rtri.r);
  no_leaks(b0, "freeing everything");
}
