// variants: A
#include "common.h"
const char *const scenario_name = "C27";
const char *const scenario_rule = "a run counts when a string is moved to grow, shortened in place, or refused memory, and its trace differs from every other run";
#define NS 4
#define MAXL 9000
typedef struct { zpl_string s; uint8_t m[MAXL + 3000]; zpl_isize n; } S; static S st[NS];
static char what[200];
// an allocator whose blocks start out as garbage and always move when they are resized: exactly the bytes the library says it used are kept
static void *moving(void *u, zpl_alloc_type t, zpl_isize size, zpl_isize al, void *old, zpl_isize osz, zpl_u64 flags) { zpl_allocator h = zpl_heap_allocator(), me = {moving, u};
  if (t == ZPL_ALLOCATION_RESIZE) return zpl_default_resize_align(me, old, osz, size, al);
  void *p = h.proc(h.data, t, size, al, old, osz, flags); if (t == ZPL_ALLOCATION_ALLOC && p) memset(p, 0xC7, (size_t)size); return p; }
static zpl_allocator al(void) { zpl_allocator h = zpl_heap_allocator(), m = {moving, 0}; return ch(ST_OP, 3) ? h : m; }
 static uint8_t buf[MAXL + 3000]; static char cbuf[MAXL + 3000];
static void refused(uint32_t a0) { CHECK(sim_fired(F_ALLOC) != a0, "failed-without-cause", "%s failed although memory was there", what); sim_nontrivial(); sim_probe("refused memory"); }
static void verify(S *q) { zpl_isize n = zpl_string_length(q->s), c = zpl_string_capacity(q->s); CHECK(n == q->n, "length-differs", "after %s the length is %ld, expected %ld", what, (long)n, (long)q->n); CHECK(c >= n, "capacity", "after %s the capacity is %ld for %ld bytes", what, (long)c, (long)n);
  CHECK(!memcmp(q->s, q->m, (size_t)n), "content-differs", "after %s the %ld bytes differ from the model", what, (long)n); CHECK(!q->s[n], "not-terminated", "after %s the string is not terminated", what); CHECK(zpl_string_available_space(q->s) == c - n, "capacity", "after %s %ld bytes are said to be free of %ld with %ld used", what, (long)zpl_string_available_space(q->s), (long)c, (long)n);
  CHECK(zpl_string_allocation_size(q->s) >= (zpl_isize)sizeof(zpl_string_header) + c, "capacity", "after %s the allocation is said to take %ld bytes", what, (long)zpl_string_allocation_size(q->s)); for (zpl_isize i = n + 1; i <= c; i++) q->s[i] = 0x5A; /* the capacity is there to be used */ }
static size_t len(void) { uint32_t k = ch(ST_OP, 16); return k < 11 ? ch(ST_OP, 12) : k < 14 ? ch(ST_OP, 90) : k < 15 ? ch(ST_OP, 700) : ch(ST_OP, 2600); }
static uint8_t cset[] = " \t\r\n\v\fabcxyz\"\\/%,.-_0149\x80\xc3\xff";
static size_t text(char *d, size_t n, bool pad) { uint32_t sp = ch(ST_OP, 4); for (size_t i = 0; i < n; i++) { bool edge = pad && (i < n / 3 || i > n - n / 3); d[i] = (char)(sp == 0 ? 'a' + i % 26 : edge ? cset[ch(ST_DATA, 8)] : cset[ch(ST_DATA, sizeof cset - 1)]); } d[n] = 0; return n; }
static S *other(S *q) { for (int i = 0, s = (int)ch(ST_OP, NS); i < NS; i++) { S *o = &st[(s + i) % NS]; if (o != q && o->s) return o; } return 0; }
static size_t enc(uint8_t *b, uint32_t r) { if (r > 0x10FFFF || (r >= 0xD800 && r < 0xE000)) r = 0xFFFD; if (r < 0x80) { b[0] = (uint8_t)r; return 1; } if (r < 0x800) { b[0] = (uint8_t)(0xC0 | r >> 6); b[1] = (uint8_t)(0x80 | (r & 63)); return 2; } if (r < 0x10000) { b[0] = (uint8_t)(0xE0 | r >> 12); b[1] = (uint8_t)(0x80 | (r >> 6 & 63)); b[2] = (uint8_t)(0x80 | (r & 63)); return 3; } b[0] = (uint8_t)(0xF0 | r >> 18); b[1] = (uint8_t)(0x80 | (r >> 12 & 63)); b[2] = (uint8_t)(0x80 | (r >> 6 & 63)); b[3] = (uint8_t)(0x80 | (r & 63)); return 4; }
static void create(S *q) { uint32_t a0 = sim_fired(F_ALLOC); uint64_t b0 = sim_live_blocks(); zpl_string s = 0; uint8_t *m = q->m; zpl_isize n = 0; S *o = other(q);
  switch (ch(ST_OP, 8)) {
  case 0: n = (zpl_isize)text(cbuf, len(), true); snprintf(what, sizeof what, "making a string of %ld", (long)n); s = zpl_string_make(al(), cbuf); memcpy(m, cbuf, (size_t)n); break;
  case 1: snprintf(what, sizeof what, "making an empty string"); s = zpl_string_make(al(), ch(ST_OP, 2) ? "" : NULL); break;
  case 2: n = (zpl_isize)len(); sim_fill(buf, (size_t)n, ch(ST_DATA, 1000)); if (o && o->n && ch(ST_OP, 4) == 0) { n = o->n; memcpy(buf, o->m, (size_t)n); for (int j = (int)ch(ST_OP, 3); j > 0; j--) buf[ch(ST_DATA, (uint32_t)n)] = (uint8_t)(ch(ST_DATA, 2) ? ch(ST_DATA, 256) : 0); /* another one, or nearly */ } snprintf(what, sizeof what, "making a string of %ld bytes", (long)n); if (ch(ST_OP, 4) == 3) { s = zpl_string_make_length(al(), NULL, n); memset(m, 0, (size_t)n); } else { s = zpl_string_make_length(al(), buf, n); memcpy(m, buf, (size_t)n); } break;
  case 3: { zpl_isize c = (zpl_isize)len(); snprintf(what, sizeof what, "making a string with room for %ld", (long)c); s = zpl_string_make_reserve(al(), c); if (s) CHECK(zpl_string_capacity(s) >= c, "capacity", "%s gave room for %ld", what, (long)zpl_string_capacity(s)); break; }
  case 4: { size_t k = text(cbuf, len(), false); int d = (int)ch(ST_DATA, 100000) - 50000; n = (zpl_isize)snprintf((char *)m, MAXL, "<%s|%d>%c", cbuf, d, 'q'); if (ch(ST_OP, 2)) { snprintf(what, sizeof what, "formatting %ld bytes into a new string", (long)n); s = zpl_string_sprintf_buf(al(), "<%s|%d>%c", cbuf, d, 'q'); } else { zpl_isize bn = n + 2 + ch(ST_OP, 5); char *tmp = malloc((size_t)bn); snprintf(what, sizeof what, "formatting %ld bytes by way of a buffer of %ld", (long)n, (long)bn); s = zpl_string_sprintf(al(), tmp, bn, "<%s|%d>%c", cbuf, d, 'q'); free(tmp); } (void)k; break; }
  case 5: case 6: if (!o) return; n = o->n; snprintf(what, sizeof what, "duplicating a string of %ld", (long)n); s = zpl_string_duplicate(al(), o->s); memcpy(m, o->m, (size_t)n); if (s) { CHECK(s != o->s, "shared", "%s gave the same string", what); CHECK(zpl_string_are_equal(s, o->s), "equality", "%s gave a string that is not equal", what); } break;
  case 7: { const char *p[8]; static char pt[8][700], glue[40]; int k = (int)ch(ST_OP, 8); size_t g = text(glue, ch(ST_OP, 6), false); for (int i = 0; i < k; i++) { size_t l = ch(ST_OP, 8) == 7 ? ch(ST_OP, 600) : ch(ST_OP, 20); text(pt[i], l, false); p[i] = pt[i]; memcpy(m + n, pt[i], l); n += (zpl_isize)l; if (i + 1 < k) { memcpy(m + n, glue, g); n += (zpl_isize)g; } } snprintf(what, sizeof what, "joining %d parts to %ld bytes", k, (long)n); s = zpl_string_join(al(), p, k, glue); if (k > 2) sim_probe("joined"); break; } }
  sim_ev(what, s != 0, (int64_t)sim_hash(m, (size_t)n)); q->s = s; q->n = n; if (!s) { refused(a0); CHECK(sim_live_blocks() == b0, "leak:memory", "%s failed and left %d blocks behind", what, (int)(sim_live_blocks() - b0)); } else { CHECK(sim_live_blocks() == b0 + 1, "leak:memory", "%s took %d blocks", what, (int)(sim_live_blocks() - b0)); verify(q); } if (o && o->s) verify(o); }
static void op(void) { S *q = &st[ch(ST_OP, NS)]; if (!q->s) { create(q); return; } uint32_t a0 = sim_fired(F_ALLOC), k = ch(ST_OP, 16); uint64_t b0 = sim_live_blocks(); S *o = other(q); zpl_string s = q->s, r = s; zpl_isize n = q->n, cap0 = zpl_string_capacity(s); static uint8_t nm[MAXL + 3000]; memcpy(nm, q->m, (size_t)n); zpl_isize nn = n; bool none = false; if (n > MAXL - 3000 && k < 7) k = 12;
  switch (k) {
  case 0: case 1: { zpl_isize l = (zpl_isize)len(); sim_fill(buf, (size_t)l, ch(ST_DATA, 1000)); snprintf(what, sizeof what, "appending %ld bytes to %ld", (long)l, (long)n); r = zpl_string_append_length(s, buf, l); memcpy(nm + n, buf, (size_t)l); nn += l; break; }
  case 2: case 3: { zpl_isize l = (zpl_isize)text(cbuf, len(), true); snprintf(what, sizeof what, "appending text of %ld to %ld", (long)l, (long)n); r = zpl_string_appendc(s, cbuf); memcpy(nm + n, cbuf, (size_t)l); nn += l; break; }
  case 4: if (ch(ST_OP, 3) == 2 && 2 * n <= MAXL) { /* the string itself, or the end or any part of it */ zpl_isize at = ch(ST_OP, 2) ? (zpl_isize)ch(ST_OP, (uint32_t)n + 1) : 0, l = n - at; int how = (int)ch(ST_OP, 3); if (how == 2) l = (zpl_isize)ch(ST_OP, (uint32_t)l + 1); else if (how == 1 && memchr(q->m, 0, (size_t)n)) return; snprintf(what, sizeof what, "appending %ld of its own bytes to %ld", (long)l, (long)n); memcpy(nm + n, q->m + at, (size_t)l); nn += l; sim_probe("appended its own text"); if (how == 0 && !at) r = zpl_string_append(s, s); else if (how == 1) r = zpl_string_appendc(s, s + at); else r = zpl_string_append_length(s, s + at, l); break; }
    if (!o || o->n + n > MAXL) return; snprintf(what, sizeof what, "appending a string of %ld to %ld", (long)o->n, (long)n); r = zpl_string_append(s, o->s); memcpy(nm + n, o->m, (size_t)o->n); nn += o->n; break;
  case 5: { zpl_rune c = (zpl_rune)(ch(ST_OP, 3) ? (ch(ST_OP, 2) ? ch(ST_DATA, 0x3000) : ch(ST_DATA, 0x112000)) : (uint32_t[]){0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0xFFFFFFFF}[ch(ST_OP, 16)]); snprintf(what, sizeof what, "appending the character %#x to %ld", (unsigned)c, (long)n); r = zpl_string_append_rune(s, c); if (c >= 0) nn += (zpl_isize)enc(nm + n, (uint32_t)c); break; }
  case 6: { text(cbuf, len(), false); int d = (int)ch(ST_DATA, 100000) - 50000; unsigned x = ch(ST_DATA, 1u << 30); int l = snprintf((char *)nm + n, 2900, "[%s] %d %x%%", cbuf, d, x); snprintf(what, sizeof what, "appending %d formatted bytes to %ld", l, (long)n); r = zpl_string_append_fmt(s, "[%s] %d %x%%", cbuf, d, x); nn += l; break; }
  case 7: case 8: { if (ch(ST_OP, 6) == 5 && !memchr(q->m, 0, (size_t)n)) { zpl_isize at = (zpl_isize)ch(ST_OP, (uint32_t)n + 1); snprintf(what, sizeof what, "setting %ld bytes to their last %ld", (long)n, (long)(n - at)); r = zpl_string_set(s, s + at); nn = n - at; memcpy(nm, q->m + at, (size_t)nn); none = true; sim_probe("set to its own end"); break; } zpl_isize l = (zpl_isize)(ch(ST_OP, 3) ? len() : ch(ST_OP, (uint32_t)(cap0 > 4000 ? 4000 : cap0) + 2)); text(cbuf, (size_t)l, false); snprintf(what, sizeof what, "setting %ld of %ld bytes to a text of %ld", (long)n, (long)cap0, (long)l); r = zpl_string_set(s, cbuf); memcpy(nm, cbuf, (size_t)l); nn = l; break; }
  case 9: { zpl_isize l = (zpl_isize)len(); snprintf(what, sizeof what, "making room for %ld behind %ld of %ld", (long)l, (long)n, (long)cap0); r = zpl_string_make_space_for(s, l); if (r) CHECK(zpl_string_available_space(r) >= l, "capacity", "%s made room for %ld", what, (long)zpl_string_available_space(r)); break; }
  case 10: case 11: { const char *cut = ch(ST_OP, 2) ? " \t\r\n\v\f" : ch(ST_OP, 2) ? "a%" : "abc xyz"; bool sp = cut[1] == '\t' && ch(ST_OP, 2); if (memchr(q->m, 0, (size_t)n)) return; zpl_isize b = 0, e = n; while (b < e && strchr(cut, q->m[b])) b++; while (e > b && strchr(cut, q->m[e - 1])) e--; snprintf(what, sizeof what, "trimming %ld bytes to %ld", (long)n, (long)(e - b)); r = sp ? zpl_string_trim_space(s) : zpl_string_trim(s, cut); nn = e - b; memcpy(nm, q->m + b, (size_t)nn); none = true; if (nn != n) { sim_nontrivial(); sim_probe("trimmed"); } break; }
  case 12: snprintf(what, sizeof what, "clearing %ld bytes", (long)n); zpl_string_clear(s); nn = 0; none = true; break;
  case 13: case 14: { if (!o) return; bool eq = o->n == n && !memcmp(o->m, q->m, (size_t)n); snprintf(what, sizeof what, "comparing %ld with %ld", (long)n, (long)o->n); CHECK(!zpl_string_are_equal(s, o->s) == !eq, "equality", "%s bytes says %s", what, eq ? "different" : "equal"); CHECK(!zpl_string_are_equal(o->s, s) == !eq, "equality", "%s bytes says %s", what, eq ? "different" : "equal"); CHECK(zpl_string_are_equal(s, s), "equality", "a string is not equal to itself"); break; }
  case 15: snprintf(what, sizeof what, "freeing %ld bytes", (long)n); zpl_string_free(s); q->s = 0; sim_ev(what, 0, 0); CHECK(sim_live_blocks() == b0 - 1, "leak:memory", "%s left its block behind", what); if (ch(ST_OP, 2)) zpl_string_free(NULL); return; }
  sim_ev(what, r != 0, (int64_t)sim_hash(nm, (size_t)nn)); CHECK(sim_live_blocks() == b0, "leak:memory", "%s changed the number of blocks by %d", what, (int)(sim_live_blocks() - b0));
  if (!r) { CHECK(!none, "failed-without-cause", "%s failed", what); refused(a0); verify(q); return; } q->s = r; memcpy(q->m, nm, (size_t)nn); q->n = nn; if (r != s) { sim_nontrivial(); sim_probe("moved to grow"); } verify(q); if (o) verify(o); sim_feature(sim_mix(k, sim_mix((uint64_t)(nn > 40 ? 40 : nn), (uint64_t)(zpl_string_capacity(r) - nn > 20 ? 20 : zpl_string_capacity(r) - nn)))); }
// long strings
static void lengthy(void) { static const int l[] = {4095, 8193, 9000, 16383, 16385, 20000, 32767, 32769, 65535, 65536, 70000, 140000}; zpl_isize n = l[ch(ST_OP, 12)] + (zpl_isize)ch(ST_OP, 3), add; uint64_t b0 = sim_live_blocks(); uint8_t *m = malloc((size_t)n * 4 + 20000), *c = malloc((size_t)n + 1); sim_nontrivial(); sim_probe("a long string");
  for (zpl_isize i = 0; i < n; i++) c[i] = (uint8_t)(1 + (i * 7 + i / 251) % 250); c[n] = 0; memcpy(m, c, (size_t)n); zpl_isize mn = n; zpl_allocator a = al(); zpl_string s = ch(ST_OP, 2) ? zpl_string_make(a, (char *)c) : zpl_string_make_length(a, c, n), t; snprintf(what, sizeof what, "making a string of %ld", (long)n);
  for (int k = 0, ops = 1 + (int)ch(ST_OP, 5); ; k++) { CHECK(s, "failed-without-cause", "%s failed although memory was there", what); sim_ev(what, (uint64_t)mn, 0); CHECK(zpl_string_length(s) == mn, "length-differs", "after %s the length is %ld, expected %ld", what, (long)zpl_string_length(s), (long)mn); CHECK(zpl_string_capacity(s) >= mn, "capacity", "after %s the capacity is %ld", what, (long)zpl_string_capacity(s)); if (memcmp(s, m, (size_t)mn)) { zpl_isize i = 0; while ((uint8_t)s[i] == m[i]) i++; sim_violation("content-differs", "after %s byte %ld of %ld differs", what, (long)i, (long)mn); } CHECK(!s[mn], "not-terminated", "after %s the string is not terminated", what); if (k == ops) break;
    uint32_t op = ch(ST_OP, 8); if (op < 3 && mn > 2 * n) op = 3; switch (op) {
    case 0: snprintf(what, sizeof what, "appending text of %ld to %ld", (long)n, (long)mn); s = zpl_string_appendc(s, (char *)c); memcpy(m + mn, c, (size_t)n); mn += n; break;
    case 1: add = n - (zpl_isize)ch(ST_OP, 300); snprintf(what, sizeof what, "appending %ld bytes to %ld", (long)add, (long)mn); s = zpl_string_append_length(s, c, add); memcpy(m + mn, c, (size_t)add); mn += add; break;
    case 2: snprintf(what, sizeof what, "appending a byte to %ld", (long)mn); s = zpl_string_appendc(s, "!"); m[mn++] = '!'; break;
    case 3: add = (zpl_isize)ch(ST_OP, 2) ? 0 : (zpl_isize)ch(ST_OP, (uint32_t)n); snprintf(what, sizeof what, "setting %ld bytes to a text of %ld", (long)mn, (long)(n - add)); s = zpl_string_set(s, (char *)c + add); memcpy(m, c + add, (size_t)(n - add)); mn = n - add; break;
    case 4: snprintf(what, sizeof what, "duplicating %ld bytes", (long)mn); t = zpl_string_duplicate(a, s); CHECK(t && zpl_string_are_equal(s, t), "equality", "%s gave a string that is not equal", what); t[mn - 1] ^= 1; CHECK(!zpl_string_are_equal(s, t), "equality", "two strings of %ld bytes that differ at the end are said to be equal", (long)mn); t[mn - 1] ^= 1; zpl_string_free(s); s = t; break;
    case 6: { zpl_string_free(s); s = ch(ST_OP, 2) ? zpl_string_make(a, "short") : zpl_string_make_reserve(a, ch(ST_OP, 50)); add = n - (zpl_isize)ch(ST_OP, 300); c[add] = 0; snprintf(what, sizeof what, "setting a short string to a text of %ld", (long)add); s = zpl_string_set(s, (char *)c); memcpy(m, c, (size_t)add); mn = add; if (add < n) c[add] = (uint8_t)(1 + (add * 7 + add / 251) % 250); break; }
    case 7: add = n - (zpl_isize)ch(ST_OP, 300); snprintf(what, sizeof what, "making room for %ld more bytes after %ld", (long)add, (long)mn); s = zpl_string_make_space_for(s, add); CHECK(s && zpl_string_capacity(s) >= mn + add, "capacity", "%s left the capacity at %ld", what, s ? (long)zpl_string_capacity(s) : -1l); if (s && ch(ST_OP, 2)) { memset(s + mn, 'z', (size_t)add); s[mn] = 0; } break;
    case 5: { int pad = (int)ch(ST_OP, 3); snprintf(what, sizeof what, "trimming %ld bytes", (long)mn); zpl_isize b = 0, e = mn; char cut[3] = {(char)m[0], (char)m[mn - 1], 0}; (void)pad; while (b < e && strchr(cut, m[b])) b++; while (e > b && strchr(cut, m[e - 1])) e--; s = zpl_string_trim(s, cut); memmove(m, m + b, (size_t)(e - b)); mn = e - b; break; } } }
  zpl_string_free(s); free(m); free(c); no_leaks(b0, "freeing a long string"); }
void scenario(void) {
  if (ch(ST_CFG, 100) == 99) { lengthy(); return; }
  sim_faults_init(FB(F_ALLOC)); uint64_t b0 = sim_live_blocks(); uint32_t nops = 4 + ch(ST_OP, 60);
  for (uint32_t k = 0; k < nops; k++) { sim_op(); op(); }
  for (int i = 0; i < NS; i++) zpl_string_free(st[i].s);
  no_leaks(b0, "freeing every string");
}
