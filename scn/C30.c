// variants: A D
#include "common.h"
const char *const scenario_name = "C30";
const char *const scenario_rule = "a run counts when nodes move to other addresses, are moved or swapped between branches, or memory is refused, and its trace differs from every other run";
static bool same_text(const char *b, zpl_isize n, const char *t) {
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
  if (strpbrk(t, ".eE") && !strpbrk(t, "xX")) { double w = strtod(t, NULL), v; char c[600]; if (n >= 600) return true; memcpy(c, b, (size_t)n); c[n] = 0; v = strtod(c, NULL); return __builtin_fabs(v - w) <= __builtin_fabs(w) * 1e-12 + 1.01e-6; } // without notes on its formatting a real number is written with six digits
#endif
  return (size_t)n == strlen(t) && !memcmp(b, t, (size_t)n); }
#define MAXK 40
typedef struct mn { struct mn *par, *kid[MAXK + 1]; int n, type; const char *name, *str; int64_t ival; double real; char txt[40]; } mn;
static zpl_adt_node root[2]; static mn *mroot[2]; static int total; static char what[160];
static const char *const NAME[] = {"a", "b", "foo", "bar", "name", "x1", "a1", "longer_name", "u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "u9", "ua", "ub", "uc", "ud", "ue", "uf"};
typedef struct { const char *s; int type; int64_t i; double r; const char *txt; int loose; } num;
static const num NUM[] = { {"42", 5, 42, 0, "42", 1}, {"-7", 5, -7, 0, "-7", 1}, {"0x1f", 5, 31, 0, "0x1f", 2}, {"3.5", 6, 0, 3.5, "3.500000", 1}, {".5", 6, 0, .5, ".5", 1}, {"1e3", 5, 1000, 0, "1000", 1}, {"2.5e2", 6, 0, 250, "2.5e2", 1}, {"-0.5", 6, 0, -.5, "-0.500000", 1}, {"+9", 5, 9, 0, "9", 1}, {"123456789012", 5, 123456789012, 0, "123456789012", 1}, {"-0x10", 5, -16, 0, "0xfffffffffffffff0", 2}, {"7.05e-3", 6, 0, .00705, "7.05e-3", 1},
  {"99e18", 6, 0, 99e18, "99.00e18", 1}, {"-7e19", 6, 0, -7e19, "-7.00e19", 1}, {"5e17", 5, 500000000000000000, 0, "500000000000000000", 1}, {".00000025", 6, 0, .00000025, ".00000025", 1}, {"1.0000002e2", 6, 0, 100.00002, "1.0000002e2", 1},
  {"1e0000000005", 5, 100000, 0, "100000", 1}, {"5.0E+0000000000000000002", 6, 0, 500, "5.0e2", 3}, {"-123456789012345678", 5, -123456789012345678, 0, "-123456789012345678", 1}, {"0.1234567890123456789012345678901234567890123456789012345678901234567890", 6, 0, .12345678901234568, "", 3}, {".00000000000000000000000000000000000000000000000000000000000000000000012", 6, 0, 0, "", 4},
  {"12345678901234567890123456789012345678901234", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234e-3", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234.", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234.e+2", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345e-3", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345.", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345.e+2", 0, 0, 0, "", 4}, {"1234567890123456789012345678901234567890123456", 0, 0, 0, "", 4}, {"1234567890123456789012345678901234567890123456e-3", 0, 0, 0, "", 4}, {"1234567890123456789012345678901234567890123456.", 0, 0, 0, "", 4}, {"1234567890123456789012345678901234567890123456.e+2", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234567", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234567e-3", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234567.", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234567.e+2", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345678", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345678e-3", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345678.", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345678.e+2", 0, 0, 0, "", 4}, {"-12345678901234567890123456789012345678901234567", 0, 0, 0, "", 4}, {"-1234567890123456789012345678901234567890123456e-3", 0, 0, 0, "", 4}, {"0xabcdef0123abcdef0123abcdef0123abcdef0123abcdef", 0, 0, 0, "", 4}, {"0xabcdef0123abcdef0123abcdef0123abcdef0123abcde", 0, 0, 0, "", 4},
  {"123456789012345678901234567890123456789012345", 0, 0, 0, "", 4}, {"-12345678901234567890123456789012345678901234", 0, 0, 0, "", 4}, {"12345678901234567890123456789012345678901234567", 0, 0, 0, "", 4}, {"1234567890123456789012345678901234567890123456789", 0, 0, 0, "", 4}, {"-12345678901234567890123456789012345678901234567890123456789", 0, 0, 0, "", 4}, {"0x123456789abcdef0123456789abcdef0123456789abcdef0", 0, 0, 0, "", 4}, {"123456789012345678901234567890123456789012345.5", 0, 0, 0, "", 4}, {"10.0.0.1", 0, 0, 0, "", 1}, {"", 0, 0, 0, "", 1}, {"-", 0, 0, 0, "", 1}, {"twelve", 0, 0, 0, "", 0}, {"12 monkeys", 0, 0, 0, "", 0}, {"life", 0, 0, 0, "", 0}, {"3 < 4", 0, 0, 0, "", 0} };
enum { OBJ = ZPL_ADT_TYPE_OBJECT, ARR = ZPL_ADT_TYPE_ARRAY, STR = ZPL_ADT_TYPE_STRING, INT = ZPL_ADT_TYPE_INTEGER, REA = ZPL_ADT_TYPE_REAL };
static bool branch(const mn *m) { return m->type == OBJ || m->type == ARR; }
static mn *mnew(void) { total++; return calloc(1, sizeof(mn)); }
static void mfree(mn *m) { for (int i = 0; i < m->n; i++) mfree(m->kid[i]); total--; free(m); }
static int mindex(const mn *m) { for (int i = 0; i < m->par->n; i++) if (m->par->kid[i] == m) return i; abort(); }
static zpl_adt_node *real_of(const mn *m) { if (!m->par) return &root[m == mroot[1]]; return real_of(m->par)->nodes + mindex(m); }
static void mins(mn *p, int at, mn *k) { memmove(p->kid + at + 1, p->kid + at, (size_t)(p->n - at) * sizeof *p->kid); p->kid[at] = k; p->n++; k->par = p; }
static void mdel(mn *k) { int i = mindex(k); mn *p = k->par; p->n--; memmove(p->kid + i, p->kid + i + 1, (size_t)(p->n - i) * sizeof *p->kid); k->par = NULL; }
static int depth(const mn *m) { int d = 0; for (; m->par; m = m->par) d++; return d; }
static int height(const mn *m) { int h = 0; for (int i = 0; i < m->n; i++) { int k = height(m->kid[i]) + 1; if (k > h) h = k; } return h; }
static bool above(const mn *a, const mn *b) { for (; b; b = b->par) if (a == b) return true; return false; }
static mn *list[400]; static int nlist;
static void collect(mn *m) { list[nlist++] = m; for (int i = 0; i < m->n; i++) collect(m->kid[i]); }
static mn *pick(int kind) { /* 0 any, 1 branch, 2 not a root, 3 leaf, 4 number, 5 string */ nlist = 0; collect(mroot[0]); collect(mroot[1]); int k = 0; for (int i = 0; i < nlist; i++) { mn *m = list[i]; if (kind == 0 || (kind == 1 && branch(m)) || (kind == 2 && m->par) || (kind == 3 && !branch(m)) || (kind == 4 && (m->type == INT || m->type == REA)) || (kind == 5 && m->type == STR)) list[k++] = m; } return k ? list[ch(ST_OP, (uint32_t)k)] : NULL; }
static void verify(const mn *m, const zpl_adt_node *r, const zpl_adt_node *par) {
  CHECK(r->parent == par, "wrong-parent", "after %s a node named %s at level %d does not point to its parent", what, m->name ? m->name : "nothing", depth(m));
  CHECK(r->type == m->type, "node-differs", "after %s a node at level %d has type %d, expected %d", what, depth(m), r->type, m->type);
  CHECK(r->name == m->name, "node-differs", "after %s a node at level %d has another name", what, depth(m));
  if (branch(m)) { CHECK(r->nodes && zpl_array_count(r->nodes) == m->n, "node-count", "after %s a branch at level %d has %ld nodes, expected %d", what, depth(m), r->nodes ? (long)zpl_array_count(r->nodes) : -1L, m->n); for (int i = 0; i < m->n; i++) verify(m->kid[i], r->nodes + i, r); }
  else if (m->type == STR) CHECK(r->string == m->str, "value-differs", "after %s a text node at level %d has another text", what, depth(m));
  else if (m->type == INT) CHECK(r->integer == m->ival, "value-differs", "after %s an integer node at level %d is %lld, expected %lld", what, depth(m), (long long)r->integer, (long long)m->ival);
  else if (m->type == REA) CHECK(r->real == m->real || __builtin_fabs(r->real - m->real) < 1e-12 * __builtin_fabs(m->real), "value-differs", "after %s a real node at level %d is %.17g, expected %.17g", what, depth(m), r->real, m->real);
}
static void verify_all(void) { for (int i = 0; i < 2; i++) verify(mroot[i], &root[i], NULL); }
static const char *a_name(void) { return NAME[ch(ST_OP, 3) ? ch(ST_OP, 8) : 8 + ch(ST_OP, 16)]; }
static void draw_leaf(mn *m) { switch (ch(ST_OP, 3)) { case 0: m->type = INT; m->ival = (int64_t)ch(ST_OP, 50) - 9; if (!ch(ST_OP, 8)) m->ival *= 123456789012345ll; snprintf(m->txt, 40, "%lld", (long long)m->ival); break; case 1: m->type = REA; m->real = ((int)ch(ST_OP, 60) - 20) * .5; snprintf(m->txt, 40, m->real == 0 ? "0" : "%f", m->real); break; default: m->type = STR; m->str = NUM[ch(ST_OP, sizeof NUM / sizeof *NUM)].s; } }
static bool set_leaf(zpl_adt_node *r, const mn *m) { return m->type == INT ? zpl_adt_set_int(r, m->name, m->ival) : m->type == REA ? zpl_adt_set_flt(r, m->name, m->real) : zpl_adt_set_str(r, m->name, m->str); }
static void refused(uint32_t a0) { CHECK(sim_fired(F_ALLOC) != a0, "failed-without-cause", "%s failed although memory was there", what); sim_nontrivial(); sim_probe("refused memory"); }
static bool mval(const mn *m, const char *v) { return m->type == STR ? !strcmp(m->str, v) : m->type == INT || m->type == REA ? !strcmp(m->txt, v) : false; }
static bool mfield(const mn *m, const char *f, const char *v) { for (int i = 0; i < m->n; i++) if (m->kid[i]->name && !strcmp(m->kid[i]->name, f) && mval(m->kid[i], v)) return true; return false; }
static mn *mfind(mn *m, const char *name, bool deep) { if (m->type != OBJ) return NULL; for (int i = 0; i < m->n; i++) if (m->kid[i]->name && !strcmp(m->kid[i]->name, name)) return m->kid[i]; if (deep) for (int i = 0; i < m->n; i++) { mn *r = mfind(m->kid[i], name, true); if (r) return r; } return NULL; }
static bool bad_uri;
static mn *mquery(mn *m, const char *u) {
  if (*u == '/') u++; if (!*u) return m; if (!m || !branch(m)) return NULL;
  const char *e = strchr(u, '/'); size_t n = e ? (size_t)(e - u) : strlen(u); char seg[100]; memcpy(seg, u, n); seg[n] = 0; mn *f = NULL;
  if (*seg == '[') { char *q = strchr(seg, '='); seg[n - 1] = 0; if (!q && m->type != ARR) { bad_uri = true; return NULL; }
    if (q) { *q = 0; if (m->type == OBJ) f = mfield(m, seg + 1, q + 1) ? m : NULL; else for (int i = 0; i < m->n && !f; i++) if (m->kid[i]->type == OBJ && mfield(m->kid[i], seg + 1, q + 1)) f = m->kid[i]; }
    else for (int i = 0; i < m->n && !f; i++) if (mval(m->kid[i], seg + 1)) f = m->kid[i]; }
  else if (m->type == OBJ) f = mfind(m, seg, false);
  else { for (size_t i = 0; i < n; i++) if (seg[i] < '0' || seg[i] > '9') { bad_uri = true; return NULL; } long ix = atol(seg); f = ix < m->n ? m->kid[ix] : NULL; }
  return e ? mquery(f, e + 1) : f;
}
static const char *some_value(const mn *m) { return m->type == STR ? (strchr(m->str, ' ') || strlen(m->str) > 24 ? "" : m->str) : m->type == INT || m->type == REA ? m->txt : "1"; }
static void make_uri(char *u, size_t cap, mn *from, mn *to) {
  mn *chain[20]; int n = 0; for (mn *m = to; m != from; m = m->par) chain[n++] = m; size_t l = 0; u[0] = 0; if (ch(ST_OP, 4) == 0) l += (size_t)snprintf(u, cap, "/");
  for (int i = n - 1; i >= 0; i--) { mn *c = chain[i]; char seg[60] = "";
    if (c->par->type == ARR) { mn *k = c->n && c->type == OBJ ? c->kid[ch(ST_OP, (uint32_t)c->n)] : NULL; if (k && k->name && !branch(k) && ch(ST_OP, 2)) snprintf(seg, 60, "[%s=%s]", k->name, some_value(k)); else if (!branch(c) && ch(ST_OP, 3) == 0) snprintf(seg, 60, "[%s]", some_value(c)); else snprintf(seg, 60, "%d", mindex(c) + (ch(ST_OP, 12) == 11 ? 3 : 0)); }
    else snprintf(seg, 60, "%s", c->name && ch(ST_OP, 12) != 11 ? c->name : a_name());
    l += (size_t)snprintf(u + l, cap - l, "%s%s", i == n - 1 ? "" : "/", seg); }
  switch (ch(ST_OP, 6)) { case 4: if (to->n && to->type == OBJ) { mn *k = to->kid[ch(ST_OP, (uint32_t)to->n)]; if (k->name) snprintf(u + l, cap - l, "%s[%s=%s]", n ? "/" : "", k->name, some_value(k)); } break; case 5: snprintf(u + l, cap - l, n && ch(ST_OP, 2) ? "/" : n ? "/%s" : "%s", a_name()); break; default: break; }
}
static const char *deep_name(void) { nlist = 0; collect(mroot[0]); collect(mroot[1]); int k = 0; for (int i = 0; i < nlist; i++) if (list[i]->name && depth(list[i]) > 2) list[k++] = list[i]; return k ? list[ch(ST_OP, (uint32_t)k)]->name : a_name(); }
static void no_branch(void) { mn *m = pick(2); bool leaf = m && !branch(m); zpl_adt_node *rp = leaf ? real_of(m) : NULL; int how = (int)ch(ST_OP, 3); snprintf(what, sizeof what, "placing a node below %s", leaf ? "a leaf" : "nothing"); zpl_adt_node *r = how == 0 ? zpl_adt_alloc(rp) : how == 1 ? zpl_adt_alloc_at(rp, 0) : zpl_adt_query(rp, "a/b"); sim_ev(what, 0, 0); CHECK(!r, "accepted-wrong", "%s gave a node", what); sim_probe("no branch to place a node in"); }
static void out_of_range(void) { mn *p = pick(1), *m = ch(ST_OP, 2) ? pick(2) : NULL; if (m && above(m, p)) m = NULL; zpl_isize at = ch(ST_OP, 3) ? p->n + 1 + (zpl_isize)(ch(ST_OP, 3) ? ch(ST_OP, 3) : ch(ST_OP, 5000)) : -1 - (zpl_isize)ch(ST_OP, 3); snprintf(what, sizeof what, "%s %ld of a branch of %d", m ? "moving a node to" : "placing a node at", (long)at, p->n);
  zpl_adt_node *r = m ? zpl_adt_move_node_at(real_of(m), real_of(p), at) : zpl_adt_alloc_at(real_of(p), at); sim_ev(what, 0, 0); CHECK(!r, "accepted-wrong", "%s gave a node", what); sim_probe("no such place"); }
static void op(void) {
  uint32_t o = ch(ST_OP, 25), a0 = sim_fired(F_ALLOC); uint64_t b0 = sim_live_blocks();
  if (o < 10) { mn *p = pick(1); if (p->n >= MAXK || depth(p) > 5 || total > 250) return; mn *k = mnew(); bool own = p->type == OBJ ? ch(ST_OP, 9) != 8 : !ch(ST_OP, 8); k->name = own ? a_name() : NULL; uint32_t kind = ch(ST_OP, 5); if (kind == 0) k->type = OBJ; else if (kind == 1) k->type = ARR; else draw_leaf(k);
    zpl_adt_node *rp = real_of(p), *old = rp->nodes, *r; int at = p->n;
    if (o < 7) { snprintf(what, sizeof what, "appending a node of type %d to a branch of %d", k->type, p->n); r = k->type == OBJ ? zpl_adt_append_obj(rp, k->name) : k->type == ARR ? zpl_adt_append_arr(rp, k->name) : k->type == INT ? zpl_adt_append_int(rp, k->name, k->ival) : k->type == REA ? zpl_adt_append_flt(rp, k->name, k->real) : zpl_adt_append_str(rp, k->name, k->str); }
    else { at = (int)ch(ST_OP, (uint32_t)p->n + 1); snprintf(what, sizeof what, "placing a node of type %d at %d in a branch of %d", k->type, at, p->n); r = zpl_adt_alloc_at(rp, at); if (r) { if (branch(k)) { if (k->type == OBJ ? zpl_adt_set_obj(r, k->name, ALLOC) : zpl_adt_set_arr(r, k->name, ALLOC)) { refused(a0); zpl_adt_remove_node(r); r = NULL; } } else set_leaf(r, k); } if (at < p->n && p->n) { sim_nontrivial(); } }
    sim_ev(what, r != 0, (uint64_t)at); if (!r) { refused(a0); mfree(k); } else { mins(p, at, k); CHECK(r == real_of(k), "wrong-node", "%s gave a pointer to another node", what); if (rp->nodes != old) { sim_nontrivial(); sim_probe("nodes changed address"); } } }
  else if (o < 12) { mn *m = pick(2); if (!m) return; snprintf(what, sizeof what, "removing node %d of %d with %d below it", mindex(m), m->par->n, m->n); zpl_adt_destroy_branch(real_of(m)); zpl_adt_remove_node(real_of(m)); sim_ev(what, 0, 0); if (mindex(m) < m->par->n - 1) { sim_nontrivial(); sim_probe("removed from the middle"); } mdel(m); mfree(m); }
  else if (o < 16) { mn *m = pick(2), *p = m ? pick(1) : NULL; if (!p || above(m, p) || p->n >= MAXK || depth(p) + height(m) > 7) return; int at = ch(ST_OP, 3) ? p->n : (int)ch(ST_OP, (uint32_t)p->n + 1), i0 = mindex(m); bool same = m->par == p; snprintf(what, sizeof what, "moving node %d of %d with %d below it to %d of %d in %s", i0, m->par->n, m->n, at, p->n, same ? "the same branch" : p->par == m->par ? "a neighbour" : above(p, m) ? "a branch above" : "another branch");
    zpl_adt_node *r = at == p->n ? zpl_adt_move_node(real_of(m), real_of(p)) : zpl_adt_move_node_at(real_of(m), real_of(p), at); sim_ev(what, r != 0, 0); if (!r) refused(a0); else { mdel(m); mins(p, same && at > i0 ? at - 1 : at, m); CHECK(r == real_of(m), "wrong-node", "%s gave a pointer to another node", what); sim_nontrivial(); sim_probe(same ? "moved within a branch" : "moved between branches"); } }
  else if (o < 18) { mn *a = pick(2), *b = a ? pick(2) : NULL; if (!b || (a != b && (above(a, b) || above(b, a)))) return; snprintf(what, sizeof what, "swapping node %d of %d with node %d of %d%s", mindex(a), a->par->n, mindex(b), b->par->n, a->par == b->par ? " in one branch" : ""); zpl_adt_swap_nodes(real_of(a), real_of(b)); sim_ev(what, 0, 0); int ia = mindex(a), ib = mindex(b); mn *pa = a->par, *pb = b->par; pa->kid[ia] = b; pb->kid[ib] = a; a->par = pb; b->par = pa; sim_nontrivial(); sim_probe("swapped"); }
  else if (o == 18) { mn *m = pick(2); if (!m) return; if (branch(m)) { zpl_adt_destroy_branch(real_of(m)); while (m->n) { mn *k = m->kid[m->n - 1]; mdel(k); mfree(k); } } snprintf(what, sizeof what, "overwriting a node of type %d", m->type); b0 = sim_live_blocks();
    if (ch(ST_OP, 3) == 0) { int t = ch(ST_OP, 2) ? OBJ : ARR; m->type = t; if (t == OBJ ? zpl_adt_set_obj(real_of(m), m->name, ALLOC) : zpl_adt_set_arr(real_of(m), m->name, ALLOC)) { refused(a0); draw_leaf(m); set_leaf(real_of(m), m); } } else { draw_leaf(m); CHECK(set_leaf(real_of(m), m), "failed-without-cause", "%s failed", what); } sim_ev(what, (uint64_t)m->type, 0); }
  else if (o == 19) { bool deep = ch(ST_OP, 2); const char *nm = deep && ch(ST_OP, 3) ? deep_name() : a_name(); mn *m = deep && ch(ST_OP, 2) ? mroot[ch(ST_OP, 2)] : pick(0); snprintf(what, sizeof what, "looking %s for %s", deep ? "deep" : "below", nm); zpl_adt_node *r = zpl_adt_find(real_of(m), nm, deep); mn *x = mfind(m, nm, deep); sim_ev(what, x != 0, 0); CHECK(r == (x ? real_of(x) : NULL), "find-differs", "%s gave %s", what, !r ? "nothing" : x ? "another node" : "a node"); }
  else if (o < 23) { char u[400]; mn *m = pick(1); nlist = 0; collect(m); mn *t = list[ch(ST_OP, (uint32_t)nlist)]; make_uri(u, sizeof u, m, t); bad_uri = false; mn *x = mquery(m, u); if (bad_uri) return; snprintf(what, sizeof what, "the query %s", u); zpl_adt_node *r = zpl_adt_query(real_of(m), u); sim_ev(what, x != 0, r != 0); if (sim_fired(F_ALLOC) != a0) sim_probe("refused memory in a query"); else { CHECK(r == (x ? real_of(x) : NULL), "query-differs", "%s gave %s", what, !r ? "nothing" : x ? "another node" : "a node, expected nothing"); if (x && x != m) sim_probe("query found a node"); } }
  else if (o == 24) { if (ch(ST_OP, 4)) out_of_range(); else no_branch(); }
  else { bool print = ch(ST_OP, 2); mn *m = pick(print ? 4 : 5); if (!m) return; zpl_adt_node *r = real_of(m);
    if (print) { zpl_file f; snprintf(what, sizeof what, "printing the number %s", m->txt); if (!zpl_file_stream_new(&f, ALLOC)) { refused(a0); sim_ev(what, 9, 0); return; } zpl_adt_error e = zpl_adt_print_number(&f, r); sim_ev(what, e, 0); zpl_isize n = 0; char *b = (char *)zpl_file_stream_buf(&f, &n); if (e) refused(a0); else CHECK(same_text(b, n, m->txt), "printed-differently", "%s printed %.*s", what, (int)n, b ? b : ""); zpl_file_close(&f); }
    else { const num *q = NUM; while (strcmp(q->s, m->str)) q++; bool strict = q->loose != 2 && (!q->loose || ch(ST_OP, 2)); snprintf(what, sizeof what, "reading the number in \"%s\"%s", m->str, strict ? " strictly" : ""); zpl_adt_error e = strict ? zpl_adt_str_to_number_strict(r) : zpl_adt_str_to_number(r); sim_ev(what, e, 0); CHECK(e == ZPL_ADT_ERROR_NONE, "failed-without-cause", "%s gave error %d", what, e); if (q->loose > 2) { /* long texts: in bounds whatever they become, and nothing but the number when it fits */ if (q->loose == 3 && q->type) { CHECK(r->type == q->type, "node-differs", "%s gave a node of type %d", what, r->type); CHECK(__builtin_fabs(r->real - q->r) < 1e-9, "value-differs", "%s gave %.17g", what, r->real); } if (r->type != STR) zpl_adt_set_str(r, m->name, m->str); sim_probe("long numeral"); }
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
    else if (q->type == REA) { CHECK(r->type == REA, "node-differs", "%s gave a node of type %d", what, r->type); CHECK(__builtin_fabs(r->real - q->r) <= __builtin_fabs(q->r) * 1e-12 + 1e-300, "value-differs", "%s gave %.17g", what, r->real); zpl_adt_set_str(r, m->name, m->str); } // without notes it would be printed, and found, in another form
#endif
    else if (q->type) { m->type = q->type; m->ival = q->i; m->real = q->r; snprintf(m->txt, 40, "%s", q->txt); e = strict ? zpl_adt_str_to_number_strict(r) : zpl_adt_str_to_number(r); CHECK(e == ZPL_ADT_ERROR_ALREADY_CONVERTED, "wrong-error", "%s a second time gave %d", what, e); } } }
  if (o >= 19 || (o >= 12 && o < 18)) CHECK(sim_live_blocks() == b0, "leak:memory", "%s changed the number of blocks by %d", what, (int)(sim_live_blocks() - b0));
  verify_all(); sim_feature(sim_mix(o, sim_mix((uint64_t)total, (uint64_t)height(mroot[0]) * 8 + (uint64_t)height(mroot[1]))));
}
// a branch with a great many nodes, some of them branches with many nodes of their own
typedef struct { int id, kids; } bm; // kids: -1 a number, otherwise an object whose first node "k" is the id, with as many further nodes
static void broad_fill(zpl_adt_node *n, const char *name, const bm *m) { if (m->kids < 0) { CHECK(zpl_adt_set_int(n, name, m->id), "failed-without-cause", "setting a number failed"); return; } CHECK(!zpl_adt_set_obj(n, name, ALLOC), "failed-without-cause", "setting an object failed"); CHECK(zpl_adt_append_int(n, "k", m->id), "failed-without-cause", "appending failed"); for (int i = 0; i < m->kids; i++) CHECK(zpl_adt_append_int(n, "more", m->id + i), "failed-without-cause", "appending failed"); }
static void broad_same(const zpl_adt_node *n, const zpl_adt_node *par, const bm *m, int at) {
  CHECK(n->parent == par, "wrong-parent", "after %s node %d does not point to its parent", what, at);
  if (m->kids < 0) { CHECK(n->type == INT && n->integer == m->id, "node-differs", "after %s node %d is another", what, at); return; }
  CHECK(n->type == OBJ && n->nodes && zpl_array_count(n->nodes) == m->kids + 1 && n->nodes[0].integer == m->id, "node-differs", "after %s node %d is another", what, at);
  for (int i = 0; i <= m->kids; i++) { CHECK(n->nodes[i].parent == n, "wrong-parent", "after %s node %d within node %d does not point to its parent", what, i, at); if (i) CHECK(n->nodes[i].integer == m->id + i - 1, "node-differs", "after %s node %d within node %d is another", what, i, at); } }
static void broad(void) { static const int W[] = {60, 129, 257, 300, 700, 1100}; int n = W[ch(ST_OP, 6)] + (int)ch(ST_OP, 8), cap = n + 64, c = 0; bm *m = malloc(sizeof *m * (size_t)cap); bool obj = ch(ST_OP, 3) == 2; zpl_adt_node top, *p = &top; memset(&top, 0, sizeof top); sim_nontrivial(); sim_probe("a broad branch"); uint32_t mix = ch(ST_OP, 3);
  char (*nm)[12] = malloc(sizeof *nm * (size_t)(n * 2 + 200)); int id = 0; CHECK(!(obj ? zpl_adt_set_obj(p, NULL, ALLOC) : zpl_adt_set_arr(p, NULL, ALLOC)), "failed-without-cause", "creating a root failed");
  for (int i = 0; i < n; i++) { bm x = {id, mix == 0 ? -1 : i % 3 ? -1 : mix == 1 ? 0 : i % 60 ? 1 : 140}; snprintf(nm[id], 12, "n%d", id); zpl_adt_node *q = zpl_adt_alloc(p); CHECK(q, "failed-without-cause", "adding a node failed"); broad_fill(q, obj ? nm[id] : NULL, &x); m[c++] = x; id++; } snprintf(what, sizeof what, "adding %d nodes", n);
  for (int k = 0, ops = 2 + (int)ch(ST_OP, 10); ; k++) {
    sim_ev(what, (uint64_t)c, 0); CHECK(zpl_array_count(p->nodes) == c, "node-count", "after %s a branch has %ld nodes, expected %d", what, (long)zpl_array_count(p->nodes), c); for (int i = 0; i < c; i++) broad_same(&p->nodes[i], p, &m[i], i); if (k == ops) break; sim_op();
    int i = (int)ch(ST_OP, (uint32_t)c), j = ch(ST_OP, 4) ? (int)ch(ST_OP, (uint32_t)c) : ch(ST_OP, 2) ? 0 : c - 1; char u[60]; zpl_adt_node *q;
    switch (ch(ST_OP, 7)) {
      case 0: { if (c == cap) break; bm x = {id, ch(ST_OP, 2) ? -1 : (int)ch(ST_OP, 4) * 50}; int at = ch(ST_OP, 3) ? j : c; snprintf(nm[id], 12, "n%d", id); snprintf(what, sizeof what, "adding a node at %d of %d", at, c); q = zpl_adt_alloc_at(p, at); CHECK(q == p->nodes + at, "wrong-node", "%s gave another node", what); broad_fill(q, obj ? nm[id] : NULL, &x); memmove(m + at + 1, m + at, sizeof *m * (size_t)(c - at)); m[at] = x; c++; id++; break; }
      case 1: if (c < 3) break; snprintf(what, sizeof what, "removing node %d of %d", i, c); if (m[i].kids >= 0) zpl_adt_destroy_branch(p->nodes + i); zpl_adt_remove_node(p->nodes + i); memmove(m + i, m + i + 1, sizeof *m * (size_t)(c - i - 1)); c--; break;
      case 2: { snprintf(what, sizeof what, "moving node %d of %d in front of node %d", i, c, j); bm x = m[i]; q = zpl_adt_move_node_at(p->nodes + i, p, j); int at = j > i ? j - 1 : j; memmove(m + i, m + i + 1, sizeof *m * (size_t)(c - i - 1)); memmove(m + at + 1, m + at, sizeof *m * (size_t)(c - 1 - at)); m[at] = x; CHECK(q == p->nodes + at, "wrong-node", "%s gave another node", what); break; }
      case 3: { snprintf(what, sizeof what, "swapping nodes %d and %d of %d", i, j, c); zpl_adt_swap_nodes(p->nodes + i, p->nodes + j); bm x = m[i]; m[i] = m[j]; m[j] = x; break; }
      case 4: { snprintf(what, sizeof what, "looking for node %d of %d", i, c); if (obj) snprintf(u, sizeof u, "/n%d%s", m[i].id, m[i].kids >= 0 ? "/k" : ""); else snprintf(u, sizeof u, "%s%d%s", ch(ST_OP, 2) ? "/" : "", i, m[i].kids >= 0 ? "/k" : ""); q = zpl_adt_query(p, u); CHECK(q == (m[i].kids >= 0 ? p->nodes[i].nodes : p->nodes + i), "query-differs", "looking up %s among %d nodes gave %s", u, c, q ? "another node" : "nothing"); if (!obj) { snprintf(u, sizeof u, "%d", c + (int)ch(ST_OP, 300)); CHECK(!zpl_adt_query(p, u), "query-differs", "looking up %s among %d nodes gave a node", u, c); } else { snprintf(u, sizeof u, "n%d", m[i].id); CHECK(zpl_adt_find(p, u, ch(ST_OP, 2)) == p->nodes + i, "find-differs", "finding %s among %d nodes gave another node or nothing", u, c); } break; }
      case 5: if (obj) break; snprintf(what, sizeof what, "looking for the value of node %d of %d", i, c); if (m[i].kids >= 0) snprintf(u, sizeof u, "[k=%d]", m[i].id); else snprintf(u, sizeof u, "[%d]", m[i].id); q = zpl_adt_query(p, u); CHECK(q == p->nodes + i, "query-differs", "looking up %s among %d nodes gave %s", u, c, q ? "another node" : "nothing"); break;
      case 6: { if (m[i].kids < 0 || i == j || m[j].kids < 0) break; snprintf(what, sizeof what, "moving a node within node %d into node %d and back", i, j); int w = m[i].kids; zpl_adt_node *a = p->nodes + i, *b = p->nodes + j; q = zpl_adt_move_node(a->nodes + w, b); CHECK(q == b->nodes + m[j].kids + 1 && q->parent == b, "wrong-node", "%s gave another node", what); q = zpl_adt_move_node(q, a); CHECK(q == a->nodes + w, "wrong-node", "%s gave another node", what); break; } } }
  zpl_adt_destroy_branch(p); free(m); free(nm); }
void scenario(void) { pick_alloc();
  if (ch(ST_CFG, 60) == 59) { uint64_t l0 = sim_live_blocks(); broad(); no_leaks(l0, "destroying a broad branch"); return; }
  sim_faults_init(FB(F_ALLOC)); uint64_t b0 = sim_live_blocks(); total = 0;
  for (int i = 0; i < 2; i++) { mroot[i] = mnew(); mroot[i]->type = ch(ST_OP, 4) ? OBJ : ARR; mroot[i]->name = ch(ST_OP, 2) ? "root" : NULL; memset(&root[i], 0, sizeof root[i]); sim_faults_enable(false); CHECK(!(mroot[i]->type == OBJ ? zpl_adt_set_obj(&root[i], mroot[i]->name, ALLOC) : zpl_adt_set_arr(&root[i], mroot[i]->name, ALLOC)), "failed-without-cause", "creating a root failed"); sim_faults_enable(true); }
  uint32_t n = 5 + ch(ST_OP, ch(ST_OP, 3) ? 50 : 250); for (uint32_t k = 0; k < n; k++) { sim_op(); op(); }
  for (int i = 0; i < 2; i++) { zpl_adt_destroy_branch(&root[i]); mfree(mroot[i]); }
  no_leaks(b0, "destroying both trees");
}
