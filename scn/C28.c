// variants: A D
#include "common.h"
const char *const scenario_name = "C28";
const char *const scenario_rule = "a run counts when a document with nested nodes is parsed or written under a fault, cut short, damaged or written back, and its trace differs from every other run";
enum { OBJ = ZPL_ADT_TYPE_OBJECT, ARR = ZPL_ADT_TYPE_ARRAY, STR = ZPL_ADT_TYPE_STRING, MUL = ZPL_ADT_TYPE_MULTISTRING, INT = ZPL_ADT_TYPE_INTEGER, REA = ZPL_ADT_TYPE_REAL };
#define MAXK 24
typedef struct mn { struct mn **kid; int n, cap, type, props, plain, ns, as, ds; /* how its name, assignment and delimiter are written, -1 = not said */ char *name, *str; int64_t i; double r; } mn;
static int total, deep; static bool strict; // strict JSON: quotes, commas and braces only
static char what[200];
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
#define NOTES 0 // parsers that keep no notes on formatting: documents are read, only those built from plain nodes are written
#else
#define NOTES 1
#endif
static struct { char *b; size_t n, cap; } T;
static void putn(const char *s, size_t n) { if (T.n + n + 1 > T.cap) { T.cap = (T.n + n + 1) * 2; T.b = realloc(T.b, T.cap); } memcpy(T.b + T.n, s, n); T.n += n; T.b[T.n] = 0; }
static void put(const char *s) { putn(s, strlen(s)); }
static void mfree(mn *m) { if (!m) return; for (int i = 0; i < m->n; i++) mfree(m->kid[i]); free(m->name); free(m->str); free(m->kid); free(m); }
static void adopt(mn *m, mn *k) { if (m->n == m->cap) { m->cap = m->cap * 2 + 4; m->kid = realloc(m->kid, sizeof *m->kid * (size_t)m->cap); } m->kid[m->n++] = k; }
static int wide_at; static uint32_t wide, depth_; static bool lengthy, objs; /* rare documents: a branch with hundreds of members, hundreds of levels, very long texts */
static const struct { const char *t; int type; int64_t i; double r; } NUM[] = { {"0", INT, 0, 0}, {"7", INT, 7, 0}, {"-15", INT, -15, 0}, {"123456789012345678", INT, 123456789012345678, 0}, {"1.5", REA, 0, 1.5}, {"-0.5", REA, 0, -.5}, {"0.25", REA, 0, .25}, {"-232412.00349792", REA, 0, -232412.00349792}, {"3000000000.75", REA, 0, 3000000000.75}, {"1e3", INT, 1000, 0}, {"-2E+4", INT, -20000, 0}, {"1.5e9", REA, 0, 1.5e9}, {"2.05e-7", REA, 0, 2.05e-7}, {"-6.02e23", REA, 0, -6.02e23}, {"1e-3", REA, 0, 1e-3}, {"12.0005e40", REA, 0, 12.0005e40}, {"1.25e100", REA, 0, 1.25e100}, {"0.0", REA, 0, 0}, {"-0", INT, 0, 0}, {"7e30", REA, 0, 7e30}, {"1.000000000000000123e5", REA, 0, 100000.00000000000001},
  {"0x1f", INT, 31, 0}, {"0XAB", INT, 171, 0}, {"-0x10", INT, -16, 0}, {".5", REA, 0, .5}, {"-.05", REA, 0, -.05}, {"+9", INT, 9, 0}, {"+.032", REA, 0, .032}, {"1.", REA, 0, 1}, {"1.e-2", REA, 0, .01}, {".5e2", REA, 0, 50}, {"0.12345678901234567890123456789012345678901234567890123456789", REA, 0, 0.12345678901234568}, {"-0.000000000000000000000000000000000000000000000000000000000001", REA, 0, -1e-60} };
static const struct { const char *t; int props; double r; } KEY[] = { {"true", ZPL_ADT_PROPS_TRUE, 1}, {"false", ZPL_ADT_PROPS_FALSE, 0}, {"null", ZPL_ADT_PROPS_NULL, 0}, {"NaN", ZPL_ADT_PROPS_NAN, __builtin_nan("")}, {"-NaN", ZPL_ADT_PROPS_NAN_NEG, __builtin_nan("")}, {"Infinity", ZPL_ADT_PROPS_INFINITY, __builtin_inf()}, {"-Infinity", ZPL_ADT_PROPS_INFINITY_NEG, -__builtin_inf()} };
static char *text(bool name) { // letters, marks that mean something elsewhere in a document, quotes and backslashes
  static const char *const P[] = {"a", "key", " ", "0", "x", ",", ":", "{", "}", "[", "]", "//", "/*", "*/", "=", "|", "\xc3\xa9", "%s", "$", "1.5", "\n", "#", "\"", "'", "`", "\\n", "\\u0041", "\\ ", "\\/", "\\\\x"};
  if (lengthy && ch(ST_OP, 3) == 0) { static const size_t S[] = {127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 20000, 65535, 65536, 70000}; size_t l = S[ch(ST_OP, 13)]; char *r = malloc(l + 1); sim_fill(r, l, ch(ST_DATA, 1000)); for (size_t i = 0; i < l; i++) r[i] = name || (uint8_t)r[i] >= 198 ? "abcdefghijklmnopqrstuvwxyz ,:0123"[(uint8_t)r[i] % 33] : "ab\"'`c {}[]"[(uint8_t)r[i] % 11]; r[l] = 0; sim_probe("very long text"); return r; }
  char b[700]; size_t n = 0; uint32_t k = name ? 1 + ch(ST_OP, 3) : ch(ST_OP, 6); if (!ch(ST_OP, 60)) { k = 60; }
  for (uint32_t i = 0; i < k; i++) { const char *p = P[name ? ch(ST_OP, 18) : ch(ST_OP, 30)]; n += (size_t)snprintf(b + n, sizeof b - n, "%s", p); } b[n] = 0; return strdup(b);
}
static void put_quoted(const char *s, char q) { putn(&q, 1); for (; *s; s++) { if (*s == q) put("\\"); putn(s, 1); } putn(&q, 1); }
static void gap(bool newline_ok) { if (!ch(ST_OP, 3)) return; uint32_t k = 1 + ch(ST_OP, 2); for (uint32_t i = 0; i < k; i++) switch (ch(ST_OP, strict ? 4 : 8)) { case 0: case 1: put(" "); break; case 2: put("\t"); break; case 3: put(newline_ok ? "\n" : " "); break; case 4: put("/* note */"); break; case 5: put(ch(ST_OP, 4) ? "/**/" : "/****** a * b ** ***************************************** * c */"); break; case 6: put("/* 2 * 3 ** \" } */"); break; default: put(newline_ok ? "// rest { \"of\n" : "  "); } }
static mn *gen(int d, bool root); static bool force_cfg;
static void gen_kids(mn *m, int d, char close) { // the text and the model of the contents of a branch
  uint32_t n = d > 5 || total > 120 ? 0 : ch(ST_OP, 24) == 23 ? MAXK - 3 : ch(ST_OP, 5); if (d == 0) n++; if (wide && d >= wide_at) { n = wide; wide = 0; } if (d < (int)depth_) n = 1;
  gap(true);
  for (uint32_t i = 0; i < n; i++) { bool last = i == n - 1; char *nm = NULL; int ns = -1, as = -1;
    if (m->type == OBJ) { uint32_t st = strict ? 0 : ch(ST_OP, 4);
      if (st == 3) { static const char *const U[] = {"a", "foo", "_b1", "$api", "version2", "trueish"}; nm = strdup(U[ch(ST_OP, 6)]); put(nm); } else { nm = text(true); if (st == 2) { for (char *c = nm; *c; c++) if (*c == '\'') *c = '-'; } char q = st == 2 ? '\'' : '"'; putn(&q, 1); put(nm); putn(&q, 1); }
      gap(!force_cfg || d > 0); as = strict ? 0 : ch(ST_OP, 3) ? 0 : ch(ST_OP, 2) ? 1 : 2; ns = st == 3 ? 2 : st == 2; put(as == 0 ? ":" : as == 1 ? "=" : "|"); gap(true); }
    mn *k = gen(d + 1, false); k->name = nm; adopt(m, k); k->ns = ns; k->as = as; k->ds = -1;
    if (m->type == ARR) { gap(true); if (!last || (!strict && !ch(ST_OP, 6))) put(","); gap(true); }
    else { uint32_t dl = strict ? 0 : ch(ST_OP, 4); if (last && (strict || ch(ST_OP, 4))) { gap(true); continue; } k->ds = dl < 2 ? 0 : (int)dl - 1; if (dl < 2) { gap(true); put(","); } else if (dl == 2) { gap(false); put("\n"); } else { gap(false); put("|"); } gap(true); } }
  if (close) putn(&close, 1);
}
static mn *gen(int d, bool root) {
  mn *m = calloc(1, sizeof *m); total++; uint32_t k = root ? ch(ST_OP, 4) : ch(ST_OP, 14); if (!root && d < (int)depth_) k = objs ? 0 : ch(ST_OP, 4);
  if (root ? k < 3 : k < 2) { m->type = OBJ; if (root && force_cfg) gen_kids(m, 0, 0); else { put("{"); gen_kids(m, d, '}'); } }
  else if (root || k < 4) { m->type = ARR; put("["); gen_kids(m, d, ']'); }
  else if (k < 7) { m->str = text(false); size_t l = strlen(m->str); if (l && m->str[l - 1] == '\\') m->str[l - 1] = '/'; uint32_t q = strict ? 0 : ch(ST_OP, 3); m->type = q == 2 ? MUL : STR; if (q == 1) for (char *c = m->str; *c; c++) if (*c == '\\' && c[1] == '"') *c = '/'; put_quoted(m->str, "\"'`"[q]); }
  else if (k < 9) { uint32_t c = ch(ST_OP, 7); m->type = REA; m->props = KEY[c].props; put(KEY[c].t); }
  else { uint32_t c = ch(ST_OP, strict ? 21 : (uint32_t)(sizeof NUM / sizeof *NUM)); m->type = NUM[c].type; m->i = NUM[c].i; m->r = NUM[c].r; put(NUM[c].t); }
  if (d > deep) deep = d; return m;
}
// the same tree built with the document tree API instead of read from text
static mn *build(zpl_adt_node *r, int d) {
  mn *m = calloc(1, sizeof *m); total++; m->type = r->type; uint32_t n = d > 4 || total > 100 ? 0 : ch(ST_OP, 6); if (wide && d >= wide_at) { n = wide; wide = 0; } if (d < (int)depth_) n = 1;
  for (uint32_t i = 0; i < n; i++) { char *nm = m->type == OBJ ? text(true) : NULL; mn *k; zpl_adt_node *o;
    switch (d < (int)depth_ ? objs ? 0 : ch(ST_OP, 2) : ch(ST_OP, 6)) { case 0: o = zpl_adt_append_obj(r, nm); k = o ? build(o, d + 1) : NULL; break; case 1: o = zpl_adt_append_arr(r, nm); k = o ? build(o, d + 1) : NULL; break;
      case 2: case 3: k = calloc(1, sizeof *k); k->type = STR; k->str = text(false); { size_t l = strlen(k->str); if (l && k->str[l - 1] == '\\') k->str[l - 1] = '/'; } o = zpl_adt_append_str(r, nm, k->str); break;
      case 4: k = calloc(1, sizeof *k); k->type = INT; k->i = ((int64_t)ch(ST_OP, 2000) - 1000) * (ch(ST_OP, 4) ? 1 : 1234567890123ll); o = zpl_adt_append_int(r, nm, k->i); break;
      default: k = calloc(1, sizeof *k); k->type = REA; k->plain = 1; k->r = ((int)ch(ST_OP, 4000) - 2000) / (double)(1 + ch(ST_OP, 7)) * (ch(ST_OP, 4) ? 1 : 1000); o = zpl_adt_append_flt(r, nm, k->r); }
    CHECK(o, "failed-without-cause", "appending a node failed although memory was there"); k->name = nm; adopt(m, k); }
  if (d > deep) deep = d; return m;
}
static bool quiet_diff; static char diff[200];
static bool differs(const char *fmt, long a, long b) { snprintf(diff, sizeof diff, fmt, a, b); (void)quiet_diff; return false; }
static bool same(const mn *m, const zpl_adt_node *r, const zpl_adt_node *par, int d, bool written) {
  if (r->parent != par) return differs("a node at level %ld has another parent", d, 0);
  bool zero = written && m->type == REA && !m->props && __builtin_fabs(m->r) < 1.01e-6; // a zero has no fraction to show it is a real number
  if (r->type != m->type && !(written && m->type == STR && r->type == STR) && !(zero && r->type == INT)) return differs("a node of type %ld came back as type %ld", m->type, r->type);
  if (!m->name != !r->name || (m->name && strcmp(m->name, r->name))) { snprintf(diff, sizeof diff, "the name \"%.60s\" came back as \"%.60s\"", m->name ? m->name : "(none)", r->name ? r->name : "(none)"); return false; }
#if NOTES
  if (m->name && m->ns >= 0) { static const int NS[] = {ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE, ZPL_ADT_NAME_STYLE_SINGLE_QUOTE, ZPL_ADT_NAME_STYLE_NO_QUOTES}, AS[] = {ZPL_ADT_ASSIGN_STYLE_COLON, ZPL_ADT_ASSIGN_STYLE_EQUALS, ZPL_ADT_ASSIGN_STYLE_LINE}, DS[] = {ZPL_ADT_DELIM_STYLE_COMMA, ZPL_ADT_DELIM_STYLE_NEWLINE, ZPL_ADT_DELIM_STYLE_LINE};
    if (r->name_style != NS[m->ns]) return differs("a name in style %ld came back in style %ld", NS[m->ns], r->name_style); if (r->assign_style != AS[m->as]) return differs("an assignment in style %ld came back in style %ld", AS[m->as], r->assign_style); if (m->ds >= 0 && !(written && r == par->nodes + zpl_array_count(par->nodes) - 1) && r->delim_style != DS[m->ds]) return differs("a delimiter in style %ld came back in style %ld", DS[m->ds], r->delim_style); }
#endif
  if (m->type == OBJ || m->type == ARR) { if (!r->nodes || zpl_array_count(r->nodes) != m->n) return differs("a branch of %ld nodes came back with %ld", m->n, r->nodes ? (long)zpl_array_count(r->nodes) : -1L); for (int i = 0; i < m->n; i++) if (!same(m->kid[i], r->nodes + i, r, d + 1, written)) return false; return true; }
  if (m->type == STR || m->type == MUL) { if (strcmp(m->str, r->string)) { snprintf(diff, sizeof diff, "the text \"%.60s\" came back as \"%.60s\"", m->str, r->string); return false; } return true; }
  if (m->type == INT) { if (r->integer != m->i) return differs("the integer %ld came back as %ld", (long)m->i, (long)r->integer); return true; }
  if (m->props) { if (r->props != m->props) return differs("a keyword %ld came back as %ld", m->props, r->props); for (unsigned i = 0; i < sizeof KEY / sizeof *KEY; i++) if (KEY[i].props == m->props) { double w = KEY[i].r; if (w != w ? r->real == r->real : r->real != w) { snprintf(diff, sizeof diff, "the value of %s is %g", KEY[i].t, r->real); return false; } } return true; }
  if (zero && r->type == INT) return r->integer == 0 ? true : differs("a zero came back as %ld", (long)r->integer, 0);
  double a = __builtin_fabs(m->r), e = __builtin_fabs(r->real - m->r); bool exact = !written || r->props == ZPL_ADT_PROPS_IS_EXP; // plain fractions are written with six digits, cut off
  if (!(e <= 1e-12 * a + 1e-40 + (exact ? 0 : 1.01e-6))) { snprintf(diff, sizeof diff, "the number %.17g came back as %.17g", m->r, r->real); return false; }
  return true;
}
static void refused(uint32_t f0) { CHECK(sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); sim_nontrivial(); sim_probe("refused by a fault"); }
static char *dup_exact(const char *s, size_t n) { char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static mn *M;
static int braces(const char *s) { int n = 0; for (; s && *s; s++) n += (*s == '{' || *s == '[') - (*s == '}' || *s == ']'); return n; }
static int inside(const mn *m) { int n = braces(m->name) + braces(m->str); for (int i = 0; i < m->n; i++) n += inside(m->kid[i]); return n; }
static char *parse_ok(const char *s, size_t n, zpl_json_object *r, bool written) { // parse a valid document; retry without faults
  char *t = dup_exact(s, n), *t0 = dup_exact(s, n); uint64_t b0 = sim_live_blocks();
  for (int round = 0;; round++) { uint32_t f0 = sim_fired_total(); memset(r, 0xA5, sizeof *r); zpl_u8 e = zpl_json_parse(r, t, ALLOC); sim_ev(what, e, (uint64_t)round);
    if (!e) break; CHECK(e == ZPL_JSON_ERROR_OUT_OF_MEMORY && sim_fired_total() != f0, written ? "written-unreadable" : "valid-rejected", "after %s the document was rejected with error %d", what, e); refused(f0); sim_probe("parse refused memory"); zpl_json_free(r); CHECK(sim_live_blocks() == b0, "leak:memory", "%s was refused and left %d blocks behind", what, (int)(sim_live_blocks() - b0)); CHECK(!memcmp(s, t, n + 1), "text-changed", "%s was refused but changed the text", what); sim_faults_enable(false); }
  sim_faults_enable(true);
#if NOTES
  CHECK(r->cfg_mode == force_cfg, written ? "round-trip-differs" : "parse-differs", "after %s the document %s outer braces", what, force_cfg ? "has" : "has no");
#endif
  if (written) CHECK(braces(t0) == inside(M), "unbalanced-text", "%s left %d braces or brackets open", what, braces(t0) - inside(M)); free(t0);
  CHECK(same(M, r, NULL, 0, written), written ? "round-trip-differs" : "parse-differs", "after %s %s", what, diff); return t;
}
static void must_reject(const char *s, size_t n) { char *t = dup_exact(s, n); zpl_json_object r; memset(&r, 0xA5, sizeof r); uint64_t b0 = sim_live_blocks(); zpl_u8 e = zpl_json_parse(&r, t, ALLOC); sim_ev(what, e, n); CHECK(e, "cut-accepted", "%s was accepted (%ld nodes)", what, e ? 0L : (long)zpl_array_count(r.nodes)); zpl_json_free(&r); CHECK(sim_live_blocks() == b0, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - b0)); free(t); }
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC)); sim_faults_enable(false);
  uint64_t b0 = sim_live_blocks(); int fds = vfs_open_fds(), dirs = vfs_open_dirs(); total = deep = 0; wide = depth_ = 0; lengthy = objs = false; switch (ch(ST_CFG, 200)) { case 197: wide = 100 + ch(ST_CFG, ch(ST_CFG, 2) ? 300 : 1000); wide_at = (int)ch(ST_CFG, 2); sim_probe("a branch with hundreds of members"); break; case 198: depth_ = 20 + ch(ST_CFG, 300); objs = ch(ST_CFG, 2); sim_probe("hundreds of levels"); break; case 199: lengthy = true; break; } T.n = 0; put(""); zpl_json_object r; char *t = NULL; sim_op();
  uint32_t mode = ch(ST_OP, 5); strict = mode == 0; bool api = mode == 4; force_cfg = mode == 3 && ch(ST_OP, 2);
  if (api) { memset(&r, 0, sizeof r); CHECK(!(ch(ST_OP, 3) ? zpl_adt_set_obj(&r, NULL, ALLOC) : zpl_adt_set_arr(&r, NULL, ALLOC)), "failed-without-cause", "creating a root failed"); M = build(&r, 0); }
  else { gap(true); M = gen(0, true); if (force_cfg && M->type == ARR) force_cfg = false; size_t body = T.n; gap(true); sim_ev("document", T.n, (uint64_t)total); for (size_t i = 0; i < T.n; i += 8) { uint64_t v = 0; memcpy(&v, T.b + i, T.n - i < 8 ? T.n - i : 8); sim_ev("text", v, 0); }
    snprintf(what, sizeof what, "parsing a document of %d nodes", total); sim_faults_enable(true); t = parse_ok(T.b, T.n, &r, false); sim_faults_enable(false);
    if (!force_cfg) { uint32_t cuts = ch(ST_OP, 8); for (uint32_t i = 0; i < cuts; i++) { size_t n = ch(ST_OP, 3) ? ch(ST_OP, (uint32_t)body) : body - 1 - ch(ST_OP, (uint32_t)(body > 12 ? 12 : body)); snprintf(what, sizeof what, "a document of %d bytes cut after %d", (int)body, (int)n); sim_op(); must_reject(T.b, n); sim_nontrivial(); sim_probe("cut short"); } }
    uint32_t dmg = ch(ST_OP, 3) ? 0 : 1 + ch(ST_OP, 5); for (uint32_t i = 0; i < dmg; i++) { char *c = dup_exact(T.b, T.n); for (uint32_t k = 0; k <= ch(ST_OP, 3); k++) c[ch(ST_OP, (uint32_t)T.n)] = ch(ST_OP, 4) ? "{}[]\"'`:,=|\n \\/*-.e1x\0t"[ch(ST_OP, 24)] : (char)ch(ST_OP, 256); sim_op(); snprintf(what, sizeof what, "parsing a damaged document"); uint64_t b1 = sim_live_blocks(); sim_faults_enable(true); zpl_json_object q; memset(&q, 0xA5, sizeof q); zpl_u8 e = zpl_json_parse(&q, c, ALLOC); sim_ev(what, e, 0); sim_nontrivial(); sim_probe(e ? "damaged and rejected" : "damaged and accepted"); zpl_json_free(&q); sim_faults_enable(false); CHECK(sim_live_blocks() == b1, "leak:memory", "%s left %d blocks behind (error %d)", what, (int)(sim_live_blocks() - b1), e); free(c); } }
  sim_feature(sim_mix((uint64_t)total, sim_mix((uint64_t)deep, mode)));
  uint32_t writes = NOTES || api ? 1 + ch(ST_OP, 3) : 0;
  for (uint32_t w = 0; w < writes; w++) { sim_op(); zpl_isize ind = ch(ST_OP, 3) == 0 ? ZPL_JSON_INDENT_STYLE_COMPACT : ch(ST_OP, 4) ? 0 : 4 * (1 + (zpl_isize)ch(ST_OP, 3)); uint32_t f0 = sim_fired_total(); uint64_t b1 = sim_live_blocks(); zpl_json_object q; char *u = NULL;
    sim_faults_enable(true);
    if (ch(ST_OP, 2)) { snprintf(what, sizeof what, "writing %d nodes to a string with indent %ld", total, (long)ind); zpl_string s = zpl_json_write_string(ALLOC, &r, ind); sim_ev(what, s != 0, 0); if (!s) { refused(f0); sim_probe("write refused memory"); } else { CHECK((size_t)zpl_string_length(s) == strlen(s), "torn-text", "%s gave %ld bytes with a zero after %d", what, (long)zpl_string_length(s), (int)strlen(s)); char *copy = dup_exact(s, (size_t)zpl_string_length(s)); zpl_string_free(s); CHECK(sim_live_blocks() == b1, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - b1)); size_t n = strlen(copy); u = parse_ok(copy, n, &q, true); free(copy); } }
    else { snprintf(what, sizeof what, "writing %d nodes to a file with indent %ld", total, (long)ind); if (!ch(ST_OP, 6)) vfs_set_disk((int64_t)ch(ST_OP, 400)); zpl_file f; memset(&f, 0, sizeof f); zpl_file_error e = zpl_file_create(&f, "doc.json"); if (e) refused(f0); else { bool ok = zpl_json_write(&f, &r, ind); zpl_file_error ce = zpl_file_close(&f); sim_ev(what, ok, ce); if (!ok) { refused(f0); sim_probe("write stopped by the disk"); } else { size_t n = 0; const void *d = vfs_data("doc.json", &n); CHECK(d && n, "torn-text", "%s succeeded but the file is empty", what); char *copy = dup_exact(d, n); CHECK(strlen(copy) == n, "torn-text", "%s left a zero byte in the file", what); u = parse_ok(copy, n, &q, true); free(copy); } } vfs_set_disk(-1); }
    sim_faults_enable(false); if (u) { sim_nontrivial(); sim_probe("written and read back"); if (deep > 60) sim_probe("a deep document written and read back"); if (deep > 60 && objs) sim_probe("objects within objects written and read back"); zpl_json_free(&q); free(u); } else CHECK(sim_live_blocks() == b1, "leak:memory", "%s failed and left %d blocks behind", what, (int)(sim_live_blocks() - b1));
    CHECK(same(M, &r, NULL, 0, false), "document-changed", "%s changed the document: %s", what, diff); }
  zpl_json_free(&r); free(t); mfree(M); M = NULL; no_leaks(b0, "freeing the document"); no_fd_leaks(fds, dirs, "writing documents");
}
