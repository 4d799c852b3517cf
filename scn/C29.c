// variants: A D
#include "common.h"
const char *const scenario_name = "C29";
const char *const scenario_rule = "a run counts when a table with quoted, empty or numeric cells is parsed or written under a fault, damaged or written back, and its trace differs from every other run";
#define MC 420
#define MR 420
enum { STR = ZPL_ADT_TYPE_STRING, INT = ZPL_ADT_TYPE_INTEGER, REA = ZPL_ADT_TYPE_REAL };
typedef struct { int type; char *s; double r; int64_t i; } cell;
static cell C[MR][MC], Hd[MC]; static int rows, cols; static bool header; static char delim; static char what[200];
static struct { char *b; size_t n, cap; } T;
static void putn(const char *s, size_t n) { if (T.n + n + 1 > T.cap) { T.cap = (T.n + n + 1) * 2; T.b = realloc(T.b, T.cap); } memcpy(T.b + T.n, s, n); T.n += n; T.b[T.n] = 0; }
static void put(const char *s) { putn(s, strlen(s)); }
static void clear(cell *c) { free(c->s); memset(c, 0, sizeof *c); }
static const struct { const char *t; int type; int64_t i; double r; } NUM[] = { {"0", INT, 0, 0}, {"7", INT, 7, 0}, {"-15", INT, -15, 0}, {"123456789012345678", INT, 123456789012345678, 0}, {"1.5", REA, 0, 1.5}, {"-0.5", REA, 0, -.5}, {"0.25", REA, 0, .25}, {"-232412.00349792", REA, 0, -232412.00349792}, {"1e3", INT, 1000, 0}, {"1.5e9", REA, 0, 1.5e9}, {"2.05e-7", REA, 0, 2.05e-7}, {"0x1f", INT, 31, 0}, {".5", REA, 0, .5}, {"+9", INT, 9, 0}, {"12.", REA, 0, 12}, {"0.0", REA, 0, 0} };
static const char *const PLAIN[] = {"foo", "a b", "beef", "2020-01-02", "123.45.67.89", "1e", "1+1", "e5", "-", "x", "1920x1080", "12ab", "it's \"so\"", "n", "10:30", "0x", "0x1f.5", "\xc3\xa9t\xc3\xa9", "1-", "%d", "-.", "1 2", "E", "3.x", "deadbeefdeadbeefdeadbeefdeadbeefdeadbeefdeadbeefdeadbeefdeadbeef"};
#define NPLAIN ((uint32_t)(sizeof PLAIN / sizeof *PLAIN))
static bool lengthy; static char *long_text(bool marks) { static const size_t S[] = {127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 20000, 65534, 65535, 65536, 70000}; size_t l = S[ch(ST_OP, 14)]; char *r = malloc(l + 1); sim_fill((uint8_t *)r, l, ch(ST_DATA, 1000)); for (size_t i = 0; i < l; i++) r[i] = marks && i % 251 == 99 ? "\",\n;"[(uint8_t)r[i] % 4] : "abcdefghijklmnopqrstuvwxyz 0123"[(uint8_t)r[i] % 31]; r[0] = 't'; r[l - 1] = 't'; r[l] = 0; sim_probe("a long text"); return r; }
static char *any_text(void) { if (lengthy && !ch(ST_OP, 4)) return long_text(ch(ST_OP, 2)); static const char *const P[] = {"a", "key", " ", "0", ",", ";", "|", "\t", ":", "\n", "\r\n", "\"", "\"\"", "'", "%s", "\xc3\xa9", "1.5", "\\"}; char b[400]; size_t n = 0; uint32_t k = ch(ST_OP, 5); if (!ch(ST_OP, 50)) k = 90; for (uint32_t i = 0; i < k; i++) n += (size_t)snprintf(b + n, sizeof b - n, "%s", P[ch(ST_OP, 18)]); b[n] = 0; return strdup(b); }
static void put_quoted(const char *s) { put("\""); for (; *s; s++) { if (*s == '"') put("\""); putn(s, 1); } put("\""); }
static void pad(void) { static const char S[] = "                                        "; if (!ch(ST_OP, 5)) put(ch(ST_OP, 20) ? ch(ST_OP, 2) ? " " : "  " : S + ch(ST_OP, 38)); }
static void gen_cell(cell *c, bool name) { // its text and its meaning
  pad(); uint32_t k = ch(ST_OP, 10);
  if (k < 4) { const char *p = PLAIN[ch(ST_OP, NPLAIN)]; if (strchr(p, delim)) p = "foo"; c->type = STR; c->s = lengthy && !ch(ST_OP, 4) ? long_text(false) : strdup(p); put(c->s); }
  else if (k < 6) { c->type = STR; c->s = any_text(); put_quoted(c->s); }
  else if (k < 7) { c->type = STR; c->s = strdup(""); if (cols == 1) put("\"\""); }
  else { uint32_t i = ch(ST_OP, sizeof NUM / sizeof *NUM); put(NUM[i].t); if (name) { c->type = STR; c->s = strdup(NUM[i].t); } else { c->type = NUM[i].type; c->i = NUM[i].i; c->r = NUM[i].r; } }
  pad();
}
static size_t row_end[MR + 2]; static int nrow_end;
static void eol(bool last) { if (last && ch(ST_OP, 3) == 0) { row_end[nrow_end++] = T.n; return; } row_end[nrow_end++] = T.n; put(ch(ST_OP, 4) ? "\n" : "\r\n"); if (!ch(ST_OP, 12)) put(ch(ST_OP, 2) ? "\n" : " \n"); }
static char diff[200];
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
#define STYLE(n, s) ((void)(n)) // parsers that keep no notes on formatting: tables are read, not written
#define NOTES 0
#else
#define STYLE(n, s) ((n)->name_style = (s))
#define NOTES 1
#endif
static bool differs(const char *fmt, long a, long b) { snprintf(diff, sizeof diff, fmt, a, b); return false; }
static bool same_cell(const cell *c, const zpl_adt_node *r, bool written, int row, int col) {
  if (c->type == STR) { if (r->type != STR) return differs("the text at row %ld of column %ld came back as a number", row, col); if (strcmp(c->s, r->string)) { snprintf(diff, sizeof diff, "the text \"%.60s\" at row %d of column %d came back as \"%.60s\"", c->s, row, col, r->string); return false; } return true; }
  if (r->type != INT && r->type != REA) { snprintf(diff, sizeof diff, "a number at row %d of column %d came back as the text \"%.60s\"", row, col, r->string); return false; }
  if (c->type == INT) return r->type == INT && r->integer == c->i ? true : differs("the integer %ld came back as %ld", (long)c->i, (long)r->integer);
  double v = r->type == INT ? (double)r->integer : r->real, e = __builtin_fabs(v - c->r); if (!(e <= 1e-12 * __builtin_fabs(c->r) + (written && r->props != ZPL_ADT_PROPS_IS_EXP ? 1.01e-6 : 1e-40))) { snprintf(diff, sizeof diff, "the number %.17g came back as %.17g", c->r, v); return false; } return true;
}
static bool same(const zpl_csv_object *r, bool written) {
  if (r->type != (header ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY)) return differs("the table has node type %ld instead of %ld", r->type, header ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY);
  if (zpl_array_count(r->nodes) != cols) return differs("%ld columns came back as %ld", cols, (long)zpl_array_count(r->nodes));
  for (int c = 0; c < cols; c++) { const zpl_adt_node *k = r->nodes + c; if (k->type != ZPL_ADT_TYPE_ARRAY || zpl_array_count(k->nodes) != rows) return differs("%ld rows came back as %ld", rows, (long)zpl_array_count(k->nodes)); if (k->parent != r) return differs("column %ld has another parent", c, 0);
    if (header ? !k->name || strcmp(k->name, Hd[c].s) : k->name != NULL) { snprintf(diff, sizeof diff, "the name \"%.60s\" came back as \"%.60s\"", header ? Hd[c].s : "(none)", k->name ? k->name : "(none)"); return false; }
    for (int i = 0; i < rows; i++) { if (k->nodes[i].parent != k) return differs("row %ld of column %ld has another parent", i, c); if (!same_cell(&C[i][c], k->nodes + i, written, i, c)) return false; } }
  return true;
}
static void refused(uint32_t f0) { CHECK(sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); sim_nontrivial(); sim_probe("refused by a fault"); }
static char *dup_exact(const char *s, size_t n) { char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static zpl_u8 parse(zpl_csv_object *r, char *t) { memset(r, 0xA5, sizeof *r); return delim == ',' && ch(ST_OP, 2) ? zpl_csv_parse(r, t, ALLOC, header) : zpl_csv_parse_delimiter(r, t, ALLOC, header, delim); }
static char *parse_ok(const char *s, size_t n, zpl_csv_object *r, bool written) {
  uint64_t b0 = sim_live_blocks(); char *t;
  for (;;) { uint32_t f0 = sim_fired_total(); t = dup_exact(s, n); zpl_u8 e = parse(r, t); sim_ev(what, e, 0); if (!e) break; CHECK(sim_fired_total() != f0, written ? "written-unreadable" : "valid-rejected", "after %s the table was rejected with error %d", what, e); refused(f0); sim_probe("parse refused memory"); zpl_csv_free(r); free(t); CHECK(sim_live_blocks() == b0, "leak:memory", "%s was refused and left %d blocks behind", what, (int)(sim_live_blocks() - b0)); sim_faults_enable(false); }
  sim_faults_enable(true); CHECK(same(r, written), written ? "round-trip-differs" : "parse-differs", "after %s %s", what, diff); return t;
}
static void try_bad(const char *s, size_t n, bool reject, bool faults) { char *t = dup_exact(s, n); zpl_csv_object q; uint64_t b1 = sim_live_blocks(); sim_faults_enable(faults); zpl_u8 e = parse(&q, t); sim_faults_enable(false); sim_ev(what, e, n); sim_nontrivial(); CHECK(e || !reject, "damage-accepted", "%s was accepted", what);
  if (!e) { long r0 = -1; for (zpl_isize c = 0; c < zpl_array_count(q.nodes); c++) { long k = (long)zpl_array_count(q.nodes[c].nodes); if (r0 < 0) r0 = k; CHECK(k == r0, "ragged-accepted", "%s was accepted with %ld and %ld rows", what, r0, k); } }
  zpl_csv_free(&q); CHECK(sim_live_blocks() == b1, "leak:memory", "%s left %d blocks behind (error %d)", what, (int)(sim_live_blocks() - b1), e); free(t); }
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC)); sim_faults_enable(false);
  uint64_t b0 = sim_live_blocks(); int fds = vfs_open_fds(), dirs = vfs_open_dirs(); T.n = 0; put(""); nrow_end = 0; sim_op(); zpl_csv_object r; char *t = NULL; bool api = ch(ST_OP, 4) == 3;
  cols = ch(ST_OP, 20) == 19 ? 22 : 1 + (int)ch(ST_OP, 5); rows = ch(ST_OP, 20) == 19 ? 48 : 1 + (int)ch(ST_OP, 5); if (ch(ST_OP, 100) == 99) { bool wide = ch(ST_OP, 2); if (wide) { cols = 100 + (int)ch(ST_OP, 310); if (rows > 5) rows = 2; } else { rows = 100 + (int)ch(ST_OP, 310); if (cols > 5) cols = 2; } sim_probe("hundreds of rows or columns"); } lengthy = ch(ST_CFG, 150) == 149; header = ch(ST_OP, 2); delim = ",;|\t:"[ch(ST_OP, 5)]; if (header && !ch(ST_OP, 10)) rows = 0;
  sim_ev("table", (uint64_t)cols, (uint64_t)rows);
  if (api) { memset(&r, 0, sizeof r); CHECK(!(header ? zpl_adt_set_obj(&r, NULL, ALLOC) : zpl_adt_set_arr(&r, NULL, ALLOC)), "failed-without-cause", "creating a table failed");
    for (int c = 0; c < cols; c++) { if (header) { Hd[c].type = STR; Hd[c].s = any_text(); } zpl_adt_node *k = zpl_adt_append_arr(&r, header ? Hd[c].s : NULL); if (ch(ST_OP, 2) && cols > 1) STYLE(k, ZPL_ADT_NAME_STYLE_NO_QUOTES);
      for (int i = 0; i < rows; i++) { cell *x = &C[i][c]; switch (ch(ST_OP, 5)) { case 0: x->type = INT; x->i = (int64_t)ch(ST_OP, 1000) - 500; zpl_adt_append_int(k, NULL, x->i); break; case 1: x->type = REA; x->r = ((int)ch(ST_OP, 4000) - 2000) / (double)(1 + ch(ST_OP, 7)); zpl_adt_append_flt(k, NULL, x->r); break; case 2: x->type = STR; x->s = strdup(PLAIN[ch(ST_OP, NPLAIN)]); STYLE(zpl_adt_append_str(k, NULL, x->s), ZPL_ADT_NAME_STYLE_NO_QUOTES); break; default: x->type = STR; x->s = any_text(); zpl_adt_append_str(k, NULL, x->s); } } }
#if NOTES
    for (int c = 0; header && c < cols; c++) { zpl_adt_node *k = r.nodes + c; if (k->name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *k->name == 0 && cols == 1) k->name_style = 0; }
#endif
  }
  else { for (int i = header ? -1 : 0; i < rows; i++) { for (int c = 0; c < cols; c++) { gen_cell(i < 0 ? &Hd[c] : &C[i][c], i < 0); if (c < cols - 1) putn(&delim, 1); } eol(i == rows - 1); }
    for (size_t i = 0; i < T.n; i += 8) { uint64_t v = 0; memcpy(&v, T.b + i, T.n - i < 8 ? T.n - i : 8); sim_ev("text", v, 0); }
    snprintf(what, sizeof what, "parsing %d rows of %d cells", rows, cols); sim_faults_enable(true); t = parse_ok(T.b, T.n, &r, false); sim_faults_enable(false);
    if (nrow_end > 1 && ch(ST_OP, 3) == 0) { // one row longer than the others
      int k = (int)ch(ST_OP, (uint32_t)nrow_end); size_t at = row_end[k]; char *s = malloc(T.n + 3); memcpy(s, T.b, at); s[at] = delim; s[at + 1] = 'x'; memcpy(s + at + 2, T.b + at, T.n - at + 1); snprintf(what, sizeof what, "a table of %d columns whose row %d of %d has one more", cols, k, nrow_end); sim_op(); try_bad(s, T.n + 2, true, false); sim_probe("ragged"); free(s); }
    if (ch(ST_OP, 3) == 0) { // a quoted cell that never ends
      char *s = malloc(T.n + 8); memcpy(s, T.b, T.n + 1); size_t n = T.n; while (n && (s[n - 1] == '\n' || s[n - 1] == '\r' || s[n - 1] == ' ')) n--; s[n++] = delim; s[n++] = '"'; s[n++] = 'z'; s[n] = 0; snprintf(what, sizeof what, "a table with a quote that is never closed"); sim_op(); try_bad(s, n, true, false); sim_probe("open quote"); free(s); }
    uint32_t dmg = ch(ST_OP, 5); for (uint32_t i = 0; i < dmg; i++) { sim_op(); if (ch(ST_OP, 2)) { size_t n = ch(ST_OP, (uint32_t)T.n + 1); snprintf(what, sizeof what, "a table of %d bytes cut after %d", (int)T.n, (int)n); try_bad(T.b, n, false, true); sim_probe("cut short"); } else { char *c = dup_exact(T.b, T.n); for (uint32_t k = 0; k <= ch(ST_OP, 3); k++) c[ch(ST_OP, (uint32_t)T.n)] = ch(ST_OP, 4) ? ",;|\t:\"\n\r 0x.e-+a\0"[ch(ST_OP, 17)] : (char)ch(ST_OP, 256); snprintf(what, sizeof what, "a damaged table"); try_bad(c, strlen(c), false, true); sim_probe("damaged"); free(c); } } }
  if (!ch(ST_OP, 12)) { // text without a single cell
    static const char *const B[] = {"", " ", "\n", "\r\n", "  \n\n ", "\n \r\n"}; const char *s = B[ch(ST_OP, 6)]; snprintf(what, sizeof what, "a text of %d blanks", (int)strlen(s)); sim_op(); try_bad(s, strlen(s), true, false); sim_probe("no cells"); }
  sim_feature(sim_mix((uint64_t)cols * 64 + (uint64_t)rows, sim_mix((uint64_t)delim, header + 2 * api)));
  uint32_t writes = NOTES ? 1 + ch(ST_OP, 3) : 0;
  for (uint32_t w = 0; w < writes; w++) { sim_op(); if (ch(ST_OP, 2)) delim = ",;|\t:"[ch(ST_OP, 5)]; uint32_t f0 = sim_fired_total(); uint64_t b1 = sim_live_blocks(); zpl_csv_object q; char *u = NULL; char d0 = delim; bool plain = delim == ',' && ch(ST_OP, 2);
    sim_faults_enable(true);
    if (ch(ST_OP, 2)) { snprintf(what, sizeof what, "writing %d rows of %d cells to a string with delimiter %d", rows, cols, d0); zpl_string s = plain ? zpl_csv_write_string(ALLOC, &r) : zpl_csv_write_string_delimiter(ALLOC, &r, delim); sim_ev(what, s != 0, 0); if (!s) { refused(f0); sim_probe("write refused memory"); } else { CHECK((size_t)zpl_string_length(s) == strlen(s), "torn-text", "%s gave %ld bytes with a zero after %d", what, (long)zpl_string_length(s), (int)strlen(s)); char *copy = dup_exact(s, (size_t)zpl_string_length(s)); zpl_string_free(s); CHECK(sim_live_blocks() == b1, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - b1)); u = parse_ok(copy, strlen(copy), &q, true); free(copy); } }
    else { snprintf(what, sizeof what, "writing %d rows of %d cells to a file with delimiter %d", rows, cols, d0); if (!ch(ST_OP, 6)) vfs_set_disk((int64_t)ch(ST_OP, 400)); zpl_file f; memset(&f, 0, sizeof f); zpl_file_error e = zpl_file_create(&f, "table.csv"); if (e) refused(f0); else { bool ok = plain ? zpl_csv_write(&f, &r) : zpl_csv_write_delimiter(&f, &r, delim); zpl_file_error ce = zpl_file_close(&f); sim_ev(what, ok, ce); if (!ok) { refused(f0); sim_probe("write stopped by the disk"); } else { size_t n = 0; const void *d = vfs_data("table.csv", &n); CHECK(d && n, "torn-text", "%s succeeded but the file is empty", what); char *copy = dup_exact(d, n); CHECK(strlen(copy) == n, "torn-text", "%s left a zero byte in the file", what); u = parse_ok(copy, n, &q, true); free(copy); } } vfs_set_disk(-1); }
    sim_faults_enable(false); if (u) { sim_nontrivial(); sim_probe("written and read back"); zpl_csv_free(&q); free(u); } else CHECK(sim_live_blocks() == b1, "leak:memory", "%s failed and left %d blocks behind", what, (int)(sim_live_blocks() - b1));
    CHECK(same(&r, false), "table-changed", "%s changed the table: %s", what, diff); }
  zpl_csv_free(&r); free(t); for (int i = 0; i < rows; i++) for (int c = 0; c < cols; c++) clear(&C[i][c]); for (int c = 0; c < cols; c++) clear(&Hd[c]); no_leaks(b0, "freeing the table"); no_fd_leaks(fds, dirs, "writing tables");
}
