// variants: A D
#include "common.h"
#include <ctype.h>
// Address trees are built and written, texts are parsed, under failing allocations and writes; a reference encoder and decoder say what must come out.
const char *const scenario_name = "C34";
const char *const scenario_rule = "a run counts when parameters are written or parsed with escapes, or under a failing allocation or write, and its trace differs from every other run";
#define MP 600
typedef struct { int kind; char name[40], tb[40], *text; int64_t in; double re; } par; // 0 text, 1 integer, 2 real, 3 flag, 4 no text
static par P[MP]; static int np; static char origin[70100], longtext[70100]; static int has_origin;
static const char *const words[] = {"a", "foo", "two words", "x=y", "50%", "a&b?c", "\xc5\xbd""e", "~._-", "", "tab\there", "#top", "+plus", "name[]", "quote\"", "zeta\\", "very-long-parameter-name-1234"};
static const char *const origins[] = {"https://example.com", "http://a/b%20c", "file", "/path/to", "http://h:80/%s%n%d", "x", "&a&b", "=o="};
static int enc(char *o, const char *s) { char *b = o; for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == ' ') *o++ = '+'; else if (isalnum(c) || strchr("-_.~", c)) *o++ = (char)c; else o += sprintf(o, "%%%02X", c); } *o = 0; return (int)(o - b); }
static char HX(int v, int low) { return (low ? "0123456789abcdef" : "0123456789ABCDEF")[v & 15]; }
static int wild(char *o, const char *s) { // an equally valid encoding
  if (s == longtext) return enc(o, s);
  char *b = o; for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == ' ' && ch(ST_OP, 2)) *o++ = '+'; else if ((isalnum(c) || strchr("-_.~\"\\[]#", c)) && ch(ST_OP, 8)) *o++ = (char)c; else if (c >= 128 && ch(ST_OP, 2)) *o++ = (char)c; else { int low = (int)ch(ST_OP, 2); *o++ = '%'; *o++ = HX(c >> 4, low); *o++ = HX(c, low); } } *o = 0; return (int)(o - b); }
static bool haslong;
static int numeric(const char *s) { char *e; if (!strpbrk(s, "0123456789") || isspace((unsigned char)*s)) return 0; strtod(s, &e); return !*e; }
static void gen(int texts) {
  has_origin = ch(ST_OP, 3) != 0; snprintf(origin, sizeof origin, "%s", origins[ch(ST_OP, 8)]); np = (int)ch(ST_OP, ch(ST_OP, 3) ? 4 : 12); if (ch(ST_OP, 150) == 149) { np = 20 + (int)ch(ST_OP, 500); sim_probe("hundreds of parameters"); }
  haslong = false; bool lo = has_origin && !ch(ST_CFG, 100), lt = np && !ch(ST_CFG, 100); if (lo) { size_t l = 300 + ch(ST_OP, 69000); memset(origin, 'o', l); origin[l] = 0; sim_probe("a long origin"); }
  for (int i = 0; i < np; i++) { par *p = &P[i]; memset(p, 0, sizeof *p); p->text = p->tb; snprintf(p->name, sizeof p->name, "%s", words[ch(ST_OP, 16)]); if (!p->name[0] && ch(ST_OP, 2)) strcpy(p->name, "n"); p->kind = (int)ch(ST_OP, 6); if (p->kind == 5) p->kind = 0; if (p->kind == 4 && texts) p->kind = 0; if (p->kind == 3 && !p->name[0]) strcpy(p->name, "n");
    snprintf(p->text, sizeof p->tb, "%s", words[ch(ST_OP, 16)]); if (!ch(ST_OP, 8)) { for (int k = 0; k < 6; k++) p->text[k] = (char)(1 + ch(ST_OP, 255)); p->text[6] = 0; } p->in = (int64_t)ch(ST_OP, ch(ST_OP, 2) ? 100 : 2000000000) * (ch(ST_OP, 3) ? 1 : -1); p->re = (double)ch(ST_OP, 4000) + 0.25 * (1 + ch(ST_OP, 3)); if (!ch(ST_OP, 4)) p->re = -p->re; if (lt && i == np - 1) { static const char al[] = "abc 0%&=~\xc3\xa9"; size_t l = 300 + ch(ST_OP, 69000); for (size_t q = 0; q < l; q++) longtext[q] = al[(q * 7 + q / 11) % (sizeof al - 1)]; longtext[l] = 0; p->text = longtext; p->kind = 0; haslong = true; sim_probe("a long value"); sim_budget_syscalls = 4000000; } }
}
static void same(const zpl_adt_node *root, const char *what) {
  CHECK(root->type == ZPL_ADT_TYPE_OBJECT, "tree-differs", "%s gave no object", what); int n = (int)zpl_array_count(root->nodes); CHECK(n == np + has_origin, "tree-differs", "%s gave %d entries instead of %d", what, n, np + has_origin);
  if (has_origin) { const zpl_adt_node *o = root->nodes; CHECK(o->type == ZPL_ADT_TYPE_STRING && o->name && !strcmp(o->name, "__zpl_origin__") && !strcmp(o->string, origin), "origin-differs", "%s gave another origin than %s", what, origin); }
  for (int i = 0; i < np; i++) { const par *p = &P[i]; const zpl_adt_node *v = root->nodes + i + has_origin; CHECK(v->name && !strcmp(v->name, p->name), "name-differs", "%s named parameter %d '%s' instead of '%s'", what, i, v->name ? v->name : "(none)", p->name); CHECK(v->parent == root, "parent-differs", "%s left parameter %d without its parent", what, i);
    if (p->kind == 3) CHECK(v->type == ZPL_ADT_TYPE_REAL && v->props == ZPL_ADT_PROPS_TRUE && v->real == 1, "value-differs", "%s did not keep that parameter %d is only named", what, i);
    else if (p->kind == 1) CHECK(v->type == ZPL_ADT_TYPE_INTEGER ? v->integer == p->in : v->type == ZPL_ADT_TYPE_REAL && v->real == (double)p->in, "value-differs", "%s gave another number for parameter %d than %lld", what, i, (long long)p->in);
    else if (p->kind == 2) CHECK(v->type == ZPL_ADT_TYPE_REAL && v->real - p->re < 1e-5 && p->re - v->real < 1e-5, "value-differs", "%s gave another number for parameter %d than %f", what, i, p->re);
    else if (v->type == ZPL_ADT_TYPE_STRING) CHECK(v->string && !strcmp(v->string, p->kind == 4 ? "" : p->text), "value-differs", "%s gave '%s' for parameter %d instead of '%s'", what, v->string ? v->string : "(none)", i, p->text);
    else CHECK(p->kind == 0 && numeric(p->text), "value-differs", "%s made a number out of '%s'", what, p->text); }
}
static char *exact(const char *s, size_t n) { char *t = malloc(n + 1); memcpy(t, s, n); t[n] = 0; return t; }
static void undo(char *o, const char *s, size_t n) { for (size_t i = 0; i < n; i++) { if (s[i] == '+') *o++ = ' '; else if (s[i] == '%' && i + 2 < n && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) { char h[3] = {s[i + 1], s[i + 2], 0}; *o++ = (char)strtol(h, NULL, 16); i += 2; } else *o++ = s[i]; } *o = 0; }
static void reference(const zpl_adt_node *root, const char *t) { // what any text without blanks inside it means
  static char nm[500], vl[500]; while (*t && isspace((unsigned char)*t)) t++; size_t n = strlen(t); while (n && isspace((unsigned char)t[n - 1])) n--; for (size_t i = 0; i < n; i++) if (isspace((unsigned char)t[i])) return;
  sim_probe("malformed text compared with the reference"); if (memchr(t, '%', n)) sim_nontrivial(); zpl_isize i = 0, have = zpl_array_count(root->nodes); size_t at = 0, e;
  if (n && *t != '?') { while (at < n && t[at] != '?') at++; CHECK(have > 0 && !strcmp(root->nodes->name, "__zpl_origin__") && root->nodes->type == ZPL_ADT_TYPE_STRING && strlen(root->nodes->string) == at && !memcmp(root->nodes->string, t, at), "origin-differs", "'%s' gave another origin than its first %zu characters", t, at); i = 1; }
  if (at < n) at++;
  for (; at < n; at++, i++) { e = at; while (e < n && !strchr("&?=", t[e])) e++; undo(nm, t + at, e - at); CHECK(i < have, "tree-differs", "'%s' gave only %d entries", t, (int)have); const zpl_adt_node *v = root->nodes + i; CHECK(!strcmp(v->name, nm), "name-differs", "'%s' named entry %d '%s' instead of '%s'", t, (int)i, v->name, nm); at = e;
    if (e < n && t[e] == '=') { for (e = ++at; e < n && t[e] != '&' && t[e] != '?'; ) e++; undo(vl, t + at, e - at); at = e; if (v->type == ZPL_ADT_TYPE_STRING) CHECK(!strcmp(v->string, vl), "value-differs", "'%s' gave '%s' for entry %d instead of '%s'", t, v->string, (int)i, vl); else CHECK(numeric(vl), "value-differs", "'%s' made a number out of '%s'", t, vl); }
    else CHECK(v->type == ZPL_ADT_TYPE_REAL && v->props == ZPL_ADT_PROPS_TRUE && v->real == 1, "value-differs", "'%s' did not keep that entry %d is only named", t, (int)i); }
  CHECK(i == have, "tree-differs", "'%s' gave %d entries instead of %d", t, (int)have, (int)i);
}
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC) | FB(F_ENOSPC) | FB(F_WRITE_EIO) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR)); sim_faults_enable(false);
  uint64_t b0 = sim_live_blocks(); int fds = vfs_open_fds(), dirs = vfs_open_dirs(), rounds = 1 + (int)ch(ST_OP, 4); static char buf[500000];
  for (int r = 0; r < rounds; r++) {
    sim_op(); int how = (int)ch(ST_OP, 4); gen(how != 0); sim_ev("round", how, np); for (int i = 0; i < np; i++) sim_ev(P[i].name, P[i].kind, (int64_t)sim_hash(P[i].text, strlen(P[i].text))); zpl_uri_object root;
    if (how <= 1) { // build and write
      uint32_t f0 = sim_fired_total(); int builds = 1; sim_faults_enable(true);
      zpl_u8 e = zpl_uri_init(&root, has_origin ? origin : NULL, ALLOC); if (e) builds = 0;
      for (int i = 0; i < np && builds; i++) { const par *p = &P[i]; zpl_adt_node *v = p->kind == 1 ? zpl_adt_append_int(&root, p->name, p->in) : p->kind == 2 ? zpl_adt_append_flt(&root, p->name, p->re) : p->kind == 3 ? zpl_adt_append_flt(&root, p->name, 1) : zpl_adt_append_str(&root, p->name, p->kind == 4 ? NULL : p->text); if (!v) builds = 0; else if (p->kind == 3) v->props = ZPL_ADT_PROPS_TRUE; }
      if (!builds) { sim_faults_enable(false); CHECK(sim_fired_total() != f0, "failed-without-cause", "building the tree failed although nothing went wrong"); sim_probe("building refused"); sim_nontrivial(); zpl_uri_free(&root); continue; }
      static char w[500000]; char *o = w; if (has_origin) o += sprintf(o, "%s", origin); char *q = o; if (np + has_origin) *o++ = '?';
      for (int i = 0; i < np; i++) { const par *p = &P[i]; if (i) *o++ = '&'; o += enc(o, p->name); if (p->kind != 3) *o++ = '='; if (p->kind == 0) o += enc(o, p->text); if (p->kind == 1) o += sprintf(o, "%lld", (long long)p->in); if (p->kind == 2) o += sprintf(o, "%f", p->re); } *o = 0;
      zpl_string s = NULL; int failed = 0;
      if (ch(ST_OP, 3) || haslong) { s = zpl_uri_write_string(ALLOC, &root); failed = !s; sim_faults_enable(false); }
      else { zpl_file f;  sim_faults_enable(false); if (zpl_file_create(&f, "/uri") != ZPL_FILE_ERROR_NONE) sim_violation("setup", "cannot create"); sim_faults_enable(true); uint32_t hard0 = sim_fired(F_ENOSPC) + sim_fired(F_WRITE_EIO) + sim_fired(F_ALLOC); failed = zpl_uri_write(&f, &root) != 0; sim_faults_enable(false); uint32_t hard = sim_fired(F_ENOSPC) + sim_fired(F_WRITE_EIO) + sim_fired(F_ALLOC) - hard0; zpl_file_close(&f); if (hard && !failed) sim_probe("fault during write"); size_t n = 0; const uint8_t *d = vfs_data("/uri", &n); if (!failed) { s = zpl_string_make_length(ALLOC, (const char *)d, (zpl_isize)n); } sim_probe("written to a file"); }
      sim_ev("written", failed, 0);
      if (failed) { CHECK(sim_fired_total() != f0, "failed-without-cause", "writing the tree failed although nothing went wrong"); sim_probe("writing refused"); sim_nontrivial(); }
      else { int reals = 0; for (int i = 0; i < np; i++) if (P[i].kind == 2) reals = 1; /* how many digits a real gets is not specified */ int ok = reals || !strcmp(s, w); if (!ok && !np) { *q = 0; ok = !strcmp(s, w); } CHECK(ok && (size_t)zpl_string_length(s) == strlen(s) && (reals || strlen(s) == strlen(w)), "text-differs", "the tree was written as '%s' instead of '%s'", s, w); for (int i = 0; i < np; i++) sim_feature(sim_mix((uint64_t)P[i].kind, strlen(P[i].name))); if (np > 1) sim_nontrivial();
        char *t = exact(s, strlen(s)); zpl_uri_object back; zpl_u8 e2 = zpl_uri_parse(&back, t, ALLOC); CHECK(!e2, "round-trip", "the written text was rejected"); same(&back, "parsing the written text"); zpl_uri_free(&back); free(t); }
      if (s) zpl_string_free(s); zpl_uri_free(&root);
    } else if (how == 2) { // parse an equally valid text
      char *o = buf; for (uint32_t k = ch(ST_OP, 3); k; k--) *o++ = ' '; int sep = ch(ST_OP, 3) != 0; if (has_origin) o += sprintf(o, "%s", origin); if (np || ch(ST_OP, 2)) *o++ = '?';
      for (int i = 0; i < np; i++) { par *p = &P[i]; if (i) *o++ = sep ? '&' : '?'; o += wild(o, p->name); if (p->kind != 3) *o++ = '='; if (p->kind == 0) o += wild(o, p->text); if (p->kind == 1) o += sprintf(o, "%lld", (long long)p->in); if (p->kind == 2) o += sprintf(o, "%.2f", p->re); }
      for (uint32_t k = ch(ST_OP, 3); k; k--) *o++ = ' '; *o = 0; if (!has_origin && !np && buf[0] != '?') { while (*buf == ' ') memmove(buf, buf + 1, strlen(buf)); }
      char *t = exact(buf, strlen(buf)); sim_ev(buf, 0, 0); uint32_t f0 = sim_fired_total(); sim_faults_enable(true); zpl_u8 e = zpl_uri_parse(&root, t, ALLOC); sim_faults_enable(false); sim_ev("parsed", e, 0);
      if (e) { CHECK(sim_fired_total() != f0, "failed-without-cause", "'%s' was rejected although nothing went wrong", buf); sim_probe("parsing refused"); sim_nontrivial(); } else { same(&root, "parsing"); if (np) sim_nontrivial(); }
      zpl_uri_free(&root); free(t);
    } else { // any text at all: stays within its bytes, gives names and values, frees everything
      static const char bits[] = "%?&= +aZ4%f\t\n/%"; size_t n = pick_size(ST_OP, 12, 200); for (size_t i = 0; i < n; i++) buf[i] = ch(ST_OP, 12) ? bits[ch(ST_OP, sizeof bits - 1)] : (char)(1 + ch(ST_OP, 255)); buf[n] = 0;
      if (!ch(ST_OP, 40)) { static char big[70010]; memset(big, 'a', sizeof big - 1); big[0] = '?'; char *t = exact(big, 66000 + ch(ST_OP, 4000)); size_t tn = strlen(t); zpl_u8 e = zpl_uri_parse(&root, t, ALLOC); CHECK(!e && zpl_array_count(root.nodes) == 1 && strlen(root.nodes[0].name) == tn - 1, "tree-differs", "a name of %zu characters was not kept", tn - 1); zpl_uri_free(&root); free(t); sim_probe("a long name"); }
      char *t = exact(buf, n); sim_ev(buf, 1, 0); uint32_t f0 = sim_fired_total(); sim_faults_enable(true); zpl_u8 e = zpl_uri_parse(&root, t, ALLOC); sim_faults_enable(false); sim_ev("parsed", e, 0); if (e) CHECK(sim_fired_total() != f0, "failed-without-cause", "'%s' was rejected although nothing went wrong", buf); else reference(&root, buf);
      if (root.nodes) for (zpl_isize i = 0; i < zpl_array_count(root.nodes); i++) { zpl_adt_node *v = root.nodes + i; CHECK(v->name && v->name >= (i ? t : v->name) && strlen(v->name) <= n + 14, "name-lost", "entry %d has no name in the text", (int)i); if (v->type == ZPL_ADT_TYPE_STRING) CHECK(v->string && strlen(v->string) <= n, "value-lost", "entry %d has no text", (int)i); }
      zpl_uri_free(&root); free(t);
    }
    CHECK(sim_live_blocks() == b0, "leak:memory", "round %d left %d blocks behind", r, (int)(sim_live_blocks() - b0));
  }
  no_leaks(b0, "address trees"); no_fd_leaks(fds, dirs, "address trees");
}
