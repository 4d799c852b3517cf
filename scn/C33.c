// variants: A
#include "common.h"
#include <ctype.h>
// Declared options and generated argument lists; a reference interpreter of the documented rules says what each option must hold.
const char *const scenario_name = "C33";
const char *const scenario_rule = "a run counts when a list with several arguments is parsed, with errors, positionals or failing allocations, and its trace differs from every other run";
#define MO 64
#define MA 320
typedef struct { char s[8], l[72]; const char *desc; int type; int hs, hl; int met, odd; char text[1300]; int64_t in; double re; } mopt; typedef struct { int type; char val[1300]; } merr;
static mopt M[MO]; static int nm, pos[MO], np, ispos[MO]; static merr E[330]; static int ne;
static const char *const shorts[] = {"f", "v", "o", "x2", "n", "k", "zz", "n-x", "o_2"}, *const longs[] = {"file", "fi", "verbose", "out-dir", "level_2", "name", "f", "x", "filename", "Level", "no-color"};
static int find(const char *n, size_t len, int lng) { for (int i = 0; i < nm; i++) { if (lng ? !M[i].hl : !M[i].hs) continue; const char *s = lng ? M[i].l : M[i].s; if (strlen(s) == len && !memcmp(s, n, len)) return i; } return -1; }
static int number(const char *v, int real) { if (*v == '-') v++; if (!isdigit((unsigned char)*v)) return 0; while (isdigit((unsigned char)*v)) v++; if (real && *v == '.') { v++; while (isdigit((unsigned char)*v)) v++; } return !*v; }
static void set(int i, const char *v) { mopt *o = &M[i]; o->met = 1; o->odd = (o->type == ZPL_OPTS_INT || o->type == ZPL_OPTS_FLOAT) && !number(v, o->type == ZPL_OPTS_FLOAT); if (o->type == ZPL_OPTS_STRING) snprintf(o->text, sizeof o->text, "%s", v); else if (o->type == ZPL_OPTS_INT) o->in = strtoll(v, NULL, 10); else if (o->type == ZPL_OPTS_FLOAT) o->re = strtod(v, NULL); for (int k = 0; k < np; k++) if (pos[k] == i) { memmove(pos + k, pos + k + 1, sizeof *pos * (size_t)(np - k - 1)); np--; break; } }
static void err(int t, const char *v, size_t n) { E[ne].type = t; snprintf(E[ne].val, sizeof E[ne].val, "%.*s", (int)n, v); ne++; }
static int mcompile(int argc, char **argv) {
  int bad = 0;
  for (int i = 1; i < argc; i++) {
    const char *p = argv[i]; if (!*p) continue; while (*p == ' ' || *p == '\t') p++;
    if (*p == '-') {
      int lng = p[1] == '-'; const char *b = p + 1 + lng, *e = b; while (isalnum((unsigned char)*e) || *e == '-' || *e == '_') e++;
      int t = find(b, (size_t)(e - b), lng);
      if (t < 0) { err(ZPL_OPTS_ERR_OPTION, b, 1299); bad = 1; continue; }
      int flag = M[t].type == ZPL_OPTS_FLAG;
      if (*e == '=') { if (flag) { err(ZPL_OPTS_ERR_EXTRA_VALUE, b, (size_t)(e - b)); bad = 1; } else set(t, e + 1); continue; }
      const char *sp = i + 1 < argc ? argv[i + 1] : NULL;
      if (sp && *sp != '-' && !(flag && np)) { if (flag) { err(ZPL_OPTS_ERR_EXTRA_VALUE, b, 1299); bad = 1; } else { set(t, sp); i++; } }
      else if (flag) M[t].met = 1; else { err(ZPL_OPTS_ERR_MISSING_VALUE, b, 1299); bad = 1; }
    } else if (np) set(pos[0], p); else { err(ZPL_OPTS_ERR_VALUE, p, 1299); bad = 1; }
  }
  return !bad;
}
static void value(char *b, size_t n, int type) {
  if (type == ZPL_OPTS_INT) { if (!ch(ST_OP, 8)) { static const char *const big[] = {"9223372036854775807", "-9223372036854775807", "9007199254740993", "-9007199254740993", "4294967296", "-2147483649", "1234567890123456789", "0007", "-0"}; snprintf(b, n, "%s", big[ch(ST_OP, 9)]); } else snprintf(b, n, "%s%d", ch(ST_OP, 3) ? "" : "-", (int)ch(ST_OP, ch(ST_OP, 2) ? 100 : 2000000000)); }
  else if (type == ZPL_OPTS_FLOAT) snprintf(b, n, "%s%d.%d", ch(ST_OP, 3) ? "" : "-", (int)ch(ST_OP, 1000), (int)ch(ST_OP, 4) * 25);
  else if (!ch(ST_OP, 20)) { size_t l = 30 + ch(ST_OP, ch(ST_OP, 2) ? 300 : 1200); for (size_t i = 0; i < l; i++) b[i] = "abcxyz-_ /.="[(i * 7 + l) % 12]; b[0] = 'v'; b[l] = 0; sim_probe("a long value"); }
  else { static const char *const v[] = {"a", "main.c", "two words", "x=y", "", "tail\\", "C:\\dir\\", "-dash", "--", "\"q\"", "0", "%s%d"}; snprintf(b, n, "%s", v[ch(ST_OP, 12)]); }
}
static int isin(const char *n, int lng) { for (int i = 0; i < nm; i++) if ((lng ? M[i].hl : M[i].hs) && !strcmp(lng ? M[i].l : M[i].s, n)) return 1; return 0; }
static char *own(const char *s) { char *p = malloc(strlen(s) + 1); strcpy(p, s); return p; }
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC)); sim_faults_enable(false); nm = np = ne = 0; memset(M, 0, sizeof M); memset(ispos, 0, sizeof ispos);
  uint64_t b0 = sim_live_blocks(); zpl_opts o; zpl_opts_init(&o, ALLOC, "app"); uint32_t scale = ch(ST_CFG, 12); int n = 1 + (int)ch(ST_CFG, scale == 11 ? 60 : scale < 9 ? 6 : 18), many = n > 8, lname = many && !ch(ST_CFG, 5); uint32_t often = 1 + ch(ST_CFG, 4); static char made[MO][16];
  for (int i = 0; i < n; i++) {
    mopt *m = &M[nm]; memset(m, 0, sizeof *m); m->type = (int)ch(ST_CFG, 4);
    m->hs = ch(ST_CFG, 4) != 0; m->hl = !m->hs || ch(ST_CFG, 6) != 0;
    if (many) { snprintf(m->s, sizeof m->s, "s%d", i); if (lname) { size_t l = 10 + ch(ST_CFG, 50); memset(m->l, 'n', l); snprintf(m->l + l, 12, "-%d", i); } else snprintf(m->l, sizeof m->l, "opt-%d", i); } else { snprintf(m->s, sizeof m->s, "%s", shorts[ch(ST_CFG, 9)]); snprintf(m->l, sizeof m->l, "%s", longs[ch(ST_CFG, 11)]); }
    if (m->hs && isin(m->s, 0)) m->hs = 0; if (m->hl && isin(m->l, 1)) m->hl = 0; if (!m->hs && !m->hl) continue;
    snprintf(made[nm], sizeof made[nm], "does thing %d.", nm); m->desc = made[nm];  zpl_opts_add(&o, m->hs ? m->s : NULL, m->hl ? m->l : NULL, m->desc, (zpl_u8)m->type); nm++; sim_ev("option", m->type, m->hs + 2 * m->hl);
    if (m->hl && m->type != ZPL_OPTS_FLAG && !ch(ST_CFG, often)) { zpl_opts_positional_add(&o, m->l); pos[np++] = nm - 1; ispos[nm - 1] = 1; sim_ev("positional", nm - 1, 0); }
  }
  if (!ch(ST_CFG, 8)) zpl_opts_positional_add(&o, "nothing-like-this");
  int rounds = 1 + (int)(ch(ST_CFG, 4) == 0), faulty = 0; char **argvs[2]; int argcs[2];
  for (int r = 0; r < rounds && !faulty; r++) {
    sim_op(); int argc = 1 + (int)ch(ST_OP, ch(ST_OP, 3) ? 7 : ch(ST_OP, 12) ? 13 : MA - 20), k = 1; char *tmp[MA + 2]; tmp[0] = own("app"); int endnull = (int)ch(ST_OP, 2);
    while (k < argc) {
      static char v[1300], a[1500]; v[0] = 0; int w = (int)ch(ST_OP, 12), t = nm ? (int)ch(ST_OP, (uint32_t)nm) : -1; mopt *m = t >= 0 ? &M[t] : NULL;
      if (w < 8 && m) {
        int lng = m->hl && (!m->hs || ch(ST_OP, 2)); const char *nme = lng ? m->l : m->s, *d = lng ? "--" : "-"; value(v, sizeof v, m->type);
        int sep = (int)ch(ST_OP, 2); if (sep && v[0] == '-' && m->type != ZPL_OPTS_STRING) sep = 0;
        if (m->type == ZPL_OPTS_FLAG && ch(ST_OP, 5)) { snprintf(a, sizeof a, "%s%s", d, nme); tmp[k++] = own(a); }
        else if (!ch(ST_OP, 10)) { snprintf(a, sizeof a, "%s%s", d, nme); tmp[k++] = own(a); }
        else if (sep && k + 1 < argc) { snprintf(a, sizeof a, "%s%s", d, nme); tmp[k++] = own(a); tmp[k++] = own(v); }
        else { snprintf(a, sizeof a, "%s%s=%s", d, nme, v); tmp[k++] = own(a); }
      } else if (w < 10) { value(v, sizeof v, np ? M[pos[ch(ST_OP, (uint32_t)np)]].type : ZPL_OPTS_STRING); tmp[k++] = own(v); }
      else { static const char *const junk[] = {"--nosuch", "-q", "-", "--", "--fil", "--filenames", "-nosuch=5", "  --file", "---f", "value", "-f-5", "-o_3", "-v-"}; tmp[k++] = own(junk[ch(ST_OP, 13)]); }
    }
    argc = k; char **argv = malloc(sizeof(char *) * (size_t)(argc + endnull)); memcpy(argv, tmp, sizeof(char *) * (size_t)argc); if (endnull) argv[argc] = NULL; argvs[r] = argv; argcs[r] = argc;
    static mopt save[MO]; memcpy(save, M, sizeof M); int spos[MO], snp = np, sne = ne; memcpy(spos, pos, sizeof pos);
    int want = mcompile(argc, argv); for (int i = 1; i < argc; i++) sim_ev(argv[i], i, 0);
    uint32_t f0 = sim_fired_total(); sim_faults_enable(true); zpl_b32 ok = zpl_opts_compile(&o, argc, argv); sim_faults_enable(false); faulty = sim_fired_total() != f0; sim_ev("compiled", ok, want);
    if (faulty) { sim_probe("an allocation failed while parsing"); sim_nontrivial(); CHECK(!ok, "failure-not-reported", "parsing ran out of memory but reports success"); for (int i = 0; i < nm; i++) { zpl_opts_entry *e = o.entries + i; if (e->type == ZPL_OPTS_STRING && e->met) CHECK(e->text != NULL, "met-without-value", "option %d counts as given but has no text", i); } (void)save; (void)spos; (void)snp; (void)sne; break; }
    CHECK(!!ok == want, "wrong-verdict", "parsing %d arguments reports %s", argc - 1, ok ? "success although some are wrong" : "failure although all are right");
  }
  CHECK(zpl_array_count(o.entries) == nm, "options-lost", "%d of %d options are declared", (int)zpl_array_count(o.entries), nm);
  if (!faulty) {
    CHECK(zpl_array_count(o.errors) == ne, "errors-differ", "%d errors are reported instead of %d", (int)zpl_array_count(o.errors), ne);
    for (int i = 0; i < ne; i++) { CHECK(o.errors[i].type == E[i].type, "errors-differ", "error %d is of kind %d instead of %d (%s)", i, o.errors[i].type, E[i].type, E[i].val); CHECK(!strcmp(o.errors[i].val, E[i].val), "errors-differ", "error %d names '%s' instead of '%s'", i, o.errors[i].val, E[i].val); }
    CHECK(!!zpl_opts_positionals_filled(&o) == (np == 0), "positionals-differ", "%d positionals are missing but filled is %d", np, zpl_opts_positionals_filled(&o));
    for (int i = 0; i < nm; i++) {
      mopt *m = &M[i]; if (!m->hl) { zpl_opts_entry *e = o.entries + i; CHECK(!!e->met == m->met, "presence-differs", "option -%s counts as %s", m->s, e->met ? "given" : "not given"); if (m->met && m->type == ZPL_OPTS_STRING) CHECK(!strcmp(e->text, m->text), "value-differs", "-%s holds '%s' instead of '%s'", m->s, e->text, m->text); continue; }
      CHECK(!!zpl_opts_has_arg(&o, m->l) == m->met, "presence-differs", "option --%s counts as %s", m->l, m->met ? "not given" : "given");
      if (m->type == ZPL_OPTS_STRING) { char *fb = "fallback"; char *s = zpl_opts_string(&o, m->l, fb); if (m->met) CHECK(!strcmp(s, m->text), "value-differs", "--%s holds '%s' instead of '%s'", m->l, s, m->text); else CHECK(s == fb, "fallback-differs", "--%s was not given but holds '%s'", m->l, s); }
      if (m->type == ZPL_OPTS_INT && !m->odd /* what other text than a number means is not specified */) { int64_t v = zpl_opts_integer(&o, m->l, -77); CHECK(v == (m->met ? m->in : -77), "value-differs", "--%s holds %lld instead of %lld", m->l, (long long)v, (long long)(m->met ? m->in : -77)); }
      if (m->type == ZPL_OPTS_FLOAT && !m->odd) { double v = zpl_opts_real(&o, m->l, -7.5), w = m->met ? m->re : -7.5; double tol = 1e-9 * (1 + (w < 0 ? -w : w)); CHECK(v - w < tol && w - v < tol, "value-differs", "--%s holds %f instead of %f", m->l, v, w); }
      sim_feature(sim_mix((uint64_t)m->type * 2 + (uint64_t)m->met, (uint64_t)(ne * 8 + np)));
    }
    CHECK(!zpl_opts_has_arg(&o, "nothing-like-this") && zpl_opts_integer(&o, "nothing-like-this", 5) == 5, "unknown-found", "an option that was not declared has a value");
    if (ne) sim_probe("arguments with errors"); if (np) sim_probe("positionals missing"); if (ne || np || argcs[0] > 3) sim_nontrivial();
  }
  // what is shown names every option and every error
  size_t mark = 0, end = 0; vfs_cap_data(1, &mark); zpl_opts_print_help(&o); zpl_opts_print_errors(&o); const uint8_t *cap = vfs_cap_data(1, &end); char *txt = malloc(end - mark + 1); memcpy(txt, cap + mark, end - mark); txt[end - mark] = 0;
  CHECK(strstr(txt, "app"), "help-incomplete", "the help does not name the application"); for (int i = 0; i < nm; i++) { char w[160]; if (M[i].hl) { snprintf(w, sizeof w, "--%s: %s\n", M[i].l, M[i].desc); CHECK(strstr(txt, w), "help-incomplete", "the help does not list --%s and what it does", M[i].l); snprintf(w, sizeof w, " [%s]", M[i].l); CHECK(!!strstr(txt, w) == ispos[i], "help-positionals", "the help shows --%s %s a positional", M[i].l, ispos[i] ? "not as" : "as"); } if (M[i].hs) { snprintf(w, sizeof w, "\t-%s%s", M[i].s, M[i].hl ? ", --" : ": does"); CHECK(strstr(txt, w), "help-incomplete", "the help does not list -%s", M[i].s); } }
  CHECK(!strstr(txt, "(null)"), "help-garbage", "the help shows a name that does not exist");
  if (!faulty) for (int i = 0; i < ne; i++) { static const char *const say[] = {"Invalid value", "Invalid option", "Extra value for option", "Missing value for option"}; static char w[1500]; snprintf(w, sizeof w, "ERROR: %s \"%s\"\n", say[E[i].type], E[i].val); CHECK(strstr(txt, w), "error-not-shown", "the error about %s is not shown", w); }
  free(txt); zpl_opts_free(&o); no_leaks(b0, "the options"); for (int r = 0; r < rounds && r < 2; r++) if (r == 0 || !faulty) { for (int i = 0; i < argcs[r]; i++) free(argvs[r][i]); free(argvs[r]); }
}
