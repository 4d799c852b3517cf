// variants: A
#include "common.h"
// Text is duplicated, split, encoded, decoded and looked up in the environment while allocations fail; every result is compared with a plain reference.
const char *const scenario_name = "C35";
const char *const scenario_rule = "a run counts when results of several operations were held and compared, or an allocation failed, and its trace differs from every other run";
#define KEEP 10
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t enc(char *o, const uint8_t *d, size_t n) { char *b = o; for (size_t i = 0; i < n; i += 3) { uint32_t v = (uint32_t)d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0); *o++ = B64[v >> 18]; *o++ = B64[v >> 12 & 63]; *o++ = i + 1 < n ? B64[v >> 6 & 63] : '='; *o++ = i + 2 < n ? B64[v & 63] : '='; } *o = 0; return (size_t)(o - b); }
static char *exact(const void *s, size_t n) { char *t = malloc(n ? n : 1); memcpy(t, s, n); return t; }
static const char *const names[] = {"ZSIM_A", "ZSIM_B", "ZSIM_LONGER_NAME", "ZSIM_"}; static char val[4][64]; static int isset[4];
static size_t text(char *b, size_t max) { size_t n = pick_size(ST_OP, 12, (uint32_t)max - 1); if (n > max - 1) n = max - 1; static const char a[] = "ab \t=;%\xc3\xa9\\\"'0Z"; for (size_t i = 0; i < n; i++) b[i] = a[ch(ST_OP, sizeof a - 1)]; b[n] = 0; return n; }
// A result is given back the way its maker says: to the allocator it was made with, as a string, or as memory of the process.
static void release(void *p, int kind) { if (kind == 1) zpl_string_free((zpl_string)p); else if (kind == 2) zpl_mfree(p); else zpl_free(ALLOC, p); }
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC)); sim_faults_enable(false); uint64_t b0 = sim_live_blocks(); memset(isset, 0, sizeof isset); for (int i = 0; i < 4; i++) unsetenv(names[i]);
  struct { void *p; char *want; size_t n; int kind; } K[KEEP]; int nk = 0, ops = 2 + (int)ch(ST_OP, 12); static char buf[90000], w[90000]; static uint8_t raw[4000]; char what[120];
  for (int op = 0; op < ops; op++) {
    sim_op(); int k = (int)ch(ST_OP, 9); uint32_t f0 = sim_fired_total(); void *res = NULL; char *want = NULL; size_t wn = 0; int kind = 0, expect = 1; 
    if (k == 0) { // duplicate
      size_t n = text(buf, 600); size_t cap = ch(ST_OP, 3) ? n + 1 + ch(ST_OP, 4) : 1 + ch(ST_OP, (uint32_t)n + 2); char *src = exact(buf, n + 1); snprintf(what, sizeof what, "duplicating %zu characters into %zu bytes", n, cap); sim_ev(what, 0, 0);
      sim_faults_enable(true); res = zpl_strdup(ALLOC, src, (zpl_isize)cap); sim_faults_enable(false); wn = (n < cap - 1 ? n : cap - 1) + 1; want = exact(src, wn); want[wn - 1] = 0; free(src);
    } else if (k == 1 || k == 2) { // encode, decode
      size_t n = 1 + pick_size(ST_OP, 9, 2000); sim_fill(raw, n, ch(ST_DATA, 1u << 20)); size_t en = enc(w, raw, n); sim_ev(k == 1 ? "encode" : "decode", (int64_t)n, (int64_t)sim_hash(raw, n)); snprintf(what, sizeof what, "%s %zu bytes", k == 1 ? "encoding" : "decoding", n);
      if (k == 1) { char *d = exact(raw, n); sim_faults_enable(true); res = zpl_base64_encode(ALLOC, d, (zpl_isize)n); sim_faults_enable(false); free(d); wn = en + 1; want = exact(w, wn); }
      else { char *d = exact(w, en + 1); sim_faults_enable(true); res = zpl_base64_decode(ALLOC, d, (zpl_isize)en); sim_faults_enable(false); free(d); raw[n] = 0; wn = n + 1; want = exact(raw, wn); }
    } else if (k == 3) { // decode text that is no encoding
      size_t n = 4 * (1 + ch(ST_OP, 6)); int broken = (int)ch(ST_OP, 4); sim_fill(raw, n, ch(ST_DATA, 1u << 20)); for (size_t i = 0; i < n; i++) w[i] = B64[raw[i] & 63];
      if (broken == 0) w[ch(ST_OP, (uint32_t)n)] = "!-_ \n\x80@"[ch(ST_OP, 7)]; else if (broken == 1) n -= 1 + ch(ST_OP, 3); else if (broken == 2) { size_t at = ch(ST_OP, (uint32_t)n); w[at] = '='; if (at + 1 == n || (at + 2 == n && ch(ST_OP, 2) && (w[n - 1] = '='))) { w[0] = '*'; } } else { for (size_t i = n - 3 - ch(ST_OP, 2); i < n; i++) w[i] = '='; }
      w[n] = 0; char *d = exact(w, n + 1); sim_ev(d, broken, 0); snprintf(what, sizeof what, "decoding '%.60s'", w); sim_faults_enable(true); res = zpl_base64_decode(ALLOC, d, (zpl_isize)n); sim_faults_enable(false); free(d); expect = 0; sim_probe("malformed encoding"); sim_nontrivial();
    } else if (k == 4) { // split
      size_t n = 0; int lines = (int)ch(ST_OP, ch(ST_OP, 4) ? 6 : 120), strip = (int)ch(ST_OP, 2), crlf = !ch(ST_OP, 3); static char *ln[130]; int nl = 0; buf[0] = 0; for (int i = 0; i < lines; i++) { size_t m = ch(ST_OP, 4) ? ch(ST_OP, 12) : 0; if (!ch(ST_OP, 60)) { static const size_t S[] = {255, 256, 257, 512, 127, 128, 1024}; m = S[ch(ST_OP, 7)]; if (n > 80000) m = 0; } for (size_t q = 0; q < m; q++) buf[n++] = "xyz ,"[ch(ST_OP, 5)]; if (crlf && (m || !strip) && ch(ST_OP, 3)) { buf[n++] = '\r'; if (!ch(ST_OP, 8)) { buf[n++] = '\r'; buf[n++] = 'm'; } } buf[n++] = '\n'; } if (ch(ST_OP, 2)) { size_t m = ch(ST_OP, 5); for (size_t q = 0; q < m; q++) buf[n++] = 't'; } buf[n] = 0;
      memcpy(w, buf, n + 1); for (char *p = w; *p;) { char *e = strchr(p, '\n'), *nx = e ? e + 1 : p + strlen(p); if (e) { *e = 0; if (e > p && e[-1] == '\r') e[-1] = 0; } if (!strip || *p) ln[nl++] = p; p = nx; }
      char *src = exact(buf, n + 1); sim_ev(buf, strip, nl); snprintf(what, sizeof what, "splitting %zu characters", n); if (nl > 16) sim_probe("many lines"); sim_faults_enable(true); char **l = zpl_str_split_lines(ALLOC, src, strip); sim_faults_enable(false);
      if (!l) { CHECK(sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); sim_probe("allocation failed"); }
      else { CHECK(zpl_array_count(l) == nl, "lines-differ", "%s gave %d lines instead of %d", what, (int)zpl_array_count(l), nl); for (int i = 0; i < nl; i++) { CHECK(l[i] >= src && l[i] <= src + n, "lines-differ", "line %d lies outside the text", i); CHECK(!strcmp(l[i], ln[i]), "lines-differ", "line %d is '%s' instead of '%s'", i, l[i], ln[i]); } zpl_array_free(l); if (nl > 1) sim_nontrivial(); }
      free(src); CHECK(sim_live_blocks() == b0 + (uint64_t)nk, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - b0) - nk); continue;
    } else if (k == 5) { int i = (int)ch(ST_OP, 4); char v[64]; text(v, 60); sim_ev("set", i, (int64_t)strlen(v)); zpl_set_env(names[i], v); strcpy(val[i], v); isset[i] = 1; continue; }
    else if (k == 6 && !ch(ST_OP, 2)) { int i = (int)ch(ST_OP, 4); sim_ev("unset", i, 0); zpl_unset_env(names[i]); isset[i] = 0; continue; }
    else { int i = (int)ch(ST_OP, 4); snprintf(what, sizeof what, "looking up %s", names[i]); sim_ev("get", i, k); expect = isset[i]; sim_faults_enable(true); if (k == 6) { const char *r = zpl_get_env_buf(names[i]); sim_faults_enable(false); CHECK(!!r == isset[i] && (!r || !strcmp(r, val[i])), "environment-differs", "%s gave '%s' instead of '%s'", what, r ? r : "(none)", isset[i] ? val[i] : "(none)"); continue; }
      if (k == 7) { res = (void *)zpl_get_env(names[i]); kind = 2; } else { res = zpl_get_env_str(names[i]); kind = 1; } sim_faults_enable(false); if (isset[i]) { wn = strlen(val[i]) + 1; want = exact(val[i], wn); if (kind == 1 && res) CHECK((size_t)zpl_string_length((zpl_string)res) + 1 == wn, "environment-differs", "%s gave a string of %d", what, (int)zpl_string_length((zpl_string)res)); } }
    if (!res) { CHECK(!expect || sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); if (expect) { sim_probe("allocation failed"); sim_nontrivial(); } free(want); }
    else { CHECK(expect, "accepted-wrong", "%s gave a result", what); CHECK(!memcmp(res, want, wn), "result-differs", "%s gave other bytes than it should", what); sim_feature(sim_mix((uint64_t)k, wn)); if (nk == KEEP) { release(K[0].p, K[0].kind); free(K[0].want); memmove(K, K + 1, sizeof *K * (KEEP - 1)); nk--; } K[nk].p = res; K[nk].want = want; K[nk].n = wn; K[nk++].kind = kind; }
    CHECK(sim_live_blocks() == b0 + (uint64_t)nk, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - b0) - nk);
  }
  for (int i = 0; i < nk; i++) { CHECK(!memcmp(K[i].p, K[i].want, K[i].n), "result-changed", "a result changed afterwards"); release(K[i].p, K[i].kind); free(K[i].want); } if (nk > 2) sim_nontrivial();
  no_leaks(b0, "copying");
}
