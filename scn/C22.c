// variants: A
#include "common.h"
#include <math.h>
const char *const scenario_name = "C22";
const char *const scenario_rule = "a run counts when a print is split, interrupted or fails, text does not fit, or a stream grows, and its trace differs from every other run";
#define BIG 400000
static char s1[80000], s2[300], exp_[200000]; static int en; static char what[200]; static bool huge;
static uint8_t model[4][BIG]; static size_t mn[4]; // disk file, stdout, stderr, memory stream
static zpl_file disk, mem; static int dmode; static bool mem_open;
static int d, c1, w, ws; static unsigned u; static long long ll; static unsigned long long ull; static double f, fh, fw; static char *nil; static int prec, un; static char *ub; // ub has no end: nothing behind its un characters may be read
#define SHAPES \
 X(0, "%s", s1) X(1, "line %s: %d\n", s1, d) X(2, "%d,%u,%x,%X", d, u, u, u) X(3, "%lld|%llu|%o", ll, ull, u & 0x7FFFFFFF) X(4, "[%10s][%-12s]", s2, s2) X(5, "%.3s-%.*s;", s2, prec, s1) X(6, "%c%%%c", c1, 'z') \
 X(7, "%08x %5d %-6d|", u, d, d) X(8, "plain text, no arguments\n%d", 0) X(9, "%s%s%s", s2, s1, s2) X(10, "%.2f %s", f, s2) X(11, "%ld %lu %zu", (long)ll, (unsigned long)ull, (size_t)u) X(12, "%*s|%-*s|%6X", w, s2, w + 2, s2, u) X(13, "%hhu %hd %hhd", u, d, d) X(14, "TAIL %x%X UPPER lower %s", u, u, s2) X(15, "%5.2s%-5.1s%05u", s2, s2, u) \
 X(18, "%.*s|%s", un, ub, s2) X(19, "%d<%-*.*s>", d, w, un, ub) X(20, "[%*s][%*d][%-*s]", ws, s2, ws, d, ws, s2) X(21, "%c", c1) X(22, "%%") X(23, "%i%%%i|%hi", d, -d, d) \
 X(24, "<%s>%d", nil, d) X(25, "%14f|%014f|%.1f|%2f", fh, fh, fh, fh) X(26, "%f/%12.3f/%#.0f", f, f, fw) X(27, "%lx %#.3f", (unsigned long)ull, fw)
static uint32_t shape;
static size_t slen(void) { uint32_t k = ch(ST_OP, 16); return k < 10 ? ch(ST_OP, 14) : k < 14 ? ch(ST_OP, 200) : k < 15 ? ch(ST_OP, 3000) : huge ? 65500 + ch(ST_OP, 60) - ch(ST_OP, 2) * ch(ST_OP, 20000) + ch(ST_OP, 2) * ch(ST_OP, 5000) : ch(ST_OP, 500); }
static void inputs(void) {
  size_t n = slen(); for (size_t i = 0; i < n; i++) s1[i] = (char)(' ' + (i * 7 + n) % 94); memset(s1 + n, 0, 16); n = ch(ST_OP, 20); for (size_t i = 0; i < n; i++) s2[i] = (char)("aZ%d\n 0x"[ch(ST_DATA, 8)]); memset(s2 + n, 0, 16);
  d = (int)(ch(ST_OP, 3) ? ch(ST_DATA, 1000) - 500 : ch(ST_DATA, 0xFFFFFFFFu)); u = ch(ST_OP, 3) ? ch(ST_DATA, 5000) : ch(ST_DATA, 0xFFFFFFFFu); ll = (long long)(((uint64_t)ch(ST_DATA, 0xFFFFFFFFu) << 31) ^ u) * (ch(ST_DATA, 2) ? 1 : -1); ull = (unsigned long long)ll; c1 = 'A' + (int)ch(ST_DATA, 50); f = (double)((int)ch(ST_DATA, 4000) - 2000) + 0.5; fh = f < 0 ? -f : f; fw = fh + 0.5; prec = (int)ch(ST_OP, 30); w = 1 + (int)ch(ST_OP, 30); ws = (int)ch(ST_OP, 30) + 1; if (ch(ST_OP, 2)) ws = -ws; un = 1 + (int)ch(ST_OP, 40); free(ub); ub = malloc((size_t)un); for (int i = 0; i < un; i++) ub[i] = (char)('a' + (i * 5 + un) % 26); shape = ch(ST_OP, 28);
  switch (shape) {
#define X(i, fm, ...) case i: en = snprintf(exp_, sizeof exp_, fm __VA_OPT__(,) __VA_ARGS__); break;
  SHAPES
#undef X
  case 16: en = snprintf(exp_, sizeof exp_, "%s", ""); break; case 17: memset(exp_, '=', (size_t)w); en = w + sprintf(exp_ + w, " %s", s2); break; }
  sim_ev("text", shape, (int64_t)sim_hash(exp_, (size_t)en)); }
static zpl_isize print_to(int t) { zpl_file *fp = t == 0 ? &disk : &mem; char rf[20]; snprintf(rf, sizeof rf, "%%%dr %%s", w);
#define CALL(...) (t == 1 ? zpl_printf(__VA_ARGS__) : t == 2 ? zpl_printf_err(__VA_ARGS__) : zpl_fprintf(fp, __VA_ARGS__))
  switch (shape) {
#define X(i, fm, ...) case i: return CALL(fm __VA_OPT__(,) __VA_ARGS__);
  SHAPES
#undef X
  case 16: return CALL("%s", ""); default: return CALL(rf, '=', s2); } }
static zpl_isize to_buf(char *b, zpl_isize n) { char rf[20]; snprintf(rf, sizeof rf, "%%%dr %%s", w);
  switch (shape) {
#define X(i, fm, ...) case i: return zpl_snprintf(b, n, fm __VA_OPT__(,) __VA_ARGS__);
  SHAPES
#undef X
  case 16: return zpl_snprintf(b, n, "%s", ""); default: return zpl_snprintf(b, n, rf, '=', s2); } }
static zpl_isize to_new(char **b) { char rf[20]; snprintf(rf, sizeof rf, "%%%dr %%s", w);
  switch (shape) {
#define X(i, fm, ...) case i: return zpl_asprintf(ALLOC, b, fm __VA_OPT__(,) __VA_ARGS__);
  SHAPES
#undef X
  case 16: return zpl_asprintf(ALLOC, b, "%s", ""); default: return zpl_asprintf(ALLOC, b, rf, '=', s2); } }
static char *to_scratch(void) { char rf[20]; snprintf(rf, sizeof rf, "%%%dr %%s", w);
  switch (shape) {
#define X(i, fm, ...) case i: return zpl_bprintf(fm __VA_OPT__(,) __VA_ARGS__);
  SHAPES
#undef X
  case 16: return zpl_bprintf("%s", ""); default: return zpl_bprintf(rf, '=', s2); } }
static const uint8_t *now(int t, size_t *n) { if (t == 0) return vfs_data("/d/out", n); if (t == 3) { zpl_isize z; const uint8_t *p = zpl_file_stream_buf(&mem, &z); *n = (size_t)z; return p; } return vfs_cap_data(t, n); }
static void verify(int t) { for (int k = 0; k < 4; k++) { if (k == 3 && !mem_open) continue; size_t n = 0; const uint8_t *p = now(k, &n); static const char *nm[] = {"the file", "standard output", "standard error", "the memory file"}; CHECK(n == mn[k], "length-differs", "after %s %s holds %zu bytes, expected %zu", what, nm[k], n, mn[k]); CHECK(!n || !memcmp(p, model[k], n), k == t ? "content-differs" : "other-changed", "after %s the bytes of %s differ", what, nm[k]); } }
// one number in full and cut short: sign, digits, fill and value
static void number(void) {
  double v = 0; uint32_t kind = ch(ST_OP, 9), pk = ch(ST_OP, 8); int p = pk < 2 ? -1 : pk < 7 ? (int)ch(ST_OP, 10) : (int)ch(ST_OP, 32), wd = ch(ST_OP, 2) ? (int)ch(ST_OP, 40) : 0;
  switch (kind) { case 0: v = 0; break; case 1: v = ch(ST_DATA, 5000) / 100000.0; break; case 2: v = ch(ST_DATA, 100000) / 1000.0; break; case 3: v = ch(ST_DATA, 0xFFFFFFFFu) / 7.0; break; case 4: v = ldexp(1.0 + ch(ST_DATA, 1u << 30) / (double)(1u << 30), (int)ch(ST_DATA, 75)); break; case 5: v = ldexp(1.0 + ch(ST_DATA, 1u << 30) / (double)(1u << 30), -(int)ch(ST_DATA, 40)); break; case 6: v = ldexp(1.0 + ch(ST_DATA, 1u << 30) / (double)(1u << 30), 60 + (int)ch(ST_DATA, 963)); break; case 7: v = ldexp(1.0, 52 + (int)ch(ST_DATA, 16)) - (ch(ST_DATA, 2) ? 1024 : 0); break; default: v = ch(ST_DATA, 2) ? INFINITY : NAN; break; }
  bool fin = isfinite(v), zero = fin && v != 0 && ch(ST_OP, 3) == 2; if (!zero && ch(ST_OP, 2)) v = -v;
  char fm[40], pt[16] = "", wt[16] = ""; if (p >= 0) sprintf(pt, ".%d", p); if (wd) sprintf(wt, "%d", wd); sprintf(fm, "%%%s%s%sf", zero ? "0" : "", wt, pt); snprintf(what, sizeof what, "formatting %.17g with '%s'", v, fm);
  static char b[2000], c[2000]; memset(b, 'Q', sizeof b); zpl_isize r = zpl_snprintf(b, sizeof b, fm, v); sim_ev(what, r, 0); CHECK(memchr(b, 0, sizeof b), "not-terminated", "%s left the buffer without an end", what); int len = (int)strlen(b);
  CHECK(r == len + 1, "bad-count", "%s returned %ld for '%.80s'", what, (long)r, b); CHECK(len >= wd, "text-differs", "%s gave only '%.80s'", what, b);
  char *t = b; while (*t == ' ') t++; CHECK(t == b || len == wd, "text-differs", "%s padded '%.80s' past its width", what, b); bool neg = *t == '-'; if (neg) t++;
  if (!fin) { char low[8] = ""; for (int i = 0; i < 7 && t[i]; i++) low[i] = (char)(t[i] | 32); CHECK(!strncmp(low, isnan(v) ? "nan" : "inf", 3) && (isnan(v) || neg == (v < 0)), "value-differs", "%s gave '%.80s'", what, b); }
  else { CHECK(neg == (v < 0) || v == 0, "value-differs", "%s gave '%.80s'", what, b); int dg = 0, fr = -1; for (char *q = t; *q; q++) { if (*q == '.' && fr < 0) fr = 0; else { CHECK(*q >= '0' && *q <= '9', "text-differs", "%s gave '%.80s'", what, b); if (fr >= 0) fr++; else dg++; } } CHECK(dg, "text-differs", "%s gave '%.80s'", what, b);
    int pr = p < 0 ? 6 : p; if (v != 0) CHECK(pr ? fr == pr : fr < 0, "text-differs", "%s gave %d digits behind the point: '%.80s'", what, fr, b);
    long double got = strtold(t, 0), want = fabsl((long double)v), ulp = powl(10, -pr); CHECK(fabsl(got - want) <= ulp * 1.001L + want * 1e-15L, "value-differs", "%s gave '%.80s'", what, b); if (v >= 18446744073709551616.0) { snprintf(c, sizeof c, "%.0f", v); while (*t == '0') t++; CHECK(!strncmp(t, c, strlen(c)), "value-differs", "%s gave '%.80s'", what, b); } }
  for (int i = 0; i < 2; i++) { int n = i ? 1 + (int)ch(ST_OP, (uint32_t)len + 1) : len - (int)ch(ST_OP, 3); if (n < 1 || n > len) continue; char *e = malloc((size_t)n); memset(e, 'Q', (size_t)n); zpl_isize r2 = zpl_snprintf(e, n, fm, v); CHECK(r2 < 0, "bad-count", "%s into %d bytes returned %ld", what, n, (long)r2); CHECK(!e[n - 1] && !memcmp(e, b, (size_t)n - 1), "text-differs", "%s into %d bytes left '%.*s', all of it is '%.80s'", what, n, n, e, b); free(e); }
  uint64_t a = ((uint64_t)ch(ST_DATA, 0xFFFFFFFFu) << 32 | ch(ST_DATA, 0xFFFFFFFFu)) >> ch(ST_DATA, 60); zpl_snprintf(b, sizeof b, "%p,", (void *)(uintptr_t)a); char *end; CHECK(strtoull(b, &end, 16) == a && !strcmp(end, ","), "value-differs", "the address %llx was printed as '%.40s'", (unsigned long long)a, b); }
void scenario(void) { pick_alloc();
  vfs_write_file("/d/keep", "x", 1); uint32_t pre = ch(ST_OP, 3); huge = ch(ST_OP, 6) == 5; dmode = (int)ch(ST_OP, 4); static const zpl_file_mode md[] = {ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_APPEND, (zpl_file_mode)(ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW), ZPL_FILE_MODE_READ};
  if (dmode) { mn[0] = pre * 10; memset(model[0], 'p', mn[0]); vfs_write_file("/d/out", model[0], mn[0]); }
  int fds = vfs_open_fds(), dirs = vfs_open_dirs(); uint64_t b0 = sim_live_blocks(); vfs_stdout_kind = (int)ch(ST_OP, 2);
  CHECK(zpl_file_open_mode(&disk, md[dmode], "/d/out") == ZPL_FILE_ERROR_NONE, "setup", "could not open the file"); if (!zpl_file_stream_new(&mem, ALLOC)) sim_end(0); mem_open = true;
  sim_faults_init(FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC) | FB(F_ALLOC));
  uint32_t nops = 2 + ch(ST_OP, 24), target = ch(ST_OP, 5); if (ch(ST_OP, 10) == 9) vfs_set_disk(ch(ST_OP, 3000));
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); inputs(); uint32_t op = ch(ST_OP, 9); if (op == 8) { number(); continue; } uint32_t bad0 = sim_fired(F_WRITE_EIO) + sim_fired(F_ENOSPC) + (sim_fired(F_ALLOC)), sp0 = sim_fired(F_WRITE_SHORT) + sim_fired(F_WRITE_EINTR), a0 = sim_fired(F_ALLOC); bool fits = en + 1 < ZPL_PRINTF_MAXLEN;
    if (op < 4) {
      int t = target < 4 ? (int)target : (int)ch(ST_OP, 4); static const char *nm[] = {"the file", "standard output", "standard error", "a memory file"}; if (mn[t] + (size_t)en > BIG - 10) continue; if (t == 0 && dmode == 0) zpl_file_seek_to_end(&disk);
      snprintf(what, sizeof what, "printing %d bytes (format %u) to %s behind %zu", en, shape, nm[t], mn[t]); int64_t free0 = vfs_disk(); zpl_isize r = print_to(t); sim_ev(what, r, 0); bool fault = sim_fired(F_WRITE_EIO) + sim_fired(F_ENOSPC) + sim_fired(F_ALLOC) != bad0; size_t n = 0; const uint8_t *p = now(t, &n);
      if (sim_fired(F_WRITE_SHORT) + sim_fired(F_WRITE_EINTR) != sp0) { sim_nontrivial(); sim_probe("split or interrupted"); }
      if (r >= 0) { CHECK(r == en + 1, "bad-count", "%s returned %ld, expected %d: %s", what, (long)r, en + 1, exp_); CHECK(t != 0 || dmode != 3 || !en, "wrote-readonly", "%s reported success on a read-only file", what); memcpy(model[t] + mn[t], exp_, (size_t)en); mn[t] += (size_t)en; verify(t); }
      else { bool cause = fault || !fits || en + 1 == ZPL_PRINTF_MAXLEN || (t == 0 && dmode == 3) || (free0 >= 0 && (int64_t)en > free0); CHECK(cause, "failed-without-cause", "%s failed although nothing went wrong", what); sim_nontrivial(); sim_probe(fault ? "failed print" : "print refused"); CHECK(n >= mn[t] && n <= mn[t] + (size_t)en, "length-differs", "%s failed and left %zu bytes", what, n); if (n > mn[t]) memcpy(model[t] + mn[t], exp_, n - mn[t]); mn[t] = n; (void)p; verify(t); if (t == 3) zpl_file_seek_to_end(&mem); }
    } else if (op < 6) {
      zpl_isize n = ch(ST_OP, 4) == 3 ? en + 2 + (zpl_isize)ch(ST_OP, 20) : ch(ST_OP, 2) ? en - 4 + (zpl_isize)ch(ST_OP, 8) : (zpl_isize)ch(ST_OP, (uint32_t)en + 2); if (n < 0) n = 0; snprintf(what, sizeof what, "formatting %d bytes (format %u) into a buffer of %ld", en, shape, (long)n); char *b = malloc(n ? (size_t)n : 1); memset(b, 'Q', n ? (size_t)n : 1); zpl_isize r = to_buf(b, n); sim_ev(what, r, 0);
      if (n == 0) CHECK(b[0] == 'Q', "out-of-bounds", "%s wrote to it", what); else CHECK(memchr(b, 0, (size_t)n), "not-terminated", "%s left it without an end", what);
      if (n > en + 1) CHECK(r == en + 1 && !memcmp(b, exp_, (size_t)en + 1), "text-differs", "%s returned %ld and '%.40s', expected '%.40s'", what, (long)r, b, exp_); else if (n == en + 1) CHECK((r == en + 1 || r < 0) && !memcmp(b, exp_, (size_t)en + 1), "text-differs", "%s returned %ld", what, (long)r); else { CHECK(r < 0, "bad-count", "%s returned %ld although it does not fit", what, (long)r); CHECK(n == 0 || (!b[n - 1] && !memcmp(b, exp_, (size_t)n - 1)), "text-differs", "%s left '%.40s', the whole text is '%.60s'", what, b, exp_); sim_nontrivial(); sim_probe("text did not fit"); }
      free(b);
    } else if (op == 6) {
      uint64_t bb = sim_live_blocks(); char *b = (char *)8; snprintf(what, sizeof what, "formatting %d bytes (format %u) into a new block", en, shape); zpl_isize r = to_new(&b); sim_ev(what, r, b != 0); bool oom = sim_fired(F_ALLOC) != a0; CHECK(b || oom, "failed-without-cause", "%s gave nothing although memory was there", what); if (!b) { CHECK(r < 0, "bad-count", "%s returned %ld although memory ran out", what, (long)r); sim_nontrivial(); sim_probe("failed allocation"); } else if (fits) CHECK(r == en + 1 && !strcmp(b, exp_), "text-differs", "%s returned %ld", what, (long)r); else CHECK(r < 0 || (en + 1 <= ZPL_PRINTF_MAXLEN && !strcmp(b, exp_)), "bad-count", "%s returned %ld although the text is longer than the print buffer", what, (long)r);
      if (b) zpl_free(ALLOC, b); CHECK(sim_live_blocks() == bb, "leak:memory", "%s left a block behind", what);
    } else { snprintf(what, sizeof what, "formatting %d bytes (format %u) into the scratch buffer", en, shape); char *b = to_scratch(); size_t n = strnlen(b, ZPL_PRINTF_MAXLEN + 10); sim_ev(what, (int64_t)n, 0); CHECK(n < ZPL_PRINTF_MAXLEN, "not-terminated", "%s left it without an end", what); if (fits || n == (size_t)en) CHECK(!strcmp(b, exp_), "text-differs", "%s gave '%.40s', expected '%.40s'", what, b, exp_); }
    sim_feature(sim_mix(op, sim_mix(shape, (uint64_t)(en > 50 ? 50 : en)))); }
  sim_faults_enable(false); zpl_file_close(&disk); zpl_file_close(&mem); no_fd_leaks(fds, dirs, "closing the files"); no_leaks(b0, "closing the files");
}
