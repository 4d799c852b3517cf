// variants: A
#include "common.h"
const char *const scenario_name = "C21";
const char *const scenario_rule = "a run counts when a transfer reaches or crosses the end, a stream grows, a seek is clamped or an allocation fails, and its trace differs from every other run";
#define CAP (1 << 19)
#define NS 3
extern void *__real_calloc(size_t, size_t); extern void __real_free(void *);
typedef struct { bool open, clone, wr; zpl_file f; uint8_t *m; int64_t n, cur; uint8_t *own; int64_t own_n; } S; static S s[NS];
// an allocator that hands out memory full of old bytes
extern void *sim_malloc(size_t); extern void sim_free(void *);
static ZPL_ALLOCATOR_PROC(dirty) { (void)allocator_data; (void)alignment; void *p = 0; switch (type) { case ZPL_ALLOCATION_ALLOC: p = sim_malloc(size); if (p) memset(p, 0xA7, size); return p; case ZPL_ALLOCATION_FREE: sim_free(old_memory); return 0; case ZPL_ALLOCATION_RESIZE: p = sim_malloc(size); if (!p) return 0; memset(p, 0xA7, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); sim_free(old_memory); } return p; default: return 0; } }
static bool big;
static int64_t len(void) { if (big && ch(ST_OP, 4) == 3) return (int64_t)(uint32_t[]){16384, 32767, 65535, 65536, 70000, 130000}[ch(ST_OP, 6)] + ch(ST_OP, 3); static const int l[] = {1, 0, 7, 8, 9, 16, 24, 63, 64}; uint32_t k = ch(ST_OP, 12); return k < 9 ? l[k] : k == 9 ? ch(ST_OP, 300) : k == 10 ? ch(ST_OP, 5000) : ch(ST_OP, 70); }
static uint32_t dseed = 50;
static void verify(S *q, const char *what) {
  zpl_isize n = -1; uint8_t *d = zpl_file_stream_buf(&q->f, &n); CHECK(n == q->n, "size-differs", "after %s the stream has %ld bytes, expected %lld", what, (long)n, (long long)q->n); for (int64_t i = 0; i < n; i++) CHECK(d[i] == q->m[i], "content-differs", "after %s byte %lld of %ld is %02x, expected %02x", what, (long long)i, (long)n, d[i], q->m[i]);
  if (!q->clone) CHECK(d == q->own, "other-buffer", "after %s the stream is not over the caller's buffer any more", what); else if (q->own) for (int64_t i = 0; i < q->own_n; i++) CHECK(q->own[i] == (uint8_t)(i * 31 + 5), "source-changed", "%s changed the buffer the stream was cloned from", what);
  int64_t t = zpl_file_tell(&q->f); CHECK(t == q->cur, "cursor-differs", "after %s the cursor is %lld, expected %lld", what, (long long)t, (long long)q->cur); CHECK(zpl_file_size(&q->f) == q->n, "size-differs", "after %s zpl_file_size differs", what); CHECK(zpl_file_tell(&q->f) == q->cur, "cursor-differs", "asking for the size moved the cursor"); }
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC)); uint32_t nops = 3 + ch(ST_OP, 40); uint64_t start_blocks = sim_live_blocks(); big = ch(ST_OP, 20) == 19;
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); S *q = &s[ch(ST_OP, 3) < 2 ? 0 : ch(ST_OP, NS)]; uint32_t a0 = sim_fired(F_ALLOC); char what[160];
    if (!q->open) {
      memset(q, 0, sizeof *q); memset(&q->f, 0x5b, sizeof q->f); uint32_t kind = ch(ST_OP, 4); zpl_allocator al = ALLOC; if (ch(ST_OP, 2)) { al.proc = dirty; al.data = 0; } q->m = __real_calloc(1, CAP); int64_t n = 0; zpl_b8 ok; uint64_t b0;
      if (kind == 0) { q->clone = q->wr = true; snprintf(what, sizeof what, "opening a new stream"); b0 = sim_live_blocks(); ok = zpl_file_stream_new(&q->f, al); }
      else { n = len(); sim_faults_enable(false); q->own = malloc(n ? n : 1); sim_faults_enable(true); q->own_n = n; for (int64_t i = 0; i < n; i++) q->m[i] = q->own[i] = (uint8_t)(i * 31 + 5); q->clone = kind == 1; q->wr = kind != 3; snprintf(what, sizeof what, "opening a stream over %lld bytes, kind %u", (long long)n, kind); b0 = sim_live_blocks(); uint8_t *src = q->own; bool nul = !n && ch(ST_OP, 2); ok = zpl_file_stream_open(&q->f, al, nul && kind != 2 ? 0 : src, n, kind == 1 ? ZPL_FILE_STREAM_CLONE_WRITABLE : kind == 2 ? ZPL_FILE_STREAM_WRITABLE : 0); if (nul && kind == 3) q->own = 0, free(src); }
      sim_ev(what, ok, n); if (!ok) { CHECK(sim_fired(F_ALLOC) != a0, "failed-without-cause", "%s failed although memory was there", what); CHECK(sim_live_blocks() == b0, "leak:memory", "%s failed and left %lld blocks behind", what, (long long)sim_live_blocks() - (long long)b0); free(q->own); __real_free(q->m); sim_nontrivial(); sim_probe("open without memory"); continue; }
      q->open = true; q->n = n; verify(q, what); continue; }
    uint32_t op = ch(ST_OP, 8); int64_t n = len(); if (n > 7000) sim_probe("a long transfer");
    if (op <= 1 || op == 4) { // writes
      bool at = op == 4; int64_t off = at ? (int64_t)ch(ST_OP, (uint32_t)q->n + 2) : q->cur; if (at && ch(ST_OP, 8) == 7) off = ch(ST_OP, 2) ? -1 - (int64_t)ch(ST_OP, 9) : q->n + ch(ST_OP, big ? 20000 : 200); if (off + n > CAP - 8) continue;
      uint8_t *src; sim_faults_enable(false); src = malloc(n ? n : 1); sim_faults_enable(true); sim_fill(src, n, ++dseed); zpl_isize got = -7; zpl_b32 ok; uint32_t how = ch(ST_OP, 2); snprintf(what, sizeof what, "writing %lld bytes at %lld of %lld", (long long)n, (long long)off, (long long)q->n);
      if (!at) { ok = zpl_file_write(&q->f, src, n); } else if (how) ok = zpl_file_write_at(&q->f, src, n, off); else ok = zpl_file_write_at_check(&q->f, src, n, off, &got); sim_ev(what, ok, got);
      bool oom = sim_fired(F_ALLOC) != a0; int64_t done = 0;
      if (!q->wr || off < 0) { CHECK(!ok || (n == 0 && off >= 0), "wrote-readonly", "%s reported success, it %s", what, off < 0 ? "lies before the start" : "is read only"); if (at && !how) CHECK(got <= 0, "bad-count", "%s reported %ld bytes", what, (long)got); sim_nontrivial(); }
      else if (q->clone) { if (ok) { CHECK(at && !how ? got == n : 1, "bad-count", "%s reported success and %ld bytes", what, (long)got); done = n; if (n && off > q->n) memset(q->m + q->n, 0, off - q->n); memcpy(q->m + off, src, n); if (n && off + n > q->n) { q->n = off + n; sim_nontrivial(); sim_probe("grew"); } } else { CHECK(oom || off > q->n, "failed-without-cause", "%s failed although memory was there", what); CHECK(!(at && !how) || got <= 0, "bad-count", "%s failed and reported %ld bytes", what, (long)got); sim_nontrivial(); sim_probe("growth without memory"); } }
      else { int64_t fit = off >= q->n ? 0 : n < q->n - off ? n : q->n - off; zpl_isize z; uint8_t *d = zpl_file_stream_buf(&q->f, &z); bool did = fit && !memcmp(d + off, src, fit) && memcmp(q->m + off, src, fit); if (fit && !memcmp(q->m + off, src, fit)) did = true; if (fit < n) sim_nontrivial(); if (ok) CHECK(fit == n, "claimed-written", "%s reported success, only %lld fit", what, (long long)fit); else CHECK(fit < n, "failed-without-cause", "%s failed although it fits", what); if (did) { memcpy(q->m + off, src, fit); done = fit; } if (at && !how) CHECK(got == done || (got <= 0 && !ok && !done), "bad-count", "%s reported %ld bytes, %lld were written", what, (long)got, (long long)done); if (fit < n) sim_probe("write cut at the end of the buffer"); }
      if (!at) q->cur += done; sim_faults_enable(false); free(src); sim_faults_enable(true);
    } else if (op == 2 || op == 3) {
      bool at = op == 3; int64_t off = at ? (int64_t)ch(ST_OP, (uint32_t)q->n + 2) : q->cur; if (at && ch(ST_OP, 8) == 7) off = ch(ST_OP, 2) ? -1 - (int64_t)ch(ST_OP, 9) : q->n + ch(ST_OP, 200); sim_faults_enable(false); uint8_t *dst = malloc(n + 1); sim_faults_enable(true); memset(dst, 0x6c, n + 1); zpl_isize got = -7; snprintf(what, sizeof what, "reading %lld bytes at %lld of %lld", (long long)n, (long long)off, (long long)q->n); uint32_t how = ch(ST_OP, 2); zpl_b32 ok;
      if (!at) ok = zpl_file_read(&q->f, dst, n); else if (how) ok = zpl_file_read_at(&q->f, dst, n, off); else ok = zpl_file_read_at_check(&q->f, dst, n, off, &got); sim_ev(what, ok, got);
      int64_t av = off < 0 || off >= q->n ? 0 : n < q->n - off ? n : q->n - off; if (av < n) sim_nontrivial();
      if (off < 0) CHECK(!ok || n == 0, "read-before-start", "%s reported success", what); else { if (av == n) CHECK(ok, "failed-without-cause", "%s failed", what); CHECK(!av || !memcmp(dst, q->m + off, av), "wrong-bytes", "%s delivered other bytes", what); }
      if (at && !how && off >= 0) CHECK(got == av, "bad-count", "%s reported %ld bytes, there are %lld", what, (long)got, (long long)av); for (int64_t i = av; i <= n; i++) CHECK(dst[i] == 0x6c, "touched-more", "%s touched byte %lld of the caller's memory", what, (long long)i);
      if (!at) q->cur += av; sim_faults_enable(false); free(dst); sim_faults_enable(true); if (av < n) sim_probe("read cut at the end");
    } else if (op == 5 || op == 6) {
      static const int64_t xs[] = {0, 1, -1, INT64_MAX, INT64_MIN + 1, 1ll << 40, -(1ll << 40), INT64_MAX - 3}; int64_t off = ch(ST_OP, 3) < 2 ? (int64_t)ch(ST_OP, (uint32_t)q->n + 3) - (ch(ST_OP, 3) == 2 ? q->n : 0) : xs[ch(ST_OP, 8)]; uint32_t w = ch(ST_OP, 4); int64_t base = 0, r; snprintf(what, sizeof what, "seeking by %lld, whence %u, from %lld of %lld", (long long)off, w, (long long)q->cur, (long long)q->n);
      if (w == 0) r = zpl_file_seek(&q->f, off); else if (w == 1) { r = zpl_file_seek_to_end(&q->f); base = q->n; off = 0; } else if (w == 2) { zpl_i64 no = -1; q->f.ops.seek(q->f.fd, off, ZPL_SEEK_WHENCE_END, &no); base = q->n; r = no; } else { r = zpl_file_skip(&q->f, off); base = q->cur; }
      __int128 t = (__int128)base + off; int64_t want = t < 0 ? 0 : t > q->n ? q->n : (int64_t)t; if (t != want) { sim_nontrivial(); sim_probe("seek clamped"); } q->cur = want; sim_ev(what, r, want); CHECK(r == want, "wrong-position", "%s gave %lld, expected %lld", what, (long long)r, (long long)want);
    } else { snprintf(what, sizeof what, "closing"); uint64_t b0 = sim_live_blocks(); zpl_file_error e = zpl_file_close(&q->f); sim_ev(what, e, 0); CHECK(e == ZPL_FILE_ERROR_NONE, "close-failed", "closing gave %d", e); CHECK(sim_live_blocks() < b0, "leak:memory", "closing released nothing"); if (!q->clone) for (int64_t i = 0; i < q->n && q->own; i++) CHECK(q->own[i] == q->m[i], "content-differs", "closing changed the caller's buffer"); free(q->own); __real_free(q->m); q->open = false; continue; }
    verify(q, what); sim_feature(sim_mix(op, sim_mix(q->n > 8 ? 8 + (q->n > 100) : q->n, sim_mix(q->cur == q->n, q->clone * 2 + q->wr))));
  }
  for (int i = 0; i < NS; i++) if (s[i].open) { zpl_file_close(&s[i].f); free(s[i].own); }
  no_leaks(start_blocks, "closing every stream");
}
