// variants: A
#include "common.h"
const char *const scenario_name = "C12";
const char *const scenario_rule = "a run counts when at least one transfer was split, interrupted or refused, or several handles shared a file, and its trace differs from every other run";
#define NP 3
#define NH 4
#define CAP (1u << 20)
static const char *const paths[NP] = {"/w/one", "/w/two.bin", "three"};
typedef struct { bool exists; uint8_t *d; size_t n; } M;
static M m[NP], tmpm[NH];
typedef struct { bool open, rd, wr, app, temp; zpl_file f; M *m; int64_t cur; int path; } H;
static H h[NH];
static uint32_t dseed;
static void need(M *x, size_t n) { if (!x->d) x->d = calloc(1, CAP); if (n > x->n) memset(x->d + x->n, 0, n - x->n); }
static void put(M *x, size_t off, const uint8_t *b, size_t n) { if (!n) return; need(x, off + n); memcpy(x->d + off, b, n); if (off + n > x->n) x->n = off + n; }
static const uint8_t *real_of(H *q, int p, size_t *n) { return q && q->temp ? vfs_fd_data((int)q->f.fd.i, n) : vfs_data(paths[p], n); }
static void same_file(const M *x, const uint8_t *d, size_t n, const char *name, const char *after) {
  if (!x->exists) { CHECK(!d, "file-appeared", "after %s %s exists, it should not", after, name); return; }
  CHECK(d, "file-vanished", "after %s %s is gone", after, name);
  CHECK(n == x->n, "size-differs", "after %s %s holds %zu bytes, expected %zu", after, name, n, x->n);
  if (n && memcmp(d, x->d, n)) { size_t i = 0; while (d[i] == x->d[i]) i++; sim_violation("content-differs", "after %s %s (%zu bytes) differs from the model at byte %zu: %02x, expected %02x", after, name, n, i, d[i], x->d[i]); }
}
static void verify(const char *after) {
  for (int p = 0; p < NP; p++) { size_t n = 0; const uint8_t *d = vfs_data(paths[p], &n); same_file(&m[p], d, n, paths[p], after); }
  for (int i = 0; i < NH; i++) if (h[i].open && h[i].temp) { size_t n = 0; const uint8_t *d = vfs_fd_data((int)h[i].f.fd.i, &n); same_file(h[i].m, d, n, "a temporary file", after); }
}
static uint32_t hard(void) { return sim_fired(F_WRITE_EIO) + sim_fired(F_ENOSPC) + sim_fired(F_READ_EIO) + sim_fired(F_TRUNC) + sim_fired(F_OPEN) + sim_fired(F_ALLOC) + sim_fired(F_TMPFILE); }
static int64_t tell(H *q) { return zpl_file_tell(&q->f); }
// a write of b[0..n) asked at `at` on q took place up to some prefix: find it, apply it to the model
static size_t kmin; // the fewest bytes that explain what is stored now
static size_t landed(H *q, int64_t at, const uint8_t *b, size_t n, const char *what) {
  size_t have = 0; const uint8_t *d = real_of(q, q->path, &have); CHECK(d, "file-vanished", "after %s the file is gone", what);
  size_t off = q->app ? q->m->n : (size_t)at, k = 0;
  while (k < n && off + k < have && d[off + k] == b[k]) k++;
  // a shorter prefix may be all that was transferred when old bytes happen to continue the same way
  for (;; k--) { bool ok = (off + k > q->m->n && k ? off + k : q->m->n) == have; if (ok || !k) break; }
  kmin = k; while (kmin && off + kmin - 1 < q->m->n && q->m->d[off + kmin - 1] == b[kmin - 1]) kmin--;
  put(q->m, off, b, k); return k;
}
static void do_open(H *q) {
  int p = ch(ST_OP, NP); uint32_t how = ch(ST_OP, 9);
  static const uint32_t modes[9] = {ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_READ, ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW, 100, 101, 102};
  uint32_t mode = modes[how]; memset(q, 0, sizeof *q); memset(&q->f, 0x5a, sizeof q->f);
  q->path = p; q->m = &m[p];
  uint32_t h0 = hard(), a0 = sim_fired(F_ALLOC); uint64_t b0 = sim_live_blocks(); int f0 = vfs_open_fds();
  zpl_file_error e;
  if (how == 6) { e = zpl_file_create(&q->f, paths[p]); mode = ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW; }
  else if (how == 7) { e = zpl_file_open(&q->f, paths[p]); mode = ZPL_FILE_MODE_READ; }
  else if (how == 8) { memset(&q->f, 0, sizeof q->f); e = zpl_file_temp(&q->f); mode = ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW; q->temp = true; q->m = &tmpm[q - h]; }
  else e = zpl_file_open_mode(&q->f, mode, paths[p]);
  sim_ev("open", how * 10 + p, e);
  bool refused = hard() != h0;
  if (how == 8) { if (e == ZPL_FILE_ERROR_NONE) { q->m->exists = true; q->m->n = 0; } }
  else if (e == ZPL_FILE_ERROR_NONE || sim_fired(F_ALLOC) != a0) {
    size_t n; bool there = vfs_data(paths[p], &n) != 0;
    if (mode & ZPL_FILE_MODE_WRITE) { if (e == ZPL_FILE_ERROR_NONE || (there && n == 0)) { m[p].exists = true; m[p].n = 0; } }
    else if (mode & ZPL_FILE_MODE_APPEND) { if (!m[p].exists && (e == ZPL_FILE_ERROR_NONE || (there && n == 0))) { m[p].exists = true; m[p].n = 0; } }
    else if (e == ZPL_FILE_ERROR_NONE) CHECK(m[p].exists, "opened-nothing", "opening the missing %s for reading succeeded", paths[p]);
  }
  bool may = how == 8 || (mode & (ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_APPEND)) || m[p].exists;
  if (e != ZPL_FILE_ERROR_NONE) {
    CHECK(refused || !may, "open-failed", "opening %s with mode %u failed (%d) although nothing was refused", paths[p], mode, e);
    no_leaks(b0, "a failed open"); no_fd_leaks(f0, 0, "a failed open"); verify("a failed open"); return;
  }
  q->open = true; q->rd = mode == ZPL_FILE_MODE_READ || (mode & ZPL_FILE_MODE_RW); q->wr = mode != ZPL_FILE_MODE_READ; q->app = mode & ZPL_FILE_MODE_APPEND;
  verify("an open"); q->cur = tell(q);
  CHECK(q->cur == 0 || (q->app && q->cur == (int64_t)q->m->n), "cursor:after-open", "the cursor stands at %lld after opening", (long long)q->cur);
  if (!q->temp) CHECK(!strcmp(zpl_file_name(&q->f), paths[p]), "name", "the file says its name is %s, it was opened as %s", zpl_file_name(&q->f), paths[p]);
  sim_probe(q->app ? "append handle" : q->wr ? "writing handle" : "reading handle");
}
// one very long, mostly empty file: every offset, size and count has to survive in full
typedef struct { int64_t off; uint32_t n, seed; int64_t cut; } X;
static X xs[64]; static int nxs; static int64_t bsize;
static void expect(int64_t off, uint8_t *b, uint32_t n) {
  memset(b, 0, n);
  for (int i = 0; i < nxs; i++) { uint8_t t[4200]; sim_fill(t, xs[i].n, xs[i].seed); for (uint32_t k = 0; k < xs[i].n; k++) { int64_t o = xs[i].off + k; if (o >= off && o < off + (int64_t)n && o < xs[i].cut) b[o - off] = t[k]; } }
}
static int64_t far_off(void) {
  static const int64_t at[] = {1ll << 31, 1ll << 32, 3ll << 31, 5ll << 32, (1ll << 40) + 77, 1ll << 27, 0, 1ll << 36}; int64_t o = at[ch(ST_OP, 8)] + (int64_t)ch(ST_OP, 4000) - 2000;
  uint32_t how = ch(ST_OP, 4); if (how == 3 && nxs) o = xs[ch(ST_OP, nxs)].off + (int64_t)ch(ST_OP, 60) - 30; if (how == 2) o = bsize - (int64_t)ch(ST_OP, 300) + 20; return o < 0 ? 0 : o;
}
static void huge(void) {
  nxs = 0; bsize = 0; zpl_file f; memset(&f, 0x5a, sizeof f); uint64_t b0 = sim_live_blocks(); uint32_t h0 = hard();
  sim_faults_init(FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_READ_SHORT) | FB(F_READ_EINTR) | FB(F_WRITE_EIO) | FB(F_READ_EIO) | FB(F_TRUNC));
  zpl_file_error e = zpl_file_open_mode(&f, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, "/w/long"); sim_ev("open", e, 0); CHECK(e == ZPL_FILE_ERROR_NONE, "open-failed", "creating /w/long failed (%d)", e);
  int64_t cur = 0; uint32_t nops = 1 + ch(ST_OP, 24); char what[160]; sim_nontrivial();
  for (uint32_t k = 0; k < nops && nxs < 60; k++) {
    sim_op(); h0 = hard(); uint32_t op = ch(ST_OP, 8); int64_t off = op == 2 || op == 3 ? cur : far_off(); uint32_t n = 1 + ch(ST_OP, 4000);
    if (op <= 1 || op == 2) { // write at an offset, or at the cursor
      static uint8_t b[4200], was[4200], is[4200]; uint32_t sd = ++dseed; sim_fill(b, n, sd); expect(off, was, n); zpl_isize got = -7; zpl_b32 ok = op == 2 ? zpl_file_write(&f, b, n) : zpl_file_write_at_check(&f, b, n, off, &got);
      snprintf(what, sizeof what, "writing %u bytes at %lld of %lld", n, (long long)off, (long long)bsize); sim_ev(what, ok, got);
      int64_t now = zpl_file_size(&f), end = vfs_size("/w/long"); uint32_t k2 = n;
      CHECK(now == end, "size:wrong", "after %s the size is reported as %lld, the file holds %lld bytes", what, (long long)now, (long long)end);
      if (ok) { if (op != 2) CHECK(got == n, "write:count", "%s succeeded and reports %lld bytes", what, (long long)got); CHECK(end == (off + n > bsize ? off + n : bsize), "size-differs", "after %s the file holds %lld bytes", what, (long long)end); }
      else { CHECK(hard() != h0, "write:failed", "%s failed although nothing was refused", what); vfs_peek("/w/long", off, is, n); for (k2 = 0; k2 < n && is[k2] == b[k2] && off + k2 < end; k2++) ; if (op != 2 && got != -7) { CHECK(got >= 0 && got <= k2, "write:count", "%s failed after %u bytes and reports %lld", what, k2, (long long)got); } CHECK(!memcmp(is + k2, was + k2, n - k2), "content-differs", "%s failed and left something else behind", what); CHECK(end == (off + k2 > bsize ? off + k2 : bsize) || end == bsize, "size-differs", "after %s, which failed, the file holds %lld bytes", what, (long long)end); }
      xs[nxs++] = (X){off, k2, sd, INT64_MAX}; if (k2 < n) { /* the rest was not stored */ } if (end > bsize) bsize = end;
      cur = zpl_file_tell(&f);
      if (op == 2) CHECK(ok ? cur == off + n : cur >= off && cur <= off + k2, "cursor:write", "%s left the cursor at %lld", what, (long long)cur);
    } else if (op == 3 || op == 4 || op == 7) { // read
      static uint8_t b[4200], w[4200]; int64_t av = off < bsize ? bsize - off : 0; if (av > n) av = n; zpl_isize got = -7; memset(b, 0xA5, sizeof b); zpl_b32 ok = op == 3 ? zpl_file_read(&f, b, n) : zpl_file_read_at_check(&f, b, n, off, &got);
      snprintf(what, sizeof what, "reading %u bytes at %lld of %lld", n, (long long)off, (long long)bsize); sim_ev(what, ok, got); int64_t now = zpl_file_tell(&f);
      if (op == 3) got = now - off; expect(off, w, n);
      if (ok) CHECK(got == av, "read:count", "%s succeeded and reports %lld bytes, there are %lld", what, (long long)got, (long long)av); else CHECK(hard() != h0 || !av, "read:failed", "%s failed although nothing was refused", what);
      if (got > 0) { CHECK(got <= av, "read:count", "%s claims %lld bytes, there are %lld", what, (long long)got, (long long)av); CHECK(!memcmp(b, w, (size_t)got), "read:bytes", "%s delivered wrong bytes", what); }
      cur = now;
    } else if (op == 5) { // move
      uint32_t kind = ch(ST_OP, 3); int64_t want = kind == 2 ? bsize : off, got = kind == 0 ? zpl_file_seek(&f, off) : kind == 1 ? zpl_file_skip(&f, off - cur) : zpl_file_seek_to_end(&f); snprintf(what, sizeof what, "moving the cursor from %lld to %lld", (long long)cur, (long long)want); sim_ev(what, got, 0);
      CHECK(got == want, "seek:result", "%s returned %lld", what, (long long)got); cur = zpl_file_tell(&f); CHECK(cur == want, "cursor:seek", "%s left it at %lld", what, (long long)cur);
    } else { // resize
      int64_t to = off; e = zpl_file_truncate(&f, to); snprintf(what, sizeof what, "resizing %lld bytes to %lld", (long long)bsize, (long long)to); sim_ev(what, e, 0);
      if (e == ZPL_FILE_ERROR_NONE) { for (int i = 0; i < nxs; i++) if (xs[i].cut > to) xs[i].cut = to; bsize = to; } else CHECK(hard() != h0, "truncate:failed", "%s failed although nothing was refused", what);
      CHECK(vfs_size("/w/long") == bsize, "size-differs", "after %s the file holds %lld bytes", what, (long long)vfs_size("/w/long")); CHECK(zpl_file_tell(&f) == cur, "cursor:truncate", "%s moved the cursor from %lld to %lld", what, (long long)cur, (long long)zpl_file_tell(&f));
    }
    CHECK(zpl_file_size(&f) == bsize, "size:wrong", "the size is reported as %lld, the file holds %lld bytes", (long long)zpl_file_size(&f), (long long)bsize);
    static uint8_t a1[4200], a2[4200]; expect(off, a1, n); vfs_peek("/w/long", off, a2, n); CHECK(!memcmp(a1, a2, n), "content-differs", "after %s the file differs from the model near %lld", what, (long long)off);
    sim_feature(sim_mix(op, sim_mix(off >> 31, sim_mix(bsize >> 31, hard() != h0))));
  }
  sim_probe("file longer than four gigabytes"); CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close:failed", "closing failed"); no_leaks(b0, "a very long file"); no_fd_leaks(0, 0, "a very long file");
}
// one transfer of many bytes, that the system takes in several pieces
static void mega(void) {
  static const uint32_t ns[] = {65535, 65536, 65537, 131073, 200000, 524289, 1048575, 1048577, 1500000, 2200000}; uint32_t n = ns[ch(ST_OP, 10)] + ch(ST_OP, 40), extra = ch(ST_OP, 3) ? ch(ST_OP, 5000) : 0; char what[160]; zpl_file f; memset(&f, 0x5a, sizeof f); uint64_t b0 = sim_live_blocks();
  sim_faults_init(FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_READ_SHORT) | FB(F_READ_EINTR)); sim_nontrivial(); sim_probe("a transfer of a great many bytes");
  uint8_t *b = malloc(n + 1), *r = malloc(n + 1); sim_fill(b, n, ++dseed); zpl_file_error e = zpl_file_create(&f, "/w/mega"); CHECK(e == ZPL_FILE_ERROR_NONE, "open-failed", "creating a file failed (%d)", e);
  for (uint32_t k = 0, ops = 1 + ch(ST_OP, 3); k < ops; k++) { sim_op(); int64_t off = ch(ST_OP, 2) ? extra : 0, at0 = extra; size_t have = 0; uint32_t how = ch(ST_OP, 2); zpl_isize got = -7; zpl_b32 ok; uint32_t from = ch(ST_OP, 2) ? ch(ST_OP, n) : 0, m2 = n - from; (void)at0;
    snprintf(what, sizeof what, "writing %u bytes at %lld", m2, (long long)off); if (how) { ok = zpl_file_write_at_check(&f, b + from, m2, off, &got); CHECK(got == (zpl_isize)m2, "write:count", "%s reports %lld", what, (long long)got); } else { zpl_file_seek(&f, off); ok = zpl_file_write(&f, b + from, m2); CHECK(zpl_file_tell(&f) == off + m2, "cursor:write", "%s left the cursor at %lld", what, (long long)zpl_file_tell(&f)); } sim_ev(what, ok, got);
    CHECK(ok, "write:failed", "%s failed although nothing was refused", what); const uint8_t *d = vfs_data("/w/mega", &have); CHECK(d && have >= (size_t)off + m2, "size-differs", "after %s the file holds %zu bytes", what, have); if (memcmp(d + off, b + from, m2)) { size_t i = 0; while (d[off + i] == b[from + i]) i++; sim_violation("content-differs", "after %s the file differs at byte %zu", what, i); }
    snprintf(what, sizeof what, "reading %u bytes at %lld of %zu", m2, (long long)off, have); memset(r, 0xA5, n + 1); got = -7; if (ch(ST_OP, 2)) { ok = zpl_file_read_at_check(&f, r, m2, off, &got); CHECK(got == (zpl_isize)m2, "read:count", "%s reports %lld", what, (long long)got); } else { zpl_file_seek(&f, off); ok = zpl_file_read(&f, r, m2); CHECK(zpl_file_tell(&f) == off + m2, "cursor:read", "%s left the cursor at %lld", what, (long long)zpl_file_tell(&f)); } sim_ev(what, ok, got);
    CHECK(ok, "read:failed", "%s failed although nothing was refused", what); for (uint32_t i = 0; i < m2; i++) CHECK(r[i] == b[from + i], "read:bytes", "%s delivered a wrong byte at %u", what, i); CHECK(r[m2] == 0xA5, "read:overrun", "%s wrote past the buffer", what); }
  free(b); free(r); CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close:failed", "closing failed"); no_leaks(b0, "a great transfer"); no_fd_leaks(0, 0, "a great transfer");
}
void scenario(void) {
  if (ch(ST_CFG, 60) == 59) { dseed = 7; mega(); return; }
  if (ch(ST_CFG, 8) == 7) { dseed = 7; huge(); return; }
  memset(m, 0, sizeof m); memset(tmpm, 0, sizeof tmpm); memset(h, 0, sizeof h); dseed = 7;
  sim_faults_init(FB(F_OPEN) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC) | FB(F_READ_SHORT) | FB(F_READ_EINTR) | FB(F_READ_EIO) | FB(F_TRUNC) | FB(F_ALLOC) | FB(F_TMPFILE));
  for (int p = 0; p < NP; p++) if (ch(ST_OP, 2)) { uint8_t t[3000]; uint32_t n = ch(ST_OP, sizeof t); sim_fill(t, n, 50 + p); vfs_write_file(paths[p], t, n); m[p].exists = true; put(&m[p], 0, t, n); }
  if (ch(ST_CFG, 6) == 5) { int k = 1 + (int)ch(ST_CFG, 3); vfs_close_std(k); sim_ev("standard streams are closed", k, 0); sim_probe(k == 1 ? "standard input closed" : "standard streams closed"); }
  bool tight = ch(ST_CFG, 4) == 3;
  uint64_t blocks0 = sim_live_blocks();
  uint32_t nops = 1 + ch(ST_OP, 40), big = ch(ST_CFG, 6) == 5 ? 100000 : 5000;
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); if (tight && ch(ST_OP, 6) == 0) vfs_set_disk(ch(ST_OP, 3) ? ch(ST_OP, 6000) : 0);
    H *q = &h[ch(ST_OP, NH)];
    if (!q->open) { do_open(q); if (!q->open) continue; }
    int sharers = 0; for (int i = 0; i < NH; i++) sharers += h[i].open && h[i].m == q->m; if (sharers > 1) { sim_probe("handles share a file"); sim_nontrivial(); }
    uint32_t h0 = hard(), t0 = sim_fired_total(); int64_t c = q->cur; size_t sz = q->m->n; uint32_t op = ch(ST_OP, 14); char what[160];
    if (op <= 2 || op == 10) { // read, positional read
      bool at = op == 2 || op == 10; uint32_t n = pick_size(ST_OP, 64, big); int64_t off = at ? (ch(ST_OP, 12) == 11 ? -1 - (int64_t)ch(ST_OP, 5) : ch(ST_OP, (uint32_t)sz + 40)) : c;
      uint8_t *b = malloc(n + 1); memset(b, 0xA5, n + 1); zpl_isize got = -7; zpl_b32 ok;
      if (at) ok = op == 10 ? zpl_file_read_at(&q->f, b, n, off) : zpl_file_read_at_check(&q->f, b, n, off, &got); else ok = zpl_file_read(&q->f, b, n);
      snprintf(what, sizeof what, "reading %u bytes at %lld of %zu", n, (long long)off, sz); sim_ev(what, ok, got);
      int64_t now = tell(q); size_t avail = off >= 0 && (size_t)off < sz ? sz - (size_t)off : 0; if (avail > n) avail = n;
      int64_t k2 = op == 2 ? got : at ? (int64_t)(ok ? avail : 0) : now - off;
      if (ok) {
        CHECK(q->rd || !n, "read:not-readable", "%s through a handle opened for writing only succeeded", what);
        CHECK(off >= 0 || !n, "read:negative", "%s succeeded", what);
        CHECK(k2 == (int64_t)avail, "read:count", "%s succeeded and reports %lld bytes, there are %zu", what, (long long)k2, avail);
      } else {
        CHECK(hard() != h0 || !q->rd || off < 0 || !avail, "read:failed", "%s failed although nothing was refused", what);
        CHECK(op == 2 && k2 == -7 ? 1 : k2 >= 0 && k2 <= (int64_t)avail, "read:count", "%s failed and claims %lld bytes of %zu", what, (long long)k2, avail);
        if (k2 < 0) k2 = 0;
      }
      for (int64_t i = 0; i < k2; i++) CHECK(b[i] == q->m->d[off + i], "read:bytes", "%s (%s) delivered a wrong byte at %lld: %02x, expected %02x", what, ok ? "succeeded" : "failed", (long long)i, b[i], q->m->d[off + i]);
      CHECK(b[n] == 0xA5, "read:overrun", "%s wrote past the buffer", what);
      if (at) CHECK(now == c || now == off + k2, "cursor:positional", "%s left the cursor at %lld, it was at %lld", what, (long long)now, (long long)c);
      q->cur = now; free(b);
    } else if (op <= 6) { // write, positional write
      bool at = op >= 5; uint32_t n = pick_size(ST_OP, 64, big); int64_t off = at ? (ch(ST_OP, 12) == 11 ? -1 - (int64_t)ch(ST_OP, 5) : ch(ST_OP, (uint32_t)sz + 80)) : c;
      if (off + n > (int64_t)CAP - 200000 || sz + n > CAP - 200000) continue;
      uint8_t *b = malloc(n ? n : 1); sim_fill(b, n, ++dseed); zpl_isize put_n = -7; zpl_b32 ok;
      if (at) ok = op == 5 ? zpl_file_write_at_check(&q->f, b, n, off, &put_n) : zpl_file_write_at(&q->f, b, n, off); else ok = zpl_file_write(&q->f, b, n);
      snprintf(what, sizeof what, "writing %u bytes at %lld of %zu%s", n, (long long)off, sz, q->app ? " (appending)" : ""); sim_ev(what, ok, put_n);
      int64_t now = tell(q); size_t k2 = kmin = 0; bool could = q->wr && (off >= 0 || q->app);
      if (could) k2 = landed(q, off, b, n, what);
      verify(what);
      if (ok) {
        CHECK(could || !n, "write:impossible", "%s succeeded", what);
        CHECK(k2 == n, "write:lost", "%s reported success, %zu bytes were stored", what, k2);
        if (op == 5) CHECK(put_n == (zpl_isize)n, "write:count", "%s succeeded and reports %lld bytes", what, (long long)put_n);
      } else {
        CHECK(hard() != h0 || !could, "write:failed", "%s failed although nothing was refused", what);
        if (op == 5 && put_n != -7) CHECK(put_n >= (zpl_isize)kmin && put_n <= (zpl_isize)k2, "write:count", "%s failed after %zu bytes and reports %lld", what, k2, (long long)put_n);
      }
      int64_t end = (int64_t)q->m->n;
      if (at) CHECK(now == c || (now >= off + (int64_t)kmin && now <= off + (int64_t)k2) || (q->app && now == end), "cursor:positional", "%s left the cursor at %lld, it was at %lld", what, (long long)now, (long long)c);
      else if (ok) CHECK(now == c + (int64_t)n || (q->app && now == end), "cursor:write", "%s left the cursor at %lld", what, (long long)now);
      else CHECK((now >= c && now <= c + (int64_t)k2) || (q->app && now == end), "cursor:write", "%s failed after %zu bytes and left the cursor at %lld", what, k2, (long long)now);
      q->cur = now; free(b);
    } else if (op == 7) { // seek, skip, seek to end
      uint32_t kind = ch(ST_OP, 3); int64_t want, got;
      if (kind == 0) { want = ch(ST_OP, 10) == 9 ? -(int64_t)1 - ch(ST_OP, 9) : ch(ST_OP, (uint32_t)sz + 100); got = zpl_file_seek(&q->f, want); }
      else if (kind == 1) { int64_t d = (int64_t)ch(ST_OP, 200) - 100; want = c + d; got = zpl_file_skip(&q->f, d); }
      else { want = (int64_t)sz; got = zpl_file_seek_to_end(&q->f); }
      snprintf(what, sizeof what, "moving the cursor from %lld to %lld", (long long)c, (long long)want); sim_ev(what, got, 0);
      int64_t now = tell(q);
      if (want >= 0) { CHECK(got == want, "seek:result", "%s returned %lld", what, (long long)got); CHECK(now == want, "cursor:seek", "%s left it at %lld", what, (long long)now); }
      else CHECK(now == c, "cursor:seek", "%s, which is impossible, left it at %lld", what, (long long)now);
      q->cur = now;
    } else if (op == 8) { int64_t s = zpl_file_size(&q->f); sim_ev("size", s, 0); CHECK(s == (int64_t)sz, "size:wrong", "the size is reported as %lld, the file holds %zu bytes", (long long)s, sz); CHECK(tell(q) == c, "cursor:size", "asking for the size moved the cursor from %lld to %lld", (long long)c, (long long)tell(q)); }
    else if (op == 9) {
      int64_t n = ch(ST_OP, 3) ? ch(ST_OP, (uint32_t)sz + 1) : ch(ST_OP, (uint32_t)sz + 500); if (n > (int64_t)CAP - 200000) n = 10;
      zpl_file_error e = zpl_file_truncate(&q->f, n); snprintf(what, sizeof what, "truncating %zu bytes to %lld", sz, (long long)n); sim_ev(what, e, 0);
      if (e == ZPL_FILE_ERROR_NONE) { CHECK(q->wr, "truncate:read-only", "%s through a read-only handle succeeded", what); need(q->m, (size_t)n); q->m->n = (size_t)n; }
      else CHECK(hard() != h0 || !q->wr, "truncate:failed", "%s failed although nothing was refused", what);
      CHECK(tell(q) == c, "cursor:truncate", "%s moved the cursor from %lld to %lld", what, (long long)c, (long long)tell(q));
    } else if (op == 11 && ch(ST_OP, 2)) { // the file's own seek operation
      int64_t d = (int64_t)ch(ST_OP, (uint32_t)sz + 60) - 30; zpl_seek_whence_type w = (zpl_seek_whence_type[]){ZPL_SEEK_WHENCE_BEGIN, ZPL_SEEK_WHENCE_CURRENT, ZPL_SEEK_WHENCE_END}[ch(ST_OP, 3)]; zpl_i64 at = -77; bool tellme = ch(ST_OP, 4); zpl_b32 ok = q->f.ops.seek(q->f.fd, d, w, tellme ? &at : NULL); int64_t want = d + (w == ZPL_SEEK_WHENCE_BEGIN ? 0 : w == ZPL_SEEK_WHENCE_END ? (int64_t)sz : c);
      snprintf(what, sizeof what, "seeking from %lld to %lld", (long long)c, (long long)want); sim_ev(what, ok, at); CHECK(!!ok == (want >= 0), "seek:result", "%s %s", what, ok ? "reported success" : "failed"); if (ok && tellme) CHECK(at == want, "seek:result", "%s returned %lld", what, (long long)at); q->cur = tell(q); CHECK(q->cur == (ok ? want : c), "cursor:seek", "%s left the cursor at %lld", what, (long long)q->cur);
    } else if (op == 11) { CHECK(tell(q) == c, "cursor:tell", "the cursor moved on its own from %lld to %lld", (long long)c, (long long)tell(q)); }
    else { if (ch(ST_OP, 6) == 5) { sim_faults_enable(false); uint32_t times = 1 + ch(ST_OP, 2); while (times--) zpl_file_dirinfo_refresh(&q->f); sim_faults_enable(true); sim_probe("closed with the folder of the file at hand"); } zpl_file_error e = zpl_file_close(&q->f); sim_ev("close", e, 0); CHECK(e == ZPL_FILE_ERROR_NONE, "close:failed", "closing an open file returned %d", e); q->open = false; if (q->temp) { q->m->exists = false; q->m->n = 0; } }
    if (sim_fired_total() != t0) { sim_nontrivial(); sim_probe(hard() != h0 ? "transfer refused" : "transfer split or interrupted"); }
    verify("an operation"); int nopen = 0; for (int i = 0; i < NH; i++) nopen += h[i].open;
    CHECK(vfs_open_fds() == nopen, "leak:descriptor", "%d handles are open, the process holds %d descriptors", nopen, vfs_open_fds());
    sim_feature(sim_mix(op, sim_mix(q->wr + 2 * q->app + 4 * q->rd, sim_mix(hard() != h0, sim_mix(c > (int64_t)sz, sim_mix(sz > 4096, sharers))))));
  }
  for (int i = 0; i < NH; i++) if (h[i].open) { CHECK(zpl_file_close(&h[i].f) == ZPL_FILE_ERROR_NONE, "close:failed", "closing an open file failed"); h[i].open = false; }
  CHECK(vfs_open_streams() == 0, "leak:memory", "%d streams are left behind although every file is closed", vfs_open_streams()); verify("closing everything"); no_leaks(blocks0, "opening and closing files"); no_fd_leaks(0, 0, "opening and closing files");
}
