// variants: A
#include "common.h"
const char *const scenario_name = "C15";
const char *const scenario_rule = "a run counts when at least one copy met a fault, replaced an older file, or was asked for something impossible, and its trace differs from every other run";
static uint8_t src[400000], old[400000], src2[400000];
// what another process does in the middle of the copy
static struct { int kind; size_t n2, no; bool made; } ev;
static void other(void *u) { (void)u; switch (ev.kind) { case 1: case 2: vfs_write_file("/w/src", src2, ev.n2); break; case 3: vfs_write_file("/w/incoming", src2, ev.n2); vfs_rename("/w/incoming", "/w/src"); break; case 4: if (!vfs_exists("/w/new")) { vfs_write_file("/w/new", old, ev.no); ev.made = true; } break; case 5: vfs_unlink("/w/src"); break; } }
// transfers that are only split or interrupted are not refused: the copy has to carry on
static uint32_t hard(void) { return sim_fired_total() - sim_fired(F_SENDFILE_SHORT) - sim_fired(F_SENDFILE_EINTR) - sim_fired(F_READ_SHORT) - sim_fired(F_READ_EINTR) - sim_fired(F_WRITE_SHORT) - sim_fired(F_WRITE_EINTR); }
// a file of many megabytes, and one that is longer than a single transfer may be
static void large(void) {
  static const size_t S[] = {1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 5, 20000000, 3 << 20}; size_t n = S[ch(ST_OP, 6)]; uint8_t *b = malloc(n); sim_fill(b, n, ch(ST_DATA, 1000)); vfs_write_file("/w/src", b, n); bool older = ch(ST_OP, 2); if (older) vfs_write_file("/w/new", b, n / 2); sim_op(); sim_nontrivial(); sim_faults_enable(false); uint64_t b0 = sim_live_blocks();
  zpl_b32 ok = zpl_fs_copy("/w/src", "/w/new", !older); sim_ev("large copy", ok, (int64_t)n); CHECK(ok, "failed-without-cause", "copying %zu bytes failed although nothing was refused", n); size_t h; const uint8_t *q = vfs_data("/w/new", &h); CHECK(q && h == n && !memcmp(q, b, n), "incomplete", "copying %zu bytes reported success, the destination holds %lld bytes%s", n, q ? (long long)h : -1ll, q && h == n ? " that differ" : ""); q = vfs_data("/w/src", &h); CHECK(q && h == n && !memcmp(q, b, n), "source-harmed", "copying %zu bytes changed the source", n);
  free(b); no_leaks(b0, "copying a large file"); no_fd_leaks(0, 0, "copying a large file"); sim_probe("large file copied"); sim_feature(n); }
void scenario(void) {
  enum { S_FILE, S_MISSING, S_DIR, S_SYM, S_NODIR, S_N }; static const char *sp[] = {"/w/src", "/w/none", "/w/dir", "/w/srclink", "/w/nodir/src"};
  enum { D_NEW, D_OLD, D_DIR, D_RO, D_NODIR, D_SELF, D_HARD, D_SYMSELF, D_SYMOLD, D_N }; static const char *dp[] = {"/w/new", "/w/old", "/w/dir", "/w/ro", "/w/nodir/x", "/w/src", "/w/srchard", "/w/srclink", "/w/oldlink"};
  sim_faults_init(FB(F_OPEN) | FB(F_STAT) | FB(F_SENDFILE_SHORT) | FB(F_SENDFILE_ERR) | FB(F_SENDFILE_EINTR) | FB(F_TRUNC) | FB(F_READ_SHORT) | FB(F_READ_EINTR) | FB(F_READ_EIO) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC) | FB(F_ALLOC) | FB(F_CLOSE)); maybe_no_stdin();
  if (!ch(ST_CFG, 500)) { large(); return; }
  bool tight = ch(ST_CFG, 4) == 3;
  vfs_mkdirs("/w/dir"); vfs_write_file("/w/ro", "readonly", 8); vfs_set_readonly("/w/ro", true); vfs_write_file("/w/keep", "keep", 4);
  uint32_t nops = 1 + ch(ST_OP, 4);
  for (uint32_t k = 0; k < nops; k++) {
    sim_op();
    size_t n = pick_size(ST_OP, 300, ch(ST_OP, 8) == 7 ? 380000 : 20000), no = ch(ST_OP, 3) == 0 ? n : pick_size(ST_OP, 300, 20000);
    if (!ch(ST_OP, 16)) { n = 90000 + ch(ST_OP, 290000); sim_probe("a longer file"); }
    sim_fill(src, n, 11 + k); sim_fill(old, no, 500 + k);
    vfs_unlink("/w/src"); vfs_unlink("/w/srchard"); vfs_unlink("/w/srclink"); vfs_unlink("/w/oldlink"); vfs_unlink("/w/new");
    vfs_write_file("/w/src", src, n); bool hl = ch(ST_OP, 2); if (hl) vfs_link("/w/src", "/w/srchard"); vfs_symlink("/w/src", "/w/srclink"); vfs_write_file("/w/old", old, no); vfs_symlink("/w/old", "/w/oldlink");
    int s = ch(ST_OP, 3) < 2 ? S_FILE : ch(ST_OP, S_N), d = ch(ST_OP, 3) < 2 ? (int)ch(ST_OP, 2) : (int)ch(ST_OP, D_N); bool fe = ch(ST_OP, 3) == 2;
    if (s == S_SYM && d == D_SYMSELF) d = D_OLD; if (d == D_HARD && !hl) d = D_SELF;
    bool exists = d != D_NEW && d != D_NODIR, same = (d == D_SELF || d == D_HARD || d == D_SYMSELF) && (s == S_FILE || s == S_SYM);
    bool can = (s == S_FILE || s == S_SYM) && d != D_DIR && d != D_RO && d != D_NODIR && !(fe && exists) && !same;
    if (tight) vfs_set_disk(ch(ST_OP, (uint32_t)n + 2));
    static const unsigned modes[] = {0644, 0600, 0755, 0444, 0640, 0777, 0400}; unsigned mode = modes[ch(ST_OP, 7)]; vfs_set_perm("/w/src", mode);
    memset(&ev, 0, sizeof ev); sim_event_at(-1, 0, 0);
    if ((s == S_FILE || s == S_SYM) && d <= D_OLD && ch(ST_OP, 4) == 3) { ev.kind = 1 + (int)ch(ST_OP, 5); ev.no = no; memcpy(src2, src, n);
      if (ev.kind == 1) ev.n2 = ch(ST_OP, (uint32_t)n + 1); // cut short
      if (ev.kind == 2) { ev.n2 = n + 1 + ch(ST_OP, 5000); sim_fill(src2 + n, ev.n2 - n, 77); } // appended to
      if (ev.kind == 3) { ev.n2 = ch(ST_OP, 2) ? n : pick_size(ST_OP, 300, 20000); sim_fill(src2, ev.n2, 900 + k); } // replaced
      sim_event_at(1 + (int)ch(ST_OP, 9), other, 0); }
    uint64_t b0 = sim_live_blocks(); uint32_t t0 = hard(), s0 = sim_fired_total();
    char what[160]; snprintf(what, sizeof what, "copying %s (%zu bytes) to %s%s", sp[s], n, dp[d], fe ? " unless it exists" : "");
    zpl_b32 ok = zpl_fs_copy(sp[s], dp[d], fe); sim_event_at(0, 0, 0); sim_ev(what, ok, 0); vfs_set_disk(-1); bool raced = sim_event_ran();
    bool calm = hard() == t0 && !raced; if (raced) sim_nontrivial(); if (sim_fired_total() != s0 || !can || d == D_OLD) sim_nontrivial();
    no_leaks(b0, what); no_fd_leaks(0, 0, what);
    size_t h = 0; const uint8_t *q = vfs_data("/w/src", &h);
    if (raced && (ev.kind <= 3 || ev.kind == 5)) CHECK(ev.kind == 5 ? !q : q && h == ev.n2 && (!h || !memcmp(q, src2, h)), "source-harmed", "%s: the source changed by another process meanwhile is not what that process made it", what);
    else CHECK(q && h == n && (!n || !memcmp(q, src, n)), "source-harmed", "%s: the source now %s", what, !q ? "is gone" : h != n ? "has another size" : "has other bytes");
    q = vfs_data("/w/srchard", &h); if (!raced && hl) CHECK(q && h == n && vfs_nlink("/w/src") == 2, "source-harmed", "%s: the source's other name changed", what);
    q = vfs_data("/w/keep", &h); CHECK(q && h == 4 && !memcmp(q, "keep", 4), "other-file", "%s changed another file", what);
    CHECK(vfs_type("/w/none") == 0 && vfs_type("/w/nodir") == 0, "invented", "%s created something", what);
    q = vfs_data("/w/ro", &h); CHECK(q && h == 8 && !memcmp(q, "readonly", 8), "read-only-changed", "%s changed a read-only file", what);
    bool dst_old = d == D_OLD || d == D_SYMOLD;
    if (ok) {
      CHECK(s == S_FILE || s == S_SYM, "success-without-source", "%s reported success", what);
      CHECK(!(fe && exists), "overwrote", "%s reported success", what);
      q = vfs_data(dp[d], &h);
      if (raced && ev.kind <= 3) { CHECK(q && ((h == n && (!n || !memcmp(q, src, n))) || (h == ev.n2 && (!h || !memcmp(q, src2, h)))), "incomplete", "%s reported success while another process %s the source: the destination holds %lld bytes, neither what it was nor what it became (%zu bytes)", what, ev.kind == 1 ? "cut short" : ev.kind == 2 ? "appended to" : "replaced", q ? (long long)h : -1ll, ev.n2); sim_probe("the source changed meanwhile"); }
      else if (raced && ev.kind == 4 && ev.made && fe) CHECK(0, "overwrote", "%s reported success although another process had just created it", what);
      else CHECK(q && h == n && (!n || !memcmp(q, src, n)), "incomplete", "%s reported success, the destination holds %lld bytes%s", what, q ? (long long)h : -1ll, q && h == n ? " that differ" : "");
      if (d == D_NEW && !raced) CHECK(vfs_perm(dp[d]) == (mode & ~022u), "permissions", "%s: the source has permissions %o, the new file %o", what, mode, vfs_perm(dp[d]));
      sim_probe(sim_fired_total() == s0 ? "copied" : "copied under faults"); if (dst_old && no > n) sim_probe("replaced a longer file");
    } else {
      CHECK(!calm || !can, "failed-without-cause", "%s failed although nothing was refused", what); sim_probe(calm ? "refused" : "failed under faults");
      if (fe && exists && dst_old) { q = vfs_data("/w/old", &h); CHECK(q && h == no && (!no || !memcmp(q, old, no)), "overwrote", "%s failed, yet the destination changed", what); }
      if (s == S_MISSING || s == S_NODIR) { if (d == D_NEW) CHECK(!vfs_exists(dp[d]), "created-for-missing-source", "%s failed, yet the destination was created", what);
        if (dst_old) { q = vfs_data("/w/old", &h); CHECK(q && h == no && (!no || !memcmp(q, old, no)), "destroyed-for-missing-source", "%s failed, yet the destination changed", what); } }
      if (raced && ev.kind == 4 && ev.made && fe) { q = vfs_data("/w/new", &h); CHECK(q && h == no && (!no || !memcmp(q, old, no)), "overwrote", "%s failed, yet it changed the file another process had just created", what); sim_probe("another process created it first"); }
      // what a failed copy leaves in a new destination is the start of the source, never anything else
      if (d == D_NEW && !raced && (q = vfs_data(dp[d], &h)) && h) CHECK(h <= n && !memcmp(q, src, h), "garbage", "%s failed and left %zu bytes that are not the source's", what, h);
    }
    if (!dst_old) { q = vfs_data("/w/old", &h); CHECK(q && h == no && (!no || !memcmp(q, old, no)), "other-file", "%s changed another file", what); }
    sim_feature(sim_mix(s * 100 + d * 4 + fe * 2 + ok, sim_mix(calm, sim_mix(n > no, n == 0))));
  }
}
