// variants: A
#include "common.h"
#include <errno.h>
const char *const scenario_name = "C16";
const char *const scenario_rule = "a run counts when at least one move or removal crashed, was refused, raced with another process or met an impossible request, and its trace differs from every other run";
static uint8_t src[5000], old[5000]; static size_t n, no;
static const char *dst; static int evk;
static bool holds(const char *p, const uint8_t *d, size_t m) { size_t h; const uint8_t *q = vfs_data(p, &h); return q && h == m && (!m || !memcmp(q, d, m)); }
static void other(void *u) { (void)u; if (evk == 0) { if (!vfs_exists(dst)) vfs_write_file(dst, old, no); } else if (evk == 1) vfs_unlink(dst); }
void scenario(void) {
  sim_faults_init(FB(F_LINK) | FB(F_UNLINK) | FB(F_RMDIR) | FB(F_STAT) | FB(F_ALLOC) | FB(F_OPEN) | FB(F_WRITE_EIO) | FB(F_WRITE_SHORT) | FB(F_ENOSPC) | FB(F_READ_EIO) | FB(F_SENDFILE_SHORT) | FB(F_SENDFILE_ERR));
  vfs_mkdirs("/w/full/x"); vfs_write_file("/w/keep", "keep", 4); vfs_special("/w/sock", 0140755); vfs_special("/w/blk", 060660); vfs_special("/w/chr", 020660); vfs_special("/w/fifo", 010660); vfs_symlink("/w/gone", "/w/dangling"); vfs_symlink("/w/full", "/w/dirlink"); vfs_symlink("/w/keep", "/w/filelink"); vfs_write_file("/w/secret", "s", 1); vfs_set_perm("/w/secret", 0); vfs_mkdirs("/w/secdir"); vfs_set_perm("/w/secdir", 0);
  uint32_t nops = 1 + ch(ST_OP, 5);
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); uint32_t op = ch(ST_OP, 5); uint32_t t0 = sim_fired_total(); char what[160];
    uint64_t b0 = sim_live_blocks(); sim_event_at(-1, 0, 0);
    n = pick_size(ST_OP, 60, 4900); no = pick_size(ST_OP, 60, 4900); sim_fill(src, n, 21 + k * 2); sim_fill(old, no, 22 + k * 2);
    if (op <= 2) {
      static const char *dp[] = {"/w/new", "/w/sub/new", "/w/old", "/w/src", "/w/nodir/new", "/w/full", "/w/dangling", "/w/hard", ""};
      vfs_unlink("/w/src"); vfs_unlink("/w/new"); vfs_unlink("/w/hard"); vfs_mkdirs("/w/sub"); vfs_unlink("/w/sub/new");
      vfs_write_file("/w/src", src, n); vfs_write_file("/w/old", old, no); if (ch(ST_OP, 2)) vfs_link("/w/src", "/w/hard");
      const char *s = ch(ST_OP, 8) == 7 ? "/w/none" : "/w/src"; int di = ch(ST_OP, 3) < 2 ? (int)ch(ST_OP, 2) : (int)ch(ST_OP, 9); dst = dp[di];
      if (di == 7 && !vfs_exists(dst)) di = 1, dst = dp[1];
      bool can = !strcmp(s, "/w/src") && di < 2;
      snprintf(what, sizeof what, "moving %s (%zu bytes) to %s", s, n, dst);
      uint32_t mode = ch(ST_OP, 3); evk = 0;
      if (mode == 1) { evk = di < 2 || di == 2 ? (int)ch(ST_OP, 2) : 0; if (di < 2) evk = 0; if (di < 3) sim_event_at(1 + ch(ST_OP, 4), other, 0); }
      bool crashed = false; zpl_b32 ok = 0;
      if (mode == 2) { sim_crash_at = 1 + ch(ST_FAULT, 5); sim_crash_armed = 1; if (!setjmp(sim_crash_jmp)) { ok = zpl_fs_move(s, dst); sim_crash_armed = 0; } else { crashed = true; vfs_process_died(); } }
      else ok = zpl_fs_move(s, dst);
      sim_event_at(0, 0, 0); sim_ev(what, ok, crashed); bool calm = sim_fired_total() == t0 && !crashed && !sim_event_ran();
      if (!calm || !can) sim_nontrivial();
      bool at_s = holds("/w/src", src, n), at_d = holds(dst, src, n) && strcmp(dst, "/w/src"), raced = sim_event_ran();
      CHECK(holds("/w/keep", (const uint8_t *)"keep", 4), "other-file", "%s changed another file", what);
      if (strcmp(s, "/w/src")) { CHECK(!ok || crashed, "moved-nothing", "%s reported success", what); CHECK(at_s, "other-file", "%s changed another file", what); }
      CHECK(at_s || (at_d && di < 3), "data-lost", "%s%s: the bytes are under neither name", what, crashed ? " died half way" : "");
      // the old content of an existing destination survives
      if (di == 2 && !(raced && evk == 1)) CHECK(holds("/w/old", old, no), "overwrote", "%s%s overwrote the destination", what, crashed ? " died half way and" : "");
      if (raced && evk == 0 && di < 2 && !at_d) CHECK(holds(dst, old, no), "overwrote", "%s overwrote a file another process had just created", what);
      if (di >= 2) { if (!(di == 2 && raced)) CHECK(crashed || !ok || (di == 3 && at_s), "moved-onto-existing", "%s reported success", what); }
      if (!crashed && ok && di != 3) {
        CHECK(!vfs_exists("/w/src"), "old-name-stays", "%s reported success, the old name still exists", what); CHECK(at_d, "wrong-bytes", "%s reported success, the new name holds something else", what);
        if (raced && evk == 0 && di < 2) sim_probe("raced and won"); sim_probe("moved");
      }
      if (!crashed && !ok) { CHECK(at_s, "failed-but-gone", "%s failed, the old name no longer has the bytes", what); CHECK(!calm || !can, "failed-without-cause", "%s failed although nothing was refused", what); sim_probe(raced ? "lost a race" : calm ? "impossible move refused" : "move refused"); }
      if (crashed) { sim_probe(at_s && at_d ? "died with both names" : at_s ? "died before" : "died after"); }
      if (!crashed) { no_leaks(b0, what); no_fd_leaks(0, 0, what); } else break;   // a dead process does nothing more
    } else if (op == 3) {
      static const char *rp[] = {"/w/old", "/w/none", "/w/emptydir", "/w/full", "/w/dangling2", "/w/filelink2", "/w/hard2", "", "/w/old/x"};
      vfs_write_file("/w/old", old, no); vfs_mkdirs("/w/emptydir"); vfs_symlink("/w/gone", "/w/dangling2"); vfs_symlink("/w/keep", "/w/filelink2"); vfs_link("/w/keep", "/w/hard2");
      int ri = ch(ST_OP, 3) < 2 ? (int)ch(ST_OP, 3) : (int)ch(ST_OP, 9); uint64_t fs0 = vfs_hash(); snprintf(what, sizeof what, "removing %s", rp[ri]);
      bool can = ri == 0 || ri == 4 || ri == 5 || ri == 6, dir = ri == 2;
      uint32_t race = ch(ST_OP, 4); if (race == 3 && ri == 0) { dst = "/w/old"; evk = 1; sim_event_at(1 + ch(ST_OP, 3), other, 0); }
      zpl_b32 ok = zpl_fs_remove(rp[ri]); sim_event_at(0, 0, 0); sim_ev(what, ok, 0);
      bool calm = sim_fired_total() == t0, raced = sim_event_ran(); extern int sim_lstat(const char *, void *); char st[512]; sim_faults_enable(false); bool there = sim_lstat(rp[ri], st) == 0; sim_faults_enable(true);
      if (!calm || raced || !can) sim_nontrivial();
      CHECK(holds("/w/keep", (const uint8_t *)"keep", 4) && vfs_type("/w/full/x") == 2, "other-file", "%s changed something else", what);
      if (ok) { CHECK(can || dir, "removed-nothing", "%s reported success", what); CHECK(!there, "still-there", "%s reported success, the name is still there", what); sim_probe("removed"); }
      else { CHECK(raced || vfs_hash() == fs0, "failed-but-gone", "%s failed, yet something is gone", what); CHECK(!calm || raced || !can, "failed-without-cause", "%s failed although nothing was refused", what); sim_probe(raced ? "removed by another first" : "removal refused"); }
      no_leaks(b0, what); no_fd_leaks(0, 0, what);
    } else {
      static const char *qp[] = {"/w/keep", "/w/full", "/w/none", "/w/sock", "/w/blk", "/w/chr", "/w/fifo", "/w/dangling", "/w/dirlink", "/w/filelink", "/w/keep/x", "/w/full/", "", ".", "/", "keep", "full/../keep", "/w/secret", "/w/secdir"};
      static const int qt[] = {1, 2, 0, 4, 4, 4, 4, 0, 2, 1, 0, 2, 0, 2, 2, 1, 1, 1, 2};
      int qi = ch(ST_OP, 19); bool ex = zpl_fs_exists(qp[qi]); snprintf(what, sizeof what, "asking about \"%s\"", qp[qi]); bool calm0 = sim_fired_total() == t0;
      uint8_t t = zpl_fs_get_type(qp[qi]); bool calm = sim_fired_total() == t0; sim_ev(what, ex, t);
      CHECK(ex == (qt[qi] != 0) || (!calm0 && !ex), "exists-wrong", "%s: reported to %s", what, ex ? "exist" : "not exist");
      int want = qt[qi] == 1 ? ZPL_DIR_TYPE_FILE : qt[qi] == 2 ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_UNKNOWN;
      if (qt[qi] == 4) CHECK(t != ZPL_DIR_TYPE_FOLDER, "type-wrong", "%s: neither a file nor a folder, reported as a folder", what);
      else CHECK(t == want || (!calm && t == ZPL_DIR_TYPE_UNKNOWN), "type-wrong", "%s: reported as type %d, it is %d", what, t, want);
      if (qi > 1) sim_nontrivial();
    }
    sim_feature(sim_mix(op, sim_mix(sim_fired_total() - t0, vfs_hash() % 64)));
  }
}
