// variants: A
#include "common.h"
const char *const scenario_name = "C17";
const char *const scenario_rule = "a run counts when at least one question came after a replacement, deletion, touch, clock jump or a failing stat, and its trace differs from every other run";
#define NF 3
#define NH 4
void scenario(void) {
  static const char *paths[NF] = {"/w/a", "b", "/w/c"};
  static struct { bool open, asked; zpl_file f; int p; uint64_t last; bool temp; } h[NH]; memset(h, 0, sizeof h);
  sim_faults_init(FB(F_STAT) | FB(F_ALLOC) | FB(F_OPEN)); maybe_no_stdin();
  for (int i = 0; i < NF; i++) if (ch(ST_OP, 4)) vfs_write_file(paths[i], "x", 1);
  if (ch(ST_OP, 3) == 2) { vfs_write_file("/w/real", "r", 1); vfs_unlink("/w/c"); vfs_symlink("/w/real", "/w/c"); vfs_set_mtime("/w/real", 1234567890); sim_probe("a name that points to another file"); }
  uint64_t b0 = sim_live_blocks(); uint32_t nops = 1 + ch(ST_OP, 40);
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); int hi = ch(ST_OP, NH), p = ch(ST_OP, NF); uint32_t op = ch(ST_OP, 12);
    if (!h[hi].open && op < 6) {
      memset(&h[hi].f, 0x33, sizeof h[hi].f);
      zpl_file_error e; if (ch(ST_OP, 8) == 7) { e = zpl_file_temp(&h[hi].f); h[hi].temp = true; } else { e = zpl_file_open_mode(&h[hi].f, ch(ST_OP, 2) ? ZPL_FILE_MODE_READ : ZPL_FILE_MODE_APPEND, paths[p]); h[hi].temp = false; }
      sim_ev("open", p, e); if (e == ZPL_FILE_ERROR_NONE) { h[hi].open = true; h[hi].asked = false; h[hi].p = p; h[hi].last = 0; } continue;
    }
    switch (op) {
    case 0: case 1: case 2: case 3: {
      uint32_t s0 = sim_fired(F_STAT); bool r = zpl_file_has_changed(&h[hi].f); bool failed = sim_fired(F_STAT) != s0;
      if (h[hi].temp) { CHECK(!r, "temporary-changed", "a temporary file is reported as changed"); break; }
      int64_t m = vfs_mtime(paths[h[hi].p]); uint64_t now = failed || m < 0 ? (failed || !vfs_exists(paths[h[hi].p]) ? 0 : (uint64_t)m) : (uint64_t)m;
      sim_ev("has changed", h[hi].p, r); if (failed || !now) sim_nontrivial();
      if (!h[hi].asked) { if (now) CHECK(r, "first-question", "%s: the first question was answered with no", paths[h[hi].p]); sim_probe("first question"); }
      else if (now != h[hi].last) { CHECK(r, "change-missed", "%s: its time went from %llu to %llu, reported as unchanged", paths[h[hi].p], (unsigned long long)h[hi].last, (unsigned long long)now); sim_probe(now > h[hi].last ? "newer" : "older"); sim_nontrivial(); }
      else { CHECK(!r, "change-invented", "%s: its time is still %llu, reported as changed", paths[h[hi].p], (unsigned long long)now); sim_probe("unchanged"); }
      h[hi].asked = true; h[hi].last = now; break; }
    case 4: { uint32_t s0 = sim_fired(F_STAT); uint64_t t = zpl_fs_last_write_time(paths[p]); bool failed = sim_fired(F_STAT) != s0; bool there = vfs_exists(paths[p]); int64_t m = vfs_mtime(paths[p]);
      sim_ev("last write time", p, (int64_t)t); if (failed || !there) { CHECK(t == 0, "time-of-nothing", "%s cannot be examined, its last write time is reported as %llu", paths[p], (unsigned long long)t); sim_nontrivial(); } else CHECK(t == (uint64_t)m, "time-wrong", "%s was last written at %lld, reported as %llu", paths[p], (long long)m, (unsigned long long)t); break; }
    case 5: if (h[hi].open) { zpl_file_close(&h[hi].f); h[hi].open = false; sim_ev("close", hi, 0); } break;
    case 6: vfs_unlink(paths[p]); sim_ev("unlink", p, 0); break;
    case 7: vfs_write_file("/w/tmp", "yy", 2); vfs_rename("/w/tmp", paths[p]); sim_ev("replace", p, 0); break;
    case 8: vfs_write_file(paths[p], "zzz", ch(ST_OP, 4)); sim_ev("rewrite", p, 0); break;
    case 9: if (vfs_exists(paths[p])) { static const int64_t ts[] = {1, 1700000000, 4000000000ll, 1699999999, 2147483648ll, 1099511627776ll}; vfs_set_mtime(paths[p], ts[ch(ST_OP, 6)]); sim_ev("touch", p, 0); } break;
    case 10: sim_time_advance((uint64_t)ch(ST_OP, 3) * 700000000ull); break;
    default: sim_real_ns = ch(ST_OP, 2) ? sim_real_ns + 3600000000000ull * ch(ST_OP, 50) : sim_real_ns - 1000000000ull * ch(ST_OP, 100000); sim_fault_count(F_CLOCK_JUMP); sim_ev("clock jump", 0, 0); break;
    }
    sim_feature(sim_mix(op, sim_mix(h[hi].asked, h[hi].last & 3)));
  }
  for (int i = 0; i < NH; i++) if (h[i].open) zpl_file_close(&h[i].f);
  no_leaks(b0, "asking about files"); no_fd_leaks(0, 0, "asking about files");
}
