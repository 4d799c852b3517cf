// variants: A
#include "common.h"
const char *const scenario_name = "C13";
const char *const scenario_rule = "a run counts when at least one whole-file write was interrupted, cut short, refused or hit a full disk, or replaced an older file, and its trace differs from every other run";
static uint8_t buf[1 << 20];
void scenario(void) {
  static const char *paths[] = {"/w/a.bin", "/w/sub/b.txt", "rel.dat", "/w/nodir/x", "/w/dir", "/w/ro.bin", "/w/a.bin/x", ""};
  vfs_mkdirs("/w/sub"); vfs_mkdirs("/w/dir");
  uint8_t keep[777]; sim_fill(keep, sizeof keep, 5); vfs_write_file("/w/keep", keep, sizeof keep);
  vfs_write_file("/w/ro.bin", "readonly", 8); extern void vfs_set_readonly(const char *, bool); vfs_set_readonly("/w/ro.bin", true);
  sim_faults_init(FB(F_OPEN) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC) | FB(F_ALLOC) | FB(F_CLOSE)); maybe_no_stdin();
  bool small_disk = ch(ST_CFG, 4) == 3;
  uint32_t nops = 1 + ch(ST_OP, 4);
  for (uint32_t k = 0; k < nops; k++) {
    sim_op();
    const char *path = paths[ch(ST_OP, 4) < 3 ? ch(ST_OP, 3) : ch(ST_OP, 8)];
    uint32_t pre = ch(ST_OP, 5);
    bool valid = strcmp(path, "/w/nodir/x") && strcmp(path, "/w/dir") && strcmp(path, "/w/ro.bin") && strcmp(path, "/w/a.bin/x") && *path;
    if (valid && pre == 1) vfs_unlink(path);
    if (valid && pre == 2) { sim_fill(buf, 70000, 99 + k); vfs_write_file(path, buf, ch(ST_OP, 70000)); sim_probe("older file present"); }
    uint32_t n = pick_size(ST_OP, 300, ch(ST_OP, 8) == 7 ? 900000 : 70000);
    sim_fill(buf, n, 1000 + k);
    uint8_t copy0 = n ? buf[n - 1] : 0;
    if (small_disk) vfs_set_disk(ch(ST_OP, 2) ? ch(ST_OP, n + 2) : ch(ST_OP, 2000));
    zpl_file_error err0 = ch(ST_OP, 2) ? ZPL_FILE_ERROR_NONE : (zpl_file_error)0x77, err = err0; bool want_err = ch(ST_OP, 3) != 2;
    uint64_t b0 = sim_live_blocks(); int f0 = vfs_open_fds(); uint32_t fired0 = sim_fired_total();
    sim_ev("write_contents", n, (int64_t)sim_hash(path, strlen(path)) & 0xffff);
    uint64_t opens0 = sim_fired(F_OPEN); uint32_t closes0 = sim_fired(F_CLOSE);
    zpl_b32 ok = zpl_file_write_contents(path, buf, n, want_err ? &err : NULL);
    sim_ev("  result", ok, err);
    bool faulted = sim_fired_total() != fired0; if (faulted || pre == 2) sim_nontrivial();
    no_leaks(b0, "a whole-file write"); no_fd_leaks(f0, 0, "a whole-file write");
    CHECK(!n || buf[n - 1] == copy0, "input-changed", "the caller's buffer was changed");
    size_t have = 0; const uint8_t *d = vfs_data(path, &have);
    if (ok) {
      sim_probe(faulted ? "succeeded under faults" : "succeeded");
      // the tail of the data was lost when the descriptor was closed, and close said so
      if (sim_fired(F_CLOSE) != closes0) CHECK(!(d && have < n && !memcmp(d, buf, have)), "close-error-hidden", "write_contents of %u bytes to %s reported success although close failed and the file holds only %zu bytes", n, path, have);
      CHECK(d && have == n && !memcmp(d, buf, n), "success-but-different", "write_contents of %u bytes to %s reported success, the file holds %lld bytes%s", n, path, d ? (long long)have : -1ll, d && have == n ? " that differ" : "");
    } else {
      sim_probe(sim_fired(F_OPEN) != opens0 ? "open refused" : faulted ? "failed under faults" : "failed without fault");
      if (want_err) CHECK(err != ZPL_FILE_ERROR_NONE && (int)err != 0x77, "failure-without-code", "write_contents of %u bytes to %s reported failure but left the error code as it was or at success", n, path);
      CHECK(faulted || !valid, "failure-without-cause", "write_contents of %u bytes to %s failed although nothing was refused", n, path);
    }
    if (small_disk) vfs_set_disk(-1);
    const uint8_t *kd = vfs_data("/w/keep", &have); CHECK(kd && have == sizeof keep && !memcmp(kd, keep, have), "other-file", "another file changed");
    sim_feature(sim_mix(ok, sim_mix(err, sim_mix(faulted, n > 4096))));
  }
}
