// variants: A
#include "common.h"
// Commands print generated output into a simulated pipe; the capture calls run unchanged.
const char *const scenario_name = "C32";
const char *const scenario_rule = "a run counts when a command's output is captured past a buffer's end, whole, or under a failing start, read or allocation, and its trace differs from every other run";
static uint8_t *out[4]; static size_t outn[4]; static char cmd[4][40];
static void gen(int k) {
  outn[k] = pick_size(ST_OP, 12, 3000); out[k] = malloc(outn[k] + 1); bool zeros = !ch(ST_OP, 6);
  sim_fill(out[k], outn[k], ch(ST_DATA, 1u << 20)); for (size_t i = 0; i < outn[k]; i++) { if (!zeros && !out[k][i]) out[k][i] = 0xff; if (zeros && out[k][i] < 40) out[k][i] = 0; }
  out[k][outn[k]] = 0; snprintf(cmd[k], sizeof cmd[k], "tool --page %d | sort", k); vfs_set_command(cmd[k], out[k], outn[k]);
}
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC) | FB(F_POPEN) | FB(F_READ_EINTR) | FB(F_READ_EIO)); sim_faults_enable(false);
  uint64_t b0 = sim_live_blocks(); int fds = vfs_open_fds(), dirs = vfs_open_dirs(), n = 1 + (int)ch(ST_OP, 3), calls = 1 + (int)ch(ST_OP, 8); char what[200];
  for (int i = 0; i < n; i++) gen(i);
  zpl_string keep[8]; int kept_cmd[8], nk = 0;
  for (int c = 0; c < calls; c++) {
    sim_op(); int k = (int)ch(ST_OP, (uint32_t)n); const size_t N = outn[k]; uint32_t f0 = sim_fired_total(); int closed0 = vfs_pclosed();
    if (ch(ST_OP, 2)) {
      size_t cap = ch(ST_OP, 3) ? pick_size(ST_OP, (uint32_t)N + 2, 4000) : N + ch(ST_OP, 3) - (N ? ch(ST_OP, 2) : 0); uint8_t *b = malloc(cap + 8); memset(b, 0x5C, cap + 8);
      snprintf(what, sizeof what, "capturing %zu bytes into a buffer of %zu", N, cap); sim_ev("buffer", (int64_t)N, (int64_t)cap);
      sim_faults_enable(true); zpl_u32 r = zpl_system_command(cmd[k], cap, (char *)b); sim_faults_enable(false); sim_ev("result", r, 0);
      for (int i = 0; i < 8; i++) CHECK(b[cap + (size_t)i] == 0x5C, "buffer-overrun", "%s wrote %d bytes behind it", what, i + 1);
      size_t m = N < cap ? N : cap;
      if (r) { CHECK(!memcmp(b, out[k], m), "output-differs", "%s stored other bytes than the command printed", what); for (size_t i = m + 1; i < cap; i++) CHECK(b[i] == 0x5C, "buffer-touched", "%s changed byte %zu although only %zu were printed", what, i, m); if (N > cap) { sim_probe("more output than room"); sim_nontrivial(); } }
      else { CHECK(sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); sim_nontrivial(); sim_probe("capture refused"); }
      CHECK(sim_live_blocks() == b0 + (uint64_t)nk, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - b0) - nk); free(b);
    } else {
      snprintf(what, sizeof what, "capturing %zu bytes into a string", N); sim_ev("string", (int64_t)N, 0);
      sim_faults_enable(true); zpl_string s = zpl_system_command_str(cmd[k], ALLOC); sim_faults_enable(false); sim_ev("result", s != NULL, 0);
      if (!s) { CHECK(sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); sim_nontrivial(); sim_probe("capture refused"); }
      else { size_t L = (size_t)zpl_string_length(s); CHECK(L == N, "output-differs", "%s gave a string of %zu", what, L); CHECK(!memcmp(s, out[k], N + 1), "output-differs", "%s gave other bytes than the command printed, or no zero byte behind them", what); if (N > 4) sim_nontrivial(); if (memchr(out[k], 0, N)) sim_probe("output with zero bytes"); keep[nk] = s; kept_cmd[nk++] = k; }
      CHECK(sim_live_blocks() == b0 + (uint64_t)nk, "leak:memory", "%s left %d blocks behind", what, (int)(sim_live_blocks() - b0) - nk);
    }
    CHECK(vfs_open_pipes() == 0, "leak:pipe", "%s left %d pipes open", what, vfs_open_pipes()); CHECK(vfs_pclosed() - closed0 <= 1, "closed-twice", "%s closed the pipe %d times", what, vfs_pclosed() - closed0);
    sim_feature(sim_mix(N, sim_fired_total() - f0));
  }
  for (int i = 0; i < nk; i++) { int k = kept_cmd[i]; CHECK((size_t)zpl_string_length(keep[i]) == outn[k] && !memcmp(keep[i], out[k], outn[k]), "output-changed", "a captured string changed afterwards"); zpl_string_free(keep[i]); }
  no_leaks(b0, "capturing output"); no_fd_leaks(fds, dirs, "capturing output"); for (int i = 0; i < n; i++) free(out[i]);
}
