// variants: A
#include "common.h"
const char *const scenario_name = "C38";
const char *const scenario_rule = "a run counts when a library was loaded twice, refused, missing or removed between two loads, and its trace differs from every other run";
static long f0(void) { return 100; } static long f1(void) { return 101; } static long f2(void) { return 102; } static long f3(void) { return 103; }
void scenario(void) {
  static const char *names[] = {"/lib/one.so", "two.so", "./three.so", "\xc3\xa9.so"}, *syms[] = {"init", "run", "_Z3foov", "data"}; static void *fn[] = {(void *)f0, (void *)f1, (void *)f2, (void *)f3};
  sim_faults_init(FB(F_DLOPEN));
  void *truth[4][4]; memset(truth, 0, sizeof truth); int refs[4] = {0}; zpl_dll_handle h[4][6]; bool present[4];
  for (int k = 0; k < 4; k++) { vdl_add(names[k]); present[k] = ch(ST_CFG, 5) != 4; vdl_present(k, present[k]); for (int s = 0; s < 4; s++) if (ch(ST_CFG, 3) < 2) { truth[k][s] = fn[(k + s) % 4]; vdl_sym(k, syms[s], truth[k][s]); } }
  uint32_t nops = 2 + ch(ST_OP, 20);
  for (uint32_t i = 0; i < nops; i++) {
    sim_op(); int k = (int)ch(ST_OP, 4); uint32_t op = ch(ST_OP, 4); char what[120];
    if (op == 0 && refs[k] < 6) {
      bool bad = ch(ST_OP, 8) == 7; const char *p = bad ? "none.so" : names[k]; uint32_t t0 = sim_fired(F_DLOPEN); snprintf(what, sizeof what, "loading \"%s\"", p);
      zpl_dll_handle d = zpl_dll_load(p); bool refused = sim_fired(F_DLOPEN) != t0; sim_ev(what, d != 0, refused); if (refused || bad || refs[k]) sim_nontrivial();
      bool can = !bad && (present[k] || refs[k]);
      if (d) { CHECK(can && !refused, "loaded-anyway", "%s reported success", what); CHECK(d == vdl_handle(k), "wrong-handle", "%s gave another library's handle", what); h[k][refs[k]++] = d; sim_probe("loaded"); }
      else { CHECK(!can || refused, "refused-without-cause", "%s failed although nothing was refused", what); sim_probe(refused ? "refused" : "missing"); }
    } else if (op == 1 && refs[k]) { zpl_dll_unload(h[k][--refs[k]]); sim_ev("unload", k, refs[k]); sim_probe("unloaded");
    } else if (op == 2 && refs[k]) { int s = (int)ch(ST_OP, 5); const char *n = s == 4 ? "nothing" : syms[s]; void *want = s == 4 ? 0 : truth[k][s]; zpl_dll_proc p = zpl_dll_proc_address(h[k][ch(ST_OP, (uint32_t)refs[k])], n); sim_ev("lookup", k, p != 0);
      CHECK((void *)p == want, "wrong-address", "\"%s\" in %s: %s", n, names[k], !p ? "not found" : !want ? "found although it is not there" : "another function's address"); if (p) { long v = ((long (*)(void))p)(); CHECK(v >= 100 && fn[v - 100] == want, "harness", "called another function"); } sim_probe(p ? "found" : "not found");
    } else if (op == 3) { present[k] = !present[k]; vdl_present(k, present[k]); sim_ev("file", k, present[k]); }
    for (int j = 0; j < 4; j++) CHECK(vdl_refs(j) == refs[j], "count", "%s is loaded %d times, the system counts %d", names[j], refs[j], vdl_refs(j));
    sim_feature(sim_mix(op, sim_mix(refs[k], present[k])));
  }
  for (int k = 0; k < 4; k++) while (refs[k]) { zpl_dll_unload(h[k][--refs[k]]); CHECK(vdl_refs(k) == refs[k], "count", "%s was not released", names[k]); }
}
