// variants: T
#include "common.h"
const char *const scenario_name = "C06";
const char *const scenario_rule = "a run counts when two threads were alive at once or a start was refused, and its schedule differs from every other run";
#define NT 5
static zpl_thread th[NT]; static struct { int runs, running, begun; zpl_isize ret; void *data; zpl_u32 id; int delay, alive, gated; zpl_thread *self; } S[NT]; static int alive_now, overlapped, ready[NT];
static zpl_isize proc(zpl_thread *t) {
  int k = (int)(t - th); CHECK(t >= th && k < NT && t == &th[k] && t->user_data == S[k].data, "wrong-data", "a thread started with wrong user data or thread object");
  S[k].runs++; CHECK(S[k].runs == 1, "ran-twice", "thread %d ran its procedure twice", k); S[k].begun = S[k].running = 1;
  CHECK(zpl_thread_is_running(t), "not-running", "a thread inside its procedure does not count as running");
  zpl_u32 id = zpl_thread_current_id(); S[k].id = id; S[k].alive = 1; alive_now++; if (alive_now > 1) overlapped = 1;
  for (int i = 0; i < NT; i++) if (i != k && S[i].alive) CHECK(S[i].id != id, "same-id", "two live threads share the id %u", id);
  while (S[k].gated && !ready[k]) thr_yield(); // what the starter does after start returned
  for (int i = 0; i < S[k].delay; i++) { if (i & 1) thr_yield(); else thr_point(); }
  CHECK(zpl_thread_current_id() == id, "id-changed", "a thread's id changed"); S[k].alive = 0; alive_now--; S[k].running = 0;
  sim_ev("proc-end", k, id); return S[k].ret; }
void scenario(void) {
  sim_faults_init(FB(F_THREAD_CREATE) | FB(F_SEM_EINTR)); thr_enable(); thr_set_budget(200000);
  zpl_u32 mainid = zpl_thread_current_id(); int st[NT] = {0}, nowait[NT] = {0}; // 0 uninitialised 1 initialised 2 started
  memset(th, 0x77, sizeof th);
  int nops = 3 + ch(ST_OP, 18);
  for (int i = 0; i < nops + NT; i++) {
    int k = i < nops ? (int)ch(ST_OP, NT) : i - nops; sim_op(); int fin = i >= nops;
    if (st[k] == 0) { if (fin) continue; nowait[k] = ch(ST_OP, 2); if (nowait[k]) zpl_thread_init_nowait(&th[k]); else zpl_thread_init(&th[k]); st[k] = 1; CHECK(!zpl_thread_is_running(&th[k]), "running-early", "a fresh thread object counts as running"); sim_ev("init", k, nowait[k]); }
    else if (st[k] == 1 && !fin && ch(ST_OP, 5)) {
      memset(&S[k], 0, sizeof S[k]); S[k].ret = (zpl_isize[]){1 + (zpl_isize)ch(ST_OP, 100000), 0, -1 - (zpl_isize)ch(ST_OP, 100000), ((zpl_isize)ch(ST_OP, 100000) << 31) + 5, -((zpl_isize)ch(ST_OP, 100000) << 33)}[ch(ST_OP, 5)]; S[k].data = ch(ST_OP, 5) ? (void *)(((intptr_t)ch(ST_OP, 100000) << 32) + 500 + k) : NULL; S[k].delay = ch(ST_OP, 30); S[k].gated = ch(ST_OP, 3) == 2; ready[k] = 0; uint32_t f0 = sim_fired(F_THREAD_CREATE); int created = thr_created_by_zpl();
      static const int stacks[] = {0, 0, 65536, 1 << 20}; int sz = stacks[ch(ST_OP, 4)];
      zpl_b32 ok = sz || ch(ST_OP, 2) ? zpl_thread_start_with_stack(&th[k], proc, S[k].data, sz) : zpl_thread_start(&th[k], proc, S[k].data);
      if (S[k].gated && ch(ST_OP, 2)) thr_yield();
      ready[k] = 1; int refused = sim_fired(F_THREAD_CREATE) != f0; sim_ev("start", k, ok);
      CHECK(!refused || !ok, "refused-reported-started", "the system refused the thread and start reported success");
      CHECK(refused || ok, "started-reported-refused", "start reported failure although the system accepted the thread");
      CHECK(thr_created_by_zpl() - created == (refused ? 0 : 1), "thread-count", "one start created %d threads", thr_created_by_zpl() - created);
      CHECK(refused || thr_last_stack() == (uint32_t)sz, "stack-size", "a thread asked for with %d bytes of stack was created with %u", sz, thr_last_stack());
      CHECK(thr_attrs_live() == 0, "leak:attr", "a thread attribute object was left behind by a %s start", refused ? "refused" : "successful");
      if (ok && !nowait[k]) CHECK(zpl_thread_is_running(&th[k]) || S[k].runs, "not-begun", "start returned before the thread began");
      if (ok) { st[k] = 2; }
      if (refused) { sim_probe("start refused"); sim_nontrivial(); for (int y = 0; y < 5; y++) thr_yield(); CHECK(!S[k].runs, "refused-ran", "a refused start ran its procedure"); CHECK(!zpl_thread_is_running(&th[k]), "refused-running", "a refused thread counts as running"); }
    } else if (st[k] == 2 && !fin && ch(ST_OP, 3) == 0) { // join, then the object can be started again
      zpl_thread_join(&th[k]); CHECK(S[k].runs == 1 && !S[k].running, "join-early", "join returned before the procedure had finished"); CHECK(th[k].return_value == S[k].ret, "return-value", "return value %ld, expected %ld", (long)th[k].return_value, (long)S[k].ret); CHECK(!zpl_thread_is_running(&th[k]), "running-after-join", "a joined thread still counts as running"); st[k] = 1; sim_ev("join", k, 0); }
    else { int was = st[k]; zpl_isize want = S[k].ret; zpl_thread_destroy(&th[k]); if (was == 2) { CHECK(S[k].runs == 1 && !S[k].running, "destroy-early", "destroy returned before the procedure had finished"); CHECK(th[k].return_value == want, "return-value", "return value lost"); CHECK(!zpl_thread_is_running(&th[k]), "running-after-join", "a destroyed thread still counts as running"); } st[k] = 0; sim_ev("destroy", k, was); memset(&th[k], 0x77, sizeof th[k]); }
    for (int j = 0; j < NT; j++) if (S[j].alive) CHECK(S[j].id != mainid, "same-id", "a thread shares the id of the main thread");
    sim_feature(sim_mix(alive_now, sim_mix(st[0] + 3 * st[1] + 9 * st[2] + 27 * st[3] + 81 * st[4], nowait[k])));
  }
  for (int y = 0; y < 30; y++) thr_yield();
  CHECK(thr_alive() == 1 && thr_unjoined() == 0, "thread-left", "threads were left behind: %d alive, %d never joined", thr_alive() - 1, thr_unjoined());
  CHECK(thr_sems_live() == 0, "leak:semaphore", "%d semaphores left", thr_sems_live()); CHECK(thr_mutexes_live() == 0, "leak:mutex", "mutexes left"); CHECK(thr_attrs_live() == 0, "leak:attr", "attributes left");
  if (overlapped) sim_nontrivial();
}
