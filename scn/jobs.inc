// shared by C01, C02, C03: recorded jobs, a counting allocator, and the owner's program
#define MAXJ 2300
typedef struct { int accepted, refused, started, finished, prio, seq, gate, proc; } Job;
static Job J[MAXJ]; static int nj, running, freed, started_total, finished_total, accepted_total; static int start_log[MAXJ];
#define DATA0 ((intptr_t)0x5a5a000000f0) // data pointers are wider than 32 bits
static int gate_open; static zpl_jobs_system *pool;
static int body_kind;
static bool gate_pred(void *p) { return gate_open > 0 || freed; }
static int null_job = -1; // the job enqueued without data, at most one at a time
static void job_run(void *data, int proc) {
  int k = data ? (int)((intptr_t)data - DATA0) : null_job;
  CHECK(k >= 0 && k < nj, "foreign-data", "a job ran with a data pointer that was never enqueued (%p)", data);
  CHECK(J[k].proc == proc, "foreign-procedure", "job %d ran the procedure of another job", k);
  CHECK(!freed, "ran-after-free", "job %d started after the pool was freed", k);
  CHECK(!J[k].refused, "refused-job-ran", "job %d ran although the pool refused it", k);
  CHECK(!J[k].started, "job-twice", "job %d ran twice", k);
  J[k].started = 1; start_log[started_total++] = k; running++;
  sim_ev("job-start", k, thr_self());
  if (J[k].gate) { while (gate_open <= 0) thr_block(gate_pred, 0, 0, "a gated job"); gate_open--; }
  else { int n = body_kind == 0 ? 0 : body_kind == 1 ? 2 : 12; for (int i = 0; i < n; i++) thr_point(); if (body_kind == 3) for (int i = 0; i < 3; i++) thr_yield(); }
  CHECK(!freed, "running-after-free", "job %d is still running after the pool was freed", k);
  running--; J[k].finished = 1; finished_total++;
  sim_ev("job-end", k, 0);
}
static void job_a(void *data) { job_run(data, 0); }
static void job_b(void *data) { job_run(data, 1); }
static int enqueue(int prio, int gate, int with_prio) {
  int k = nj++; J[k] = (Job){0}; J[k].prio = prio; J[k].gate = gate; J[k].seq = accepted_total; J[k].proc = (int)ch(ST_OP, 2); sim_op();
  zpl_jobs_proc jp_ = J[k].proc ? job_b : job_a; void *data = (void *)(DATA0 + k); if ((null_job < 0 || J[null_job].refused || J[null_job].finished) && !ch(ST_OP, 4)) { null_job = k; data = NULL; }
  // the job may start before the call returns
  int ok = with_prio ? zpl_jobs_enqueue_with_priority(pool, jp_, data, (zpl_jobs_priority)prio) : zpl_jobs_enqueue(pool, jp_, data);
  if (ok) { J[k].accepted = 1; accepted_total++; } else { J[k].refused = 1; CHECK(!J[k].started, "refused-job-ran", "job %d ran although the pool refused it", k); }
  sim_ev("enqueue", k * 10 + prio, ok); return ok;
}
// the owner's tick: it reports work exactly when some job was waiting
static int process(void) { int w = !zpl_jobs_empty_all(pool), r = zpl_jobs_process(pool) != 0; CHECK(r == w, "process-report", "processing says %d while %s", r, w ? "a job was waiting" : "no job was waiting"); return r; }
