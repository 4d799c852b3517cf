// Deterministic simulator for zpl: public interface for scenarios and for the simulated system calls.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

// ---------------------------------------------------------------- choices
// Every decision of a run is drawn from one of these streams. In search mode the values come from one PRNG
// seeded by (VERIF_SEED, run index); in replay mode they come from the replay file, and an exhausted stream yields 0.
// By convention 0 is the simplest decision (no fault, no preemption, shortest program).
enum { ST_CFG, ST_OP, ST_SCHED, ST_FAULT, ST_DATA, ST_N };
uint32_t ch(int stream, uint32_t n);          // uniform in [0,n)
static inline int ch_p(int stream, uint32_t num, uint32_t den) { return ch(stream, den) >= den - num; }
uint32_t ch_w(int stream, const uint32_t *weights, uint32_t n);

// ---------------------------------------------------------------- faults
enum {
  F_ALLOC, F_OPEN, F_READ_SHORT, F_READ_EINTR, F_READ_EIO, F_WRITE_SHORT, F_WRITE_EINTR, F_WRITE_EIO, F_ENOSPC,
  F_TRUNC, F_STAT, F_MKDIR, F_RMDIR, F_LINK, F_UNLINK, F_OPENDIR, F_SENDFILE_SHORT, F_SENDFILE_ERR, F_SENDFILE_EINTR,
  F_TMPFILE, F_CRASH, F_MMAP, F_MUNMAP, F_MADVISE, F_THREAD_CREATE, F_SEM_EINTR, F_SLEEP_EINTR, F_CLOCK_STALL, F_CLOCK_JUMP,
  F_POPEN, F_SOCKET, F_BIND, F_CONNECT, F_LISTEN, F_ACCEPT, F_SEND_SHORT, F_SEND_ERR, F_RECV_SHORT, F_RECV_ERR,
  F_SELECT_EINTR, F_GAI, F_FCNTL, F_SOCKNAME, F_NET_DROP, F_NET_DUP, F_NET_DELAY, F_NET_RESET, F_REALPATH, F_LSEEK, F_PREEMPT, F_CLOSE, F_SYSCONF, F_AFFINITY, F_DLOPEN,
  F_N
};
#define FB(k) (1ull << (k))
extern const char *const sim_fault_names[F_N];
// Draw this run's fault profile: subset of `kinds`, rate; a 0 choice means fault free.
void sim_faults_init(uint64_t kinds);
void sim_faults_enable(bool on);              // temporarily suspend injection (verification phases)
bool sim_faults_on(void);
bool sim_faults_raw(void);
int  sim_fault(uint64_t mask); uint32_t sim_fault_pick(int kind, uint32_t n);                // -1 none, else the kind injected now
void sim_fault_count(int kind);
uint64_t sim_fault_mask(void);
uint32_t sim_fired(int kind);
uint32_t sim_fired_total(void);

// ---------------------------------------------------------------- verdicts and trace
#if defined(__GNUC__)
#define PRINTF(a,b) __attribute__((format(printf,a,b)))
#endif
_Noreturn void sim_violation(const char *key, const char *fmt, ...) PRINTF(2,3);
_Noreturn void sim_end(int status);
void sim_log(const char *fmt, ...) PRINTF(1,2);   // human readable, replay mode only
void sim_ev(const char *tag, int64_t a, int64_t b); // goes into the trace hash (and the log)
void sim_feature(uint64_t h);                  // a state reached, for the coverage count
void sim_probe(const char *name);              // reached markers ("sometimes" assertions)
void sim_nontrivial(void);                     // mark this run as non trivial
void sim_op(void);                             // counts one operation of the generated program
extern int sim_verbose;
#define CHECK(c, key, ...) do { if (!(c)) sim_violation(key, __VA_ARGS__); } while (0)

uint64_t sim_mix(uint64_t a, uint64_t b);
uint64_t sim_hash(const void *p, size_t n);
void sim_fill(void *p, size_t n, uint32_t seed);   // deterministic pseudo random content

// ---------------------------------------------------------------- memory
uint64_t sim_live_blocks(void);
uint64_t sim_live_bytes(void);
uint64_t sim_heap_fail_next(uint64_t n);        // deterministic: make the n-th next allocation fail (0 = off)
void *sim_malloc_h(size_t n);
void sim_heap_dump(void);

// ---------------------------------------------------------------- time
extern uint64_t sim_mono_ns, sim_real_ns;       // simulated clocks
extern uint64_t sim_tick_ns;                    // cost charged to every simulated call
extern uint64_t sim_last_tsc[96];              // the time stamp each thread read last
extern uint64_t sim_last_real[96];              // the wall clock value each thread read last
void sim_time_advance(uint64_t ns);

// ---------------------------------------------------------------- system call budget / crash
void sim_syscall(const char *name);             // charge, budget, log
extern uint64_t sim_budget_syscalls;
extern int sim_crash_at;                        // crash the process at the n-th system call from now (0 = off)
// another process acts once, just before the n-th system call from now (n<=0 cancels)
void sim_event_at(int n, void (*fn)(void *), void *arg);
bool sim_event_ran(void);
#include <setjmp.h>
extern jmp_buf sim_crash_jmp; extern int sim_crash_armed;

// ---------------------------------------------------------------- virtual file system (harness side, no faults)
void  vfs_reset(void);
void  vfs_write_file(const char *path, const void *data, size_t n);     // creates parents
bool  vfs_exists(const char *path);
int   vfs_type(const char *path);                                        // 0 none 1 file 2 dir
long  vfs_size(const char *path);
long  vfs_read_file(const char *path, void *buf, size_t cap);            // -1 if missing
const void *vfs_data(const char *path, size_t *n);
void  vfs_mkdirs(const char *path);
void  vfs_unlink(const char *path);
void  vfs_set_mtime(const char *path, int64_t t);
int64_t vfs_mtime(const char *path);
int   vfs_open_fds(void);                                                // open descriptors above 2, incl. sockets
int   vfs_open_dirs(void);
void  vfs_set_disk(int64_t bytes_free);                                  // -1 unlimited
void  vfs_list(void (*cb)(const char *path, int type, void *u), void *u); // every name, depth first
uint64_t vfs_hash(void);
int   vfs_escapes(void);                                                  // mutations outside the sandbox prefix
void  vfs_set_sandbox(const char *prefix);                                // mutations elsewhere are counted as escapes
const char *vfs_escape_path(void);
void  vfs_set_dtype_unknown(bool on);
int   vfs_nlink(const char *path);
void  vfs_mkpipe_capture(int fd);                                         // fds 1/2 are captured streams
long  vfs_captured(int fd, void *buf, size_t cap);
extern int vfs_stdout_kind;                                               // 0 pipe, 1 regular file


void vfs_sparse(const char *path,int64_t size);
bool vfs_peek(const char *path,int64_t off,void *buf,size_t n);
void vfs_special(const char *path,unsigned mode);
void vfs_link(const char *a,const char *b);
void vfs_symlink(const char *target,const char *path);
void vfs_rename(const char *a,const char *b);
int64_t vfs_disk(void);
const uint8_t *vfs_cap_data(int fd,size_t *n);
void vfs_process_died(void);
const uint8_t *vfs_fd_data(int fd,size_t *n);
void vfs_set_readonly(const char *p,bool ro);
unsigned vfs_perm(const char *p); void sys_reset(void); void cpu_setup(int n, int hole, int configured); int cpu_may(int thread), cpu_first(int thread); uint64_t cpu_hash(int thread);
int vdl_add(const char *path); void vdl_sym(int lib, const char *name, void *addr); void vdl_present(int lib, bool on); int vdl_refs(int lib); void *vdl_handle(int lib);
void vfs_set_perm(const char *p, unsigned m); void vfs_close_stdin(void); void vfs_close_std(int n); int vfs_open_streams(void);
extern bool vfs_pipe_drained;
extern uint64_t sim_clock_res_ns, sim_oversleep_max, sim_tsc_fixed, sim_clock_reads;
// command pipes
void  vfs_set_command(const char *cmd, const void *out, size_t n);
int   vfs_open_pipes(void);
int   vfs_pclosed(void);

// ---------------------------------------------------------------- threads (harness side)
int   thr_self(void);
void  thr_point(void);                       // an explicit preemption point
void  thr_yield(void);
int   thr_spawn(void (*fn)(void *), void *arg);   // harness thread under the simulator
void  thr_join_h(int id);
void  thr_block(bool (*pred)(void *), void *arg, uint64_t deadline_ns /*0 none*/, const char *what);
bool  thr_block_int(bool (*pred)(void *), void *arg, uint64_t deadline_ns, const char *what); // false: deadline
int   thr_alive(void);                       // threads not yet finished, main included
int   thr_created_by_zpl(void);              // total successful pthread_create calls
int   thr_unjoined(void);                    // finished or running pthread_create'd threads nobody joined
int   thr_sems_live(void); int thr_mutexes_live(void); int thr_attrs_live(void); uint32_t thr_last_stack(void); extern void (*thr_fence_hook)(int full);
uint64_t thr_points(void);
uint64_t thr_switches(void);
bool  thr_sems_track_use_after_destroy(void);
void  thr_enable(void);                      // preemptive scheduling on (threads build)
void  thr_set_budget(uint64_t points);
void  thr_bystep(bool on);                   // instruction granular preemption in zpl code of the calling thread
extern int thr_running_points;               // instrumentation active
bool  thr_fair_phase(void);

// ---------------------------------------------------------------- network (harness side)
void  net_reset(void);
int   net_open_sockets(void);
void  net_config(uint64_t max_latency_ns, size_t send_buffer, int first_fd);
bool  net_readable(int fd); uint64_t net_next(int fd);   // when the next thing to read arrives, UINT64_MAX never
bool  net_was_reset(int fd), net_nonblocking(int fd), net_nodelay(int fd), net_is_open(int fd), net_linked(int fd), net_wild(int fd);
int   net_port(int fd), net_peer_port(int fd), net_state(int fd), net_family(int fd), net_peer_fd(int fd), net_backlog(int fd), net_type(int fd);
size_t net_queued(int fd), net_room(int fd);
void  net_inject_reset(int fd);
void  net_local_name(int fd, char *host, size_t hn, char *serv, size_t sn), net_peer_name(int fd, char *host, size_t hn, char *serv, size_t sn);

// ---------------------------------------------------------------- virtual pages
void  pg_reset(void);
int   pg_regions_bytes(size_t *bytes);
bool  pg_is_mapped(const void *p, size_t n);
size_t pg_mapped_bytes(void);
int   pg_foreign(void);                      // unmap/advise calls that touched pages not mapped by the simulator
const char *pg_foreign_desc(void);
uint64_t pg_purged(const void *p);           // number of purges seen on the page
void  pg_set_reuse(bool on);

// the scenario
extern const char *const scenario_name;
void scenario(void);
extern const char *const scenario_rule;
#endif
