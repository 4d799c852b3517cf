// variants: A
#include "common.h"
// Endpoints on a simulated network: several listeners, connections and datagram sockets driven in a generated order.
const char *const scenario_name = "C31";
const char *const scenario_rule = "a run counts when bytes or datagrams cross the network, or a call fails under a fault, and its trace differs from every other run";
#define NL 4
#define NC 12
#define ND 6
#define NG 200
typedef struct { int fd, port, want; char host[24]; bool nb; } lis; static lis L[NL];
typedef struct { int fd[2]; size_t sent[2], got[2]; bool closed[2], used, doomed, broken; int port; lis *l; } conn; static conn C[NC];
typedef struct { int fd, peer; char host[24]; } dsk; static dsk D[ND];
typedef struct { int from, to, size, delivered; int to_fd; bool must; int from_fd; char fhost[64], fserv[16]; bool fwild; } gram; static gram G[NG]; static int ng;
static char what[240];
static uint8_t byte_of(size_t c, int dir, size_t pos) { return (uint8_t)sim_mix(c * 2 + (size_t)dir + 77, pos); }
static uint8_t gbyte(int id, int i) { return i == 0 ? (uint8_t)id : (uint8_t)sim_mix((uint64_t)id + 1000, (uint64_t)i); }
static void failed_ok(bool cause, uint32_t f0) { CHECK(cause || sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); if (sim_fired_total() != f0) sim_nontrivial(); }
static double any_time(void) { static const double T[] = {0, 0.001, 0.05, 0.3, 1.5, 2.25, 0.999999, 3, 61.25, 75.5, 300.75, 3600.125, 5000.5}; return T[ch(ST_OP, 5) ? ch(ST_OP, 8) : ch(ST_OP, 13)]; }
static void new_socket(int fd, int protocol, int flags, int open0) {
  CHECK(net_is_open(fd) && net_open_sockets() == open0 + 1, "wrong-descriptor", "%s returned a descriptor that is not the one new socket", what); CHECK(net_type(fd) == (protocol == ZPL_SOCKET_TCP), "wrong-protocol", "%s gave the other protocol", what);
  CHECK(net_nonblocking(fd) == !!(flags & ZPL_SOCKET_NON_BLOCKING), "wrong-mode", "%s gave a %s socket", what, net_nonblocking(fd) ? "non-blocking" : "blocking"); if (protocol == ZPL_SOCKET_TCP) CHECK(net_nodelay(fd) == !!(flags & ZPL_SOCKET_NO_DELAY), "wrong-mode", "%s %s small packets", what, net_nodelay(fd) ? "does not gather" : "gathers"); }
static int create(int protocol, int mode, int flags, const char *host, const char *serv, bool cause) {
  snprintf(what, sizeof what, "creating a %s socket to %s %s port %s (flags %d)", protocol ? "UDP" : "TCP", mode == ZPL_SOCKET_BIND ? "bind to" : "connect to", host ? host : "any", serv ? serv : "none", flags); int open0 = net_open_sockets(); uint64_t b0 = sim_live_blocks(); uint32_t f0 = sim_fired_total(); sim_ev(what, 0, 0);
  sim_faults_enable(true); int fd = zpl_socket_create(protocol, mode, (char)flags, host, serv); sim_faults_enable(false); sim_ev("create", fd, 0); CHECK(sim_live_blocks() == b0, "leak:memory", "%s left the looked-up addresses behind", what);
  if (fd == -1) { failed_ok(cause, f0); CHECK(net_open_sockets() == open0, "leak:descriptor", "%s failed and left a descriptor open", what); sim_probe("creation failed"); return -1; }
  new_socket(fd, protocol, flags, open0); return fd; }
static void check_info(const zpl_socket_addr *a, const char *host, const char *serv, const char *who) { // the address, in words
  zpl_socket_addr *x = malloc(sizeof *x); *x = *a; size_t hn = ch(ST_OP, 4) ? 64 : ch(ST_OP, 14), sn = ch(ST_OP, 4) ? 16 : ch(ST_OP, 7); bool noh = !ch(ST_OP, 6), nos = !noh && !ch(ST_OP, 6); char *h = malloc(hn + 1), *s = malloc(sn + 1); memset(h, 0x33, hn + 1); memset(s, 0x33, sn + 1); bool fit = (noh || strlen(host) < hn) && (nos || strlen(serv) < sn); if ((noh || !hn) && (nos || !sn)) fit = false; if (!hn || !sn) { noh = nos = false; hn = 64; sn = 16; free(h); free(s); h = malloc(hn); s = malloc(sn); fit = true; }
  int r = zpl_socket_get_address_info(x, noh ? NULL : h, noh ? 0 : (zpl_i32)hn, nos ? NULL : s, nos ? 0 : (zpl_i32)sn); sim_ev("info", r, fit); if (!fit) { CHECK(r, "cut-name", "%s: a name that does not fit its buffer was accepted", who); sim_probe("name does not fit"); }
  else { CHECK(!r, "failed-without-cause", "%s: looking up the names of the address failed with %d", who, r); if (!noh) CHECK(!strcmp(h, host), "wrong-address", "%s reported the host %s instead of %s", who, h, host); if (!nos) CHECK(!strcmp(s, serv), "wrong-address", "%s reported the port %s instead of %s", who, s, serv); }
  free(h); free(s); free(x); }
static void get_address(int fd) { zpl_socket_addr *a = malloc(sizeof *a); memset(a, 0x77, sizeof *a); snprintf(what, sizeof what, "reading the address of a socket"); uint32_t f0 = sim_fired_total(); sim_faults_enable(true); int r = zpl_socket_get_address(fd, a); sim_faults_enable(false); sim_ev("address", r, 0); if (r) failed_ok(false, f0); else { char h[64], s[16]; net_local_name(fd, h, sizeof h, s, sizeof s); check_info(a, h, s, what); sim_probe("address reported"); } free(a); }
static int any_fd(bool stream_ok) { int f[NL + 2 * NC + ND], n = 0; for (int i = 0; i < NL; i++) if (L[i].fd >= 0) f[n++] = L[i].fd; for (int i = 0; i < NC; i++) for (int e = 0; e < 2; e++) if (C[i].used && C[i].fd[e] >= 0) f[n++] = C[i].fd[e]; for (int i = 0; i < ND; i++) if (D[i].fd >= 0) f[n++] = D[i].fd; (void)stream_ok; return n ? f[ch(ST_OP, (uint32_t)n)] : -1; }
static void drop_end(int i, int e) { conn *c = &C[i]; zpl_socket_close(c->fd[e]); c->fd[e] = -1; c->closed[e] = true; }
static void new_listener(void) {
  int k = -1; for (int i = 0; i < NL; i++) if (L[i].fd < 0) k = i; if (k < 0) return; static const char *const H[] = {NULL, "127.0.0.1", "localhost", "node-a", "::1", "10.0.0.2", "::", "0.0.0.0"}, *const P[] = {"0", "7000", "7001", "echo"}; const char *h = H[ch(ST_OP, 8)], *p = P[ch(ST_OP, 4)]; int want = !strcmp(p, "echo") ? 7 : atoi(p); bool busy = false; for (int i = 0; i < NL; i++) if (L[i].fd >= 0 && L[i].port == want && want) busy = true;
  int flags = ch(ST_OP, 2) ? ZPL_SOCKET_NON_BLOCKING : 0; if (ch(ST_OP, 2)) flags |= ZPL_SOCKET_NO_DELAY; int fd = create(ZPL_SOCKET_TCP, ZPL_SOCKET_BIND, flags, h, p, busy); if (fd < 0) return; CHECK(!want || net_port(fd) == want, "wrong-port", "%s bound port %d", what, net_port(fd));
  snprintf(what, sizeof what, "listening"); uint32_t f0 = sim_fired_total(); sim_faults_enable(true); int want_b = 1 + (int)ch(ST_OP, 5), r = zpl_socket_listen(fd, want_b); sim_faults_enable(false); if (r) { failed_ok(false, f0); zpl_socket_close(fd); return; }
  L[k].fd = fd; L[k].port = net_port(fd); L[k].want = want_b; L[k].nb = flags & ZPL_SOCKET_NON_BLOCKING; snprintf(L[k].host, sizeof L[k].host, "%s", !h || !strcmp(h, "0.0.0.0") ? "127.0.0.1" : !strcmp(h, "::") ? (ch(ST_OP, 2) ? "::1" : "127.0.0.1") : h); if (ch(ST_OP, 2)) get_address(fd); }
static void new_connection(void) {
  int k = -1; for (int i = 0; i < NC; i++) if (!C[i].used) k = i; if (k < 0) return; conn *c = &C[k]; memset(c, 0, sizeof *c); c->fd[0] = c->fd[1] = -1; int flags = ch(ST_OP, 2) ? ZPL_SOCKET_NON_BLOCKING : 0; if (ch(ST_OP, 2)) flags |= ZPL_SOCKET_NO_DELAY; lis *l = &L[NL - 1]; { int f[NL], n = 0; for (int i = NL - 1; i >= 0; i--) if (L[i].fd >= 0) f[n++] = i; if (n) l = &L[f[ch(ST_OP, (uint32_t)n)]]; } char port[16]; const char *host = l->host; bool bad = false;
  if (l->fd < 0 || !ch(ST_OP, 8)) { static const char *const B[][2] = {{"127.0.0.1", "6999"}, {"nowhere", "80"}, {"node-a", "no-such-service"}, {"::1", "6999"}, {"10.0.0.2", "70000"}}; uint32_t b = ch(ST_OP, 5); host = B[b][0]; snprintf(port, sizeof port, "%s", B[b][1]); bad = true; } else snprintf(port, sizeof port, "%s", l->port == 7 && ch(ST_OP, 2) ? "echo" : (snprintf(what, sizeof what, "%d", l->port), what));
  bool full = !bad && net_backlog(l->fd) >= l->want; uint32_t f0 = sim_fired_total(); int fd = create(ZPL_SOCKET_TCP, ZPL_SOCKET_CONNECT, flags, host, port, bad || full); if (fd < 0) return;
  if (!(flags & ZPL_SOCKET_NON_BLOCKING)) CHECK(!bad, "connected-to-nothing", "%s succeeded", what);
  if (!net_linked(fd)) { CHECK(flags & ZPL_SOCKET_NON_BLOCKING, "connected-to-nothing", "%s returned a socket that is not connected", what); CHECK(net_state(fd) == 2 || net_was_reset(fd), "connected-to-nothing", "%s returned a socket whose connection had already failed", what); // goes on in the background and fails there
    char b[4] = "abc"; if (ch(ST_OP, 2)) { int r = zpl_socket_send(fd, b, 3); CHECK(r == -1, "sent-to-nothing", "sending on a connection that was never made took %d bytes", r); } else { int r = fd >= 1024 ? 1 : zpl_socket_select(fd, 10); if (fd >= 1024) sim_time_advance(10000000000ull); CHECK(r == 1, "select-missed", "a failed connection was not reported as ready (%d)", r); r = zpl_socket_receive(fd, b, 3); CHECK(r == -1, "received-from-nothing", "receiving on a connection that was never made gave %d", r); } zpl_socket_close(fd); sim_probe("connection refused in the background"); return; }
  (void)f0; c->used = true; c->fd[0] = fd; c->port = net_port(fd); c->l = l; if (ch(ST_OP, 3) == 0) get_address(fd); }
static void accept_one(void) {
  lis *l = &L[NL - 1]; { int f[NL], n = 0; for (int i = NL - 1; i >= 0; i--) if (L[i].fd >= 0 && (net_backlog(L[i].fd) || !ch(ST_OP, 4))) f[n++] = i; if (!n) return; l = &L[f[ch(ST_OP, (uint32_t)n)]]; } uint64_t nx = net_next(l->fd); if (nx == UINT64_MAX && !net_nonblocking(l->fd)) return; bool ready = nx <= sim_mono_ns; zpl_socket_addr *a = ch(ST_OP, 4) ? malloc(sizeof *a) : NULL; if (a) memset(a, 0x77, sizeof *a); int open0 = net_open_sockets(); uint32_t f0 = sim_fired_total(); snprintf(what, sizeof what, "accepting a connection %s an address", a ? "with" : "without"); sim_faults_enable(true); int fd = zpl_socket_accept(l->fd, a); sim_faults_enable(false); sim_ev("accept", fd, ready);
  if (fd == -1) { failed_ok(!ready && net_nonblocking(l->fd), f0); CHECK(net_open_sockets() == open0, "leak:descriptor", "%s failed and left a descriptor open", what); free(a); return; }
  CHECK(net_is_open(fd) && net_open_sockets() == open0 + 1, "wrong-descriptor", "%s returned a descriptor that is not the new one", what); int pp = net_peer_port(fd), k = -1; for (int i = 0; i < NC; i++) if (C[i].used && C[i].port == pp && C[i].fd[1] < 0 && !C[i].closed[1]) k = i; CHECK(k >= 0, "harness", "accepted an unknown connection"); C[k].fd[1] = fd;
  if (a) { char h[64], s[16]; net_peer_name(fd, h, sizeof h, s, sizeof s); check_info(a, h, s, what); } free(a); sim_nontrivial(); sim_probe("accepted"); }
static void transfer(int i, int e, bool sending) {
  conn *c = &C[i]; int fd = c->fd[e]; if (fd < 0) return; uint32_t f0 = sim_fired_total(); bool nb = net_nonblocking(fd), reset0;
  if (sending) { uint32_t n = 1 + pick_size(ST_OP, 20, 9000); if (!ch(ST_OP, 30)) { static const uint32_t BS[] = {32767, 32768, 65535, 65536, 65537, 100000, 131072, 200000}; n = BS[ch(ST_OP, 8)]; sim_probe("a large transfer"); } uint8_t *b = malloc(n); for (uint32_t k = 0; k < n; k++) b[k] = byte_of((size_t)i, e, c->sent[e] + k); size_t room = net_room(fd); int st = net_state(fd); snprintf(what, sizeof what, "sending %u bytes on a %s connection", n, nb ? "non-blocking" : "blocking"); sim_ev("send", n, (int64_t)c->sent[e]); reset0 = net_was_reset(fd) || c->broken; sim_faults_enable(true); int r = zpl_socket_send(fd, (char *)b, (zpl_i32)n); sim_faults_enable(false); sim_ev("sent", r, 0);
    CHECK(r == -1 || (r >= 1 && r <= (int)n), "wrong-count", "%s reported %d", what, r); if (r == -1) { bool rs = net_was_reset(fd); failed_ok(reset0 || rs || c->closed[!e] || (nb && (!room || st == 2)), f0); if (rs) c->broken = true; } else { c->sent[e] += (size_t)r; if (r < (int)n) { CHECK(sim_fired_total() != f0 || nb, "failed-without-cause", "%s took only %d", what, r); sim_probe("partial send"); } } free(b); }
  else { uint64_t nx = net_next(fd); if (nx == UINT64_MAX && !nb) return; bool ready = nx <= sim_mono_ns; uint32_t n = 1 + pick_size(ST_OP, 20, 9000); if (!ch(ST_OP, 30)) { static const uint32_t BS[] = {32767, 32768, 65535, 65536, 65537, 100000, 131072, 200000}; n = BS[ch(ST_OP, 8)]; sim_probe("a large transfer"); } uint8_t *b = malloc(n); memset(b, 0x5C, n); snprintf(what, sizeof what, "receiving up to %u bytes on a %s connection", n, nb ? "non-blocking" : "blocking"); reset0 = net_was_reset(fd) || c->broken; sim_ev("recv", n, ready); sim_faults_enable(true); int r = zpl_socket_receive(fd, (char *)b, (zpl_i32)n); sim_faults_enable(false); sim_ev("received", r, 0);
    CHECK(r >= -1 && r <= (int)n, "wrong-count", "%s reported %d", what, r); if (net_was_reset(fd)) c->broken = true;
    if (r == -1) failed_ok(reset0 || c->broken || (nb && !ready), f0); else if (r == 0) { CHECK(c->broken || (c->closed[!e] && c->got[e] == c->sent[!e]), "false-shutdown", "%s reported an orderly shutdown after %zu of %zu bytes", what, c->got[e], c->sent[!e]); sim_probe("orderly shutdown"); }
    else { CHECK(c->got[e] + (size_t)r <= c->sent[!e], "bytes-invented", "%s gave %d bytes after %zu although only %zu were sent", what, r, c->got[e], c->sent[!e]); for (int k = 0; k < r; k++) CHECK(b[k] == byte_of((size_t)i, !e, c->got[e] + (size_t)k), "bytes-differ", "%s gave a wrong byte at position %zu", what, c->got[e] + (size_t)k); for (uint32_t k = (uint32_t)r; k < n; k++) CHECK(b[k] == 0x5C, "buffer-touched", "%s changed the buffer behind the %d bytes it gave", what, r); c->got[e] += (size_t)r; sim_nontrivial(); } free(b); } }
static void do_select(void) {
  if (!ch(ST_OP, 3)) { // one
    int fd = any_fd(true); if (fd < 0) return; double t = any_time(); uint64_t t0 = sim_mono_ns, T = (uint64_t)(t * 1e9), nx = net_next(fd); uint32_t f0 = sim_fired_total(); snprintf(what, sizeof what, "waiting %g seconds for a socket", t); sim_ev("select", (int64_t)T, nx != UINT64_MAX); sim_faults_enable(true); int r = zpl_socket_select(fd, t); sim_faults_enable(false); uint64_t dt = sim_mono_ns - t0; sim_ev("selected", r, 0);
    if (r == -1) { failed_ok(fd >= 1024, f0); return; } if (r == 1) { CHECK(net_readable(fd), "select-invented", "%s reported data that is not there", what); sim_probe("select saw data"); CHECK(nx <= t0 || dt <= nx - t0 + 1000000, "select-late", "%s returned %llu ns after it began although data came after %llu", what, (unsigned long long)dt, (unsigned long long)(nx - t0)); } else { CHECK(r == 0, "wrong-count", "%s reported %d", what, r); CHECK(dt + 2000 >= T, "select-early", "%s gave up after %llu ns", what, (unsigned long long)dt); CHECK(dt <= T + 1000000, "select-late", "%s gave up after %llu ns", what, (unsigned long long)dt); CHECK(nx > t0 + T - (T > 2000 ? 2000 : T) && !(T == 0 && nx <= t0), "select-missed", "%s did not see data that was there", what); sim_probe("select timed out"); sim_nontrivial(); } return; }
  int s[72], n = 1 + (int)ch(ST_OP, ch(ST_OP, 12) ? 9 : 70), live = 0; uint64_t nx = UINT64_MAX; bool big = false; for (int i = 0; i < n; i++) { s[i] = ch(ST_OP, 5) ? any_fd(true) : -1; if (s[i] >= 0) { live++; uint64_t x = net_next(s[i]); if (x < nx) nx = x; if (s[i] >= 1024) big = true; } } double t = any_time(); uint64_t t0 = sim_mono_ns, T = (uint64_t)(t * 1e9); uint32_t f0 = sim_fired_total(); int *set = malloc(sizeof(int) * (size_t)n); memcpy(set, s, sizeof(int) * (size_t)n); snprintf(what, sizeof what, "waiting %g seconds for %d sockets", t, live); sim_ev("multi", (int64_t)T, live); sim_faults_enable(true); int r = zpl_socket_multi_select(set, n, t); sim_faults_enable(false); uint64_t dt = sim_mono_ns - t0; sim_ev("selected", r, 0); CHECK(!memcmp(set, s, sizeof(int) * (size_t)n), "set-changed", "%s changed the list", what); free(set);
  if (r == -1) { failed_ok(big, f0); return; } int ready = 0; for (int i = 0; i < n; i++) { bool dup = false; for (int j = 0; j < i; j++) if (s[j] == s[i]) dup = true; if (s[i] >= 0 && !dup && net_readable(s[i])) ready++; }
  if (r == 0) { CHECK(dt + 2000 >= T, "select-early", "%s gave up after %llu ns", what, (unsigned long long)dt); CHECK(dt <= T + 1000000, "select-late", "%s gave up after %llu ns", what, (unsigned long long)dt); CHECK(nx > t0 + T - (T > 2000 ? 2000 : T) && !(T == 0 && nx <= t0), "select-missed", "%s did not see data that was there", what); sim_probe("select timed out"); } else { CHECK(r >= 1 && r <= ready, "select-invented", "%s reported %d of %d", what, r, ready); CHECK(nx <= t0 || dt <= nx - t0 + 1000000, "select-late", "%s returned after %llu ns", what, (unsigned long long)dt); if (ready > 1) sim_probe("several ready"); sim_nontrivial(); } }
static void new_dgram(void) {
  int k = -1; for (int i = 0; i < ND; i++) if (D[i].fd < 0) k = i; if (k < 0) return; D[k].peer = -1; int flags = ch(ST_OP, 2) ? ZPL_SOCKET_NON_BLOCKING : 0; if (ch(ST_OP, 2)) flags |= ZPL_SOCKET_NO_DELAY; static const char *const H[] = {"127.0.0.1", "node-a", "10.0.0.2", "127.0.0.1", "::1", "localhost"}; int to = (int)ch(ST_OP, ND);
  if (ch(ST_OP, 3) == 0 && D[to].fd >= 0 && D[to].peer < 0) { char p[12]; snprintf(p, sizeof p, "%d", net_port(D[to].fd)); char h[24]; snprintf(h, sizeof h, "%s", D[to].host); int fd = create(ZPL_SOCKET_UDP, ZPL_SOCKET_CONNECT, flags, h, p, false); if (fd < 0) return; D[k].fd = fd; D[k].peer = to; snprintf(D[k].host, sizeof D[k].host, "%s", h); return; }
  const char *h = H[ch(ST_OP, 6)], *p = ch(ST_OP, 4) ? "0" : "7100"; bool busy = false; for (int i = 0; i < ND; i++) if (D[i].fd >= 0 && net_port(D[i].fd) == 7100) busy = true; int fd = create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, flags, h, p, busy && strcmp(p, "0")); if (fd < 0) return; D[k].fd = fd; snprintf(D[k].host, sizeof D[k].host, "%s", h); if (ch(ST_OP, 2)) get_address(fd); }
static bool reaches(int from, int to) { if (from == to) { } if (D[to].fd < 0 || net_family(D[from].fd) != net_family(D[to].fd)) return false; return D[to].peer < 0; }
static void gram_send(int from, zpl_socket_addr *reply, int reply_to) {
  int fd = D[from].fd, to = reply ? reply_to : D[from].peer >= 0 ? D[from].peer : (int)ch(ST_OP, ND); if (ng >= NG || to < 0) return; if (!reply && D[from].peer < 0 && !reaches(from, to)) return; bool live = D[to].fd >= 0 && (D[to].peer < 0 || D[to].peer == from); uint32_t n = ch(ST_OP, 12) ? pick_size(ST_OP, 30, 1400) : ch(ST_OP, 2) ? 65507 : 65508; gram *g = &G[ng]; uint8_t *b = malloc(n + 1); for (uint32_t i = 0; i < n; i++) b[i] = gbyte(ng, (int)i); uint32_t f0 = sim_fired_total(); bool err0 = net_was_reset(fd); int r, dropped0 = (int)sim_fired(F_NET_DROP); zpl_socket_addr *a = reply;
  if (D[from].peer >= 0 && !reply) { snprintf(what, sizeof what, "sending a datagram of %u bytes on a connected socket", n); sim_ev("gram", n, to); sim_faults_enable(true); r = zpl_socket_send(fd, (char *)b, (zpl_i32)n); sim_faults_enable(false); }
  else { if (!a) { a = malloc(sizeof *a); memset(a, 0, sizeof *a); if (zpl_socket_get_address(D[to].fd, a)) CHECK(0, "failed-without-cause", "reading the address of a bound socket failed"); } snprintf(what, sizeof what, "sending a datagram of %u bytes to an address", n); sim_ev("gram", n, to); sim_faults_enable(true); r = zpl_socket_send_to(fd, a, (char *)b, (zpl_i32)n); sim_faults_enable(false); if (!reply) free(a); }
  sim_ev("sent", r, 0); free(b); if (r == -1) { failed_ok(n > 65507 || err0, f0); return; } CHECK(r == (int)n, "wrong-count", "%s reported %d", what, r); *g = (gram){.from = from, .to = to, .size = (int)n, .to_fd = live ? D[to].fd : -1, .from_fd = fd, .must = live && (int)sim_fired(F_NET_DROP) == dropped0}; net_local_name(fd, g->fhost, sizeof g->fhost, g->fserv, sizeof g->fserv); g->fwild = net_wild(fd); ng++; sim_nontrivial(); }
static void gram_recv(int to, bool full) {
  int fd = D[to].fd; bool nb = net_nonblocking(fd); uint64_t nx = net_next(fd); if (nx == UINT64_MAX && !nb) return; bool ready = nx <= sim_mono_ns, err0 = net_was_reset(fd); uint32_t n = full ? 65600 : ch(ST_OP, 4) ? 2000 : 1 + ch(ST_OP, 49); uint8_t *b = malloc(n + 1); memset(b, 0x5C, n + 1); zpl_socket_addr *a = NULL; bool plain = !full && !ch(ST_OP, 3); uint32_t f0 = sim_fired_total(); int r; size_t q0 = net_queued(fd);
  if (plain) { snprintf(what, sizeof what, "receiving a datagram of up to %u bytes", n); sim_faults_enable(!full); r = zpl_socket_receive(fd, (char *)b, (zpl_i32)n); } else { a = full || ch(ST_OP, 4) ? malloc(sizeof *a) : NULL; if (a) memset(a, 0x77, sizeof *a); snprintf(what, sizeof what, "receiving a datagram of up to %u bytes %s its sender", n, a ? "and" : "without"); sim_faults_enable(!full); r = zpl_socket_receive_from(fd, a, (char *)b, (zpl_i32)n); } sim_faults_enable(false); sim_ev("got", r, ready);
  CHECK(r >= -1 && r <= (int)n, "wrong-count", "%s reported %d", what, r); if (r == -1) { failed_ok((nb && !ready) || err0, f0); CHECK(net_queued(fd) == q0, "datagram-lost", "%s failed but took a datagram away", what); free(a); free(b); return; } CHECK(net_queued(fd) == q0 - 1, "datagram-lost", "%s took %d datagrams", what, (int)(q0 - net_queued(fd)));
  int best = -1; for (int i = 0; i < ng; i++) { gram *g = &G[i]; if (g->to_fd != fd || g->to != to || (g->size < (int)n ? g->size : (int)n) != r) continue; bool eq = true; for (int k = 0; k < r && eq; k++) eq = b[k] == gbyte(i, k); if (eq && g->delivered < 1 + (sim_fired(F_NET_DUP) > 0)) { if (best < 0 || !g->delivered) best = i; if (g->must && !g->delivered) break; } } CHECK(best >= 0, "datagram-invented", "%s gave %d bytes that no datagram to this socket holds", what, r);
  for (uint32_t k = (uint32_t)r; k < n; k++) CHECK(b[k] == 0x5C, "buffer-touched", "%s changed the buffer behind the datagram", what); gram *g = &G[best]; g->delivered++; if (g->size > (int)n) sim_probe("datagram cut to the buffer"); 
  if (a) { if (r >= 3 && !g->fwild) check_info(a, g->fhost, g->fserv, what); if (!full && r >= 3 && g->from_fd >= 0 && D[g->from].fd == g->from_fd && ch(ST_OP, 2)) { sim_probe("replied to the sender"); if (D[to].peer < 0) gram_send(to, a, g->from); } } free(a); free(b); sim_nontrivial(); sim_probe("datagram received"); }
void scenario(void) {
  sim_faults_init(FB(F_SOCKET) | FB(F_BIND) | FB(F_CONNECT) | FB(F_LISTEN) | FB(F_ACCEPT) | FB(F_SEND_SHORT) | FB(F_SEND_ERR) | FB(F_RECV_SHORT) | FB(F_RECV_ERR) | FB(F_SELECT_EINTR) | FB(F_GAI) | FB(F_FCNTL) | FB(F_SOCKNAME) | FB(F_NET_DROP) | FB(F_NET_DUP) | FB(F_NET_DELAY) | FB(F_NET_RESET)); sim_faults_enable(false);
  uint64_t b0 = sim_live_blocks(); for (int i = 0; i < NL; i++) L[i].fd = -1; for (int i = 0; i < ND; i++) D[i].fd = -1; for (int i = 0; i < NC; i++) { C[i].fd[0] = C[i].fd[1] = -1; } ng = 0;
  uint32_t base = ch(ST_CFG, 12); if (base == 10) { vfs_close_std(1); sim_probe("a socket may be number 0"); } // a process without standard input
  static const uint64_t LAT[] = {0, 50000, 2000000, 400000000}; net_config(LAT[ch(ST_CFG, 4)], ch(ST_CFG, 2) ? 1 << 16 : 1 + ch(ST_CFG, 3000), base == 11 ? 1018 : base == 10 ? 0 : 3); CHECK(zpl_socket_init() == 0, "failed-without-cause", "initialising sockets failed");
  int ops = 4 + (int)ch(ST_OP, ch(ST_OP, 3) ? 30 : 120); if (ch(ST_OP, 4)) new_listener();
  for (int o = 0; o < ops; o++) { sim_op(); uint32_t k = ch(ST_OP, 32);
    if (k < 2) new_listener(); else if (k < 5) new_connection(); else if (k < 8) accept_one(); else if (k < 17) { int i[2 * NC], e[2 * NC], n = 0; for (int a = 0; a < NC; a++) for (int b = 0; b < 2; b++) if (C[a].used && C[a].fd[b] >= 0) { i[n] = a; e[n++] = b; } if (!n) { if (ch(ST_OP, 2)) new_connection(); } else { int x = (int)ch(ST_OP, (uint32_t)n); transfer(i[x], e[x], ch(ST_OP, 2)); } } else if (k < 20) do_select(); else if (k < 22) new_dgram(); else if (k < 28) { int f[ND], n = 0; for (int i = 0; i < ND; i++) if (D[i].fd >= 0) f[n++] = i; if (!n) new_dgram(); else { int d = f[ch(ST_OP, (uint32_t)n)]; if (ch(ST_OP, 2)) gram_send(d, NULL, -1); else gram_recv(d, false); } }
    else if (k == 28) { sim_time_advance((uint64_t)ch(ST_OP, 1000) * 1000000); } else if (k == 29) { int fd = any_fd(true); if (fd >= 0) get_address(fd); }
    else if (k == 30) { int i = (int)ch(ST_OP, NC), e = (int)ch(ST_OP, 2); if (C[i].used && C[i].fd[e] >= 0 && (e == 1 || C[i].fd[1] >= 0)) { drop_end(i, e); sim_probe("end closed"); } }
    else { uint32_t w = ch(ST_OP, 3); if (w == 0) { int d = (int)ch(ST_OP, ND); if (D[d].fd >= 0) { zpl_socket_close(D[d].fd); D[d].fd = -1; for (int i = 0; i < ng; i++) { if (G[i].to == d) G[i].to_fd = -1; if (G[i].from == d) G[i].from_fd = -1; } for (int i = 0; i < ND; i++) if (D[i].peer == d) { if (D[i].fd >= 0) { zpl_socket_close(D[i].fd); D[i].fd = -1; for (int q = 0; q < ng; q++) { if (G[q].to == i) G[q].to_fd = -1; if (G[q].from == i) G[q].from_fd = -1; } } D[i].peer = -1; } } } else if (w == 1) { int fd = any_fd(true); if (fd >= 0 && sim_fault_mask() & FB(F_NET_RESET)) net_inject_reset(fd); } else { int fd = any_fd(true); (void)fd; snprintf(what, sizeof what, "waiting for a socket that is closed"); int free_fd = 900; if (!net_is_open(free_fd)) CHECK(zpl_socket_select(free_fd, 0) == -1, "select-invented", "%s succeeded", what); } }
    sim_feature(sim_mix((uint64_t)net_open_sockets() * 40 + k, sim_fired_total() & 7));
  }
  // faults stop: everything that was sent and not lost arrives
  sim_faults_enable(false);
  for (int i = 0; i < NC; i++) if (C[i].used && C[i].fd[0] >= 0 && C[i].fd[1] < 0 && !C[i].closed[1] && C[i].l->fd >= 0 && !net_was_reset(C[i].fd[0])) { uint64_t nx = net_next(C[i].l->fd); if (nx == UINT64_MAX) continue; int r = zpl_socket_select(C[i].l->fd, 10); if (r == -1 && C[i].l->fd >= 1024) { if (nx > sim_mono_ns) sim_time_advance(nx - sim_mono_ns); } else CHECK(r == 1, "select-missed", "a pending connection was not reported (%d)", r); int fd = zpl_socket_accept(C[i].l->fd, NULL); CHECK(fd >= 0, "failed-without-cause", "accepting a pending connection failed"); int k = -1; for (int j = 0; j < NC; j++) if (C[j].used && C[j].port == net_peer_port(fd) && C[j].fd[1] < 0 && !C[j].closed[1]) k = j; CHECK(k >= 0, "harness", "accepted an unknown connection"); C[k].fd[1] = fd; }
  for (int i = 0; i < NC; i++) for (int e = 0; e < 2; e++) if (C[i].used && C[i].fd[e] >= 0) { conn *c = &C[i]; uint64_t nx; uint8_t b[512]; while ((nx = net_next(c->fd[e])) != UINT64_MAX) { if (nx > sim_mono_ns) sim_time_advance(nx - sim_mono_ns); if (net_was_reset(c->fd[e])) c->broken = true; int r = zpl_socket_receive(c->fd[e], (char *)b, sizeof b); if (r <= 0) { CHECK(c->broken || c->closed[!e] || net_was_reset(c->fd[e]), "failed-without-cause", "receiving the last bytes failed (%d)", r); break; } CHECK(c->got[e] + (size_t)r <= c->sent[!e], "bytes-invented", "more bytes arrived than were sent"); for (int k = 0; k < r; k++) CHECK(b[k] == byte_of((size_t)i, !e, c->got[e] + (size_t)k), "bytes-differ", "a wrong byte arrived at position %zu", c->got[e] + (size_t)k); c->got[e] += (size_t)r; } if (net_was_reset(c->fd[e])) c->broken = true; if (!c->broken && !c->closed[!e] && c->fd[!e] >= 0 && !net_was_reset(c->fd[!e])) { CHECK(c->got[e] == c->sent[!e], "bytes-lost", "%zu of %zu bytes of a connection that was never reset did not arrive", c->sent[!e] - c->got[e], c->sent[!e]); if (c->got[e]) sim_probe("stream complete"); } }
  for (int i = 0; i < ND; i++) if (D[i].fd >= 0) { uint64_t nx; while ((nx = net_next(D[i].fd)) != UINT64_MAX && net_queued(D[i].fd)) { if (nx > sim_mono_ns) sim_time_advance(nx - sim_mono_ns); gram_recv(i, true); } }
  for (int i = 0; i < ng; i++) if (G[i].must && G[i].to_fd >= 0 && D[G[i].to].fd == G[i].to_fd) CHECK(G[i].delivered, "datagram-lost", "a datagram of %d bytes that the network did not lose was never received", G[i].size);
  for (int i = 0; i < NC; i++) if (C[i].used) { conn *c = &C[i]; bool orderly = c->fd[0] >= 0 && c->fd[1] >= 0 && !c->broken && !net_was_reset(c->fd[0]) && !net_was_reset(c->fd[1]); int e = (int)ch(ST_OP, 2); if (orderly) { drop_end(i, e); uint64_t nx = net_next(c->fd[!e]); if (nx != UINT64_MAX && nx > sim_mono_ns) sim_time_advance(nx - sim_mono_ns); char b[4]; int r = zpl_socket_receive(c->fd[!e], b, 4); CHECK(r == 0, "shutdown-missed", "after the peer closed its end, receiving gave %d", r); } for (e = 0; e < 2; e++) if (c->fd[e] >= 0) drop_end(i, e); }
  for (int i = 0; i < NL; i++) if (L[i].fd >= 0) zpl_socket_close(L[i].fd); for (int i = 0; i < ND; i++) if (D[i].fd >= 0) zpl_socket_close(D[i].fd); zpl_socket_terminate(); CHECK(net_open_sockets() == 0, "leak:descriptor", "%d sockets are open after all were closed", net_open_sockets()); no_leaks(b0, "using sockets");
}
