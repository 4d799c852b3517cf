// variants: A
#include "common.h"
#include "tar.inc"
const char *const scenario_name = "C20";
const char *const scenario_rule = "a run counts when the archive is cut, damaged, hostile or read under failures, and its trace differs from every other run";
static uint8_t a[200000]; static int64_t an, start;
static bool special; // anything out of the ordinary in this archive
static void put(const char *name, char type, int64_t len, int sizekind, int sumkind, int64_t data) {
  if (an + 512 + t_pad(data) + 2048 > (int64_t)sizeof a) return; uint8_t *h = a + an; memset(h, 0, 512); strncpy((char *)h, name, 100); snprintf((char *)h + 100, 8, "%07o", 0644); snprintf((char *)h + 136, 12, "%011o", 12345); h[156] = (uint8_t)type;
  uint8_t *s = h + 124; switch (sizekind) { case 0: snprintf((char *)s, 12, "%llo", (long long)len); break; case 1: snprintf((char *)s, 12, "%011llo", (long long)len); break; case 2: { char b[16]; snprintf(b, sizeof b, "%012llo", (long long)len); memcpy(s, b, 12); break; } case 3: { char b[16]; snprintf(b, sizeof b, "%11llo ", (long long)len); memcpy(s, b, 12); break; }
    case 4: memcpy(s, "-1\0\0\0\0\0\0\0\0\0\0", 12); break; case 5: memcpy(s, "-1000\0\0\0\0\0\0\0", 12); break; case 6: memcpy(s, "777777777777", 12); break; case 7: memcpy(s, "zzzz", 5); break; case 8: memset(s, 0, 12); s[0] = 0x80; s[11] = (uint8_t)len; break; case 9: memset(s, 0xff, 12); break; case 10: memset(s, ' ', 12); break; case 11: snprintf((char *)s, 12, "0x%llx", (long long)len); break; }
  t_sum(h); if (sumkind) { special = true; switch (sumkind) { case 1: { uint32_t v = 0; for (int i = 0; i < 512; i++) v += i >= 148 && i < 156 ? ' ' : h[i]; char b[16]; snprintf(b, sizeof b, "%08o", v); memcpy(h + 148, b, 8); break; } case 2: { uint32_t v = 0; for (int i = 0; i < 512; i++) v += i >= 148 && i < 156 ? ' ' : h[i]; memset(h + 148, 0, 8); snprintf((char *)h + 148, 8, "%o", v); break; } case 3: h[148 + ch(ST_OP, 6)] ^= 1; break; case 4: memset(h + 148, 0, 8); break; case 5: h[ch(ST_OP, 148)] ^= 1 << ch(ST_OP, 8); break; case 6: memset(h + 148, ' ', 8); break; case 7: memcpy(h + 148, "-0000001", 8); break; case 8: { int64_t v; t_octal(h + 148, 8, &v); snprintf((char *)h + 148, 8, "%06o", (uint32_t)v + 1 - 2 * ch(ST_OP, 2)); break; } } }
  if (sizekind > 3) special = true; an += 512; sim_fill(a + an, data, 300 + (uint32_t)(an % 1000)); memset(a + an + data, 0, t_pad(data) - data); an += t_pad(data);
}
static void build(void) {
  uint32_t n = ch(ST_OP, 7); if (ch(ST_OP, 20) == 19) n = 30;
  for (uint32_t i = 0; i < n; i++) {
    static const char *ok[] = {"a", "b.txt", "dir/c", "dir/d", "dir/sub/e", "..a", "x/..y", "e.", "dir/a..", "a b", ".x", "dir/.y/z"}; static const char *evil[] = {"../x", "/w/keep", "a/../../keep", "..", "dir/..", "", "dir/", ".", "./../keep", "//w//keep", "dir/../../keep2", "/", "dir/sub/../../../keep", "../w/keep", "/../keep", "./", "a/./b", "....//keep", "../out/ok", "..\\keep"};
    char nm[160]; uint32_t k = ch(ST_OP, 16); if (k < 11) strcpy(nm, ok[ch(ST_OP, 12)]); else if (k < 14) { strcpy(nm, evil[ch(ST_OP, 20)]); special = true; } else { size_t l = k == 14 ? 100 : 60 + ch(ST_OP, 40); memset(nm, 'l', l); nm[l] = 0; if (ch(ST_OP, 2)) nm[30] = '/'; special = true; }
    static const char types[] = {'0', '0', '0', '0', '0', '0', '5', '2', 0, 'g', '1', '7'}; char ty = types[ch(ST_OP, 12)]; static const int ds[] = {0, 1, 511, 512, 513, 100, 4096, 4097, 8192}; uint32_t dk = ch(ST_OP, 11); int64_t data = dk < 9 ? ds[dk] : (int64_t)ch(ST_OP, dk == 9 ? 2000 : 20000);
    uint32_t sk = ch(ST_OP, 20); int sizekind = sk < 16 ? (int)(sk % 4) : 4 + (int)ch(ST_OP, 8); uint32_t ck = ch(ST_OP, 16); int sum = ck < 12 ? 0 : 1 + (int)ch(ST_OP, 8); put(nm, ty, data, sizekind, sum, data);
  }
  uint32_t e = ch(ST_OP, 8); if (e < 6) { memset(a + an, 0, 1024); an += 1024; if (e == 5) { sim_fill(a + an, 512, 9); an += 512; } } else { special = true; if (e == 6) { memset(a + an, 0, 512); an += 512; } }
  if (ch(ST_OP, 4) == 3 && an) { an = ch(ST_OP, (uint32_t)an + 1); special = true; sim_probe("cut"); }
  if (ch(ST_OP, 5) == 4 && an) { uint32_t m = 1 + ch(ST_OP, 3); for (uint32_t i = 0; i < m; i++) a[ch(ST_OP, (uint32_t)an)] ^= (uint8_t)(1 + ch(ST_OP, 255)); special = true; sim_probe("bytes flipped"); }
  if (ch(ST_OP, 25) == 24) { an = ch(ST_OP, 3000); sim_fill(a, an, 77); special = true; sim_probe("noise"); }
}
// ---- what the visitor saw, judged while it goes on
static int64_t pos; static bool lost; static int visits, stop_at, stop_code; static TRec last; static bool last_bad; static int64_t total; static char what[160]; static bool move_cursor;
static const TRec *expect(TRec *t) { if (pos < 0 || pos + 512 > total) return 0; t_parse(a + pos - start, pos, t); return t; }
static ZPL_TAR_UNPACK_PROC(visit) {
  (void)user_data; TRec t; visits++; CHECK(visits < 5000, "no-progress", "%s visits records without end", what); const TRec *e = expect(&t);
  CHECK(e, "visited-nothing", "%s visits a record at %lld where the archive has none left", what, (long long)file->offset - 512); CHECK(file->offset == pos + 512, "wrong-offset", "%s visits a record at offset %lld, expected %lld", what, (long long)file->offset, (long long)pos + 512);
  CHECK(!t.zero, "visited-end-mark", "%s visits the end mark as a record", what); last = t; last_bad = !(t.sum_ok && t.size_ok);
  CHECK(!strcmp(file->path, t.name), "wrong-name", "%s visits \"%.120s\", the record is named \"%s\"", what, file->path, t.name); CHECK(file->type == t.type, "wrong-type", "%s gives \"%s\" type %d", what, t.name, file->type);
  if (t.sum_ok && t.size_ok) { CHECK(file->error == 0, "flagged-good", "%s flags the intact record \"%s\"", what, t.name); CHECK(file->length == t.len, "wrong-length", "%s gives \"%s\" %lld bytes, it has %lld", what, t.name, (long long)file->length, (long long)t.len); sim_probe("intact record visited"); if (!move_cursor && !sim_fired(F_LSEEK)) { sim_faults_enable(false); static uint8_t d[700]; int64_t n = file->length < (int64_t)sizeof d ? file->length : (int64_t)sizeof d, left = total - file->offset; if (n > left) n = left; if (n > 0) CHECK(zpl_file_read(archive, d, n) && !memcmp(d, a + file->offset - start, n), "wrong-position", "%s hands over the archive somewhere else than at the content of \"%s\"", what, t.name); sim_faults_enable(true); } }
  if (t.sum_bad) { CHECK(file->error != 0, "checksum-not-flagged", "%s does not flag \"%s\" whose checksum is wrong", what, t.name); sim_probe("bad checksum flagged"); }
  CHECK(file->length >= 0, "negative-length", "%s gives \"%s\" %lld bytes", what, t.name, (long long)file->length);
  pos = file->offset + t_pad(file->length); if (move_cursor) zpl_file_seek(archive, ch(ST_OP, 3000)); sim_ev("visit", file->length, file->error);
  if (visits == stop_at) return stop_code; return 0;
}
// ---- unpacking into a directory
typedef struct { char path[160]; int64_t off, len; } Want; static Want want[64]; static int nw; static bool resolve(const char *n, char *out) { // false: leaves the target or names no file
  char tmp[256] = ""; const char *p = n; if (!*p || p[strlen(p) - 1] == '/') return false; while (*p) { while (*p == '/') p++; const char *e = p; while (*e && *e != '/') e++; size_t l = e - p; if (l == 2 && p[0] == '.' && p[1] == '.') return false; if (l == 1 && p[0] == '.') { if (!*e) return false; } else if (l) { strcat(tmp, "/"); strncat(tmp, p, l); } p = e; } if (!*tmp) return false; strcpy(out, tmp); return true; }
static int nfiles; static bool okret; static bool anybytes(const uint8_t *d, size_t n) { if (!n) return true; if ((int64_t)n > an) return false; for (int64_t i = 0; i + (int64_t)n <= an; i++) if (a[i] == d[0] && !memcmp(a + i, d, n)) return true; return false; }
static void each(const char *p, int t, void *u) { (void)u; if (strncmp(p, "/w/out/", 7) || t == 2) return; size_t n; const uint8_t *d = vfs_data(p, &n); nfiles++; CHECK(d && anybytes(d, n), "foreign-bytes", "%s made %s with bytes that are not in the archive", what, p); bool named = false; for (int i = 0; i < nw; i++) if (!strcmp(want[i].path, p + 6)) named = true; CHECK(named, "made-other", "%s made %s, which no intact record names", what, p); (void)okret; }
// an archive of many gigabytes, nearly all of it holes: offsets and lengths have to survive in full
typedef struct { char name[40]; char type; int64_t off, len; uint32_t seed; } Far; static Far fr[12]; static int nfr, seen_far;
static ZPL_TAR_UNPACK_PROC(far_visit) { (void)user_data; CHECK(seen_far < nfr, "visited-nothing", "%s visits a record after the last", what); Far *f = &fr[seen_far++]; CHECK(!strcmp(file->path, f->name) && file->type == f->type && !file->error, "wrong-name", "%s visits \"%.60s\" instead of \"%s\"", what, file->path, f->name); CHECK(file->offset == f->off, "wrong-offset", "%s gives \"%s\" the offset %lld, it is %lld", what, f->name, (long long)file->offset, (long long)f->off); CHECK(file->length == f->len, "wrong-length", "%s gives \"%s\" %lld bytes, it has %lld", what, f->name, (long long)file->length, (long long)f->len);
  if (f->seed) { bool on = sim_faults_raw(); sim_faults_enable(false); static uint8_t w[1600000], g[1600000]; sim_fill(w, (size_t)f->len, f->seed); CHECK(zpl_file_read_at(archive, g, file->length, file->offset) && !memcmp(w, g, (size_t)f->len), "wrong-bytes", "%s: the bytes of \"%s\" are not its own", what, f->name); sim_faults_enable(on); } return 0; }
static void far_archive(void) {
  static const int64_t L[] = {1ll << 31, 1ll << 32, 3ll << 31, 5ll << 30, 077777777777ll, 511, 0, 4096}; zpl_file ar = {0}; CHECK(!zpl_file_create(&ar, "/w/far.tar"), "harness", "create"); int64_t p = 0; nfr = 0; seen_far = 0; int n = 1 + (int)ch(ST_OP, 8); sim_op(); sim_nontrivial();
  for (int i = 0; i < n; i++) { Far *f = &fr[nfr++]; snprintf(f->name, sizeof f->name, ch(ST_OP, 2) ? "f%d" : "d/f%d", i); bool big = ch(ST_OP, 2); static const int64_t M[] = {65536, 262144, 300001, 1048576, 1500000}; bool mid = !big && !ch(ST_OP, 10); f->len = mid ? M[ch(ST_OP, 5)] + (int64_t)ch(ST_OP, 3) - 1 : big ? L[ch(ST_OP, 8)] - (int64_t)ch(ST_OP, 2) : (int64_t)ch(ST_OP, 5000); if (f->len < 0) f->len = 0; big = big && f->len >= 5000; f->type = big ? '7' : '0'; f->seed = big ? 0 : 900 + (uint32_t)i; an = 0; put(f->name, f->type, f->len, 1, 0, 0); zpl_b32 ok = zpl_file_write_at(&ar, a, 512, p); f->off = p + 512; if (f->seed) { static uint8_t d[1600000]; sim_fill(d, (size_t)f->len, f->seed); ok = ok && (!f->len || zpl_file_write_at(&ar, d, f->len, f->off)); } CHECK(ok, "harness", "write"); p = f->off + t_pad(f->len); sim_ev("far record", f->type, f->len); }
  memset(a, 0, 1024); CHECK(zpl_file_write_at(&ar, a, 1024, p), "harness", "write"); zpl_file_seek(&ar, 0); snprintf(what, sizeof what, "unpacking %lld bytes", (long long)p + 1024); sim_ev(what, n, p); uint64_t b0 = sim_live_blocks(); int f0 = vfs_open_fds(); uint32_t t0 = sim_fired_total(); vfs_mkdirs("/w/out"); bool dir = ch(ST_OP, 2);
  sim_faults_enable(true); zpl_isize r = dir ? zpl_tar_unpack_dir(&ar, "/w/out") : zpl_tar_unpack(&ar, far_visit, 0); sim_faults_enable(false); bool hard = sim_fired_total() - sim_fired(F_READ_SHORT) - sim_fired(F_READ_EINTR) - sim_fired(F_WRITE_SHORT) - sim_fired(F_WRITE_EINTR) != t0; sim_ev("unpacked", r, seen_far);
  CHECK(r == 0 || hard, "failed-without-cause", "%s gave %ld although nothing was refused", what, (long)r); if (r == 0) { if (!dir) CHECK(seen_far == nfr, "claimed-complete", "%s reports success after %d of %d records", what, seen_far, nfr);
    else for (int i = 0; i < nfr; i++) { char b[80]; snprintf(b, sizeof b, "/w/out/%s", fr[i].name); size_t m = 0; const uint8_t *d = vfs_data(b, &m); if (!fr[i].seed) { CHECK(!d, "made-other", "%s made %s", what, b); continue; } static uint8_t w[1600000]; sim_fill(w, (size_t)fr[i].len, fr[i].seed); CHECK(d && (int64_t)m == fr[i].len && !memcmp(d, w, m), "claimed-written", "%s reports success, %s %s", what, b, d ? "has other bytes" : "is missing"); } sim_probe("archive of many gigabytes"); }
  no_leaks(b0, what); no_fd_leaks(f0, 0, what); zpl_file_close(&ar); sim_feature(sim_mix(n, sim_mix(p >> 30, dir)));
}
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_READ_SHORT) | FB(F_READ_EINTR) | FB(F_READ_EIO) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC) | FB(F_OPEN) | FB(F_MKDIR) | FB(F_ALLOC)); maybe_no_stdin(); sim_faults_enable(false); if (!ch(ST_CFG, 24)) { far_archive(); return; } build();
  start = ch(ST_OP, 4) == 3 ? 1 + ch(ST_OP, 700) : 0; static uint8_t img[201000]; memset(img, 0x30, start); memcpy(img + start, a, an); total = start + an; vfs_write_file("/w/a.tar", img, total); bool stream = ch(ST_OP, 4) == 3; sim_ev("archive", an, (int64_t)sim_hash(a, an)); if (special) sim_nontrivial(); 
  zpl_file ar = {0}; if (stream) { zpl_b8 r = zpl_file_stream_open(&ar, ALLOC, img, total, 0); CHECK(r, "harness", "stream"); } else { zpl_file_error e = zpl_file_open(&ar, "/w/a.tar"); CHECK(!e, "harness", "open"); }
  zpl_file_seek(&ar, start); sim_op(); uint64_t b0 = sim_live_blocks(); int f0 = vfs_open_fds(); uint32_t t0 = sim_fired_total();
  uint32_t mode = ch(ST_OP, 9);
  if (mode == 8) { // the supplied lister: a line for every intact regular file
    snprintf(what, sizeof what, "listing %lld bytes", (long long)an); size_t o0; vfs_cap_data(1, &o0); zpl_isize r = zpl_tar_unpack(&ar, zpl_tar_default_list_file, 0); size_t o1; const uint8_t *o = vfs_cap_data(1, &o1); sim_ev("listed", r, (int64_t)(o1 - o0)); sim_probe("listed"); CHECK(r <= 0, "bad-code", "%s gave %ld", what, (long)r);
    int64_t p = start; bool certain = true; size_t at = o0; int lines = 0; while (p + 512 <= total) { TRec t; t_parse(a + p - start, p, &t); if (t.zero) break; if (!t.size_ok || (!t.sum_ok && !t.sum_bad)) { certain = false; break; }
      if (t.sum_ok && t.type == '0') { const uint8_t *nl = at < o1 ? memchr(o + at, '\n', o1 - at) : 0; for (const char *q = t.name; *q && nl; q++) if (*q == '\n') nl = memchr(nl + 1, '\n', o1 - (nl + 1 - o)); CHECK(nl, "not-listed", "%s does not mention the intact file \"%s\"", what, t.name); CHECK(memmem(o + at, nl - (o + at), t.name, strlen(t.name)), "not-listed", "%s does not mention the intact file \"%s\" in its place", what, t.name); at = nl + 1 - o; lines++; }
      p = t.off + t_pad(t.len); }
    if (certain) CHECK(at == o1, "listed-other", "%s printed %zu bytes too many", what, o1 - at); sim_feature(sim_mix(lines, r));
  } else if (mode % 2 == 0) {
    pos = start; stop_at = ch(ST_OP, 5) == 4 ? 1 + (int)ch(ST_OP, 6) : -1; stop_code = 1 + ch(ST_OP, 3); move_cursor = ch(ST_OP, 3) == 2; snprintf(what, sizeof what, "unpacking %lld bytes", (long long)an); sim_faults_enable(true); zpl_isize r = zpl_tar_unpack(&ar, visit, 0); sim_faults_enable(false); bool calm = sim_fired_total() == t0, hard = sim_fired(F_READ_EIO) || sim_fired(F_LSEEK), stopped = stop_at > 0 && visits == stop_at; sim_ev("unpacked", r, visits); if (!calm || stopped) sim_nontrivial(); (void)calm;
    TRec t; const TRec *e = expect(&t);
    CHECK(r <= 0, "bad-code", "%s gave %ld", what, (long)r);
    if (stopped) CHECK(r < 0, "interrupt-lost", "%s reports success although the visitor stopped it", what);
    else if (r == 0) { CHECK(!e ? pos == total : e->zero, "claimed-complete", "%s reports success, yet %s", what, e ? "a record follows" : "the archive ends inside a record"); sim_probe("unpacked to the end"); }
    else if (e && !e->zero && !last_bad && visits) CHECK(hard || !(t.sum_ok && t.size_ok), "stopped-early", "%s gave %ld before the intact record \"%s\"", what, (long)r, t.name);
    else if (e && e->zero && !last_bad) CHECK(hard, "failed-without-cause", "%s gave %ld although it reached the end mark", what, (long)r);
    if (r && !stopped && !hard) sim_probe("damage reported");
  } else {
    // the intact records that may be unpacked, by an independent walk
    int64_t p = start; bool certain = true; nw = 0; while (p + 512 <= total) { TRec t; t_parse(a + p - start, p, &t); if (t.zero) break; char out[256]; if (!t.sum_ok && !t.size_ok) { certain = false; } if (t.size_ok == false || (!t.sum_ok && !t.sum_bad)) { certain = false; } if (!t.sum_bad && t.type == '0' && resolve(t.name, out) && nw < 64) { strcpy(want[nw].path, out); want[nw].off = t.off; want[nw].len = t.size_ok ? t.len : -1; nw++; } if (!t.size_ok) { // where the next record starts is anyone's guess: the digits up to the first other byte, or nothing
          int64_t v = 0; t_octal(a + p - start + 124, 12, &v); p = t.off + t_pad(v); } else p = t.off + t_pad(t.len); }
    bool ended = p + 512 <= total || p == total; static char dl[4300]; static const char *dests[] = {"/w/out", "/w/out/", "out", "./out/", ""}; uint32_t dk = ch(ST_OP, 14); const char *dest = dests[dk < 5 ? dk : 0]; extern int sim_chdir(const char *); vfs_mkdirs("/w/out"); if (dk == 4) sim_chdir("/w/out"); else if (dk == 13) { strcpy(dl, "/w/out/"); size_t L = 4060 + ch(ST_OP, 120); while (strlen(dl) + 2 < L) strcat(dl, "./"); dest = dl; }
    bool huge = dk == 13 || (dk == 12 ? false : false); vfs_write_file("/w/keep", "keep", 4); vfs_write_file("/w/keep2", "keep", 4); vfs_write_file("/keep", "keep", 4); vfs_set_sandbox("/w/out"); bool disk = ch(ST_OP, 10) == 9; if (disk) vfs_set_disk(ch(ST_OP, 20000));
    if (ch(ST_OP, 8) == 7) { vfs_write_file("/w/out/a", "an older and rather longer file", 31); if (ch(ST_OP, 2)) vfs_set_readonly("/w/out/a", true); for (int i = 0; i < nw; i++) if (!strcmp(want[i].path, "/a")) huge = true; strcpy(want[nw].path, "/a"); want[nw].off = -1; nw++; vfs_write_file("/w/out/ab", "x", 1); vfs_unlink("/w/out/ab"); }
    bool older = nw && want[nw - 1].off == -1; snprintf(what, sizeof what, "unpacking %lld bytes into \"%.20s\"", (long long)an, dest); sim_faults_enable(true); zpl_isize r = zpl_tar_unpack_dir(&ar, dest); sim_faults_enable(false); bool calm = sim_fired_total() == t0; sim_ev("unpacked", r, vfs_hash()); if (!calm || disk) sim_nontrivial();
    CHECK(r <= 0, "bad-code", "%s gave %ld", what, (long)r); CHECK(!vfs_escapes(), "escaped", "%s changed %s", what, vfs_escape_path()); size_t kn; const void *kd = vfs_data("/w/keep", &kn); CHECK(kd && kn == 4 && !memcmp(kd, "keep", 4), "escaped", "%s changed /w/keep", what);
    okret = r == 0; if (!older) vfs_list(each, 0);
    if (r == 0) { CHECK(!certain || ended, "claimed-complete", "%s reports success, yet the archive ends inside a record", what);
      if (certain) for (int i = 0; i < nw; i++) { bool later = false; for (int j = i + 1; j < nw; j++) if (!strcmp(want[i].path, want[j].path) && want[j].off >= 0) later = true; if (later || want[i].off < 0) continue; char f[300]; snprintf(f, sizeof f, "/w/out%s", want[i].path); size_t n; const uint8_t *d = vfs_data(f, &n); CHECK(d, "claimed-created", "%s reports success without %s", what, f); CHECK((int64_t)n == want[i].len && !memcmp(d, a + want[i].off - start, n), "claimed-written", "%s reports success, %s holds %zu bytes that differ from its %lld", what, f, n, (long long)want[i].len); sim_probe("unpacked a file"); } }
    else { bool clean = certain && ended && calm && !disk && !huge && !older; if (clean) { // must then be a name that cannot be created
        bool clash = false; int64_t q = start; while (q + 512 <= total) { TRec t; t_parse(a + q - start, q, &t); if (t.zero) break; char out[256]; if (t.type == '0' && t.sum_ok && !resolve(t.name, out)) clash = true; q = t.off + t_pad(t.len); } for (int i = 0; i < nw; i++) for (int j = 0; j < nw; j++) { size_t l = strlen(want[i].path); if (!strncmp(want[i].path, want[j].path, l) && want[j].path[l] == '/') clash = true; } CHECK(clash || q == total, "failed-without-cause", "%s gave %ld although nothing was refused", what, (long)r); } sim_probe(calm ? "damage reported" : "failure reported"); }
    sim_feature(sim_mix(nw, sim_mix(r, nfiles)));
  }
  if (!stream) { no_leaks(b0, what); } no_fd_leaks(f0, 0, what); zpl_file_close(&ar); no_fd_leaks(0, 0, what); sim_feature(sim_mix(visits, sim_mix(sim_fired_total(), an / 512)));
}
