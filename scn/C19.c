// variants: A
#include "common.h"
#include "tar.inc"
const char *const scenario_name = "C19";
const char *const scenario_rule = "a run counts when it packs at least two files or a file whose size is no multiple of 512, or meets a failure or an impossible request, and its trace differs from every other run";
#define NF 400
static struct { char path[200]; uint8_t *d; size_t n; bool dir; } fs_[NF]; static int nf;
extern void *__real_calloc(size_t, size_t); extern void __real_free(void *);
static int evf, evk; static void other(void *u) { (void)u; if (evk == 0) vfs_write_file(fs_[evf].path, fs_[evf].d, fs_[evf].n / 2); else if (evk == 1) { uint8_t *b = __real_calloc(1, fs_[evf].n + 700); memcpy(b, fs_[evf].d, fs_[evf].n); vfs_write_file(fs_[evf].path, b, fs_[evf].n + 700); __real_free(b); } else vfs_unlink(fs_[evf].path); }
static size_t sizes(void) { static const size_t s[] = {0, 1, 511, 512, 513, 1024, 4095, 4096, 4097, 8192, 12288, 8193}; uint32_t k = ch(ST_OP, 18); return k < 12 ? s[k] : k < 17 ? ch(ST_OP, 3000) : ch(ST_OP, 40000); }
static bool mkname(char *b, const char *dir) { uint32_t k = ch(ST_OP, 15); size_t l = strlen(dir); char nm[140]; static const char *fixed[] = {"a", "b.txt", "with space", "eleven_chars", "a_name_of_twelve", "..x", "\xc3\xa9t\xc3\xa9", "%s%d", " lead", "trail ", "\ttab\t"};
  if (k < 8) strcpy(nm, fixed[k]); else if (k > 11) strcpy(nm, fixed[k - 4]); else { size_t m = k == 8 ? ch(ST_OP, 60) + 1 : (size_t)(95 + ch(ST_OP, 8)) - (l + 1 < 90 ? l + 1 : 0); memset(nm, 'n', m); nm[m] = 0; }
  if (l + strlen(nm) > 190) return false; snprintf(b, 200, "%s/%s", dir, nm); return !vfs_exists(b); }
static void build(void) { static const char *dirs[] = {"/w/src", "/w/src/sub", "/w/src/sub/deep", "/w/src/other"}; vfs_mkdirs("/w/src"); uint32_t n = 1 + ch(ST_OP, 6); if (ch(ST_OP, 10) == 9) n = 18; bool many = ch(ST_OP, 90) == 89; if (many) { n = 30 + ch(ST_OP, 350); sim_probe("hundreds of files"); } if (ch(ST_OP, 4) == 3) { vfs_mkdirs("/w/src/empty"); }
  for (uint32_t i = 0; i < n && nf < NF; i++) { const char *d = dirs[ch(ST_OP, 4)]; if (many || !mkname(fs_[nf].path, d)) { snprintf(fs_[nf].path, 200, "%s/f%u", d, i); if (vfs_exists(fs_[nf].path)) continue; } fs_[nf].n = many ? ch(ST_OP, 700) : sizes(); fs_[nf].d = __real_calloc(1, fs_[nf].n + 1); sim_fill(fs_[nf].d, fs_[nf].n, 100 + nf); vfs_write_file(fs_[nf].path, fs_[nf].d, fs_[nf].n); if (ch(ST_OP, 3) == 2) { static const int64_t ts[] = {0, 1, 7, 1700000000, 2147483647, 2147483648ll, 4294967296ll, 8589934591ll, 1ll << 32 | 5}; vfs_set_mtime(fs_[nf].path, ts[ch(ST_OP, 9)]); } sim_ev("file", fs_[nf].n, sim_hash(fs_[nf].path, strlen(fs_[nf].path))); nf++; } }
// an archive that only keeps the first bytes, for the very large
static struct { uint64_t size, cur; uint8_t head[1024]; uint8_t tail[1536]; } big;
static ZPL_FILE_SEEK_PROC(bseek) { (void)fd; if (whence == ZPL_SEEK_WHENCE_BEGIN) big.cur = offset; else if (whence == ZPL_SEEK_WHENCE_CURRENT) big.cur += offset; else big.cur = big.size + offset; if (new_offset) *new_offset = big.cur; return true; }
static ZPL_FILE_READ_AT_PROC(bread) { (void)fd; (void)buffer; (void)size; (void)offset; (void)stop_at_newline; if (bytes_read) *bytes_read = 0; return false; }
static ZPL_FILE_WRITE_AT_PROC(bwrite) { (void)fd; const uint8_t *p = buffer; for (int64_t i = 0; i < size && offset + i < 1024; i++) big.head[offset + i] = p[i]; if (size >= 1536) memcpy(big.tail, p + size - 1536, 1536); else { memmove(big.tail, big.tail + size, 1536 - size); memcpy(big.tail + 1536 - size, p, size); } CHECK((uint64_t)offset == big.size, "gap", "the archive is written with a gap at %llu", (unsigned long long)offset); big.size += size; if (bytes_written) *bytes_written = size; return true; }
static ZPL_FILE_CLOSE_PROC(bclose) { (void)fd; }
static void very_large(void) {
  static const int64_t bs[] = {(1ll << 32) + 3, (1ll << 31) + 512, 8589934591ll + 1, 1ll << 36}; int k = ch(ST_OP, 16); k = k < 12 ? 2 + k % 2 : k - 12 > 1 ? 0 : 1; int64_t n = bs[k]; vfs_sparse("/w/huge", n); sim_budget_syscalls = 40000000; const char *paths[] = {"/w/huge"}; zpl_file f = {0}; f.ops.read_at = bread; f.ops.write_at = bwrite; f.ops.seek = bseek; f.ops.close = bclose; f.fd.i = 77; static char nm[] = "sink"; f.filename = nm;
  sim_faults_enable(false); zpl_isize r = zpl_tar_pack(&f, paths, 1); sim_ev("pack huge", r, (int64_t)big.size); sim_nontrivial(); sim_op();
  if (r == 0) { TRec t; t_parse(big.head, 0, &t); CHECK(t.sum_ok && t.size_ok && t.len == n, "wrong-size", "packing a file of %lld bytes recorded %lld", (long long)n, (long long)t.len); CHECK((int64_t)big.size == 512 + t_pad(n) + 1024, "wrong-length", "packing a file of %lld bytes gave an archive of %llu", (long long)n, (unsigned long long)big.size); for (int i = 512; i < 1536; i++) CHECK(!big.tail[i], "no-end-mark", "no end mark"); sim_probe("huge file packed"); }
  else { CHECK(n > 8589934591ll, "failed-without-cause", "packing a file of %lld bytes failed", (long long)n); sim_probe("too large for the format"); }
  no_fd_leaks(0, 0, "packing a very large file");
}
typedef struct { int n; TRec r[480]; } Got; static ZPL_TAR_UNPACK_PROC(collect) { (void)archive; Got *g = user_data; if (g->n < 480) { TRec *t = &g->r[g->n++]; memset(t, 0, sizeof *t); snprintf(t->name, sizeof t->name, "%s", file->path); t->off = file->offset; t->len = file->length; t->type = file->type; t->sum_ok = file->error == 0; } return 0; }
static const char *norm(const char *p) { for (;;) { if (*p == '/') p++; else if (p[0] == '.' && p[1] == '/') p += 2; else return p; } }
static int count_out; static void cnt(const char *p, int t, void *u) { (void)u; if (!strncmp(p, "/w/out/", 7) && t != 2) count_out++; }
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC) | FB(F_OPEN) | FB(F_READ_SHORT) | FB(F_READ_EINTR) | FB(F_READ_EIO) | FB(F_WRITE_SHORT) | FB(F_WRITE_EINTR) | FB(F_WRITE_EIO) | FB(F_ENOSPC) | FB(F_STAT) | FB(F_OPENDIR)); maybe_no_stdin(); sim_faults_enable(false);
  if (ch(ST_OP, 600) == 599) { very_large(); return; }
  build(); bool dirmode = ch(ST_OP, 2), stream = ch(ST_OP, 4) == 3; vfs_set_dtype_unknown(ch(ST_OP, 4) == 3); int64_t start = ch(ST_OP, 5) == 4 ? 512 + ch(ST_OP, 700) : 0;
  // the request
  static char pb[440][240]; const char *paths[440]; int np = 0, idx[440]; bool possible = true; const char *pdir = "/w/src"; char cwdp[300]; (void)cwdp;
  if (dirmode) { static const char *d[] = {"/w/src", "src", "./src", "src/", "/w/src/sub", "/w/none", "/w/src/empty"}; pdir = d[ch(ST_OP, 3) < 2 ? ch(ST_OP, 4) : ch(ST_OP, 7)]; char abs[64]; snprintf(abs, sizeof abs, "%s%s", pdir[0] == '/' ? "" : "/w/", pdir[0] == '.' ? pdir + 2 : pdir); size_t l = strlen(abs); if (abs[l - 1] == '/') abs[--l] = 0;
    for (int i = 0; i < nf; i++) if (!strncmp(fs_[i].path, abs, l) && fs_[i].path[l] == '/') { snprintf(pb[np], 240, "%s/%s", pdir, fs_[i].path + l + 1); idx[np] = i; if (strlen(pb[np]) > 98) possible = false; np++; } }
  else { uint32_t n = ch(ST_OP, 8) ? 1 + ch(ST_OP, (uint32_t)nf + 2) : 0; for (uint32_t q = 0; q < n; q++) { uint32_t k = ch(ST_OP, 14); idx[np] = ch(ST_OP, nf); if (k == 13) { static const char *bad[] = {"/w/none", "/w/src", "", "/w/src/none/x"}; strcpy(pb[np], bad[ch(ST_OP, 4)]); idx[np] = -1; possible = false; } else { const char *p = fs_[idx[np]].path; strcpy(pb[np], k < 6 ? p : k < 11 ? p + 3 : "./"); if (k >= 11) strcat(pb[np], p + 3); if (strlen(pb[np]) >= 99) possible = false; } paths[np] = pb[np]; np++; } }
  for (int i = 0; i < np; i++) sim_ev("ask", sim_hash(pb[i], strlen(pb[i])), stream);
  if (np > 1 || (np && fs_[idx[0] < 0 ? 0 : idx[0]].n % 512)) sim_nontrivial();
  zpl_file ar = {0}; if (stream) zpl_file_stream_new(&ar, ALLOC); else { zpl_file_error e = zpl_file_create(&ar, "/w/a.tar"); CHECK(!e, "harness", "create"); }
  if (start) { static uint8_t junk[1300]; memset(junk, 0x7e, sizeof junk); zpl_file_write(&ar, junk, start); }
  bool disk = ch(ST_OP, 12) == 11; int64_t room = 0; if (disk && !stream) { room = ch(ST_OP, 30000); vfs_set_disk(room); }
  uint64_t b0 = sim_live_blocks(); int f0 = vfs_open_fds(); evf = ch(ST_OP, nf); evk = ch(ST_OP, 3); bool ev = ch(ST_OP, 5) == 4; if (ev) sim_event_at(1 + ch(ST_OP, 60), other, 0);
  sim_faults_enable(true); uint32_t t0 = sim_fired_total(); sim_op(); char what[200]; if (dirmode) snprintf(what, sizeof what, "packing the directory \"%s\" (%d files)", pdir, np); else snprintf(what, sizeof what, "packing %d files", np);
  zpl_isize r = dirmode ? zpl_tar_pack_dir(&ar, pdir, ALLOC) : zpl_tar_pack(&ar, paths, np);
  sim_faults_enable(false); sim_event_at(0, 0, 0); uint32_t fired = sim_fired_total() - t0; bool raced = sim_event_ran(), full = disk && !stream && vfs_disk() < 4096; vfs_set_disk(-1); sim_ev("pack", r, fired);
  bool odir = dirmode && sim_fired(F_OPENDIR); // a directory that cannot be opened is left out of its listing
  if (!stream) { no_leaks(b0, what); } no_fd_leaks(f0, 0, what);
  if (fired || raced || !possible || disk) sim_nontrivial();
  if (r != 0) { CHECK(r < 0, "bad-code", "%s gave %ld", what, (long)r); CHECK(!possible || fired || raced || full, "failed-without-cause", "%s failed with %ld although nothing was refused", what, (long)r); sim_probe(fired ? "failure reported" : raced ? "race reported" : full ? "full disk reported" : "impossible request reported"); zpl_file_close(&ar); if (!stream) no_fd_leaks(0, 0, what); return; }
  // well formed?
  size_t an; const uint8_t *a; zpl_isize sn; if (stream) { a = zpl_file_stream_buf(&ar, &sn); an = (size_t)sn; an = (size_t)zpl_file_size(&ar); } else a = vfs_data("/w/a.tar", &an);
  int64_t pos = start; int nrec = 0; bool used[440] = {0}; static TRec rec[480];
  for (;;) { CHECK(pos + 512 <= (int64_t)an, "no-end-mark", "%s: the archive of %zu bytes ends without an end mark", what, an); TRec t; t_parse(a + pos, pos, &t); if (t.zero) break;
    CHECK(t.sum_ok, "bad-checksum", "%s: record %d at %lld has a wrong checksum", what, nrec, (long long)pos); CHECK(t.size_ok, "bad-size", "%s: record %d has no valid size", what, nrec); CHECK(t.type == '0', "bad-type", "%s: record %d has type %d", what, nrec, t.type); CHECK(t.off + t_pad(t.len) <= (int64_t)an, "cut-record", "%s: record %d claims %lld bytes, the archive ends before", what, nrec, (long long)t.len);
    int k = -1; if (dirmode) { for (int i = 0; i < np; i++) if (!used[i]) { char n1[240]; char *w = n1; for (char *c = pb[i]; *c; c++) if (!(c[0] == '/' && c[1] == '/')) *w++ = *c; *w = 0; char n2[240]; w = n2; for (char *c = t.name; *c; c++) if (!(c[0] == '/' && c[1] == '/')) *w++ = *c; *w = 0; if (!strcmp(n1, n2)) { k = i; break; } } } else if (nrec < np && !strcmp(pb[nrec], t.name)) k = nrec;
    CHECK(k >= 0, "wrong-name", "%s: record %d is named \"%s\"", what, nrec, t.name); used[k] = true; int fi = idx[k];
    if (!(raced && fi == evf)) { CHECK(t.len == (int64_t)fs_[fi].n, "wrong-size", "%s: \"%s\" has %zu bytes, its record says %lld", what, t.name, fs_[fi].n, (long long)t.len); CHECK(!memcmp(a + t.off, fs_[fi].d, fs_[fi].n), "wrong-bytes", "%s: the bytes of \"%s\" differ in the archive", what, t.name); }
    if (!(raced && fi == evf) && !sim_fired(F_STAT)) { int64_t mt, mo; bool okm = t_octal(a + pos + 136, 12, &mt) && t_octal(a + pos + 100, 8, &mo); CHECK(okm, "bad-field", "%s: the mode or the time of \"%s\" is no octal number", what, t.name); CHECK(mt == vfs_mtime(fs_[fi].path), "wrong-time", "%s: \"%s\" was last written at %lld, its record says %lld", what, t.name, (long long)vfs_mtime(fs_[fi].path), (long long)mt); }
    if (raced && fi == evf) { int64_t m = t.len < (int64_t)fs_[fi].n ? t.len : (int64_t)fs_[fi].n; CHECK(!memcmp(a + t.off, fs_[fi].d, m), "wrong-bytes", "%s: the bytes of \"%s\", which changed meanwhile, are neither the old nor the new ones", what, t.name); sim_probe("packed while it changed"); }
    if (nrec < 480) rec[nrec] = t; nrec++; pos = t.off + t_pad(t.len); }
  CHECK(pos + 1024 <= (int64_t)an, "no-end-mark", "%s: the end mark is one block long", what); for (int i = 512; i < 1024; i++) CHECK(!a[pos + i], "no-end-mark", "%s: the second end block is not zero", what); CHECK((int64_t)an == pos + 1024, "trailing", "%s: %lld bytes follow the end mark", what, (long long)an - pos - 1024);
  for (int i = 0; i < np; i++) if (!used[i] && !(raced && idx[i] == evf && evk == 2)) CHECK(odir || (dirmode && sim_fired(F_STAT)), "missing-file", "%s reported success without \"%s\"", what, pb[i]);
  sim_probe(fired ? "packed in spite of failures" : "packed");
  // and it unpacks to the same
  static Got g; zpl_file_seek(&ar, start); zpl_isize lr = zpl_tar_unpack(&ar, collect, &g); CHECK(lr == 0 && g.n == nrec, "unpack-differs", "%s: listing the archive gave %ld and %d of %d records", what, (long)lr, g.n, nrec);
  for (int i = 0; i < nrec && i < 480; i++) CHECK(!strcmp(g.r[i].name, rec[i].name) && g.r[i].off == rec[i].off && g.r[i].len == rec[i].len && g.r[i].sum_ok, "unpack-differs", "%s: record %d is listed as \"%s\" of %lld bytes at %lld", what, i, g.r[i].name, (long long)g.r[i].len, (long long)g.r[i].off);
  bool dots = false; vfs_mkdirs("/w/out"); zpl_file_seek(&ar, start); zpl_isize ur = zpl_tar_unpack_dir(&ar, "/w/out"); CHECK(ur == 0, "unpack-failed", "%s: unpacking the archive gave %ld", what, (long)ur); (void)dots;
  int distinct = 0; for (int i = 0; i < nrec && i < 480; i++) { bool later = false; char n1[240]; snprintf(n1, sizeof n1, "/w/out/%s", rec[i].name); size_t n2; const uint8_t *q = vfs_data(n1, &n2); for (int j = i + 1; j < nrec; j++) if (!strcmp(norm(rec[i].name), norm(rec[j].name))) later = true; CHECK(q, "unpack-missing", "%s: \"%s\" is missing after unpacking", what, rec[i].name); if (later) continue; distinct++; CHECK((int64_t)n2 == rec[i].len && !memcmp(q, a + rec[i].off, n2), "unpack-differs", "%s: \"%s\" differs after unpacking", what, rec[i].name); }
  vfs_list(cnt, 0); CHECK(count_out == distinct, "unpack-extra", "%s: unpacking made %d files of %d", what, count_out, distinct);
  sim_feature(sim_mix(nrec, sim_mix(an / 512, fired))); zpl_file_close(&ar); no_fd_leaks(0, 0, what);
}
