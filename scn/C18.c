// variants: A
#include "common.h"
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
const char *const scenario_name = "C18";
const char *const scenario_rule = "a run counts when it lists a tree with at least one subdirectory, unusual name or injected failure, or creates a path under failures, and its trace differs from every other run";
// ---- the truth, walked by the harness
typedef struct { char *p; int type; int depth; bool seen; } E;
static E es[1200]; static int ne; static const char *base_; 
extern void *__real_calloc(size_t, size_t); extern void __real_free(void *);
static char *dup_(const char *q) { char *r = __real_calloc(1, strlen(q) + 1); strcpy(r, q); return r; }
static void add(const char *p, int t, void *u) { (void)u; size_t l = strlen(base_); if (strncmp(p, base_, l) || p[l] != '/') return; if (ne == 1200) return; es[ne].p = dup_(p + l + 1); es[ne].type = t; es[ne].depth = 0; for (const char *c = p + l + 1; *c; c++) es[ne].depth += *c == '/'; es[ne].seen = false; ne++; }
static void snapshot(const char *base) { for (int i = 0; i < ne; i++) __real_free(es[i].p); ne = 0; base_ = !strcmp(base, "/") ? "" : base; vfs_list(add, 0); }
static int find(const char *rel) { for (int i = 0; i < ne; i++) if (!strcmp(es[i].p, rel)) return i; return -1; }
static const char *strip(const char *line, size_t n, const char *dir, char *out, size_t cap) { // the name relative to the directory given; the separator may be doubled
  size_t l = strlen(dir); while (l > 1 && dir[l - 1] == '/') l--; if (n < l || memcmp(line, dir, l)) return 0; line += l; n -= l; if (l == 1 && dir[0] == '/') { line--; n++; } if (!n || *line != '/') return 0; while (n && *line == '/') line++, n--; if (n >= cap) return 0; memcpy(out, line, n); out[n] = 0; return out; }
static int sub(const char *path) { struct stat s; extern int sim_stat(const char *, void *); bool on = sim_faults_raw(); sim_faults_enable(false); int r = sim_stat(path, &s); sim_faults_enable(on); return r ? ZPL_DIR_TYPE_UNKNOWN : S_ISDIR(s.st_mode) ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE; }
// ---- building trees
static int made; static bool odd;
static void name(char *b) {
  static const char *nm[] = {"a", "b.txt", "c", "..b", ".hid", "...", " x", "x ", "\t", "\xc3\xa9", "~", "-rf", "a b", "%s%n", "..", "a\\b", "*", "\"q\"", "\x01", "\xff", ".", "'"};
  uint32_t k = ch(ST_OP, 24); if (k >= 3) odd = true; if (k == 22) { memset(b, 'L', 255); b[255] = 0; return; } if (k == 23) { memset(b, 'm', 100); b[100] = 0; return; }
  strcpy(b, nm[k]); if (!strcmp(b, "..") || !strcmp(b, ".")) strcat(b, "x");
}
static void tree(const char *dir, int depth) {
  uint32_t n = depth ? ch(ST_OP, 5) : 1 + ch(ST_OP, 7); if (ch(ST_OP, 24) == 23) n = 40;
  for (uint32_t i = 0; i < n && made < 300; i++) {
    char nm[300], p[4600]; name(nm); snprintf(p, sizeof p, "%s/%s", dir, nm); if (strlen(p) > 3000) continue; struct stat s; (void)s; extern int sim_lstat(const char *, void *); if (sim_lstat(p, &s) == 0) { snprintf(p + strlen(p), 20, "%u", i); if (strlen(nm) > 250 || sim_lstat(p, &s) == 0) continue; }
    made++; uint32_t k = ch(ST_OP, 10); if (k < 4) vfs_write_file(p, "x", 1); else if (k < 7 && depth < 4) { vfs_mkdirs(p); odd = true; tree(p, depth + 1); } else if (k == 7) vfs_symlink("/w/t", p); else if (k == 8) vfs_symlink("/w/none", p); else vfs_special(p, (const unsigned[]){010600, 060600, 0140755}[ch(ST_OP, 3)]);
  }
}
static const char *dirs[] = {"/w/t", "t", "./t", "t/", "/w/t/", "..//w/t", ".", "/w/link", "/"};
static int fails0; static void check_list(zpl_string out, const char *dir, const char *root, bool rec, const char *what, uint32_t t0, uint32_t alloc0) {
  bool oom = sim_fired(F_ALLOC) != alloc0; uint32_t cause = sim_fired_total() - t0; (void)root;
  if (!out) { CHECK(oom, "no-listing", "%s gave no listing although memory was there", what); sim_probe("listing without memory"); return; }
  const char *p = out, *end = out + zpl_string_length(out); CHECK(strlen(out) == (size_t)zpl_string_length(out), "bad-length", "%s: length %ld, text %zu", what, (long)zpl_string_length(out), strlen(out));
  while (p < end) { const char *e = memchr(p, '\n', end - p); CHECK(e, "unterminated-line", "%s: the last line has no line break", what); char rel[4600];
    CHECK(strip(p, e - p, dir, rel, sizeof rel), "wrong-name", "%s lists \"%.*s\"", what, (int)(e - p > 300 ? 300 : e - p), p);
    char *w = rel; for (char *r = rel; *r; r++) if (!(*r == '/' && r[1] == '/')) *w++ = *r; *w = 0;
    int i = find(rel); CHECK(i >= 0, "wrong-name", "%s lists \"%.300s\", which does not exist", what, rel); CHECK(!es[i].seen, "listed-twice", "%s lists \"%.300s\" twice", what, rel);
    CHECK(rec || es[i].depth == 0, "too-deep", "%s lists \"%.300s\" without having been asked to recurse", what, rel); es[i].seen = true; p = e + 1; }
  // completeness: a directory is either listed in full or failed to open as a whole
  uint32_t failed = 0, top = 0, tops = 0;
  for (int i = 0; i < ne; i++) if (es[i].depth == 0) { top++; tops += es[i].seen; }
  if (top && !tops) failed++; else CHECK(tops == top, "missing-entry", "%s lists %u of %u entries", what, tops, top);
  if (rec) for (int d = 0; d < ne; d++) if (es[d].type == 2 && es[d].seen) { uint32_t n = 0, s = 0; size_t l = strlen(es[d].p); for (int i = 0; i < ne; i++) if (!strncmp(es[i].p, es[d].p, l) && es[i].p[l] == '/' && es[i].depth == es[d].depth + 1) { n++; s += es[i].seen; }
    if (n && !s) failed++; else CHECK(n == s, "missing-entry", "%s lists %u of %u entries of \"%.300s\"", what, s, n, es[d].p); }
  CHECK(failed <= cause, "missing-entry", "%s leaves out %u directories although %u failures were injected", what, failed, cause); fails0 += failed; if (failed) sim_probe("directory could not be opened"); else sim_probe("listed in full");
}
static void check_info(zpl_dir_info *di, const char *dir, const char *what, uint32_t t0, uint32_t alloc0) {
  bool oom = sim_fired(F_ALLOC) != alloc0; uint32_t cause = sim_fired_total() - t0; int top = 0; for (int i = 0; i < ne; i++) top += es[i].depth == 0;
  long n = di->entries ? (long)zpl_array_count(di->entries) : 0;
  CHECK(oom || (di->fullpath && !strcmp(di->fullpath, dir)), "wrong-path", "%s: the path kept is \"%.300s\"", what, di->fullpath ? di->fullpath : "(none)");
  if (n != top) { CHECK(n == 0 && cause, "missing-entry", "%s has %ld of %d entries", what, n, top); sim_probe("information without entries"); return; }
  for (int i = 0; i < ne; i++) es[i].seen = false;
  for (long i = 0; i < n; i++) { char rel[4600]; const char *f = di->entries[i].filename; CHECK(strip(f, strlen(f), dir, rel, sizeof rel), "wrong-name", "%s has \"%.300s\"", what, f); int k = find(rel); CHECK(k >= 0, "wrong-name", "%s has \"%.300s\", which does not exist", what, rel); CHECK(!es[k].seen, "listed-twice", "%s has \"%.300s\" twice", what, rel); es[k].seen = true;
    int want = sub(f); CHECK(di->entries[i].type == want || (cause && di->entries[i].type == ZPL_DIR_TYPE_UNKNOWN), "type-wrong", "%s gives type %d for \"%.300s\", it is %d", what, di->entries[i].type, rel, want); }
  sim_probe("information complete");
}
static const char *canon(const char *dir) { static char b[4600]; extern char *sim_realpath(const char *, char *); bool on = sim_faults_raw(); sim_faults_enable(false); char *r = sim_realpath(dir, b); sim_faults_enable(on); return r; }
void scenario(void) { pick_alloc();
  sim_faults_init(FB(F_ALLOC) | FB(F_OPENDIR) | FB(F_STAT) | FB(F_MKDIR) | FB(F_RMDIR) | FB(F_REALPATH)); sim_faults_enable(false);
  vfs_mkdirs("/w/t"); tree("/w/t", 0); static char longdir[1400]; longdir[0] = 0; bool huge = ch(ST_OP, 150) == 149;
  if (huge) { uint32_t n = 100 + ch(ST_OP, 400); for (uint32_t i = 0; i < n; i++) { char p[40]; snprintf(p, sizeof p, i % 7 == 3 ? "/w/t/d%u" : "/w/t/f%u", i); if (i % 7 == 3) vfs_mkdirs(p); else vfs_write_file(p, "x", 1); } odd = true; sim_probe("directory with hundreds of entries"); }
  if (ch(ST_OP, 12) == 11) { size_t n = 200 + ch(ST_OP, 1000); strcpy(longdir, "/w"); for (size_t L = 2; L < n; L++) longdir[L] = L % 60 == 2 && L + 1 < n ? '/' : 'e' + (L / 60) % 5, longdir[L + 1] = 0; vfs_mkdirs(longdir); } vfs_symlink("/w/t", "/w/link"); vfs_write_file("/w/afile", "x", 1); vfs_set_dtype_unknown(ch(ST_OP, 3) == 2);
  sim_faults_enable(true); uint32_t nops = 1 + ch(ST_OP, 4);
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); uint32_t op = ch(ST_OP, 6), t0 = sim_fired_total(), a0 = sim_fired(F_ALLOC); char what[400]; uint64_t b0 = sim_live_blocks();
    if (op <= 1) {
      const char *dir = dirs[ch(ST_OP, 24) == 23 ? 8 : ch(ST_OP, 8)]; bool rec = ch(ST_OP, 3) != 0; const char *c = canon(dir); char cb[4200]; snprintf(cb, sizeof cb, "%s", c); snapshot(cb); uint32_t bad = ch(ST_OP, 10);
      if (bad == 9) { static const char *nd[] = {"/w/none", "", "/w/afile", "/w/t/none/x"}; dir = nd[ch(ST_OP, 4)]; ne = 0; }
      snprintf(what, sizeof what, "listing \"%s\"%s", dir, rec ? " recursively" : ""); zpl_string out = zpl_path_dirlist(ALLOC, dir, rec);
      sim_ev(what, out ? zpl_string_length(out) : -1, 0); check_list(out, dir, cb, rec, what, t0, a0); if (out) zpl_string_free(out);
      if (odd || sim_fired_total() != t0) sim_nontrivial();
    } else if (op == 2) {
      const char *dir = dirs[ch(ST_OP, 24) == 23 ? 8 : ch(ST_OP, 8)]; char cb[4200]; snprintf(cb, sizeof cb, "%s", canon(dir)); snapshot(cb); zpl_dir_info di; memset(&di, 0x55, sizeof di); snprintf(what, sizeof what, "information about \"%s\"", dir);
      zpl_dirinfo_init(&di, dir); sim_ev(what, di.entries ? zpl_array_count(di.entries) : -1, 0); check_info(&di, dir, what, t0, a0);
      uint32_t steps = ch(ST_OP, 4); zpl_dir_info *at = &di;
      for (uint32_t s = 0; s < steps && at->entries && zpl_array_count(at->entries); s++) { zpl_dir_entry *e = at->entries + ch(ST_OP, (uint32_t)zpl_array_count(at->entries)); char pb[4600]; uint32_t t1 = sim_fired_total(), a1 = sim_fired(F_ALLOC);
        bool again = e->dir_info != 0; (void)again; snprintf(pb, sizeof pb, "%s", e->filename); if (e->type != ZPL_DIR_TYPE_FOLDER) { char *sl = strrchr(pb, '/'); sl[sl == pb] = 0; }
        snprintf(what, sizeof what, "stepping into \"%.200s\"", e->filename); zpl_dirinfo_step(e); sim_ev("step", e->type, e->dir_info != 0); if (!e->dir_info) { CHECK(sim_fired(F_ALLOC) != a1, "no-information", "%s gave nothing", what); break; }
        if (strlen(pb) < 3900) { char c2[4200]; const char *r = canon(pb); CHECK(r, "harness", "no %s", pb); snprintf(c2, sizeof c2, "%s", r); { snapshot(c2); check_info(e->dir_info, pb, what, t1, a1); } } if (ch(ST_OP, 2)) at = e->dir_info; }
      zpl_dirinfo_free(&di); if (odd || sim_fired_total() != t0) sim_nontrivial();
    } else if (op == 3) {
      // mkdir -p
      static const char *pp[] = {"/w/n1", "/w/n1/n2/n3", "n1//n2", "n4/", "n4/n5/", "/w/t/q/r", "", "/", ".", "./n6/./n7", "n1/../n8/n9", "/w/afile", "/w/afile/x", "/w/link/z", "//w//n10//x//", "n1/n2/n3/n4/n5/n6/n7/n8", "a/b/c", "k/l"}; char lp[4400]; uint32_t pi = ch(ST_OP, 20); const char *p = pi < 18 ? pp[pi] : lp; bool toolong = false;
      if (pi >= 18) { strcpy(lp, "/w"); size_t target = pi == 18 ? ZPL_MAX_PATH - 4 + ch(ST_OP, 6) : 300; for (size_t L = 2; L < target; L++) lp[L] = L % 50 == 2 && L + 1 < target ? '/' : 'd' + (L / 50) % 3, lp[L + 1] = 0; toolong = strlen(lp) > ZPL_MAX_PATH - 1; }
      bool possible = *p && pi != 11 && pi != 12 && !toolong; snapshot("/w"); snprintf(what, sizeof what, "creating the path \"%.120s\" (%zu characters)", p, strlen(p));
      static const int md[] = {0755, 0700, 0711, 0750}; int mode = md[ch(ST_OP, 4)]; zpl_isize r = zpl_path_mkdir_recursive(p, mode); bool isdir = vfs_type(p) == 2, calm = sim_fired_total() == t0; sim_ev(what, r, isdir);
      if (r == 0) { CHECK(isdir, "claimed-created", "%s reported success, it is no directory", what); sim_probe("path created"); } else { CHECK(!possible || !calm, "failed-without-cause", "%s failed although nothing was refused", what); sim_probe("path refused"); }
      { E *o = es; int on = ne; char *old[1200]; for (int i = 0; i < on; i++) { old[i] = o[i].p; o[i].p = 0; } ne = 0; for (int i = 0; i < on; i++) es[i].p = 0; base_ = "/w"; vfs_list(add, 0);
        for (int i = 0; i < on; i++) { CHECK(find(old[i]) >= 0, "removed", "%s removed \"%.200s\"", what, old[i]); }
        for (int i = 0; i < ne; i++) { bool was = false; for (int j = 0; j < on && !was; j++) was = !strcmp(old[j], es[i].p); if (was) continue; if (pi == 10 || pi == 13) continue; char full[4800], nrm[4800]; snprintf(full, sizeof full, "/w/%s", es[i].p); 
          char *w = nrm; char tmp[4800]; snprintf(tmp, sizeof tmp, "%s%s", p[0] == '/' ? "" : "/w/", p); for (char *q = tmp; *q; q++) { if (*q == '/' && (q[1] == '/' || !q[1])) continue; if (*q == '/' && q[1] == '.' && (q[2] == '/' || !q[2])) { q++; continue; } *w++ = *q; } *w = 0; size_t L = strlen(full);
          CHECK(vfs_perm(full) == (unsigned)mode, "permissions", "%s with the permissions %o created \"%.200s\" with %o", what, (unsigned)mode, full, vfs_perm(full)); CHECK(es[i].type == 2 && !strncmp(nrm, full, L) && (!nrm[L] || nrm[L] == '/'), "created-other", "%s created \"%.200s\"", what, full); }
        for (int i = 0; i < on; i++) __real_free(old[i]); }
      if (!calm || strlen(p) > 12 || !possible) sim_nontrivial();
    } else if (op == 4) {
      static const char *pp[] = {"/w/m1", "/w/t", "/w/m1/m2", "/w/none/x", "/w/afile", "/w/afile/x", "", "/w/link", "m3/", "/w/longname"}; char lp[300]; uint32_t pi = ch(ST_OP, 10); const char *p = pp[pi]; if (pi == 9) { strcpy(lp, "/w/"); memset(lp + 3, 'l', 256); lp[259] = 0; p = lp; }
      bool mk = ch(ST_OP, 2); static const int md[] = {0755, 0700, 0711, 0750, 0555, 0111, 0}; int mode = md[ch(ST_OP, 7)]; struct stat s; extern int sim_lstat(const char *, void *); sim_faults_enable(false); bool was = sim_lstat(p, &s) == 0, wasdir = was && S_ISDIR(s.st_mode); sim_faults_enable(true); uint64_t h0 = vfs_hash(); snapshot("/w"); int n0 = ne;
      snprintf(what, sizeof what, "%s directory \"%.60s\"", mk ? "creating" : "removing", p); zpl_file_error r = mk ? zpl_path_mkdir(p, mode) : zpl_path_rmdir(p); bool calm = sim_fired_total() == t0; sim_faults_enable(false); bool is = sim_lstat(p, &s) == 0; sim_faults_enable(true); snapshot("/w"); sim_ev(what, r, is);
      if (r == ZPL_FILE_ERROR_NONE) { CHECK(mk ? !was && is && vfs_type(p) == 2 : wasdir && !is, "claimed", "%s reported success", what); if (mk) CHECK(vfs_perm(p) == (unsigned)mode, "permissions", "%s with the permissions %o created it with %o", what, (unsigned)mode, vfs_perm(p)); CHECK(ne == n0 + (mk ? 1 : -1), "changed-other", "%s changed more than that", what); sim_probe("made or removed"); }
      else { CHECK(vfs_hash() == h0, "failed-but-changed", "%s failed, yet something changed", what); if (calm) { if (mk && was) CHECK(r == ZPL_FILE_ERROR_EXISTS, "wrong-code", "%s: it exists, the code is %d", what, r); if (mk) CHECK(r != ZPL_FILE_ERROR_EXISTS || was, "wrong-code", "%s: it does not exist, the code says it does", what);
        bool emptydir = true; for (int i = 0; i < ne; i++) { char f[4700]; snprintf(f, sizeof f, "/w/%s", es[i].p); size_t L = strlen(p); while (L > 1 && p[L - 1] == '/') L--; if (!strncmp(f, p, L) && f[L] == '/') emptydir = false; }
        if (!mk && wasdir) CHECK(!emptydir && r == ZPL_FILE_ERROR_NOT_EMPTY, emptydir ? "failed-without-cause" : "wrong-code", "%s: %s, the code is %d", what, emptydir ? "empty" : "not empty", r); if (!mk && !was && pi != 5 && pi != 9) CHECK(r == ZPL_FILE_ERROR_NOT_EXISTS, "wrong-code", "%s: it does not exist, the code is %d", what, r); if (pi == 9) CHECK(r == ZPL_FILE_ERROR_NAME_TOO_LONG, "wrong-code", "%s: the name is too long, the code is %d", what, r);
        if (mk && (pi == 0 || pi == 8) && !was) CHECK(0, "failed-without-cause", "%s failed with %d although nothing was refused", what, r); } sim_probe("refused"); }
      if (!calm || r) sim_nontrivial();
    } else {
      uint32_t which = ch(ST_OP, 2);
      if (which) { static const char *qp[] = {"t", "/w/../w/t", "/w/none", "afile", "", "none/x", "/w/afile"}; const char *p = qp[ch(ST_OP, 7)]; if (longdir[0]) p = ch(ST_OP, 2) ? longdir : longdir + 3; char c2[4200]; const char *r = canon(p); if (r) snprintf(c2, sizeof c2, "%s", r);
        zpl_arena ar; static char back[8192]; bool arena = ch(ST_OP, 2); zpl_arena_init_from_memory(&ar, back, sizeof back); zpl_allocator al = arena ? zpl_arena_allocator(&ar) : ALLOC; snprintf(what, sizeof what, "resolving \"%s\"", p);
        char *g = zpl_path_get_full_name(al, p); bool calm = sim_fired_total() == t0; sim_ev(what, g != 0, 0);
        if (!g) CHECK(sim_fired(F_ALLOC) != a0, "no-name", "%s gave nothing", what); else { CHECK((r && !strcmp(g, c2)) || ((!calm || !r) && !strcmp(g, p)), "wrong-name", "%s gave \"%.200s\", it is \"%.200s\"", what, g, r ? c2 : "(none)"); CHECK(!arena || (g >= back && g < back + sizeof back), "wrong-allocator", "%s: the name is not in the caller's memory", what); zpl_free(al, g); } if (arena || !calm) sim_nontrivial();
      } else { // the directory of an open file
        static const char *fp[] = {"/w/afile", "afile", "/w/t/ff", "t/ff", "/rf"}; uint32_t fi = ch(ST_OP, 9) == 8 ? 4 : ch(ST_OP, 4); sim_faults_enable(false); if (fi == 4) vfs_write_file("/rf", "1", 1); else if (fi >= 2) { vfs_write_file("/w/t/ff", "1", 1); } zpl_file f = {0}; zpl_file_error e = zpl_file_open(&f, fp[fi]); CHECK(e == 0, "harness", "open %d", e); sim_faults_enable(true);
        uint32_t times = 1 + ch(ST_OP, 2); for (uint32_t q = 0; q < times; q++) { uint32_t t1 = sim_fired_total(), a1 = sim_fired(F_ALLOC); zpl_file_dirinfo_refresh(&f); snprintf(what, sizeof what, "the folder of \"%s\"", fp[fi]); sim_ev(what, f.dir != 0, 0); if (!f.dir || !f.dir->dir_info) { CHECK(sim_fired(F_ALLOC) != a1, "no-information", "%s gave nothing", what); continue; }
          static const char *fd[] = {"/w", ".", "/w/t", "t", "/"}; snapshot(fi == 4 ? "/" : fi < 2 ? "/w" : "/w/t"); check_info(f.dir->dir_info, fd[fi], what, t1, a1); }
        sim_faults_enable(false); zpl_file_close(&f);
        if (ch(ST_OP, 4) == 3) { zpl_file tf = {0}; e = zpl_file_temp(&tf); CHECK(e == 0, "harness", "temp %d", e); zpl_file_dirinfo_refresh(&tf); CHECK(!tf.dir, "invented", "a temporary file has a folder"); zpl_file_close(&tf); }
        sim_faults_enable(true); sim_nontrivial();
      }
    }
    sim_feature(sim_mix(op, sim_mix(sim_fired_total() - t0, made)));
    no_leaks(b0, what); no_fd_leaks(0, 0, what);
  }
}
