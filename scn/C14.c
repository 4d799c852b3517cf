// variants: A
#include "common.h"
const char *const scenario_name = "C14";
const char *const scenario_rule = "a run counts when at least one whole-file read met a fault, another process changed the file under it, or the path was not a plain file, and its trace differs from every other run";
// an allocator whose blocks start out as garbage, so that bytes nobody wrote are seen
static zpl_allocator_proc *heapp;
static void *garbage(void *u, zpl_alloc_type t, zpl_isize size, zpl_isize al, void *old, zpl_isize osz, zpl_u64 flags) {
  void *p = heapp(u, t, size, al, old, osz, flags); if (t == ZPL_ALLOCATION_ALLOC && p) memset(p, 0xC7, (size_t)size); return p;
}
// an allocator of the caller's own: its blocks are not heap blocks, and it has only so much to give
static int64_t own_limit; static int own_live, own_refused;
static void *own(void *u, zpl_alloc_type t, zpl_isize size, zpl_isize al, void *old, zpl_isize osz, zpl_u64 flags) {
  CHECK(u == &own_limit, "allocator", "the caller's allocator was called with another allocator's data"); (void)al; (void)flags;
  switch (t) {
  case ZPL_ALLOCATION_ALLOC: case ZPL_ALLOCATION_RESIZE: { if (t == ZPL_ALLOCATION_RESIZE && !size) return own(u, ZPL_ALLOCATION_FREE, 0, al, old, osz, flags); if (size < 0 || size > own_limit || (sim_faults_on() && sim_fault(FB(F_ALLOC)) >= 0)) { own_refused++; return NULL; } uint64_t *p = malloc((size_t)size + 16); p[0] = 0x0a11a110cull; p[1] = (uint64_t)size; memset(p + 2, 0xB3, (size_t)size); own_live++; if (old) { uint64_t *o = (uint64_t *)old - 2; memcpy(p + 2, old, o[1] < (uint64_t)size ? o[1] : (size_t)size); own(u, ZPL_ALLOCATION_FREE, 0, al, old, osz, flags); } return p + 2; }
  case ZPL_ALLOCATION_FREE: { if (!old) return NULL; uint64_t *o = (uint64_t *)old - 2; CHECK(o[0] == 0x0a11a110cull, "foreign-free", "the caller's allocator was asked to free a block it never gave out"); o[0] = 0; own_live--; free(o); return NULL; }
  default: return NULL; } }
typedef struct { const char *path; uint8_t *d; size_t n; int how; } Other;
static uint8_t *cur, *oth; static size_t ncur, noth; static Other ev;
static void other(void *u) { (void)u; if (ev.how == 0) vfs_write_file(ev.path, oth, noth); else if (ev.how == 1) vfs_unlink(ev.path); else { vfs_write_file("/w/incoming", oth, noth); vfs_rename("/w/incoming", ev.path); } }
static bool eq(const void *p, size_t n, const uint8_t *d, size_t m) { return n == m && (!n || !memcmp(p, d, n)); }
typedef struct { const char *s; size_t n; } Seg;
// does `lines` spell the text? returns the reason it does not
static const char *lines_match(char **ln, const uint8_t *d, size_t n, bool strip) {
  size_t i = 0, k = 0, cnt = (size_t)zpl_array_count(ln);
  while (i < n) {
    size_t j = i; while (j < n && d[j] != '\n') j++;
    size_t l = j - i; bool last = j == n; size_t lcr = l && d[j - 1] == '\r' ? l - 1 : l;
    const char *got = k < cnt ? ln[k] : NULL; size_t gl = got ? strlen(got) : 0;
    bool ok = got && ((gl == lcr && !memcmp(got, d + i, lcr)) || (last && gl == l && !memcmp(got, d + i, l)));
    if (l == 0 && strip) { /* skipped */ }
    else if (lcr == 0 && strip) { if (ok) k++; }   // an empty line ended by CR LF: kept or skipped
    else if (!ok) return got ? "a line differs" : "lines are missing";
    else k++;
    i = j + 1;
  }
  return k == cnt ? NULL : "there are more lines than the file has";
}
static void gen(uint8_t *b, size_t *n, bool text) {
  *n = pick_size(ST_OP, 40, ch(ST_OP, 8) == 7 ? 150000 : 6000);
  if (!text) { sim_fill(b, *n, 3 + (uint32_t)*n); return; }
  uint32_t style = ch(ST_OP, 4); for (size_t i = 0; i < *n; i++) { uint32_t c = *n > 400 ? sim_mix(i, style + *n) % 12 : ch(ST_OP, 12); b[i] = c < 2 + style ? '\n' : c == 5 ? '\r' : c == 6 ? ' ' : c == 7 ? '\t' : (uint8_t)('a' + c); }
}
void scenario(void) {
  static const char *paths[] = {"/w/f", "/w/missing", "/w/dir", "/w/sym", "/w/dangling", "/w/sock", "", "/w/f/x"};
  cur = malloc(200000); oth = malloc(200000);
  vfs_mkdirs("/w/dir"); vfs_symlink("/w/f", "/w/sym"); vfs_symlink("/w/none", "/w/dangling"); vfs_special("/w/sock", 0140777);
  sim_faults_init(FB(F_OPEN) | FB(F_READ_SHORT) | FB(F_READ_EINTR) | FB(F_READ_EIO) | FB(F_ALLOC) | FB(F_STAT)); maybe_no_stdin();
  uint32_t nops = 1 + ch(ST_OP, 5);
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); bool lines = ch(ST_OP, 2), zt = ch(ST_OP, 2), strip = ch(ST_OP, 2);
    gen(cur, &ncur, lines); vfs_unlink("/w/f"); vfs_write_file("/w/f", cur, ncur);
    int pi = ch(ST_OP, 3) < 2 ? 0 : ch(ST_OP, 8); const char *path = paths[pi]; bool valid = pi == 0 || pi == 3;
    sim_event_at(-1, 0, 0);
    bool race = valid && ch(ST_OP, 4) == 3; ev.how = 9;
    if (race) { gen(oth, &noth, lines); ev = (Other){"/w/f", 0, 0, (int)ch(ST_OP, 3)}; sim_event_at(1 + ch(ST_OP, 10), other, 0); }
    zpl_allocator h = zpl_heap_allocator(), a = h; heapp = h.proc; uint32_t ak = ch(ST_OP, 4); if (ak == 1 || ak == 2) a.proc = garbage; if (ak == 3) { a.proc = own; a.data = &own_limit; own_limit = ch(ST_OP, 4) ? 1 << 26 : (int64_t)ch(ST_OP, (uint32_t)ncur + 10); } int64_t far = 0; int ref0 = own_refused;
    if (ak == 3 && !race && ch(ST_OP, 4) == 3) { static const int64_t at[] = {1ll << 31, 1ll << 32, 3ll << 32, 1ll << 40}; far = at[ch(ST_OP, 4)] + (int64_t)ch(ST_OP, 3000) - (ch(ST_OP, 2) ? 1500 : 0); vfs_sparse("/w/f", far); sim_probe("a file longer than memory"); ncur = 0; }
    uint64_t b0 = sim_live_blocks(); int f0 = vfs_open_fds(); uint32_t t0 = sim_fired_total();
    char what[120]; snprintf(what, sizeof what, "%s of %s (%zu bytes)", lines ? strip ? "reading the stripped lines" : "reading the lines" : zt ? "reading the terminated content" : "reading the content", path, ncur);
    if (!lines) {
      zpl_file_contents c = zpl_file_read_contents(a, zt, path);
      sim_event_at(0, 0, 0); sim_ev(what, c.data != 0, c.size);
      bool calm = sim_fired_total() == t0 && !sim_event_ran() && own_refused == ref0;
      if (c.data) {
        CHECK(valid, "invented", "%s gave %lld bytes", what, (long long)c.size); CHECK(!far, "wrong-bytes", "%s gave %lld of the file's %lld bytes", what, (long long)c.size, (long long)far);
        bool o = eq(c.data, (size_t)c.size, cur, ncur), n = sim_event_ran() && ev.how != 1 && eq(c.data, (size_t)c.size, oth, noth);
        // a file rewritten in place under the reader may be seen partly old, partly new
        if (!o && !n && sim_event_ran() && ev.how == 0) { n = (size_t)c.size <= (ncur > noth ? ncur : noth); for (size_t i = 0; n && i < (size_t)c.size; i++) { uint8_t x = ((uint8_t *)c.data)[i]; n = (i < ncur && x == cur[i]) || (i < noth && x == oth[i]); } }
        CHECK(o || n, "wrong-bytes", "%s gave %lld bytes that are not the file's", what, (long long)c.size);
        if (zt) CHECK(((char *)c.data)[c.size] == 0, "not-terminated", "%s is not terminated", what);
        CHECK(c.allocator.proc == a.proc, "allocator", "%s names another allocator", what);
        zpl_file_free_contents(&c); CHECK(!c.data && !c.size, "freed-not-empty", "%s: freed contents still hold %lld bytes at %p", what, (long long)c.size, c.data); sim_probe("content delivered");
      } else {
        CHECK(c.size == 0, "size-without-data", "%s gave no data but a size of %lld", what, (long long)c.size);
        CHECK(!calm || !valid || ncur == 0, "refused-without-cause", "%s gave nothing although nothing failed", what);
        sim_probe(valid ? "nothing delivered" : "not a plain file");
      }
      if (!calm || !valid) sim_nontrivial();
    } else {
      char **ln = (char **)0x10; char *t = zpl_file_read_lines(a, &ln, path, strip);
      sim_event_at(0, 0, 0); sim_ev(what, t != 0, t && ln && ln != (char **)0x10 ? zpl_array_count(ln) : -1);
      bool calm = sim_fired_total() == t0 && !sim_event_ran() && own_refused == ref0;
      if (t) {
        CHECK(valid, "invented", "%s gave a result", what); CHECK(!far, "wrong-lines", "%s gave a result for %lld bytes", what, (long long)far); CHECK(ln && ln != (char **)0x10, "no-lines", "%s gave text but no list of lines", what);
        CHECK(zpl_array_allocator(ln).proc == a.proc && zpl_array_allocator(ln).data == a.data, "allocator", "%s: the list of lines comes from another allocator", what);
        if (!(sim_event_ran() && ev.how == 0)) {
          const char *w1 = lines_match(ln, cur, ncur, strip), *w2 = sim_event_ran() && ev.how != 1 ? lines_match(ln, oth, noth, strip) : "no";
          CHECK(!w1 || !w2, "wrong-lines", "%s: %s (%lld lines)", what, w1, (long long)zpl_array_count(ln));
        }
        zpl_array_free(ln); zpl_free(a, t); sim_probe("lines delivered");
      } else {
        CHECK(!calm || !valid, "refused-without-cause", "%s gave nothing although nothing failed", what);
        CHECK(ln == NULL || ln == (char **)0x10, "lines-without-text", "%s gave a list of lines without text", what);
        sim_probe(valid ? "nothing delivered" : "not a plain file");
      }
      if (!calm || !valid) sim_nontrivial();
    }
    CHECK(own_live == 0, "leak:memory", "%s left %d blocks of the caller's allocator behind", what, own_live); if (own_refused != ref0) sim_nontrivial();
    no_leaks(b0, what); no_fd_leaks(f0, 0, what);
    sim_feature(sim_mix(lines * 4 + zt * 2 + strip, sim_mix(pi, sim_mix(ev.how, sim_mix(ncur == 0, sim_fired_total() != t0)))));
  }
  free(cur); free(oth);
}
