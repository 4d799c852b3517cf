#ifndef SCN_COMMON_H
#define SCN_COMMON_H
#include "sim.h"
#include "zpl.h"
// pick one of the weights-free alternatives, 0 first
static inline uint32_t pick_size(int st, uint32_t small, uint32_t big) { // mostly small, sometimes big
  uint32_t k = ch(st, 18);
  if (k >= 16) { static const uint32_t edge[] = {1, 16, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}; uint32_t m = 0; while (m < 14 && edge[m] <= big) m++; if (!m) return 0; uint32_t e = edge[ch(st, m)] + 1 - ch(st, 3); return e > big ? big : e; }
  if (k < 11) return ch(st, small + 1);
  if (k < 15) return ch(st, small * 8 + 1);
  return ch(st, big + 1);
}
static inline void no_leaks(uint64_t blocks0, const char *what) {
  if (sim_live_blocks() != blocks0) { sim_heap_dump(); sim_violation("leak:memory", "%s left %lld heap blocks behind", what, (long long)sim_live_blocks() - (long long)blocks0); }
}
static inline void no_fd_leaks(int fds, int dirs, const char *what) {
  CHECK(vfs_open_fds() == fds, "leak:descriptor", "%s left %d descriptors open", what, vfs_open_fds() - fds);
  CHECK(vfs_open_dirs() == dirs, "leak:directory-handle", "%s left %d directory handles open", what, vfs_open_dirs() - dirs);
}
// An allocator of the caller's own on top of the heap: its blocks are no heap blocks, so whoever gives one back to the wrong allocator is seen.
static int own_tag; static const uint64_t own_cookie = 0x0a11a110c0ffeeull;
static inline ZPL_ALLOCATOR_PROC(own_proc) {
  CHECK(allocator_data == &own_tag, "foreign-allocator", "the caller's allocator was called with another allocator's data");
  switch (type) {
  case ZPL_ALLOCATION_ALLOC: {
    zpl_isize h = alignment > 16 ? alignment : 16; if (size < 0 || size > INT64_MAX - h) return NULL;
    char *b = (char *)zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_ALLOC, size + h, h, NULL, 0, flags); if (!b) return NULL;
    char *q = b + h; ((zpl_isize *)q)[-1] = h; ((uint64_t *)q)[-2] = own_cookie; if (!(flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) memset(q, 0xD7, (size_t)size); return q; }
  case ZPL_ALLOCATION_FREE: {
    if (!old_memory) return NULL; char *q = (char *)old_memory; CHECK(((uint64_t *)q)[-2] == own_cookie, "foreign-free", "the caller's allocator was given a block it never gave out"); ((uint64_t *)q)[-2] = 0;
    return zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_FREE, 0, 0, q - ((zpl_isize *)q)[-1], 0, flags); }
  case ZPL_ALLOCATION_RESIZE: {
    zpl_allocator me = {own_proc, &own_tag}; if (!old_memory) return size ? own_proc(me.data, ZPL_ALLOCATION_ALLOC, size, alignment, NULL, 0, flags) : NULL;
    CHECK(((uint64_t *)old_memory)[-2] == own_cookie, "foreign-free", "the caller's allocator was asked to resize a block it never gave out"); void *q = NULL;
    if (size) { q = own_proc(me.data, ZPL_ALLOCATION_ALLOC, size, alignment, NULL, 0, flags); if (!q) return NULL; memcpy(q, old_memory, (size_t)(size < old_size ? size : old_size)); }
    own_proc(me.data, ZPL_ALLOCATION_FREE, 0, 0, old_memory, old_size, flags); return q; }
  default: return NULL; } }
static zpl_allocator ALLOC; // the allocator of this run
static inline void pick_alloc(void) { ALLOC.proc = zpl_heap_allocator_proc; ALLOC.data = NULL; if (ch(ST_CFG, 2)) { ALLOC.proc = own_proc; ALLOC.data = &own_tag; sim_probe("an allocator of the caller's own"); } }
// A process that was started without a standard input: the next file it opens is number 0.
static inline void maybe_no_stdin(void) { if (ch(ST_CFG, 6) == 5) { vfs_close_std(1); sim_ev("standard input is closed", 0, 0); sim_probe("standard input closed"); } }
#endif
