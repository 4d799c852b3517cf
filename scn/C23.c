// variants: A H
#include "common.h"
const char *const scenario_name = "C23";
const char *const scenario_rule = "a run counts when an allocator runs full, wraps, grows, is rolled back or loses its backing memory, and its trace differs from every other run";
// ---------------------------------------------------------------- what this run knows to be allocated
enum { HEAP, ARENA, SUB, POOL, SCRATCH, STACK, KINDS };
static const char *const kn[] = {"the heap", "the arena", "the sub-arena", "the pool", "the scratch memory", "the stack"};
typedef struct { uint8_t *p; int64_t n, al; uint32_t seed; int c; uint64_t born; bool region; } B;
#define NB 600
static B bl[NB]; static int nb; static uint64_t births;
#define NC 6
typedef struct { bool open; int kind; zpl_arena a; zpl_pool pool; zpl_scratch_memory s; zpl_stack_memory st; uint8_t *lo; int64_t total; bool mem; uint8_t *own; int back; int64_t used; int parent; struct { zpl_arena_snapshot z; uint64_t born; int64_t used, zused; } snap[6]; int nsnap; int64_t bs, bal, nblk; uint8_t *seen; } C;
static C cs[NC];
// ---------------------------------------------------------------- a backing allocator that keeps books, one per container
typedef struct { uint8_t *p; int64_t n; int c; } K; static K bk[400]; static int nbk; static int64_t heap_bytes, heap_blocks;
static ZPL_ALLOCATOR_PROC(back) {
  int c = (int)(intptr_t)allocator_data; zpl_allocator h = zpl_heap_allocator();
  if (type == ZPL_ALLOCATION_RESIZE) { zpl_allocator me = {back, allocator_data}; return zpl_default_resize_align(me, old_memory, old_size, size, alignment); }
  if (type == ZPL_ALLOCATION_FREE) { int i = 0; while (i < nbk && bk[i].p != old_memory) i++; CHECK(i < nbk && bk[i].c == c, "bad-free", "%s returned memory to its backing allocator that it did not take from it", kn[cs[c].kind]); heap_bytes -= bk[i].n; heap_blocks--; bk[i] = bk[--nbk]; h.proc(h.data, type, size, alignment, old_memory, old_size, flags); return 0; }
  if (type != ZPL_ALLOCATION_ALLOC) return 0;
  uint8_t *p = h.proc(h.data, type, size, alignment, 0, 0, flags); if (p) { if (nbk == 400) { h.proc(h.data, ZPL_ALLOCATION_FREE, 0, 0, p, 0, 0); return 0; } bk[nbk++] = (K){p, size, c}; heap_bytes += size; heap_blocks++; } return p; }
static zpl_allocator of(int c) { C *q = &cs[c]; switch (q->kind) { case ARENA: case SUB: return zpl_arena_allocator(&q->a); case POOL: return zpl_pool_allocator(&q->pool); case SCRATCH: return zpl_scratch_allocator(&q->s); case STACK: return zpl_stack_allocator(&q->st); default: return zpl_heap_allocator(); } }
static uint8_t pat(const B *b, int64_t i) { return (uint8_t)(b->seed * 37 + i * 11 + 1); }
static void verify(const char *what) {
  for (int i = 0; i < nb; i++) if (!bl[i].region) for (int64_t j = 0; j < bl[i].n; j++) CHECK(bl[i].p[j] == pat(&bl[i], j), "content-lost", "after %s byte %lld of a live block of %lld bytes in %s has changed", what, (long long)j, (long long)bl[i].n, kn[cs[bl[i].c].kind]);
#ifdef ZPL_HEAP_ANALYSIS
  CHECK(zpl_heap_stats_used_memory() == heap_bytes, "statistics", "after %s the heap reports %lld bytes in use, there are %lld", what, (long long)zpl_heap_stats_used_memory(), (long long)heap_bytes);
  CHECK(zpl_heap_stats_alloc_count() == heap_blocks, "statistics", "after %s the heap reports %lld blocks, there are %lld", what, (long long)zpl_heap_stats_alloc_count(), (long long)heap_blocks);
#endif
}
static int live(int c);
static void use(int c, const char *what) { C *q = &cs[c]; int l = live(c); static uint8_t outside[64];
  if (q->kind == STACK) { for (int i = 0; i < nb; i++) if (bl[i].c == c && bl[i].n) CHECK(zpl_stack_memory_is_in_use(&q->st, bl[i].p), "is-in-use", "after %s a live block is reported as not in use", what); CHECK(!zpl_stack_memory_is_in_use(&q->st, outside + 32), "is-in-use", "after %s memory that is not of the stack is reported in use", what); if (!l && q->seen) CHECK(!zpl_stack_memory_is_in_use(&q->st, q->seen), "is-in-use", "after %s a block of the empty stack is reported in use", what); }
  if (q->kind == SCRATCH && !l && q->seen) CHECK(!zpl_scratch_memory_is_in_use(&q->s, q->seen), "is-in-use", "after %s a block of the empty scratch memory is reported in use", what); }
static void fill(B *b) { for (int64_t i = 0; i < b->n; i++) b->p[i] = pat(b, i); }
static void owned(int c, const uint8_t *p, int64_t n, const char *what) {
  C *q = &cs[c]; if (q->kind == HEAP) return;
  if (q->lo) { CHECK(p >= q->lo && p + n <= q->lo + q->total, "out-of-bounds", "%s gave bytes %lld to %lld of a memory of %lld", what, (long long)(p - q->lo), (long long)(p - q->lo + n), (long long)q->total); return; }
  for (int i = 0; i < nbk; i++) if (bk[i].c == c && p >= bk[i].p && p + n <= bk[i].p + bk[i].n) return;
  sim_violation("out-of-bounds", "%s gave memory that was not taken from the backing allocator", what); }
static void take(int c, uint8_t *p, int64_t n, int64_t al, bool region, const char *what) { // a new live block
  CHECK((uintptr_t)p % al == 0, "misaligned", "%s gave a block that is not aligned to %lld", what, (long long)al); owned(c, p, n, what);
  for (int i = 0; i < nb; i++) { if (bl[i].region && c != bl[i].c && cs[c].kind == SUB) continue; int64_t m = bl[i].n; CHECK(p + n <= bl[i].p || bl[i].p + m <= p || !n || !m, "overlap", "%s gave a block that overlaps a live block of %lld bytes of %s", what, (long long)m, kn[cs[bl[i].c].kind]); CHECK(p != bl[i].p || cs[c].kind == ARENA || cs[c].kind == SUB, "overlap", "%s gave the address of a live block", what); }
  if (nb == NB) sim_violation("harness", "too many blocks"); bl[nb++] = (B){p, n, al, (uint32_t)births + 1, c, births, region}; births++; if (!region) fill(&bl[nb - 1]); }
static void drop(int i) { bl[i] = bl[--nb]; }
static int live(int c) { int k = 0; for (int i = 0; i < nb; i++) k += bl[i].c == c; return k; }
static int nth(int c, int k) { for (int i = 0; i < nb; i++) if (bl[i].c == c && k-- == 0) return i; return -1; }
static int newest(int c) { int b = -1; for (int i = 0; i < nb; i++) if (bl[i].c == c && (b < 0 || bl[i].born > bl[b].born)) b = i; return b; }
static int oldest(int c) { int b = -1; for (int i = 0; i < nb; i++) if (bl[i].c == c && (b < 0 || bl[i].born < bl[b].born)) b = i; return b; }
static void kill_since(int c, uint64_t born) { for (int i = nb - 1; i >= 0; i--) if (i < nb && bl[i].c == c && bl[i].born >= born) { drop(i); } }
static bool has_child(int c) { for (int i = 0; i < NC; i++) if (cs[i].open && cs[i].kind == SUB && cs[i].parent == c) return true; return false; }
static int64_t up(int64_t n, int64_t a) { return (n + a - 1) / a * a; }
static bool crowd; /* and some have hundreds of live blocks */ static bool large; // some runs have blocks and memories whose sizes and offsets need more than 16 bits
static int64_t size(void) { static const int64_t s[] = {16, 1, 8, 7, 24, 0, 40, 100}; uint32_t k = ch(ST_OP, 12); if (large && ch(ST_OP, 3) == 2) return 20000 + ch(ST_OP, 70000); return k < 8 ? s[k] : k == 8 ? ch(ST_OP, 700) : k == 9 ? 16 * ch(ST_OP, 40) : ch(ST_OP, 130); }
static int64_t align_(int kind) { static const int64_t s[] = {16, 8, 4, 1, 2, 32, 64, 128, 256, 4096}; uint32_t k = ch(ST_OP, 4) ? ch(ST_OP, 6) : ch(ST_OP, 10); int64_t a = s[k]; return kind == SCRATCH && a < 4 ? 8 : a; }
static void scenario_close(int c) {
  C *q = &cs[c]; char what[80]; snprintf(what, sizeof what, "releasing %s", kn[q->kind]); for (int i = 0; i < NC; i++) if (cs[i].open && cs[i].kind == SUB && cs[i].parent == c) scenario_close(i);
  kill_since(c, 0); if (q->kind == ARENA || q->kind == SUB) { while (q->nsnap) zpl_arena_snapshot_end(q->snap[--q->nsnap].z); zpl_arena_check(&q->a); zpl_arena_free(&q->a); } else if (q->kind == POOL) zpl_pool_free(&q->pool); else if (q->kind == STACK) zpl_stack_memory_free(&q->st);
  sim_ev(what, nbk, 0); for (int i = 0; i < nbk; i++) CHECK(bk[i].c != c, "leak:backing", "%s left %lld bytes with its backing allocator", what, (long long)bk[i].n);
  if (q->own) { free(q->own); q->own = 0; } if (q->kind == SUB) for (int i = 0; i < nb; i++) if (bl[i].region && bl[i].p == q->lo && bl[i].c == q->parent) { bl[i].region = false; fill(&bl[i]); break; } // stays allocated in the parent
  q->open = false; verify(what); }
static void scenario_open(int c) {
  C *q = &cs[c]; memset(q, 0x4d, sizeof *q); q->kind = 1 + ch(ST_OP, KINDS - 1); q->own = q->lo = q->seen = 0; q->nsnap = 0; q->used = 0; q->mem = false; uint32_t a0 = sim_fired(F_ALLOC); char what[120]; zpl_allocator b = {back, (void *)(intptr_t)c}; int64_t n = ch(ST_OP, 4) ? 64 + 16 * ch(ST_OP, 40) : 1 + ch(ST_OP, 1500); if (large && ch(ST_OP, 4)) n = 70000 + ch(ST_OP, 300000); bool mem = ch(ST_OP, 2); int off = ch(ST_OP, 3) ? 0 : ch(ST_OP, 16);
  if (q->kind == SUB) { int p = -1; for (int i = 0; i < NC; i++) if (cs[i].open && i != c && (cs[i].kind == ARENA || cs[i].kind == SUB) && cs[i].nsnap == 0) p = i; if (p < 0) { q->kind = ARENA; } else q->parent = p; }
  q->open = true; q->total = n; snprintf(what, sizeof what, "creating %s of %lld bytes%s", kn[q->kind], (long long)n, mem ? " from memory" : "");
  if (q->kind == SCRATCH) mem = true; if (q->kind == SUB || q->kind == POOL) mem = false; q->mem = mem;
  if (mem) { sim_faults_enable(false); q->own = malloc(n + off); sim_faults_enable(true); memset(q->own, 0x99, n + off); q->lo = q->own + off; }
  bool none = false;
  switch (q->kind) {
    case ARENA: if (mem) zpl_arena_init_from_memory(&q->a, q->lo, n); else { zpl_arena_init_from_allocator(&q->a, b, n); none = !q->a.physical_start; q->lo = q->a.physical_start; } break;
    case SUB: { int64_t pr = zpl_arena_size_remaining(&cs[q->parent].a, 16); bool nb_full = nb > NB - 40; if (nb_full) n = q->total = 1; zpl_arena_init_sub(&q->a, &cs[q->parent].a, n); none = !q->a.physical_start; q->lo = q->a.physical_start; if (none) CHECK(up(n, 16) > pr, "failed-without-cause", "%s failed although %lld bytes remain", what, (long long)pr); else { owned(q->parent, q->lo, n, what); take(q->parent, q->lo, n, 16, true, what); cs[q->parent].used += up(n, 16) + 15; } break; }
    case POOL: q->bs = 1 + (ch(ST_OP, 2) ? ch(ST_OP, 40) : 8 * ch(ST_OP, 8) + 7); q->nblk = 1 + ch(ST_OP, 12); if (crowd) q->nblk = 40 + ch(ST_OP, 300); bool def = ch(ST_OP, 2); q->bal = def ? 16 : align_(POOL); if (def) zpl_pool_init(&q->pool, b, q->nblk, q->bs); else zpl_pool_init_align(&q->pool, b, q->nblk, q->bs, q->bal); none = true; for (int i = 0; i < nbk; i++) if (bk[i].c == c) none = false; q->lo = 0; break;
    case SCRATCH: zpl_scratch_memory_init(&q->s, q->lo, n); break;
    case STACK: if (mem) zpl_stack_memory_init_from_memory(&q->st, q->lo, n); else { zpl_stack_memory_init(&q->st, b, n); none = !q->st.physical_start; } break; }
  sim_ev(what, n, none); if (none && q->kind != SUB) { CHECK(sim_fired(F_ALLOC) != a0 || nbk > 380, "failed-without-cause", "%s failed although memory was there", what); }
  if (none) { sim_nontrivial(); sim_probe("no backing memory"); q->total = 0; }
  verify(what); }
// a pool with a great many blocks: every block comes once, the next request is refused, and clearing or freeing gives all of them back
static void many_blocks(void) { int64_t nblk = 30 + ch(ST_OP, ch(ST_OP, 2) ? 100 : 3000), bs = 8 * (1 + (int64_t)ch(ST_OP, 10)) + (ch(ST_OP, 2) ? 0 : ch(ST_OP, 7)); bool def = ch(ST_OP, 2); int64_t al = def ? 16 : (int64_t)8 << ch(ST_OP, 5); zpl_pool p; zpl_allocator h = zpl_heap_allocator(); if (def) zpl_pool_init(&p, h, nblk, bs); else zpl_pool_init_align(&p, h, nblk, bs, al); zpl_allocator a = zpl_pool_allocator(&p); uint8_t **q = malloc(sizeof *q * (size_t)(nblk + 1)); sim_nontrivial(); sim_probe("a pool of a great many blocks"); sim_op(); sim_ev("pool", (uint64_t)nblk, (uint64_t)bs);
  int64_t n = 0; for (int round = 0, rounds = 2 + (int)ch(ST_OP, 3); round < rounds; round++) {
    while (n < nblk) { uint8_t *b = def ? zpl_alloc(a, bs) : zpl_alloc_align(a, bs, al); CHECK(b, "failed-without-cause", "a pool of %lld blocks gave only %lld", (long long)nblk, (long long)n); CHECK(!((uintptr_t)b % (uintptr_t)al), "misaligned", "block %lld of a pool is not aligned to %lld", (long long)n, (long long)al); for (int64_t k = 0; k < bs; k++) b[k] = (uint8_t)(n * 31 + k); q[n++] = b; }
    for (int64_t i = 0; i < n; i++) for (int64_t k = 0; k < bs; k++) CHECK(q[i][k] == (uint8_t)(i * 31 + k), "overlap", "block %lld of %lld of a full pool lies over another", (long long)i, (long long)nblk);
    uint8_t *more = def ? zpl_alloc(a, bs) : zpl_alloc_align(a, bs, al); CHECK(!more, "overlap", "a pool of %lld blocks gave one more", (long long)nblk);
    uint32_t how = ch(ST_OP, 4); sim_ev("give back", how, (uint64_t)n); if (how < 2) { zpl_free_all(a); n = 0; } else { int64_t step = how == 2 ? 1 : 2 + ch(ST_OP, 5), w = 0; for (int64_t i = 0; i < n; i++) if (i % step == 0) zpl_free(a, q[i]); else { for (int64_t k = 0; k < bs; k++) q[i][k] = (uint8_t)(w * 31 + k); q[w++] = q[i]; } n = w; } }
  zpl_pool_free(&p); free(q); }
void scenario(void) {
  sim_faults_init(FB(F_ALLOC)); uint64_t b0 = sim_live_blocks(); uint32_t nops = 4 + ch(ST_OP, 60); large = ch(ST_OP, 40) == 39; crowd = ch(ST_OP, 150) == 149; if (crowd) { nops = 200 + ch(ST_OP, 500); sim_probe("hundreds of blocks"); }
#ifdef ZPL_HEAP_ANALYSIS
  zpl_heap_stats_init();
#endif
  if (ch(ST_CFG, 120) == 119) { sim_faults_enable(false); many_blocks(); no_leaks(b0, "freeing a pool"); return; }
  cs[0].open = true; cs[0].kind = HEAP; int focus = 0;
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); if (ch(ST_OP, crowd ? 200 : 6) == 5) focus = ch(ST_OP, NC); int c = ch(ST_OP, crowd ? 40 : 4) ? focus : (int)ch(ST_OP, NC); C *q = &cs[c]; char what[160]; uint32_t a0 = sim_fired(F_ALLOC);
    if (!q->open) { scenario_open(c); focus = c; continue; }
    uint32_t op = crowd && ch(ST_OP, 8) ? 0 : ch(ST_OP, 10); zpl_allocator al = of(c);
    if (op < 5) { // allocate
      if (nb > NB - 30) continue; int64_t n = size(), a = align_(q->kind); bool def = ch(ST_OP, 2); if (def) a = 16; if (q->kind == STACK && ch(ST_OP, 6) == 5) { /* fill the current piece of memory up to its end, or take nothing there */ if (ch(ST_OP, 2)) n = 0; else { int64_t room = (int64_t)q->st.total_size - (int64_t)up((int64_t)(uintptr_t)q->st.physical_start + (int64_t)q->st.allocated + 8, a < 8 ? 8 : a) + (int64_t)(uintptr_t)q->st.physical_start; if (room >= 0 && room < 3000) n = room; } sim_probe("filled to the end"); } bool huge = ch(ST_OP, 30) == 29; if (huge) { n = ch(ST_OP, 2) ? INT64_MAX - ch(ST_OP, 70) : (int64_t)1 << (33 + ch(ST_OP, 29)); if (q->kind == POOL) continue; } if (q->kind == POOL) { n = q->bs; a = q->bal; def = a == 16; }
      snprintf(what, sizeof what, "allocating %lld bytes aligned to %lld from %s", (long long)n, (long long)a, kn[q->kind]); int64_t rem = q->kind == ARENA || q->kind == SUB ? zpl_arena_size_remaining(&q->a, a) : 0; uint32_t how = huge ? 0 : ch(ST_OP, 6); uint8_t *p; static uint8_t src[1024]; uint8_t seed = (uint8_t)births; int64_t lim = n > 1000 ? 1000 : n; if (n > 1000) how = 0; sim_fill(src, lim, seed + 1u); int64_t hn = n;
      if (how == 4) p = def ? zpl_alloc_copy(al, src, n) : zpl_alloc_copy_align(al, src, n, a); else if (how == 5 && def && n && q->kind != POOL) { for (int i = 0; i < n; i++) if (!src[i]) src[i] = 1; src[n - 1] = 0; hn = n; p = ch(ST_OP, 2) ? (uint8_t *)zpl_alloc_str(al, (char *)src) : (uint8_t *)zpl_alloc_str_len(al, (char *)src, n - 1); } else { p = def ? zpl_alloc(al, n) : zpl_alloc_align(al, n, a); if (p) for (int64_t i = 0; i < n; i++) CHECK(!p[i], "not-zeroed", "%s gave memory that is not zeroed", what); how = 0; }
      sim_ev(what, p != 0, how); bool fault = sim_fired(F_ALLOC) != a0;
      if (!p) { sim_probe(huge ? "huge request refused" : "request refused");
        switch (q->kind) { case HEAP: CHECK(fault || huge, "failed-without-cause", "%s failed although memory was there", what); break;
          case ARENA: case SUB: CHECK(up(n, a) > rem || huge || !q->total, "failed-without-cause", "%s failed, %lld bytes remain", what, (long long)rem); CHECK(q->used + n + 2 * a > q->total || huge, "failed-without-cause", "%s failed, at most %lld of %lld bytes are in use", what, (long long)q->used, (long long)q->total); sim_nontrivial(); break;
          case POOL: CHECK(live(c) == q->nblk || !q->total, "failed-without-cause", "%s failed with %d of %lld blocks in use", what, live(c), (long long)q->nblk); sim_nontrivial(); break;
          case SCRATCH: CHECK(live(c) || huge || (n + a + 40) * 2 > q->total, "failed-without-cause", "%s failed with nothing in use of %lld bytes", what, (long long)q->total); sim_nontrivial(); break;
          case STACK: CHECK(huge || (q->mem ? q->used + n + a + 40 > q->total : fault || nbk > 380 || !q->total), "failed-without-cause", "%s failed with at most %lld of %lld bytes in use", what, (long long)q->used, (long long)q->total); sim_nontrivial(); break; }
        verify(what); continue; }
      if (q->kind == POOL) CHECK(live(c) < q->nblk, "overlap", "%s gave a block although all %lld are in use", what, (long long)q->nblk);
      if (how) CHECK(!memcmp(p, src, n), "copy-differs", "%s gave other bytes than the source", what);
      if (q->kind == ARENA || q->kind == SUB) CHECK(zpl_arena_size_remaining(&q->a, 1) >= 0, "size-remaining", "after %s %lld bytes remain", what, (long long)zpl_arena_size_remaining(&q->a, 1));
      take(c, p, n, a, false, what); q->seen = p; if (q->kind == HEAP) { heap_bytes += hn; heap_blocks++; } q->used += up(n, a < 8 ? 8 : a) + a + 16;
      if (q->kind == SCRATCH && n) CHECK(zpl_scratch_memory_is_in_use(&q->s, p), "is-in-use", "a live block is reported as not in use"); if (q->kind == STACK && n) CHECK(zpl_stack_memory_is_in_use(&q->st, p), "is-in-use", "a live block is reported as not in use");
    } else if (op < 8) { // free
      int i; if (!live(c)) continue; if (q->kind == STACK) i = ch(ST_OP, 5) == 4 ? nth(c, ch(ST_OP, live(c))) : newest(c); else if (q->kind == SCRATCH && ch(ST_OP, 3)) i = oldest(c); else i = nth(c, ch(ST_OP, live(c))); if (bl[i].region) continue; B b = bl[i]; snprintf(what, sizeof what, "freeing a block of %lld bytes of %s", (long long)b.n, kn[q->kind]); if (ch(ST_OP, 8) == 7) zpl_free(al, 0);
      zpl_free(al, b.p); sim_ev(what, b.n, (int64_t)b.born); if (q->kind == HEAP) { heap_bytes -= b.n; heap_blocks--; } if (q->kind == ARENA || q->kind == SUB) drop(i); else if (q->kind == STACK) { kill_since(c, b.born); q->used = 0; for (int j = 0; j < nb; j++) if (bl[j].c == c) q->used += up(bl[j].n, 8) + 2 * bl[j].al + 32; } else drop(i);
      if (q->kind == POOL || q->kind == SCRATCH) q->used = 0;
      if (q->kind == STACK && !live(c)) { int left = 0; for (int j = 0; j < nbk; j++) left += bk[j].c == c; CHECK(left <= 1, "leak:backing", "an empty stack holds %d backing blocks", left); }
    } else if (op == 8) { // resize
      if (q->kind == POOL || q->kind == STACK) continue; int64_t n = size(); int i = live(c) ? nth(c, ch(ST_OP, live(c))) : -1; if (i >= 0 && (bl[i].region || ch(ST_OP, 8) == 7)) i = -1; B b = {0}; if (i >= 0) b = bl[i]; int64_t a = i >= 0 ? b.al : align_(q->kind); if (nb > NB - 30) continue; if (i >= 0 && n < b.n && n && q->kind == HEAP) n = b.n + n; if (i >= 0 && ch(ST_OP, 4) == 0) n = b.n + ch(ST_OP, 300);
      snprintf(what, sizeof what, "resizing a block of %lld bytes to %lld in %s", (long long)b.n, (long long)n, kn[q->kind]); if (!n && q->kind == HEAP && i < 0) continue; int64_t rem = q->kind == ARENA || q->kind == SUB ? zpl_arena_size_remaining(&q->a, a) : 0; uint8_t *p = a == 16 && ch(ST_OP, 2) ? zpl_resize(al, i >= 0 ? b.p : 0, i >= 0 ? b.n : 0, n) : zpl_resize_align(al, i >= 0 ? b.p : 0, i >= 0 ? b.n : 0, n, a); sim_ev(what, p != 0, a); bool fault = sim_fired(F_ALLOC) != a0;
      if (i >= 0 && !n) { if (b.n) { CHECK(!p, "resize-to-nothing", "%s gave a block", what); } if (!p) { drop(i); if (q->kind == HEAP) { heap_bytes -= b.n; heap_blocks--; } } else { CHECK(p == b.p, "resize-to-nothing", "%s gave another block", what); } verify(what); continue; }
      if (!p) { if (q->kind == HEAP) CHECK(fault, "failed-without-cause", "%s failed although memory was there", what); if (q->kind == ARENA || q->kind == SUB) CHECK(up(n, a) > rem || !q->total, "failed-without-cause", "%s failed, %lld bytes remain", what, (long long)rem); sim_nontrivial(); sim_probe("resize refused"); verify(what); continue; }
      int64_t keep = i < 0 ? 0 : b.n < n ? b.n : n; for (int64_t j = 0; j < keep; j++) CHECK(p[j] == pat(&b, j), "content-lost", "%s lost byte %lld", what, (long long)j);
      if (i >= 0) { if (p == b.p) { CHECK(n <= b.n || q->kind != HEAP || 1, "x", "x"); } drop(i); if (q->kind == HEAP) { heap_bytes -= b.n; heap_blocks--; } }
      int64_t m = i >= 0 && p == b.p && n < b.n ? b.n : n; if (m != n) n = m; for (int64_t j = b.n > keep ? n : keep; j < n; j++) CHECK(!p[j], "not-zeroed", "%s gave new bytes that are not zeroed", what); take(c, p, n, a, false, what); if (q->kind == HEAP) { heap_bytes += n; heap_blocks++; } q->used += up(n, a < 8 ? 8 : a) + a + 16;
    } else { uint32_t w = ch(ST_OP, 4); snprintf(what, sizeof what, "clearing %s", kn[q->kind]);
      if (q->kind == HEAP) { zpl_free_all(al); sim_ev(what, 0, 0); }
      else if (w == 0 && !has_child(c) && !(q->kind == SUB && 0)) { if (q->kind == ARENA || q->kind == SUB) while (q->nsnap) zpl_arena_snapshot_end(q->snap[--q->nsnap].z); zpl_free_all(al); kill_since(c, 0); q->used = 0; if (q->kind == ARENA || q->kind == SUB) CHECK(zpl_arena_size_remaining(&q->a, 1) == q->total, "size-remaining", "after %s of %lld bytes %lld remain", what, (long long)q->total, (long long)zpl_arena_size_remaining(&q->a, 1)); sim_ev(what, q->kind, 0); if (q->kind == STACK) { int left = 0; for (int j = 0; j < nbk; j++) left += bk[j].c == c; CHECK(left <= 1, "leak:backing", "a cleared stack holds %d backing blocks", left); } if (q->kind == SCRATCH) CHECK(!zpl_scratch_memory_is_in_use(&q->s, q->lo + q->total / 2), "is-in-use", "cleared scratch memory is reported in use"); }
      else if (w == 1) { scenario_close(c); continue; }
      else if (q->kind == ARENA || q->kind == SUB) { if (w == 2 || !q->nsnap) { if (q->nsnap < 6) { q->snap[q->nsnap].born = births; q->snap[q->nsnap].used = q->used; q->snap[q->nsnap].zused = q->a.total_allocated; q->snap[q->nsnap++].z = zpl_arena_snapshot_begin(&q->a); sim_ev("snapshot", q->nsnap, 0); } } else { bool ch_after = has_child(c); if (ch_after) continue; q->nsnap--; zpl_arena_snapshot_end(q->snap[q->nsnap].z); kill_since(c, q->snap[q->nsnap].born); q->used = q->snap[q->nsnap].used; snprintf(what, sizeof what, "rolling %s back", kn[q->kind]); sim_ev(what, q->nsnap, 0); sim_nontrivial(); sim_probe("rolled back"); } }
      else continue; }
    verify(what); if (q->open) use(c, what); sim_feature(sim_mix(op, sim_mix(q->kind, sim_mix(live(c) > 8 ? 8 : live(c), q->nsnap))));
  }
  for (int i = NC - 1; i > 0; i--) if (cs[i].open) scenario_close(i);
  while (live(0)) { int i = nth(0, 0); heap_bytes -= bl[i].n; heap_blocks--; zpl_free(zpl_heap_allocator(), bl[i].p); drop(i); } verify("freeing everything");
#ifdef ZPL_HEAP_ANALYSIS
  zpl_heap_stats_check();
#endif
  no_leaks(b0, "freeing everything");
}
