// variants: A
#include "common.h"
const char *const scenario_name = "C24";
const char *const scenario_rule = "a run counts when a region is trimmed, split, purged or refused, and its trace differs from every other run";
#define PG 4096
typedef struct { zpl_virtual_memory vm; uint32_t seed; bool known; } R; static R r[40]; static int nr;
static uint8_t at(uint32_t seed, int64_t off) { return (uint8_t)((seed + (uint64_t)off * 2654435761u) >> 7 | 1); } // by absolute address, so a part keeps its meaning
static int64_t probe(int64_t n, int k) { int64_t page = k / 3, o = page * PG + (k % 3 == 0 ? 0 : k % 3 == 1 ? PG - 1 : 1234); return o < n ? o : -1; }
static void fill(R *q) { for (int k = 0;; k++) { int64_t o = (int64_t)(k / 3) * PG; if (o >= q->vm.size) break; o = probe(q->vm.size, k); if (o >= 0) ((uint8_t *)q->vm.data)[o] = at(q->seed, (intptr_t)q->vm.data + o); } if (q->vm.size) ((uint8_t *)q->vm.data)[q->vm.size - 1] = at(q->seed, (intptr_t)q->vm.data + q->vm.size - 1); q->known = true; }
static void verify(const char *what) {
  CHECK(!pg_foreign(), "foreign-pages", "%s touched pages that are not mapped or not its own: %s", what, pg_foreign_desc()); size_t want = 0;
  for (int i = 0; i < nr; i++) { R *q = &r[i]; want += (q->vm.size + PG - 1) / PG * PG; if (!q->vm.size) continue; CHECK(pg_is_mapped(q->vm.data, q->vm.size), "unmapped", "after %s part of a live region of %ld bytes is not mapped", what, (long)q->vm.size); if (q->known) for (int k = 0; (int64_t)(k / 3) * PG < q->vm.size; k++) { int64_t o = probe(q->vm.size, k); if (o >= 0) CHECK(((uint8_t *)q->vm.data)[o] == at(q->seed, (intptr_t)q->vm.data + o), "content-lost", "after %s byte %lld of a live region of %ld bytes has changed", what, (long long)o, (long)q->vm.size); } }
  if (!sim_fired(F_MUNMAP)) CHECK(pg_mapped_bytes() == want, "leak:pages", "after %s %zu bytes are mapped, the live regions have %zu", what, pg_mapped_bytes(), want); }
void scenario(void) {
  sim_faults_init(FB(F_MMAP) | FB(F_MUNMAP) | FB(F_MADVISE)); pg_set_reuse(ch(ST_CFG, 2)); uint32_t nops = 3 + ch(ST_OP, 40), seed = 1; int wide = 0; char what[160];
  zpl_isize al = -1, ps = ch(ST_OP, 2) ? zpl_virtual_memory_page_size(&al) : (al = PG, zpl_virtual_memory_page_size(0)); CHECK(ps == PG && al == PG, "page-size", "the page size is given as %ld aligned %ld", (long)ps, (long)al);
  for (uint32_t k = 0; k < nops; k++) {
    sim_op(); uint32_t op = nr ? ch(ST_OP, 6) : 0; R *q = nr ? &r[ch(ST_OP, nr)] : 0; uint32_t f0 = sim_fired_total(), mu0 = sim_fired(F_MUNMAP);
    if (op <= 1) { if (nr == 38) continue; int64_t n = (1 + ch(ST_OP, 6)) * PG; uint32_t w = ch(ST_OP, 10); if (w == 7) n = 1 + ch(ST_OP, 5 * PG); else if (w == 8) { n = (1 + ch(ST_OP, 60)) * PG; if (wide < 2 && !ch(ST_OP, 4)) { n *= 10; wide++; } } else if (w == 9) n = ch(ST_OP, 3) ? (int64_t)PG * 20000 : INT64_MAX - ch(ST_OP, 2) * (PG - 1) ; void *hint = 0; if (nr && ch(ST_OP, 4) == 3) hint = (uint8_t *)q->vm.data + (ch(ST_OP, 2) ? (q->vm.size + PG - 1) / PG * PG : 0);
      snprintf(what, sizeof what, "allocating %lld bytes", (long long)n); zpl_virtual_memory v = zpl_vm_alloc(hint, n); sim_ev(what, v.data != 0, 0);
      if (!v.data) { CHECK(!v.size, "claimed-allocated", "%s failed, yet the region it gives has %ld bytes", what, (long)v.size); CHECK(sim_fired_total() != f0 || n > 4000 * PG, "failed-without-cause", "%s failed although memory was there", what); sim_nontrivial(); sim_probe("no memory"); verify(what); continue; }
      CHECK(v.size == n, "wrong-size", "%s gave %ld bytes", what, (long)v.size); CHECK(sim_fired(F_MMAP) == 0 || sim_fired_total() == f0, "claimed-allocated", "%s gave %p although the system refused", what, v.data); CHECK(pg_is_mapped(v.data, n), "unmapped", "%s gave memory that is not mapped", what); for (int i = 0; i < nr; i++) CHECK((uint8_t *)v.data + n <= (uint8_t *)r[i].vm.data || (uint8_t *)r[i].vm.data + r[i].vm.size <= (uint8_t *)v.data || !r[i].vm.size, "overlap", "%s gave memory of a live region", what);
      for (int64_t o = 0; o < n; o += o % PG == 0 && o + 700 < n ? 613 : 100) CHECK(((uint8_t *)v.data)[o] == 0, "not-zeroed", "%s gave memory that is not zero at %lld", what, (long long)o); r[nr] = (R){v, seed += 77, false}; fill(&r[nr++]);
    } else if (op == 2) { R o = *q; snprintf(what, sizeof what, "freeing %ld bytes", (long)o.vm.size); zpl_b32 ok = zpl_vm_free(o.vm); bool left = o.vm.size && pg_is_mapped(o.vm.data, 1); sim_ev(what, ok, 0); if (!o.vm.size) { *q = r[--nr]; verify(what); continue; } if (sim_fired(F_MUNMAP) == mu0) { CHECK(ok, "failed-without-cause", "%s reports failure", what); } else { CHECK(!ok || !left, "claimed-freed", "%s reports success although the system refused", what); sim_nontrivial(); sim_probe("release refused"); } if (ok) CHECK(!left, "claimed-freed", "%s reports success, the memory is still mapped", what); if (!left) *q = r[--nr];
    } else if (op == 3) { R o = *q; int64_t pages = o.vm.size / PG; if (!pages) continue; int64_t lead = ch(ST_OP, (uint32_t)pages + 1), n = ch(ST_OP, (uint32_t)(pages - lead) + 1); if (ch(ST_OP, 4) == 0) lead = 0; if (ch(ST_OP, 4) == 0) n = pages - lead; lead *= PG; n *= PG; if (ch(ST_OP, 6) == 5 && o.vm.size % PG) n = o.vm.size - lead;
      snprintf(what, sizeof what, "trimming %ld bytes to %lld at %lld", (long)o.vm.size, (long long)n, (long long)lead); zpl_virtual_memory v = zpl_vm_trim(o.vm, lead, n); sim_ev(what, v.size, 0); sim_nontrivial(); if (lead && lead + n < o.vm.size) sim_probe("trimmed on both sides");
      if (sim_fired(F_MUNMAP) == mu0) { CHECK(v.size == n && (!n || v.data == (uint8_t *)o.vm.data + lead), "wrong-part", "%s gave %ld bytes at %ld", what, (long)v.size, (long)((uint8_t *)v.data - (uint8_t *)o.vm.data)); }
      q->vm.data = (uint8_t *)o.vm.data + lead; q->vm.size = n; // what was asked to be kept has to be there in any case
      q->known = o.known; if (q->known && n) { for (int64_t j = 0; j < n; j += PG) { bool had = probe(o.vm.size, (int)((lead + j) / PG) * 3) >= 0; if (had) CHECK(((uint8_t *)q->vm.data)[j] == at(o.seed, (intptr_t)q->vm.data + j), "content-lost", "%s lost byte %lld of the part to keep", what, (long long)j); } fill(q); } if (!n) *q = r[--nr];
    } else if (op == 4) { if (!q->vm.size) continue; int64_t pages = (q->vm.size + PG - 1) / PG, a = 0, n = pages; if (ch(ST_OP, 2)) { a = ch(ST_OP, (uint32_t)pages); n = 1 + ch(ST_OP, (uint32_t)(pages - a)); } uint8_t *d = (uint8_t *)q->vm.data + a * PG; int64_t bytes = a + n == pages ? q->vm.size - a * PG : n * PG; snprintf(what, sizeof what, "purging %lld of %ld bytes at %lld", (long long)bytes, (long)q->vm.size, (long long)a * PG); uint64_t p0 = pg_purged(d), pl = pg_purged(d + (n - 1) * PG); zpl_b32 ok = zpl_vm_purge(zpl_vm(d, bytes)); sim_ev(what, ok, 0); sim_nontrivial(); bool refused = sim_fired_total() != f0;
      CHECK(!ok == refused, "wrong-report", "%s reports %s although the system %s", what, ok ? "success" : "failure", refused ? "refused" : "accepted"); if (ok) { CHECK(pg_purged(d) > p0 && pg_purged(d + (n - 1) * PG) > pl, "not-purged", "%s reports success, the pages were not given back", what); sim_probe("purged"); } else sim_probe("purge refused");
      CHECK(pg_is_mapped(q->vm.data, q->vm.size), "unmapped", "%s unmapped part of the region", what); for (int64_t j = 0; j < q->vm.size; j += PG) if (j < a * PG || j >= (a + n) * PG) CHECK(((uint8_t *)q->vm.data)[j] == at(q->seed, (intptr_t)q->vm.data + j), "content-lost", "%s changed byte %lld outside it", what, (long long)j); fill(q);
    } else { int64_t pages = q->vm.size / PG; if (pages < 3 || nr > 36) continue; R o = *q; int64_t a = 1 + ch(ST_OP, (uint32_t)pages - 2), n = 1 + ch(ST_OP, (uint32_t)(pages - a - 1)); snprintf(what, sizeof what, "freeing %lld bytes inside a region of %ld", (long long)n * PG, (long)o.vm.size); zpl_b32 ok = zpl_vm_free(zpl_vm((uint8_t *)o.vm.data + a * PG, n * PG)); sim_ev(what, ok, 0); sim_nontrivial(); if (sim_fired(F_MUNMAP) != mu0) { CHECK(!ok || !pg_is_mapped((uint8_t *)o.vm.data + a * PG, 1), "claimed-freed", "%s reports success although the system refused", what); if (pg_is_mapped((uint8_t *)o.vm.data + a * PG, 1)) { verify(what); continue; } } else CHECK(ok, "failed-without-cause", "%s reports failure", what);
      q->vm.size = a * PG; q->known = false; r[nr] = (R){zpl_vm((uint8_t *)o.vm.data + (a + n) * PG, o.vm.size - (a + n) * PG), o.seed, false}; R *b = &r[nr++]; for (int64_t j = 0; j < q->vm.size; j += PG) CHECK(((uint8_t *)q->vm.data)[j] == at(o.seed, (intptr_t)q->vm.data + j), "content-lost", "%s changed bytes in front of it", what); for (int64_t j = 0; j < b->vm.size; j += PG) CHECK(((uint8_t *)b->vm.data)[j] == at(o.seed, (intptr_t)b->vm.data + j), "content-lost", "%s changed bytes behind it", what); fill(q); fill(b); if (!b->vm.size) nr--; sim_probe("freed a part"); }
    verify(what); sim_feature(sim_mix(op, sim_mix(nr, pg_mapped_bytes() / PG)));
  }
  sim_faults_enable(false); while (nr) { nr--; if (r[nr].vm.size) CHECK(zpl_vm_free(r[nr].vm), "failed-without-cause", "freeing the last regions reports failure"); } verify("freeing everything");
}
