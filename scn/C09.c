// variants: T
// quick: 18
#include "common.h"
// Two to four threads format, parse, query and collect on their own data, preempted at memory accesses inside zpl; each repeats alone what it did in company.
const char *const scenario_name = "C09";
const char *const scenario_rule = "a run counts when the operations of different threads overlapped in time and its trace differs from every other run";
#define NT 4
#define NO 12
typedef struct { int op; uint32_t a, b; } step; static step P[NT][NO]; static int cnt[NT], nth; static uint64_t R[2][NT][NO]; static char shown[2][NT][NO * 48]; static size_t nshown[2][NT]; static int inflight, overlapped;
static const char *const opn[] = {"format into the scratch buffer", "format into a bounded buffer", "format into a new string", "append formatted text", "print to an in-memory file", "read and write JSON", "query a document", "read and write CSV", "convert numbers", "fill a table", "draw random numbers", "print", "format through the string buffer", "split and join text", "convert between UTF-8 and UTF-16", "encode and decode base64", "read and write an address", "compile options", "use own allocators", "sort and shuffle", "hash data", "compare at an own offset", "copy and move files", "pack and unpack an archive", "make and list directories", "capture a command", "write and read a file", "use scratch, stack and mapped memory", "ask about files", "read and write percent codes"};
#define NOP 30
static uint64_t H(const void *p, size_t n, uint64_t h) { return sim_mix(h, sim_hash(p, n)); }
static uint64_t HS(const char *s, uint64_t h) { return s ? H(s, strlen(s), h) : sim_mix(h, 1); }
static uint64_t adt_hash(const zpl_adt_node *n, uint64_t h) { if (!n) return sim_mix(h, 3); h = sim_mix(h, n->type); if (n->name) h = HS(n->name, h); switch (n->type) { case ZPL_ADT_TYPE_ARRAY: case ZPL_ADT_TYPE_OBJECT: for (zpl_isize i = 0; i < zpl_array_count(n->nodes); i++) h = adt_hash(n->nodes + i, h); break; case ZPL_ADT_TYPE_STRING: case ZPL_ADT_TYPE_MULTISTRING: h = HS(n->string, h); break; case ZPL_ADT_TYPE_INTEGER: h = sim_mix(h, (uint64_t)n->integer); break; case ZPL_ADT_TYPE_REAL: h = H(&n->real, 8, h); break; } return h; }
ZPL_TABLE(static inline, tab9, tab9_, int)
typedef struct { uint64_t h; int id; } tarseen;
static ZPL_TAR_UNPACK_PROC(tar_see) { tarseen *t = (tarseen *)user_data; t->h = HS(file->path, t->h); t->h = sim_mix(t->h, (uint64_t)file->length * 8 + (uint64_t)file->type); char b[64] = {0}; zpl_i64 at = zpl_file_tell(archive); if (file->length < 64) zpl_file_read_at(archive, b, (zpl_isize)file->length, file->offset); (void)at; t->h = HS(b, t->h); return 0; }
static uint64_t one(int pass, int id, const step *s, char **scratch, uint64_t *scratch_h) {
  uint64_t h = 7; char tag = (char)('a' + 6 * id), b[700], w[16]; for (uint32_t i = 0; i < 15; i++) w[i] = (char)(tag + (s->b >> i) % 6); w[15] = 0; int v = (int)(s->a % 100000) - 50000;
  switch (s->op) {
    case 0: { char *p = zpl_bprintf("%s:%d:%05x:%8.3f|%-12s|%c", w, v, s->b & 0xfffff, v / 8.0, w + 7, tag); h = HS(p, h); *scratch = p; *scratch_h = HS(p, 1); } break;
    case 1: { size_t cap = 1 + s->a % 60; memset(b, 0x5C, sizeof b); long r = (long)zpl_snprintf(b, (zpl_isize)cap, "%s %d %s", w, v, w); (void)r; h = H(b, sizeof b, h); } break;
    case 2: { char *p = NULL; long r = (long)zpl_asprintf(zpl_heap(), &p, "<%s|%lld|%u>", w, (long long)v * 1000003, s->b); h = HS(p, sim_mix(h, (uint64_t)r)); zpl_mfree(p); } break;
    case 3: { zpl_string t = zpl_string_make(zpl_heap(), w); for (uint32_t i = 0; i < 1 + s->a % 3; i++) t = zpl_string_append_fmt(t, "[%s=%d]", w, v + (int)i); h = H(t, (size_t)zpl_string_length(t), h); zpl_string_free(t); } break;
    case 4: { zpl_file f; zpl_file_stream_new(&f, zpl_heap()); for (uint32_t i = 0; i < 1 + s->a % 4; i++) zpl_fprintf(&f, "%s-%d\n", w, v * (int)(i + 1)); zpl_isize n = 0; zpl_u8 *d = zpl_file_stream_buf(&f, &n); h = H(d, (size_t)n, h); zpl_file_close(&f); } break;
    case 5: { snprintf(b, sizeof b, "{\"%s\": [%d, \"%s\", {\"x\": %d.25, y = true}], /* %s */ \"n\": null, z: '%s'}", w, v, w, v, w, w + 4); zpl_json_object r; int e = zpl_json_parse(&r, b, zpl_heap()); h = sim_mix(h, (uint64_t)e); h = adt_hash(&r, h); if (!e) { zpl_string t = zpl_json_write_string(zpl_heap(), &r, 2); h = HS(t, h); zpl_string_free(t); } zpl_json_free(&r); } break;
    case 6: { *scratch = NULL; /* a query formats into the same buffer */ zpl_adt_node r; zpl_adt_set_obj(&r, NULL, zpl_heap()); zpl_adt_node *l = zpl_adt_append_arr(&r, "list"); for (int i = 0; i < 3; i++) { zpl_adt_node *o = zpl_adt_append_obj(l, NULL); zpl_adt_append_str(o, "name", w + i); zpl_adt_append_int(o, "value", v + i); } snprintf(b, sizeof b, "list/%u/value", s->a % 4); h = adt_hash(zpl_adt_query(&r, b), h); snprintf(b, sizeof b, "list/[value=%d]/name", v + (int)(s->b % 3)); h = adt_hash(zpl_adt_query(&r, b), h); snprintf(b, sizeof b, "list/[name=%s]/value", w + s->b % 3); h = adt_hash(zpl_adt_query(&r, b), h); zpl_adt_destroy_branch(&r); } break;
    case 7: { snprintf(b, sizeof b, "n,t\n%d,%s\n%d,\"%s,x\"\n", v, w, v + 1, w); zpl_csv_object r; int e = zpl_csv_parse(&r, b, zpl_heap(), true); h = adt_hash(&r, sim_mix(h, (uint64_t)e)); zpl_string t = zpl_csv_write_string(zpl_heap(), &r); h = HS(t, h); zpl_string_free(t); zpl_csv_free(&r); } break;
    case 8: { char n[80]; zpl_i64_to_str((zpl_i64)v * 977, n, 10); h = HS(n, h); h = sim_mix(h, (uint64_t)zpl_str_to_i64(n, NULL, 10)); zpl_u64_to_str(s->b, n, 16); h = HS(n, h); snprintf(n, sizeof n, "%d.%03de%d", v, (int)(s->b % 1000), (int)(s->a % 5)); double d = zpl_str_to_f64(n, NULL); h = H(&d, 8, h); zpl_adt_node q = {0}; q.type = ZPL_ADT_TYPE_STRING; q.string = n; zpl_adt_str_to_number(&q); h = adt_hash(&q, h); } break;
    case 9: { tab9 t; tab9_init(&t, zpl_heap()); for (uint32_t i = 0; i < 6; i++) tab9_set(&t, s->b % 7 + i * 5, (int)(s->a + i)); for (uint32_t i = 0; i < 12; i++) { int *p = tab9_get(&t, i * 3); h = sim_mix(h, p ? (uint64_t)*p : 99); } tab9_destroy(&t); int *arr; zpl_array_init(arr, zpl_heap()); for (uint32_t i = 0; i < 9; i++) zpl_array_append(arr, (int)(s->a * i)); h = H(arr, (size_t)zpl_array_count(arr) * sizeof *arr, h); zpl_array_free(arr); } break;
    case 10: { zpl_random r; memset(&r, 0, sizeof r); for (int i = 0; i < (int)(sizeof r / sizeof(zpl_u32)); i++) ((zpl_u32 *)&r)[i] = s->a + (uint32_t)i; for (int i = 0; i < 5; i++) h = sim_mix(h, (uint64_t)zpl_random_range_i64(&r, -50, v + 60000)); } break;
    case 11: { int n = snprintf(b, sizeof b, "%.*s", (int)(1 + s->a % 14), w); memcpy(shown[pass][id] + nshown[pass][id], b, (size_t)n); nshown[pass][id] += (size_t)n; long r = (long)zpl_printf("%.*s", (int)(1 + s->a % 14), w); h = sim_mix(h, (uint64_t)r); } break;
    case 12: { zpl_string t = zpl_string_sprintf_buf(zpl_heap(), "%s/%d/%s", w, v, w + 9); h = HS(t, h); zpl_string_free(t); } break;
    case 14: { char t[64]; snprintf(t, sizeof t, "%s\xc3\xa9%c\xe2\x82\xac%s", w, tag, w + 8); const zpl_u16 *u = zpl_utf8_to_ucs2_buf((const zpl_u8 *)t); zpl_u16 c[64]; size_t k = 0; for (; u && k < 63 && u[k]; k++) c[k] = u[k]; c[k] = 0; h = H(c, k * 2, h); const zpl_u8 *q = zpl_ucs2_to_utf8_buf(c); h = HS((const char *)q, h); } break;
    case 15: { int n = 1 + (int)(s->a % 15); zpl_u8 *e = zpl_base64_encode(zpl_heap(), w, n); h = HS((const char *)e, h); zpl_u8 *d = zpl_base64_decode(zpl_heap(), e, (zpl_isize)strlen((const char *)e)); h = H(d, (size_t)n, h); zpl_mfree(e); zpl_mfree(d); } break;
    case 16: { *scratch = NULL; /* writing an address formats into the same buffer */ snprintf(b, sizeof b, "http://%s/?%s=%d&q=a+%%2F%s&flag", w, w + 10, v, w + 5); zpl_uri_object r; int e = zpl_uri_parse(&r, b, zpl_heap()); h = sim_mix(h, (uint64_t)e); if (!e) { h = adt_hash(&r, h); zpl_string t = zpl_uri_write_string(zpl_heap(), &r); h = HS(t, h); zpl_string_free(t); } zpl_uri_free(&r); } break;
    case 17: { zpl_opts o; zpl_opts_init(&o, zpl_heap(), w); zpl_opts_add(&o, "n", "number", "a number", ZPL_OPTS_INT); zpl_opts_add(&o, "t", "text", "a text", ZPL_OPTS_STRING); zpl_opts_add(&o, "x", "flag", "a flag", ZPL_OPTS_FLAG); char a1[40], a2[40]; snprintf(a1, sizeof a1, "--number=%d", v); snprintf(a2, sizeof a2, "--text=%s", w); char *av[4] = {w, a1, a2, "-x"}; int e = zpl_opts_compile(&o, 3 + (int)(s->b & 1), av); h = sim_mix(h, (uint64_t)e); h = sim_mix(h, (uint64_t)zpl_opts_integer(&o, "number", 5)); h = HS(zpl_opts_string(&o, "text", "none"), h); h = sim_mix(h, (uint64_t)zpl_opts_has_arg(&o, "flag")); zpl_opts_free(&o); } break;
    case 18: { _Alignas(16) char m[2048]; zpl_arena ar; zpl_arena_init_from_memory(&ar, m, sizeof m); zpl_allocator al = zpl_arena_allocator(&ar); char *x = zpl_alloc_str(al, w), *y = zpl_alloc_str(al, w + 3); h = HS(y, HS(x, h)); zpl_string t = zpl_string_make(al, w); t = zpl_string_appendc(t, w + 9); h = HS(t, h); zpl_pool pl; zpl_pool_init(&pl, zpl_heap(), 4, 48); zpl_allocator pa = zpl_pool_allocator(&pl); void *k[4]; for (int i = 0; i < 4; i++) { k[i] = zpl_alloc(pa, 48); memset(k[i], w[i], 48); } for (int i = 0; i < 4; i++) h = H(k[i], 48, h); for (int i = 0; i < 4; i++) zpl_free(pa, k[i]); zpl_pool_free(&pl); } break;
    case 19: { zpl_i32 q[24]; int n = 2 + (int)(s->a % 23); for (int i = 0; i < n; i++) q[i] = (zpl_i32)((s->b * 2654435761u) >> (i & 7)) % 1000 - v; zpl_sort_array(q, n, zpl_i32_cmp(0)); h = H(q, (size_t)n * 4, h); h = sim_mix(h, (uint64_t)zpl_binary_search_array(q, n, &q[n / 2], zpl_i32_cmp(0))); zpl_reverse(q, n, 4); h = H(q, (size_t)n * 4, h); zpl_u32 rs[24], tm[24]; for (int i = 0; i < n; i++) rs[i] = (zpl_u32)(q[i] + 100000); zpl_radix_sort(u32)(rs, tm, n); h = H(rs, (size_t)n * 4, h); } break;
    case 20: { h = sim_mix(h, zpl_crc32(w, 15)); h = sim_mix(h, zpl_crc64(w, 15)); h = sim_mix(h, zpl_adler32(w, 15)); h = sim_mix(h, zpl_murmur64(w, (zpl_isize)(s->a % 16))); h = sim_mix(h, zpl_fnv64a(w, 15)); } break;
    case 21: { zpl_i32 x[8], y[8]; for (int i = 0; i < 8; i++) { x[i] = (i + id) & 1 ? 5 : -5; y[i] = 0; } int at = id & 1; /* neighbouring members compare the other way round */ zpl_compare_proc *c; c = zpl_i32_cmp(4 * at); int g = c(x, y), want = x[at] < 0 ? -1 : 1; CHECK(g == want, "comparator-offset-shared", "a comparator thread %d asked for with offset %d compared at another thread's offset", id, 4 * at); } break;
    case 13: { const char *parts[3] = {w, w + 5, w + 11}; zpl_string t = zpl_string_join(zpl_heap(), parts, 3, "--"); h = HS(t, h); char **l = zpl_str_split_lines(zpl_heap(), t, false); if (l) { h = HS(l[0], h); zpl_array_free(l); } zpl_string_free(t); char *u = zpl_strdup(zpl_heap(), w, 16); zpl_str_to_upper(u); h = HS(u, h); zpl_mfree(u); } break;
    case 22: { char p[32], q[40], t[40]; snprintf(p, sizeof p, "/t%d/f", id); snprintf(q, sizeof q, "/t%d/g%u", id, s->b & 3); snprintf(t, sizeof t, "/t%d/h", id); zpl_file_error er = ZPL_FILE_ERROR_NONE; h = sim_mix(h, zpl_file_write_contents(p, w, 15, &er)); h = sim_mix(h, zpl_fs_copy(p, q, false)); h = sim_mix(h, zpl_fs_move(q, t)); zpl_file_contents c = zpl_file_read_contents(zpl_heap(), true, t); if (c.data) h = H(c.data, (size_t)c.size + 1, h); zpl_file_free_contents(&c); h = sim_mix(h, zpl_fs_exists(q) * 2 + zpl_fs_exists(t)); h = sim_mix(h, zpl_fs_get_type(p)); h = sim_mix(h, zpl_fs_remove(p) * 2 + zpl_fs_remove(t)); } break;
    case 23: { *scratch = NULL; char p[2][40], o[40]; snprintf(o, sizeof o, "/t%d/a.tar", id); const char *ps[2] = {p[0], p[1]}; zpl_file_error er = ZPL_FILE_ERROR_NONE; for (int i = 0; i < 2; i++) { snprintf(p[i], sizeof p[i], "/t%d/m%d%c", id, i, tag); zpl_file_write_contents(p[i], w + i * 3, 10 + i, &er); } zpl_file ar; if (zpl_file_create(&ar, o) == ZPL_FILE_ERROR_NONE) { h = sim_mix(h, (uint64_t)zpl_tar_pack(&ar, ps, 2)); zpl_file_seek(&ar, 0); tarseen ts = {h, id}; h = sim_mix(h, (uint64_t)zpl_tar_unpack(&ar, tar_see, &ts)); h = sim_mix(h, ts.h); zpl_file_seek(&ar, 0); snprintf(o, sizeof o, "/t%d/out", id); h = sim_mix(h, (uint64_t)zpl_tar_unpack_dir(&ar, o)); zpl_file_close(&ar); } for (int i = 0; i < 2; i++) { char u[60]; snprintf(u, sizeof u, "/t%d/out/t%d/m%d%c", id, id, i, tag); zpl_file_contents c = zpl_file_read_contents(zpl_heap(), false, u); h = sim_mix(h, (uint64_t)c.size); if (c.data) h = H(c.data, (size_t)c.size, h); zpl_file_free_contents(&c); zpl_fs_remove(u); zpl_fs_remove(p[i]); } snprintf(o, sizeof o, "/t%d/a.tar", id); zpl_fs_remove(o); } break;
    case 24: { *scratch = NULL; char p[40], q[60]; snprintf(p, sizeof p, "/t%d/d%c/e/f", id, tag); h = sim_mix(h, (uint64_t)zpl_path_mkdir_recursive(p, 0755)); snprintf(q, sizeof q, "/t%d/d%c/e/f/%s", id, tag, w); zpl_file_error er = ZPL_FILE_ERROR_NONE; zpl_file_write_contents(q, w, 9, &er); snprintf(b, sizeof b, "/t%d/d%c", id, tag); zpl_string l = zpl_path_dirlist(zpl_heap(), b, true); h = HS(l, h); zpl_string_free(l); zpl_dir_info di; zpl_dirinfo_init(&di, b); h = sim_mix(h, (uint64_t)zpl_array_count(di.entries)); if (zpl_array_count(di.entries)) h = HS(di.entries[0].filename, h); zpl_dirinfo_free(&di); char *fn = zpl_path_get_full_name(zpl_heap(), q); h = HS(fn, h); zpl_mfree(fn); zpl_fs_remove(q); zpl_path_rmdir(p); snprintf(q, sizeof q, "/t%d/d%c/e", id, tag); zpl_path_rmdir(q); h = sim_mix(h, zpl_path_rmdir(b)); } break;
    case 25: { char p[40]; snprintf(p, sizeof p, "tool %c", tag); zpl_string o = zpl_system_command_str(p, zpl_heap()); h = HS(o, h); if (o) zpl_string_free(o); memset(b, 0, sizeof b); h = sim_mix(h, zpl_system_command(p, 20, b)); h = H(b, 20, h); } break;
    case 26: { char p[40]; snprintf(p, sizeof p, "/t%d/log", id); zpl_file f; if (zpl_file_create(&f, p) == ZPL_FILE_ERROR_NONE) { for (uint32_t i = 0; i < 1 + s->a % 3; i++) h = sim_mix(h, (uint64_t)zpl_fprintf(&f, "%s %d\n", w + i, v)); zpl_file_write_at(&f, w, 3, 2); zpl_file_seek(&f, 1); zpl_isize got = 0; memset(b, 0, 40); zpl_file_read_at_check(&f, b, 12, 1, &got); h = H(b, 40, sim_mix(h, (uint64_t)got)); h = sim_mix(h, (uint64_t)zpl_file_size(&f)); zpl_file_truncate(&f, 5); h = sim_mix(h, (uint64_t)zpl_file_size(&f)); h = HS(zpl_file_name(&f), h); zpl_file_close(&f); } zpl_array(char *) ln = NULL; char *tx = zpl_file_read_lines(zpl_heap(), &ln, p, false); if (tx) { for (zpl_isize i = 0; i < zpl_array_count(ln); i++) h = HS(ln[i], h); zpl_array_free(ln); zpl_mfree(tx); } zpl_fs_remove(p); } break;
    case 27: { _Alignas(16) char m[1024]; zpl_scratch_memory sm; zpl_scratch_memory_init(&sm, m, sizeof m); zpl_allocator al = zpl_scratch_allocator(&sm); char *x = (char *)zpl_alloc(al, 40), *y = (char *)zpl_alloc(al, 100); if (x && y) { memset(x, tag, 40); memset(y, tag + 1, 100); h = H(y, 100, H(x, 40, h)); zpl_free(al, x); zpl_free(al, y); } zpl_stack_memory st; zpl_stack_memory_init(&st, zpl_heap(), 600); al = zpl_stack_allocator(&st); x = (char *)zpl_alloc(al, 50); y = (char *)zpl_alloc(al, 60); if (x && y) { memset(x, tag, 50); memset(y, tag + 2, 60); h = H(y, 60, H(x, 50, h)); zpl_free(al, y); zpl_free(al, x); } zpl_stack_memory_free(&st); zpl_virtual_memory vm = zpl_vm_alloc(NULL, 8192); if (vm.data) { memset(vm.data, tag, 8192); h = H(vm.data, 8192, h); zpl_vm_free(vm); } zpl_random r; zpl_random_init(&r); zpl_random_gen_u32(&r); } break;
    case 28: { char p[40]; for (uint32_t i = 0; i < 2 + s->a % 4; i++) { uint32_t k = (s->b >> (3 * i)) % 6; snprintf(p, sizeof p, "/t%d%s", id, k & 1 ? "/old" : ""); if (k < 2) h = sim_mix(h, (uint64_t)zpl_fs_get_type(p)); else if (k < 4) { zpl_u64 t = zpl_fs_last_write_time("/t0/old"); snprintf(p, sizeof p, "/t%d/old", id); t ^= zpl_fs_last_write_time(p) << 1; h = sim_mix(h, t); } else h = sim_mix(h, zpl_fs_exists(p)); } } break;
    case 29: { *scratch = NULL; int n = 2 + (int)(s->a % 4); snprintf(b, sizeof b, "http://h%d/?", id); for (int i = 0; i < n; i++) { char t[40]; snprintf(t, sizeof t, "%sk%d=%%%02X%c%%%02X", i ? "&" : "", i, (unsigned)(33 + (s->b >> (3 * i) & 15) + 30 * (unsigned)id), tag, (unsigned)(128 + (s->b >> i & 31) + 32 * (unsigned)id)); strcat(b, t); } zpl_uri_object r; int e = zpl_uri_parse(&r, b, zpl_heap()); h = sim_mix(h, (uint64_t)e); if (!e) { h = adt_hash(&r, h); zpl_string t = zpl_uri_write_string(zpl_heap(), &r); h = HS(t, h); zpl_string_free(t); } zpl_uri_free(&r); } break;
    default: break;
  }
  return h;
}
static void run(int pass, int id) {
  char *scratch = NULL; uint64_t sh = 0;
  for (int k = 0; k < cnt[id]; k++) { sim_op(); if (inflight && pass == 0) overlapped = 1; inflight++; R[pass][id][k] = one(pass, id, &P[id][k], &scratch, &sh); inflight--; if (pass == 0) sim_ev(opn[P[id][k].op], id, (int64_t)R[0][id][k]);
    if (scratch) CHECK(HS(scratch, 1) == sh, "scratch-disturbed", "the text thread %d formatted into its scratch buffer changed while it did not format there again (after: %s)", id, opn[P[id][k].op]); }
}
static void worker(void *a) { run(0, (int)(intptr_t)a); }
static void alone(void) { for (int i = 0; i < nth; i++) run(1, i); }
void scenario(void) {
  for (int i = 0; i < NT; i++) { char d[20]; snprintf(d, sizeof d, "/t%d", i); vfs_mkdirs(d); char f[24]; snprintf(f, sizeof f, "/t%d/old", i); vfs_write_file(f, "o", 1); vfs_set_mtime(f, 1000000000 + 77777 * i); char c[40], o[60]; snprintf(c, sizeof c, "tool %c", 'a' + 6 * i); snprintf(o, sizeof o, "output of tool %d, %.*s", i, 3 * i, "abcdefghijkl"); vfs_set_command(c, o, strlen(o)); }
  uint64_t b0 = sim_live_blocks(); nth = 2 + (int)ch(ST_CFG, 3); uint32_t focus = ch(ST_CFG, 3) ? NOP : ch(ST_CFG, NOP); int before = (int)ch(ST_CFG, 2);
  for (int i = 0; i < nth; i++) { cnt[i] = 1 + (int)ch(ST_OP, nth == 2 ? 6 : 4); for (int k = 0; k < cnt[i]; k++) { P[i][k].op = (int)(focus < NOP && ch(ST_OP, 4) ? focus : ch(ST_OP, NOP)); if (P[i][k].op == 21 && focus != 21) P[i][k].op = 19; if (P[i][k].op == 19 && focus == 21) P[i][k].op = 21; P[i][k].a = ch(ST_OP, 1u << 24); P[i][k].b = ch(ST_OP, 1u << 24); } }
  if (before) alone(); size_t mark = 0; vfs_cap_data(1, &mark);
  thr_enable(); thr_set_budget(3000000); int t[NT]; for (int i = 1; i < nth; i++) t[i] = thr_spawn(worker, (void *)(intptr_t)i); worker(0); for (int i = 1; i < nth; i++) thr_join_h(t[i]); thr_running_points = 0;
  size_t end = 0; const uint8_t *cap = vfs_cap_data(1, &end); uint8_t *txt = malloc(end - mark + 1); memcpy(txt, cap + mark, end - mark); size_t ntxt = end - mark;
  if (!before) alone();
  for (int i = 0; i < nth; i++) for (int k = 0; k < cnt[i]; k++) { CHECK(R[0][i][k] == R[1][i][k], "result-differs", "step %d of thread %d (%s) gave another result than when the thread runs alone", k, i, opn[P[i][k].op]); sim_feature(sim_mix((uint64_t)P[i][k].op, R[0][i][k] & 15)); }
  for (int i = 0; i < nth; i++) { size_t n = 0; for (size_t k = 0; k < ntxt; k++) if (txt[k] >= 'a' + 6 * i && txt[k] < 'a' + 6 * i + 6) { CHECK(n < nshown[0][i] && shown[0][i][n] == (char)txt[k], "output-differs", "what thread %d printed reached the output changed", i); n++; } CHECK(n == nshown[0][i], "output-differs", "%zu of %zu characters thread %d printed reached the output", n, nshown[0][i], i); }
  free(txt); if (overlapped) { sim_nontrivial(); sim_probe("operations overlapped"); } no_leaks(b0, "the threads");
}
