// variants: A
#include "common.h"
// Everything that is handed an allocator is run with the process heap and two allocators of the caller's own side by side; after every step each allocator's books are compared with what the objects made from it hold.
const char *const scenario_name = "C40";
const char *const scenario_rule = "a run counts when objects of several allocators were alive at once and one of them grew, was written out or was refused memory, and its trace differs from every other run";
typedef struct { int id; int64_t live; } owner; static owner OWN[3] = {{0, 0}, {1, 0}, {2, 0}};
typedef struct { uint64_t magic; owner *o; int64_t size; char *raw; } hdr;
static ZPL_ALLOCATOR_PROC(keep_proc) {
  owner *o = (owner *)allocator_data; CHECK(o == &OWN[1] || o == &OWN[2], "foreign-allocator", "an allocator was called with another one's data");
  switch (type) {
  case ZPL_ALLOCATION_ALLOC: {
    int64_t al = alignment > 16 ? alignment : 16, h = (int64_t)((sizeof(hdr) + (size_t)al - 1) / (size_t)al * (size_t)al); CHECK(size >= 0 && (alignment & (alignment - 1)) == 0, "bad-request", "an allocator was asked for %lld bytes aligned to %lld", (long long)size, (long long)alignment); if (size > (1ll << 40)) return NULL;
    char *raw = (char *)zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_ALLOC, size + h, al, NULL, 0, flags); if (!raw) return NULL; char *q = raw + h; hdr *d = (hdr *)q - 1; d->magic = 0x5eedb10cull + (uint64_t)o->id; d->o = o; d->size = size; d->raw = raw; o->live++;
    if (!(flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) memset(q, 0xD7, (size_t)size); return q; }
  case ZPL_ALLOCATION_FREE: { if (!old_memory) return NULL; hdr *d = (hdr *)old_memory - 1; CHECK(d->magic - 0x5eedb10cull < 3, "foreign-free", "an allocator was given back a block no caller's allocator gave out"); CHECK(d->o == o, "foreign-free", "a block of allocator %d was given back to allocator %d", d->o->id, o->id); d->magic = 0; o->live--; zpl_heap_allocator_proc(NULL, ZPL_ALLOCATION_FREE, 0, 0, d->raw, 0, flags); return NULL; }
  case ZPL_ALLOCATION_RESIZE: { if (!old_memory) return size ? keep_proc(o, ZPL_ALLOCATION_ALLOC, size, alignment, NULL, 0, flags) : NULL; hdr *d = (hdr *)old_memory - 1; CHECK(d->magic - 0x5eedb10cull < 3 && d->o == o, "foreign-free", "an allocator was asked to resize a block it never gave out");
    CHECK(old_size <= d->size, "bad-request", "a block of %lld bytes was resized as one of %lld", (long long)d->size, (long long)old_size); void *q = NULL; if (size) { q = keep_proc(o, ZPL_ALLOCATION_ALLOC, size, alignment, NULL, 0, flags); if (!q) return NULL; memcpy(q, old_memory, (size_t)(size < old_size ? size : old_size)); } keep_proc(o, ZPL_ALLOCATION_FREE, 0, 0, old_memory, old_size, flags); return q; }
  default: return NULL; } }
static zpl_allocator AL(int i) { zpl_allocator a; if (!i) return zpl_heap_allocator(); a.proc = keep_proc; a.data = &OWN[i]; return a; }
ZPL_TABLE(static inline, tab40, tab40_, int64_t)
ZPL_RING_DECLARE(extern, ring40_, int); ZPL_RING_DEFINE(ring40_, int);
enum { ARR, STR, BUF, RING, TAB, TREE, SHEET, LINK, OPTS, MEMF, TEXT, CONT, LINES, ARENA, POOL, STACK, KINDS };
static const char *const kname[] = {"array", "string", "buffer", "ring", "table", "JSON tree", "CSV table", "URI", "options", "memory file", "text", "file contents", "file lines", "arena", "pool", "stack"};
typedef struct { int used, kind, al; int64_t blocks; int64_t n; int64_t *arr; zpl_string s; int64_t *buf; ring40_int ring; tab40 tab; zpl_adt_node tree; char *src; zpl_opts opts; zpl_file f; char *text; zpl_file_contents c; zpl_array(char *) lines; zpl_arena arena; zpl_pool pool; zpl_stack_memory stack; } O;
#define NO 7
static O obj[NO]; static uint64_t base; static char what[200]; static int64_t bal[3];
static int64_t held(int a) { return a ? OWN[a].live : (int64_t)(sim_live_blocks() - base) - OWN[1].live - OWN[2].live; }
static void begin(void) { for (int a = 0; a < 3; a++) bal[a] = held(a); sim_faults_enable(true); }
static int64_t end(int a) { // only allocator a may have been used; gives the change of its books
  sim_faults_enable(false); for (int b = 0; b < 3; b++) if (b != a) CHECK(held(b) == bal[b], "wrong-allocator", "%s was to use %s but changed what %s holds by %lld blocks", what, a < 0 ? "no memory for long" : a ? "the caller's allocator" : "the heap", b ? "another allocator" : "the heap", (long long)(held(b) - bal[b])); return a < 0 ? 0 : held(a) - bal[a]; }
static const char *const docs[] = {"{ \"a\": 1, \"b\": [1,2,3,{\"c\": null}], \"name\": \"text\" }", "[1,2.5,\"x\",[[],[{}]]]", "a: 1, b: { c: 'd' }", "{ \"k\": {\"k\": {\"k\": {\"k\": [true,false]}}} }", "{ \"broken\": [1,2", "[1,,]"};
static const char *const sheets[] = {"a,b,c\n1,2,3\n4,\"5 \"\"q\"\"\",6\n", "x;y\n1;2\n", "one\ntwo\nthree\n", "a,b\n1,2,3,4,5,6,7,8,9,10\n"};
static const char *const links[] = {"http://h/p?a=1&b=2&c=three", "?x=%41%20&y", "origin", "o?k=v&k2=v2&k3=v3&k4=v4&k5=v5&k6=v6&k7=v7&k8=v8&k9=v9"};
static char *exact(const char *s) { size_t n = strlen(s) + 1; char *t = malloc(n); memcpy(t, s, n); return t; }
static size_t some(void) { uint32_t k = ch(ST_OP, 8); return k < 5 ? ch(ST_OP, 12) : k < 7 ? ch(ST_OP, 200) : ch(ST_OP, 3000); }
static char *letters(size_t n) { char *t = malloc(n + 1); for (size_t i = 0; i < n; i++) t[i] = "abcdefgh ,\n"[(i * 7 + n) % 11]; t[n] = 0; return t; }
static O *slot(void) { for (int i = 0; i < NO; i++) if (!obj[i].used) { memset(&obj[i], 0, sizeof(O)); return &obj[i]; } return NULL; }
static void made(O *q, int kind, int al, bool ok, int64_t d, uint32_t f0) {
  sim_ev(what, ok, d);
  if (!ok) { CHECK(sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); CHECK(d == 0, "leak:memory", "%s failed and left %lld blocks", what, (long long)d); sim_nontrivial(); sim_probe("refused memory"); return; }
  CHECK(d >= 0, "foreign-free", "%s gave back %lld blocks of somebody else's", what, (long long)-d); q->used = 1; q->kind = kind; q->al = al; q->blocks = d; sim_feature(sim_mix((uint64_t)kind * 3 + (uint64_t)al, (uint64_t)d)); }
static void adopt(zpl_string s, int al, int64_t d, uint32_t f0) { O *q = slot(); static O dummy; if (!q) { sim_ev(what, s != NULL, d); if (s) { begin(); sim_faults_enable(false); zpl_string_free(s); CHECK(end(al) == -1, "leak:memory", "%s left more than the string", what); } return; } (void)dummy; q->s = s; made(q, STR, al, s != NULL, d, f0); if (s) CHECK(d == 1, "wrong-allocator", "%s took %lld blocks", what, (long long)d); }
static void release(O *q) {
  int al = q->al; snprintf(what, sizeof what, "releasing a %s", kname[q->kind]); begin(); sim_faults_enable(false);
  switch (q->kind) {
  case ARR: zpl_array_free(q->arr); break; case STR: zpl_string_free(q->s); break; case BUF: zpl_buffer_free(q->buf); break; case RING: ring40_free(&q->ring); break; case TAB: tab40_destroy(&q->tab); break;
  case TREE: zpl_json_free(&q->tree); break; case SHEET: zpl_csv_free(&q->tree); break; case LINK: zpl_uri_free(&q->tree); break; case OPTS: zpl_opts_free(&q->opts); break; case MEMF: zpl_file_close(&q->f); break; case TEXT: zpl_free(AL(al), q->text); break;
  case CONT: zpl_file_free_contents(&q->c); break; case LINES: zpl_array_free(q->lines); zpl_free(AL(al), q->text); break; case ARENA: zpl_arena_free(&q->arena); break; case POOL: zpl_pool_free(&q->pool); break; case STACK: zpl_stack_memory_free(&q->stack); break; }
  int64_t d = end(al); sim_ev(what, al, d); CHECK(d == -q->blocks, "leak:memory", "%s gave back %lld of its %lld blocks", what, (long long)-d, (long long)q->blocks); free(q->src); q->used = 0; }
static void create(void) {
  O *q = slot(); if (!q) return; int kind = (int)ch(ST_OP, KINDS), al = (int)ch(ST_OP, 3); zpl_allocator a = AL(al); bool ok = false; uint32_t f0 = sim_fired_total(); snprintf(what, sizeof what, "making a %s with allocator %d", kname[kind], al); size_t n = some(); char *src;
  switch (kind) {
  case ARR: begin(); ok = ch(ST_OP, 2) ? zpl_array_init(q->arr, a) : zpl_array_init_reserve(q->arr, a, (zpl_isize)n); break;
  case STR: { uint32_t k = ch(ST_OP, 6); src = letters(n); const char *p[3] = {src, "+", "tail"}; char tmp[64]; begin(); q->s = k == 0 ? zpl_string_make_reserve(a, (zpl_isize)n) : k == 1 ? zpl_string_make_length(a, src, (zpl_isize)n) : k == 2 ? zpl_string_sprintf_buf(a, "%d-%s", 7, "x") : k == 3 ? zpl_string_sprintf(a, tmp, sizeof tmp, "%s|%d", "abc", 12) : k == 4 ? zpl_string_join(a, p, 3, "; ") : zpl_string_make(a, src); ok = q->s != NULL; free(src); break; }
  case BUF: begin(); zpl_buffer_init(q->buf, a, (zpl_isize)n + 1); ok = q->buf != NULL; break;
  case RING: begin(); ring40_init(&q->ring, a, (zpl_isize)n + 1); ok = q->ring.buf != NULL; break;
  case TAB: begin(); tab40_init(&q->tab, a); ok = q->tab.hashes != NULL; break;
  case TREE: { int k = (int)ch(ST_OP, 6); q->src = exact(docs[k]); begin(); zpl_u8 e = zpl_json_parse(&q->tree, q->src, a); ok = !e; if (e) { zpl_json_free(&q->tree); free(q->src); q->src = NULL; if (k >= 4) { int64_t d = end(al); sim_ev(what, -1, d); CHECK(d == 0, "leak:memory", "rejecting a document left %lld blocks", (long long)d); return; } } break; }
  case SHEET: { int k = (int)ch(ST_OP, 4); q->src = exact(sheets[k]); int head = (int)ch(ST_OP, 2); begin(); zpl_u8 e = zpl_csv_parse_delimiter(&q->tree, q->src, a, head, k == 1 ? ';' : ','); ok = !e; if (e) { zpl_csv_free(&q->tree); free(q->src); q->src = NULL; if (k == 3) { int64_t d = end(al); sim_ev(what, -1, d); CHECK(d == 0, "leak:memory", "rejecting a table left %lld blocks", (long long)d); return; } } break; }
  case LINK: { q->src = exact(links[ch(ST_OP, 4)]); int k = (int)ch(ST_OP, 4); begin(); zpl_u8 e = k ? zpl_uri_parse(&q->tree, q->src, a) : zpl_uri_init(&q->tree, q->src, a); ok = !e; if (e) { zpl_uri_free(&q->tree); free(q->src); q->src = NULL; } break; }
  case OPTS: begin(); sim_faults_enable(false); zpl_opts_init(&q->opts, a, "app"); for (size_t i = 0; i < n && i < 5; i++) { static const char *const nm[] = {"a", "b", "c", "d", "e"}, *const ln[] = {"aa", "bb", "cc", "dd", "ee"}; zpl_opts_add(&q->opts, nm[i], ln[i], "does", ZPL_OPTS_STRING); } q->n = (int64_t)(n < 5 ? n : 5); ok = true; break;
  case MEMF: { uint32_t k = ch(ST_OP, 3); uint8_t *mem = malloc(n + 1); memset(mem, 'm', n + 1); begin(); ok = k == 0 ? zpl_file_stream_new(&q->f, a) : zpl_file_stream_open(&q->f, a, mem, (zpl_isize)n + 1, k == 1 ? ZPL_FILE_STREAM_CLONE_WRITABLE : 0); if (k == 2 && ok) q->src = (char *)mem; else free(mem); q->n = k != 2; break; }
  case TEXT: { uint32_t k = ch(ST_OP, 6); src = letters(n + 1); begin(); if (k == 0) q->text = zpl_strdup(a, src, (zpl_isize)n + 2); else if (k == 1) q->text = (char *)zpl_base64_encode(a, src, (zpl_isize)n + 1); else if (k == 2) q->text = (char *)zpl_base64_decode(a, "YWJjZGVmZ2hpamts", 16); else if (k == 3) { char *out = NULL; zpl_isize r = zpl_asprintf(a, &out, "%s=%d", "key", 42); q->text = r < 0 ? NULL : out; } else if (k == 4) q->text = zpl_path_get_full_name(a, "/w/file"); else q->text = zpl_alloc_str(a, src); ok = q->text != NULL; free(src); break; }
  case CONT: begin(); q->c = zpl_file_read_contents(a, ch(ST_OP, 2), "/w/file"); ok = q->c.data != NULL; break;
  case LINES: begin(); q->text = zpl_file_read_lines(a, &q->lines, "/w/file", ch(ST_OP, 2)); ok = q->text != NULL; break;
  case ARENA: begin(); sim_faults_enable(false); zpl_arena_init_from_allocator(&q->arena, a, (zpl_isize)n + 64); ok = true; break;
  case POOL: begin(); sim_faults_enable(false); zpl_pool_init(&q->pool, a, (zpl_isize)(n % 40) + 1, 32); ok = true; break;
  case STACK: begin(); sim_faults_enable(false); zpl_stack_memory_init(&q->stack, a, (zpl_isize)n + 64); ok = true; break; }
  int64_t d = end(al); made(q, kind, al, ok, d, f0); if (ok) { bool roomy = kind == TAB || kind == LINES; CHECK(kind == OPTS || kind == TREE || kind == SHEET || kind == LINK || kind == MEMF || d == (roomy ? 2 : 1), "wrong-allocator", "%s took %lld blocks", what, (long long)d); CHECK(kind == OPTS ? d >= 1 : d >= 1 || kind == LINK || kind == TREE || kind == SHEET, "wrong-allocator", "%s took nothing from its allocator", what); }
}
static void change(O *q) {
  int al = q->al, i; size_t n = some(); snprintf(what, sizeof what, "using a %s of allocator %d", kname[q->kind], al); int64_t d; uint32_t f0 = sim_fired_total();
  switch (q->kind) {
  case ARR: { uint32_t k = ch(ST_OP, 5); int64_t v[8] = {1, 2, 3, 4, 5, 6, 7, 8}; if (k == 4) { O *o = slot(); if (!o) return; snprintf(what, sizeof what, "copying an array of allocator %d", al); begin(); bool ok = zpl_array_copy_init(o->arr, q->arr); d = end(al); made(o, ARR, al, ok, d, f0); return; }
    begin(); if (k == 0) for (i = 0; i < (int)n; i++) if (!zpl_array_append(q->arr, i)) break; else; else if (k == 1) zpl_array_appendv(q->arr, v, 8); else if (k == 2) zpl_array_appendv_at(q->arr, v, 8, (zpl_isize)n); else zpl_array_reserve(q->arr, (zpl_isize)n * 2); d = end(al); break; }
  case STR: { uint32_t k = ch(ST_OP, 7); char *t = letters(n); if (k == 6) { int b = (int)ch(ST_OP, 3); snprintf(what, sizeof what, "copying a string of allocator %d to %d", al, b); begin(); zpl_string c = zpl_string_duplicate(AL(b), q->s); d = end(b); adopt(c, b, d, f0); free(t); return; }
    begin(); zpl_string r = k == 0 ? zpl_string_append(q->s, q->s) : k == 1 ? zpl_string_append_length(q->s, t, (zpl_isize)n) : k == 2 ? zpl_string_appendc(q->s, t) : k == 3 ? zpl_string_set(q->s, t) : k == 4 ? zpl_string_make_space_for(q->s, (zpl_isize)n) : zpl_string_append_fmt(q->s, "%d/%s", 5, "six"); d = end(al); free(t);
    if (r) q->s = r; else { sim_ev(what, 0, d); CHECK(sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); CHECK(d == 0, "leak:memory", "%s was refused and changed the books by %lld", what, (long long)d); sim_nontrivial(); return; } if (zpl_string_length(q->s) > 100000) zpl_string_clear(q->s); break; }
  case BUF: { O *o = slot(); if (!o) return; snprintf(what, sizeof what, "copying a buffer of allocator %d", al); begin(); zpl_buffer_copy_init(o->buf, q->buf); d = end(al); made(o, BUF, al, o->buf != NULL, d, f0); return; }
  case RING: { for (i = 0; i < (int)(n % 9); i++) ring40_append(&q->ring, i); int b = (int)ch(ST_OP, 3); begin(); zpl_array(int) got = ring40_get_array(&q->ring, n, AL(b)); d = end(b); sim_ev(what, got != NULL, d); CHECK(got || sim_fired_total() != f0, "failed-without-cause", "taking an array out of a ring failed although nothing went wrong"); CHECK(d == (got ? 1 : 0), "wrong-allocator", "taking an array out of a ring took %lld blocks", (long long)d); if (got) { begin(); sim_faults_enable(false); zpl_array_free(got); CHECK(end(b) == -1, "leak:memory", "an array taken out of a ring was not given back"); } return; }
  case TAB: begin(); for (i = 0; i < (int)(n % 300); i++) { tab40_set(&q->tab, (zpl_u64)(i * 11), i); if (sim_fired_total() != f0) break; } if (ch(ST_OP, 2)) tab40_rehash(&q->tab, zpl_array_count(q->tab.entries) * 2 + 3); d = end(al); CHECK(d == 0, "leak:memory", "%s changed its blocks by %lld", what, (long long)d); break;
  case TREE: case SHEET: case LINK: { int b = (int)ch(ST_OP, 3); uint32_t k = ch(ST_OP, 3);
    if (k == 0 || q->kind != TREE) { snprintf(what, sizeof what, "writing a %s of allocator %d to a string of %d", kname[q->kind], al, b); begin(); zpl_string s = q->kind == TREE ? zpl_json_write_string(AL(b), &q->tree, 0) : q->kind == SHEET ? zpl_csv_write_string(AL(b), &q->tree) : zpl_uri_write_string(AL(b), &q->tree); d = end(b); sim_nontrivial(); adopt(s, b, d, f0); return; }
    zpl_adt_node *p = &q->tree; if (k == 2) for (i = 0; i < zpl_array_count(q->tree.nodes); i++) if (q->tree.nodes[i].type == ZPL_ADT_TYPE_ARRAY || q->tree.nodes[i].type == ZPL_ADT_TYPE_OBJECT) p = &q->tree.nodes[i];
    begin(); uint32_t w = ch(ST_OP, 6); zpl_adt_node *nn = w == 0 ? zpl_adt_append_obj(p, "new") : w == 1 ? zpl_adt_append_arr(p, "list") : w == 2 ? zpl_adt_append_int(p, "i", 4) : w == 3 ? zpl_adt_append_str(p, "s", "t") : w == 4 ? zpl_adt_append_flt(p, "f", 1.5) : NULL; if (w == 5 && zpl_array_count(p->nodes)) { zpl_adt_node *x = &p->nodes[n % (size_t)zpl_array_count(p->nodes)]; zpl_adt_destroy_branch(x); zpl_adt_remove_node(x); } d = end(al); sim_ev(what, nn != NULL, d);
    if (w < 5 && !nn) { CHECK(sim_fired_total() != f0, "failed-without-cause", "adding a node failed although nothing went wrong"); CHECK(d == 0, "leak:memory", "adding a node failed and changed the books by %lld", (long long)d); sim_nontrivial(); } if (w < 2 && nn) CHECK(d == 1, "wrong-allocator", "adding a branch took %lld blocks", (long long)d); if (w >= 2 && w < 5 && nn) CHECK(d == 0, "wrong-allocator", "adding a leaf took %lld blocks", (long long)d); q->blocks += d; return; }
  case OPTS: { char *av[] = {"app", "-a", "value", "--bb=second", "-c", "third", "extra"}; int ac = 1 + (int)ch(ST_OP, 7); if (q->n > 2 && ch(ST_OP, 3) == 0) { begin(); sim_faults_enable(false); static const char *const more[] = {"f", "g", "h", "i", "j", "k"}; zpl_opts_add(&q->opts, more[n % 6], NULL, "more", ZPL_OPTS_INT); d = end(al); q->blocks += d; return; } begin(); zpl_opts_compile(&q->opts, ac, av); d = end(al); q->blocks += d; sim_ev(what, ac, d); sim_nontrivial(); return; }
  case MEMF: { if (!q->n) { char x[16]; begin(); zpl_file_read(&q->f, x, 16); d = end(al); break; } char *t = letters(n + 1); begin(); zpl_b32 ok = zpl_file_write(&q->f, t, (zpl_isize)n + 1); d = end(al); free(t); CHECK(ok || sim_fired_total() != f0, "failed-without-cause", "%s failed although nothing went wrong", what); break; }
  case CONT: { zpl_file ar; sim_faults_enable(false); if (zpl_file_create(&ar, "/w2/out.tar") != ZPL_FILE_ERROR_NONE) sim_violation("setup", "cannot create the archive"); int b = (int)ch(ST_OP, 3); snprintf(what, sizeof what, "packing a directory with allocator %d", b); begin(); zpl_isize r = zpl_tar_pack_dir(&ar, "/w", AL(b)); d = end(b); sim_ev(what, r, d); CHECK(d == 0, "leak:memory", "%s left %lld blocks", what, (long long)d); zpl_file_close(&ar); return; }
  case TEXT: { int b = (int)ch(ST_OP, 3); uint32_t k = ch(ST_OP, 3); zpl_string s; if (k == 0) { snprintf(what, sizeof what, "listing a directory with allocator %d", b); begin(); s = zpl_path_dirlist(AL(b), "/w", true); d = end(b); adopt(s, b, d, f0); } else if (k == 1) { snprintf(what, sizeof what, "capturing a command with allocator %d", b); begin(); s = zpl_system_command_str("tool", AL(b)); d = end(b); adopt(s, b, d, f0); }
    else { char *t = exact("one\ntwo\n\nfour\n"); begin(); char **l = zpl_str_split_lines(AL(b), t, false); d = end(b); sim_ev("split", l != NULL, d); CHECK(l || sim_fired_total() != f0, "failed-without-cause", "splitting failed although nothing went wrong"); CHECK(d == (l ? 1 : 0), "wrong-allocator", "splitting took %lld blocks", (long long)d); if (l) { begin(); sim_faults_enable(false); zpl_array_free(l); end(b); } free(t); } return; }
  default: return; }
  sim_feature(sim_mix((uint64_t)q->kind * 97 + (uint64_t)al, sim_mix(n, (uint64_t)sim_fired_total() - f0))); sim_ev(what, al, d); CHECK(d == 0, "leak:memory", "%s changed the number of its blocks by %lld", what, (long long)d); sim_nontrivial();
}
void scenario(void) {
  sim_faults_init(FB(F_ALLOC)); sim_faults_enable(false); OWN[1].live = OWN[2].live = 0; memset(obj, 0, sizeof obj);
  char file[900]; size_t fn = ch(ST_CFG, 800) + 1; for (size_t i = 0; i < fn; i++) file[i] = i % 17 == 16 ? '\n' : (char)('a' + i % 26); vfs_write_file("/w/file", file, fn); vfs_write_file("/w/sub/two", "22", 2); vfs_mkdirs("/w2"); vfs_set_command("tool", file, fn);
  base = sim_live_blocks(); int ops = 4 + (int)ch(ST_OP, 40);
  for (int op = 0; op < ops; op++) { sim_op(); uint32_t k = ch(ST_OP, 8); int live = 0, als = 0; for (int i = 0; i < NO; i++) if (obj[i].used) { live++; als |= 1 << obj[i].al; } if (als == 7) sim_probe("three allocators in use at once");
    if (!live || k < 3) create(); else { int i = (int)ch(ST_OP, NO); while (!obj[i].used) i = (i + 1) % NO; if (k < 7) change(&obj[i]); else release(&obj[i]); }
    int64_t want[3] = {0, 0, 0}; for (int i = 0; i < NO; i++) if (obj[i].used) want[obj[i].al] += obj[i].blocks; for (int a = 0; a < 3; a++) CHECK(held(a) == want[a], "books-differ", "after %s allocator %d has %lld blocks out, its objects hold %lld", what, a, (long long)held(a), (long long)want[a]); }
  for (int i = 0; i < NO; i++) if (obj[i].used) release(&obj[i]);
  for (int a = 0; a < 3; a++) CHECK(held(a) == 0, "leak:memory", "allocator %d still has %lld blocks out after everything was released", a, (long long)held(a));
}
