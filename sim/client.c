// Client code that is compiled into one unit with the library, as users of a single-header library do: the compiler may inline the operations into it.
// Appended to the library's unit in the single-step variants; each function is one possible use, the simulator interleaves them between instructions.
#ifdef __cplusplus
extern "C" {
#endif
int zc_data, zc_sum; zpl_atomic32 zc_w32, zc_l32; zpl_atomic64 zc_w64, zc_l64; zpl_atomic_ptr zc_w_ptr, zc_l_ptr;
#define ZC_N(x) (x)
#define ZC_P(x) ((void *)(zpl_intptr)(x))
#define ZC_D(x) ((int)(zpl_intptr)(x))
// the word starts as 3 and every handing-over operation changes it
#define ZC(s, A) \
  void zc_put_store_##s(int v) { zc_data = v; zpl_atomic##s##_store(&zc_w##s, A(1)); zc_data = v + 1; } \
  void zc_put_xchg_##s(int v) { zc_data = v; zpl_atomic##s##_exchange(&zc_w##s, A(1)); zc_data = v + 1; } \
  void zc_put_cas_##s(int v) { zc_data = v; zpl_atomic##s##_compare_exchange(&zc_w##s, A(3), A(1)); zc_data = v + 1; } \
  void zc_put_add_##s(int v) { zc_data = v; zpl_atomic##s##_fetch_add(&zc_w##s, A(-2)); zc_data = v + 1; } \
  void zc_put_and_##s(int v) { zc_data = v; zpl_atomic##s##_fetch_and(&zc_w##s, A(1)); zc_data = v + 1; } \
  void zc_put_or_##s(int v) { zc_data = v; zpl_atomic##s##_fetch_or(&zc_w##s, A(4)); zc_data = v + 1; } \
  int zc_get_load_##s(int *o) { int b = zc_data; if (ZC_D(zpl_atomic##s##_load(&zc_w##s)) == 3) return 0; o[1] = zc_data; o[0] = b; return 1; } \
  int zc_get_cas_##s(int *o) { int b = zc_data; if (ZC_D(zpl_atomic##s##_compare_exchange(&zc_w##s, A(3), A(3))) == 3) return 0; o[1] = zc_data; o[0] = b; return 1; } \
  int zc_get_add_##s(int *o) { int b = zc_data; if (ZC_D(zpl_atomic##s##_fetch_add(&zc_w##s, A(0))) == 3) return 0; o[1] = zc_data; o[0] = b; return 1; } \
  int zc_get_and_##s(int *o) { int b = zc_data; if (ZC_D(zpl_atomic##s##_fetch_and(&zc_w##s, A(-1))) == 3) return 0; o[1] = zc_data; o[0] = b; return 1; } \
  int zc_get_or_##s(int *o) { int b = zc_data; if (ZC_D(zpl_atomic##s##_fetch_or(&zc_w##s, A(0))) == 3) return 0; o[1] = zc_data; o[0] = b; return 1; } \
  int zc_lock_##s(int time_out, int *seen) { int b = zc_sum; if (!zpl_atomic##s##_spin_lock(&zc_l##s, time_out)) return 0; zc_sum = zc_sum + 1; *seen = b; zpl_atomic##s##_spin_unlock(&zc_l##s); return 1; } \
  int zc_try_##s(int time_out, int *seen) { int b = zc_sum; if (!zpl_atomic##s##_try_acquire_lock(&zc_l##s)) return 0; zc_sum = zc_sum + 1; *seen = b; zpl_atomic##s##_spin_unlock(&zc_l##s); return 1; }
ZC(32, ZC_N) ZC(64, ZC_N) ZC(_ptr, ZC_P)
#define ZC_PUTS(s) {zc_put_store_##s, zc_put_xchg_##s, zc_put_cas_##s, zc_put_add_##s, zc_put_and_##s, zc_put_or_##s}
#define ZC_GETS(s) {zc_get_load_##s, zc_get_cas_##s, zc_get_add_##s, zc_get_and_##s, zc_get_or_##s}
void (*zc_put[3][6])(int) = {ZC_PUTS(32), ZC_PUTS(64), ZC_PUTS(_ptr)};
int (*zc_get[3][5])(int *) = {ZC_GETS(32), ZC_GETS(64), ZC_GETS(_ptr)};
int (*zc_lock[3][2])(int, int *) = {{zc_lock_32, zc_try_32}, {zc_lock_64, zc_try_64}, {zc_lock__ptr, zc_try__ptr}};
void zc_reset(void) { zc_data = zc_sum = 0; zpl_atomic32_store(&zc_w32, 3); zpl_atomic64_store(&zc_w64, 3); zpl_atomic_ptr_store(&zc_w_ptr, ZC_P(3)); zpl_atomic32_store(&zc_l32, 0); zpl_atomic64_store(&zc_l64, 0); zpl_atomic_ptr_store(&zc_l_ptr, ZC_P(0)); }
#ifdef __cplusplus
}
#endif
