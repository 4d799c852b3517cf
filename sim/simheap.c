// The heap rounds requests up: blocks get their exact end back, so that a touch of the slack is seen (ASan variant without heap statistics only).
#include "zpl.h"
#if defined(__SANITIZE_ADDRESS__) && !defined(ZPL_HEAP_ANALYSIS)
#include <sanitizer/asan_interface.h>
size_t sim_block_size(void *p);
extern ZPL_ALLOCATOR_PROC(zpl__heap_real) __attribute__((weak));
ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
  void *p = zpl__heap_real(allocator_data, type, size, alignment, old_memory, old_size, flags);
  if (p && (type == ZPL_ALLOCATION_ALLOC || type == ZPL_ALLOCATION_RESIZE) && size > 0) { size_t n = sim_block_size(p); if (n > (size_t)size && n - (size_t)size < 64) __asan_poison_memory_region((char *)p + size, n - (size_t)size); }
  return p; }
ZPL_ALLOCATOR_PROC(sim_zpl_heap_allocator_proc) { return zpl_heap_allocator_proc(allocator_data, type, size, alignment, old_memory, old_size, flags); }
#endif
