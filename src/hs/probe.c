// bytes currently allocated through malloc
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
__attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes(void);
uint64_t allocated_now(void) { if (__sanitizer_get_current_allocated_bytes) return __sanitizer_get_current_allocated_bytes(); struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
