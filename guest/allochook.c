/* Linked into the checked build of the compiler only (--wrap): lets the shim fail allocations and
   shrink the memory arena. Without the shim loaded it passes everything through. */
#include <errno.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
int (*dst_alloc_hook)(size_t) = 0;
size_t (*dst_arena_hook)(size_t) = 0;
void (*dst_fill_hook)(void*, size_t) = 0;
size_t (*dst_pad_hook)(size_t align) = 0;  /* room left free behind a block, the same for every run of one job */
#define BAD(n) (dst_alloc_hook && !dst_alloc_hook(n))
#define FAIL do { errno = ENOMEM; return 0; } while(0)
#define PAD(a) (dst_pad_hook ? dst_pad_hook(a) : 0)
static inline void* fresh(void* p, size_t n) { if(p && dst_fill_hook) dst_fill_hook(p, n); return p; }
#define W1(f) void* __real_##f(size_t n); void* __wrap_##f(size_t n) { if(BAD(n)) FAIL; return __real_##f(n); }
#define F1(f) void* __real_##f(size_t n); void* __wrap_##f(size_t n) { if(BAD(n)) FAIL; n += PAD(16); return fresh(__real_##f(n), n); }
#define F2(f, k, al) void* __real_##f(size_t a, size_t n); void* __wrap_##f(size_t a, size_t n) { if(BAD(k)) FAIL; k += PAD(al); return fresh(__real_##f(a, n), k); }
#define W2(f) void* __real_##f(size_t a, size_t n); void* __wrap_##f(size_t a, size_t n) { if(BAD(n)) FAIL; return __real_##f(a, n); }
F1(mi_malloc) W1(mi_zalloc) F1(mi_new_nothrow)
W2(mi_calloc) F2(mi_aligned_alloc, n, a) F2(mi_malloc_aligned, a, n) F2(mi_new_aligned_nothrow, a, n)
/* these two never return null: compiled as C, mimalloc ends the process */
void* __real_mi_new(size_t n); void* __wrap_mi_new(size_t n) { if(BAD(n)) abort(); n += PAD(16); return fresh(__real_mi_new(n), n); }
void* __real_mi_new_aligned(size_t n, size_t a); void* __wrap_mi_new_aligned(size_t n, size_t a) { if(BAD(n)) abort(); n += PAD(a); return fresh(__real_mi_new_aligned(n, a), n); }
void* __real_mi_realloc(void* p, size_t n);
void* __wrap_mi_realloc(void* p, size_t n) { if(BAD(n)) FAIL; return __real_mi_realloc(p, n); }
void* __real_mi_heap_malloc(void* h, size_t n);
void* __wrap_mi_heap_malloc(void* h, size_t n) { if(BAD(n)) FAIL; n += PAD(16); return fresh(__real_mi_heap_malloc(h, n), n); }
void* __real_mi_heap_malloc_aligned(void* h, size_t n, size_t a);
void* __wrap_mi_heap_malloc_aligned(void* h, size_t n, size_t a) { if(BAD(n)) FAIL; n += PAD(a); return fresh(__real_mi_heap_malloc_aligned(h, n, a), n); }
bool __real_mi_manage_os_memory_ex(void* s, size_t n, bool c, bool l, bool z, int numa, bool ex, int* id);
bool __wrap_mi_manage_os_memory_ex(void* s, size_t n, bool c, bool l, bool z, int numa, bool ex, int* id) {
    return __real_mi_manage_os_memory_ex(s, dst_arena_hook ? dst_arena_hook(n) : n, c, l, z, numa, ex, id);
}
/* what a freed block holds is up to the allocator */
size_t mi_usable_size(const void* p);
void __real_mi_free(void* p);
void __wrap_mi_free(void* p) {
    if(p && dst_fill_hook) { size_t n = mi_usable_size(p); dst_fill_hook(p, n < 65536 ? n : 65536); }
    __real_mi_free(p);
}
