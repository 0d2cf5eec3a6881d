#pragma once
// Rounding may depend on the alignment of heap memory (vectorised loops): all of it is aligned the same way.
#include <malloc.h>
#include <cstring>
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
extern "C" { void *__libc_memalign(size_t, size_t); void __libc_free(void *);
void *malloc(size_t n) { return __libc_memalign(64, n); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = __libc_memalign(64, n); if (p) memset(p, 0, n); return p; }
void *realloc(void *p, size_t n) { if (!p) return __libc_memalign(64, n); if (!n) { __libc_free(p); return nullptr; } void *q = __libc_memalign(64, n); if (q) { size_t k = malloc_usable_size(p); memcpy(q, p, k < n ? k : n); __libc_free(p); } return q; } }
#endif
