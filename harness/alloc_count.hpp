// Counts live allocations; link with --wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc.
#pragma once
#include <cstddef>
#include <new>
static long live = 0;
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
void *__wrap_calloc(size_t n, size_t k) { void *p = __real_calloc(n, k); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n)
{
	void *p = __real_realloc(q, n);
	if (!q && p) live++;
	if (q && n == 0 && !p) live--;
	return p;
}
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
