#pragma once
// Exact accounting of everything allocated by new.
#include <malloc.h>
#include <atomic>
#include <cstdlib>
#include <new>
static std::atomic<int64_t> g_live{0}, g_peak{0};
static void* counted(size_t n) { void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); const int64_t v = g_live += malloc_usable_size(p); int64_t m = g_peak.load(std::memory_order_relaxed); while(v > m && !g_peak.compare_exchange_weak(m, v)) {} return p; }
static void uncounted(void* p) { if(p) { g_live -= malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, size_t) noexcept { uncounted(p); }
void operator delete[](void* p, size_t) noexcept { uncounted(p); }
