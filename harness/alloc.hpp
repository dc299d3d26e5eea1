// Allocation monitor.  In the VAR_FI build every allocation the library makes while ARMed is counted, can be made to fail,
// is filled with a chosen poison, and is entered in a ledger so that leaks and double frees are seen.
#pragma once
static long cpu_limit = 20; static bool tier_thorough = false;
#ifdef VAR_MSAN
#define HEAP_DIRTY(p, n) do { if (p) __msan_poison(p, n); } while (0)
#define HEAP_CLEAN(p, n) do { if (p) __msan_unpoison(p, n); } while (0)
#else
#define HEAP_DIRTY(p, n) do {} while (0)
#define HEAP_CLEAN(p, n) do {} while (0)
#endif
#ifdef VAR_FI
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); }
namespace fi {
static bool armed = false; static long count = 0, fail_from = -1, fail_to = -1, failed = 0, live = 0, bytes = 0; static int poison = -1; static long unknown_free = 0;
// The ledger: an open-addressing table that doubles when half of it is in use (a deque of ten million values is 160000 blocks).
static const size_t CAP0 = 1 << 16; static void* tab0[CAP0]; static void** tab = tab0; static size_t cap = CAP0, used = 0;
static size_t slot(void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 32) & (cap - 1); }
static void enter(void* p) { size_t h = slot(p); while (tab[h] && tab[h] != (void*)1) h = (h + 1) & (cap - 1); if (!tab[h]) ++used; tab[h] = p; }
static void put(void* p) {
    if (!p) return;
    if (2 * (used + 1) > cap) {
        void** old = tab; size_t n = cap; cap *= 2; used = 0; tab = (void**)__real_calloc(cap, sizeof(void*)); HEAP_CLEAN(tab, cap * sizeof(void*)); if (!tab) abort();
        for (size_t i = 0; i < n; ++i) if (old[i] && old[i] != (void*)1) enter(old[i]);
        if (old != tab0) __real_free(old);
    }
    enter(p); ++live;
}
static bool take(void* p) { size_t h = slot(p); for (size_t g = 0; g < cap && tab[h]; ++g, h = (h + 1) & (cap - 1)) if (tab[h] == p) { tab[h] = (void*)1; --live; return true; } return false; }
static void reset() { if (tab != tab0) { __real_free(tab); tab = tab0; cap = CAP0; } memset(tab, 0, CAP0 * sizeof(void*)); live = 0; used = 0; }
static bool deny() { ++count; if (fail_from >= 0 && count >= fail_from && count <= fail_to) { ++failed; return true; } return false; }
static void* alloc(size_t n, bool zero) {
    if (!armed) { void* p = zero ? __real_calloc(1, n) : __real_malloc(n); HEAP_CLEAN(p, n); return p; }
    if (n > (1u << 28) || deny()) { errno = ENOMEM; return nullptr; }
    void* p = zero ? __real_calloc(1, n) : __real_malloc(n); bytes += n;
    if (p && !zero && poison >= 0) memset(p, poison, n);
    if (!zero) HEAP_DIRTY(p, n); else HEAP_CLEAN(p, n);
    put(p); return p;
}
}
extern "C" {
void* __wrap_malloc(size_t n) { return fi::alloc(n, false); }
void* __wrap_calloc(size_t a, size_t b) { return b && a > SIZE_MAX / b ? nullptr : fi::alloc(a * b, true); }
void __wrap_free(void* p) { if (p && fi::armed && !fi::take(p)) ++fi::unknown_free; else if (p && !fi::armed) fi::take(p); __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!fi::armed) { void* q = __real_realloc(p, n); HEAP_CLEAN(q, n); return q; }
    if (n > (1u << 28) || fi::deny()) return nullptr;
    if (p && !fi::take(p)) ++fi::unknown_free;
    void* q = __real_realloc(p, n); fi::put(q ? q : p); return q;
}
void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_aligned_alloc(size_t a, size_t n) { if (!fi::armed) return __real_aligned_alloc(a, n); if (fi::deny()) return nullptr; void* p = __real_aligned_alloc(a, n); if (p && fi::poison >= 0) memset(p, fi::poison, n); fi::put(p); return p; }
int __wrap_posix_memalign(void** q, size_t a, size_t n) { if (!fi::armed) return __real_posix_memalign(q, a, n); if (fi::deny()) return ENOMEM; int e = __real_posix_memalign(q, a, n); if (!e) { if (fi::poison >= 0) memset(*q, fi::poison, n); fi::put(*q); } return e; }
}
#ifdef VAR_MSAN
// the sanitizer's runtime already defines the operators: its callers are diverted by the linker instead
extern "C" {
void* __wrap__Znwm(size_t n) { void* p = fi::alloc(n ? n : 1, false); if (!p) throw std::bad_alloc(); return p; }
void* __wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return fi::alloc(n ? n : 1, false); }
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return fi::alloc(n ? n : 1, false); }
void __wrap__ZdlPv(void* p) { __wrap_free(p); }
void __wrap__ZdaPv(void* p) { __wrap_free(p); }
void __wrap__ZdlPvm(void* p, size_t) { __wrap_free(p); }
void __wrap__ZdaPvm(void* p, size_t) { __wrap_free(p); }
// tree and list links are written by libstdc++'s own, uninstrumented code
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) {
    __msan_unpoison(x, 32); __msan_unpoison(h, 32); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void*, void*);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* x, void* p) { __msan_unpoison(x, 16); __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(x, p); }
}
#else
void* operator new(size_t n) { void* p = fi::alloc(n ? n : 1, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = fi::alloc(n ? n : 1, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fi::alloc(n ? n : 1, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fi::alloc(n ? n : 1, false); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
#endif
static void* own_malloc(size_t n) { void* p = __real_malloc(n); HEAP_CLEAN(p, n); return p; }
static void own_free(void* p) { __real_free(p); }
static unsigned char stack_fill = 0; static bool stack_poison = false;
__attribute__((noinline)) static void dirty_stack() { volatile unsigned char b[96 * 1024]; for (size_t i = 0; i < sizeof b; ++i) b[i] = stack_fill; }
#define ARM() do { if (stack_poison) dirty_stack(); fi::armed = true; } while (0)
#define DISARM() do { fi::armed = false; } while (0)
#else
static void* own_malloc(size_t n) { return malloc(n); }
static void own_free(void* p) { free(p); }
#define ARM() do {} while (0)
#define DISARM() do {} while (0)
#endif
