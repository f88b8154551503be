// Accounts for the memory blocks the library allocates on behalf of one problem object: blocks allocated while Tag(slot) is in
// scope count for that slot until they are freed.
#pragma once
#include <cstddef>
#include <cstdint>
namespace leak {
static const unsigned CAP = 1u << 20; struct Ent { uintptr_t p; int tag; };
static Ent tab[CAP]; static long live[16]; static int cur = 0;
static inline unsigned hsh(uintptr_t p) { return (unsigned)((p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (CAP - 1); }
static void onMalloc(const volatile void* q, size_t) { if (!cur || !q) return; uintptr_t p = (uintptr_t)q; unsigned i = hsh(p); for (unsigned k = 0; k < CAP; ++k, i = (i + 1) & (CAP - 1)) if (tab[i].p <= 1 || tab[i].p == p) { tab[i].p = p; tab[i].tag = cur; ++live[cur]; return; } }
static void onFree(const volatile void* q) { if (!q) return; uintptr_t p = (uintptr_t)q; unsigned i = hsh(p); for (unsigned k = 0; k < CAP && tab[i].p; ++k, i = (i + 1) & (CAP - 1)) if (tab[i].p == p) { --live[tab[i].tag]; tab[i].p = 1; return; } }
struct Tag { int old; explicit Tag(int t) : old(cur) { cur = t; } ~Tag() { cur = old; } };
} // namespace leak
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static inline void leakInstall() { __sanitizer_install_malloc_and_free_hooks(leak::onMalloc, leak::onFree); }
#else
static inline void leakInstall() {}
#endif
