// Linked (with --wrap) into the builds with AddressSanitizer: makes the memory of Pools visible to it.
// Everything above the top of a segment is free by the specification of Pool (Arena.tla), and a gap is
// left behind every block.
#include <sanitizer/asan_interface.h>
#include <cstddef>
#include <cstdint>
struct Top { char *base, *top; };
static Top tab[1<<16];       // start of a segment -> highest byte ever handed out (allocates nothing itself)
static char** topOf(char* b) {
   std::size_t h = (std::uintptr_t)b * 0x9E3779B97F4A7C15ull >> 48;
   for(int i=0;i<64;i++,h=(h+1) & 0xffff) if (!tab[h].base || tab[h].base==b) { tab[h].base = b; return &tab[h].top; }
   return nullptr;
}
extern "C" { void* verif_last_block = nullptr; }
extern "C" void* __real__ZN4Pool8allocateEm(void*,std::size_t) __attribute__((weak));
extern "C" void* __wrap__ZN4Pool8allocateEm(void* pool,std::size_t sz) {
   char* p = (char*)__real__ZN4Pool8allocateEm(pool,sz + 16);
   verif_last_block = p;
   char nm[8]; void* base = nullptr; std::size_t len = 0;
   __asan_locate_address(p,nm,sizeof nm,&base,&len);
   if (!base || len == 0 || p + sz + 16 > (char*)base + len) return p;
   char *b = (char*)base, *end = b + len;
   char** slot = topOf(b);
   if (!slot) return p;
   char*& top = *slot;
   if (p == b && !__asan_address_is_poisoned(end - 1)) { __asan_poison_memory_region(b,len); top = b; }   // a new segment
   if (top < b || top > end) top = b;
   if (p < top) __asan_poison_memory_region(p,top - p);
   __asan_unpoison_memory_region(p,sz);
   __asan_poison_memory_region(p + sz,16);
   if (p + sz + 16 > top) top = p + sz + 16;
   return p;
}
