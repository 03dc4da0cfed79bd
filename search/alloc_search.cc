// Seeded search over Reserve/Commit/Decommit histories of the real Allocator.  usage: alloc_search PROP seed seconds
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cassert>
#include <ctime>
#include <csignal>
#include <map>
#include <vector>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
static char desc[500];
static void fail(const char* w) { printf("FAIL %s\nCASE %s\n", w, desc); fflush(stdout); _exit(3); }
static std::map<void*, std::size_t> live;
enum { G = 4096 };
extern "C" { int __real_posix_memalign(void**, std::size_t, std::size_t); void __real_free(void*); }
static const std::size_t kBig = 1u << 28;               // more than this is only address space, never touched
static void* reg(std::size_t al, std::size_t n) {     // storage followed by a guard zone
  if (n > kBig) {
    void* q = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED) { printf("NOFAIL no address space\n"); fflush(stdout); _exit(0); }
    live[q] = n; return q;
  }
  void* p = 0; if (__real_posix_memalign(&p, al < 16 ? 16 : al, n + G)) return 0;
  memset(p, 0xcc, n); memset((char*)p + n, 0x5a, G); live[p] = n; return p;
}
static void guard() { for (auto& e : live) if (e.second <= kBig) for (int i = 0; i < G; i++) if (((unsigned char*)e.first)[e.second + i] != 0x5a) fail("a block reaches past the storage"); }
static bool committed;
extern "C" {
int __wrap_posix_memalign(void** p, std::size_t al, std::size_t n) { *p = reg(al, n); return *p ? 0 : 12; }
void* __wrap_aligned_alloc(std::size_t al, std::size_t n) { return reg(al, n); }
void* __wrap_memalign(std::size_t al, std::size_t n) { return reg(al, n); }
void* __wrap_malloc(std::size_t n) { return reg(16, n); }
void __wrap_free(void* p) { if (!p) return; guard(); if (committed) fail("storage freed while committed"); std::size_t n = live.count(p) ? live[p] : 0; live.erase(p); if (n > kBig) munmap(p, n); else __real_free(p); }
}
#include "internal/allocator.h"
using namespace gemmlowp;
static std::uint64_t rs;
static std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
static int rnd(int lo, int hi) { return lo + (int)(rnd() % (std::uint64_t)(hi - lo + 1)); }
static void onsig(int s) { fail(s == SIGABRT ? "library assertion" : "fault"); }
template <typename T> static unsigned char* ptr(Allocator* a, const Allocator::Handle& h) { return reinterpret_cast<unsigned char*>(a->GetPointer<T>(h)); }
int main(int, char** av) {
  rs = strtoull(av[2], 0, 10) * 0x9E3779B97F4A7C15ull + 99; int secs = atoi(av[3]);
  for (int i = 0; i < 10; i++) rnd();
  signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGBUS, onsig);
  time_t t0 = time(0); long cases = 0;
  while (time(0) - t0 < secs) {
    {
      Allocator a; int cycles = rnd(1, 8); const bool big = sizeof(void*) == 8 && cases % 50 == 7; int o = snprintf(desc, sizeof desc, "history %ld:", cases);
      for (int c = 0; c < cycles; c++) {
        int nb = rnd(0, 5), ty[5]; std::size_t n[5]; Allocator::Handle h[5]; unsigned char* p[5];
        for (int i = 0; i < nb; i++) {
          int k = rnd(0, 9); n[i] = k == 0 ? 0 : k < 4 ? rnd(1, 80) : k < 7 ? (1u << rnd(4, 15)) + rnd(-1, 1) : k < 9 ? 64 * rnd(1, 300) : rnd(1, 100000); ty[i] = rnd(0, 2);
          if (big && rnd(0, 1)) n[i] = ((std::size_t)1 << rnd(26, 32)) + rnd(-70, 70);
          if (o < 440) o += snprintf(desc + o, sizeof desc - o, " %s%zu", i ? "" : "| ", n[i]);
          h[i] = ty[i] == 0 ? a.Reserve<std::uint8_t>(n[i]) : ty[i] == 1 ? a.Reserve<std::int32_t>(n[i]) : a.Reserve<std::int16_t>(n[i]);
          n[i] <<= ty[i] == 0 ? 0 : ty[i] == 1 ? 2 : 1;
        }
        a.Commit(); committed = true;
        for (int i = 0; i < nb; i++) {
          p[i] = ty[i] == 0 ? ptr<std::uint8_t>(&a, h[i]) : ty[i] == 1 ? ptr<std::int32_t>(&a, h[i]) : ptr<std::int16_t>(&a, h[i]);
          if (n[i] && reinterpret_cast<std::uintptr_t>(p[i]) % kDefaultCacheLineSize) fail("block is not aligned to a cache line");
          bool in = !n[i];
          for (auto& e : live) if (p[i] >= (unsigned char*)e.first && p[i] + n[i] <= (unsigned char*)e.first + e.second) in = true;
          if (!in) fail("block is not inside live storage");
        }
        for (int i = 0; i < nb; i++) for (int j = 0; j < i; j++) if (n[i] && n[j] && p[i] < p[j] + n[j] && p[j] < p[i] + n[i]) fail("blocks overlap");
        if (!big) for (int i = 0; i < nb; i++) if (n[i]) memset(p[i], 17 * i + 3, n[i]);
        if (!big) for (int i = 0; i < nb; i++) for (std::size_t j = 0; j < n[i]; j++) if (p[i][j] != 17 * i + 3) fail("blocks overlap");
        guard(); committed = false;
        a.Decommit();
      }
    }
    if (!live.empty()) fail("storage leaked");
    cases++;
  }
  printf("NOFAIL %ld histories\n", cases);
  return 0;
}
