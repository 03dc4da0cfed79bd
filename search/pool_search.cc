// Seeded search over sequences of WorkersPool::Execute calls.  usage: pool_search PROP seed seconds
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <memory>
#include <set>
#include <vector>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <atomic>
// The environment may wake a waiter spuriously and may preempt a thread before it takes a lock.
static std::atomic<unsigned> env_n(0), env_on(0);
static unsigned env_rnd() { unsigned x = env_n++ * 2654435761u; x ^= x >> 15; x *= 2246822519u; return x ^ x >> 13; }
static int env_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (env_on && env_rnd() % 4 == 0) { pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0; }
  return pthread_cond_wait(c, m);
}
static int env_lock(pthread_mutex_t* m) {
  if (env_on && env_rnd() % 16 == 0) usleep(env_rnd() % 4 ? 50 : 3000);
  return pthread_mutex_lock(m);
}
#define pthread_cond_wait env_wait
#define pthread_mutex_lock env_lock
#include "internal/multi_thread_gemm.h"
using namespace gemmlowp;
static std::uint64_t rs;
static std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
static int rnd(int lo, int hi) { return lo + (int)(rnd() % (std::uint64_t)(hi - lo + 1)); }
static char desc[300];
static void fail(const char* w) { printf("FAIL %s\nCASE %s\n", w, desc); fflush(stdout); _exit(3); }
static void onsig(int s) { fail(s == SIGABRT ? "library assertion" : s == SIGALRM ? "the pool does not return" : "fault"); }
struct Rec { int runs, gone; Allocator* al; int sum; };
struct VT : Task {
  Rec* r; int spin, bytes;
  ~VT() override { if (r) r->gone++; }
  void Run() override {
    r->runs++; r->al = local_allocator;
    Allocator::Handle h = local_allocator->Reserve<std::uint8_t>(bytes);
    local_allocator->Commit();
    std::uint8_t* p = local_allocator->GetPointer<std::uint8_t>(h);
    memset(p, bytes & 255, bytes);
    for (volatile int i = 0; i < spin; i++) {}
    int s = 0; for (int i = 0; i < bytes; i++) s += p[i];
    r->sum = s;
    local_allocator->Decommit();
  }
};
int main(int, char** av) {
  rs = strtoull(av[2], 0, 10) * 0x9E3779B97F4A7C15ull + 99; int secs = atoi(av[3]);
  for (int i = 0; i < 10; i++) rnd();
  signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig);
  time_t t0 = time(0); long cases = 0;
  while (time(0) - t0 < secs) {
    std::unique_ptr<WorkersPool> pool(new WorkersPool);
    int calls = rnd(1, 30);
    env_on = rnd(0, 1);
    for (int c = 0; c < calls && time(0) - t0 < secs; c++) {
      int n = rnd(0, 3) ? rnd(1, 4) : rnd(1, 9); bool own = rnd(0, 1);
      snprintf(desc, sizeof desc, "case %ld: call %d of a pool, %d tasks%s", cases, c, n, own ? " owned by the pool" : "");
      std::vector<Rec> rec(n); memset(&rec[0], 0, n * sizeof(Rec));
      static std::vector<VT> arr(9); /* reused: what an earlier call left in a task must not matter */ std::vector<Task*> v;
      std::vector<int> by(n);
      for (int i = 0; i < n; i++) {
        VT* t = own ? new VT : &arr[i];
        t->r = &rec[i]; t->spin = rnd(0, 4) ? rnd(0, 300) : rnd(0, 30000); t->bytes = by[i] = rnd(1, 5000);
        v.push_back(t);
      }
      for (int i = 0; i < n && !own; i++) std::swap(arr[i].local_allocator, arr[rnd(0, n - 1)].local_allocator);
      if (env_on && rnd(0, 7) == 0) usleep(rnd(0, 3) ? 2500 : 6000);   // let workers fall asleep, or nearly
      alarm(20);
      if (own) pool->Execute(v); else pool->Execute(n, &arr[0]);
      alarm(0);
      std::set<Allocator*> als;
      for (int i = 0; i < n; i++) {
        if (rec[i].runs != 1) fail(rec[i].runs ? "a task was run more than once" : "the call returned before a task was run");
        if (rec[i].sum != by[i] * (by[i] & 255)) fail("a task's scratch memory was disturbed");
        if (!als.insert(rec[i].al).second) fail("two tasks used the same scratch allocator");
        if (own && rec[i].gone != 1) fail("a task was not destroyed exactly once");
      }
      for (auto& t : arr) t.r = 0;
      cases++;
    }
    alarm(20); pool.reset(); alarm(0);
  }
  printf("NOFAIL %ld calls\n", cases);
  return 0;
}
