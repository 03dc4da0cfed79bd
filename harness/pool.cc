// Worker pool: the public operations of Worker, BlockingCounter and WorkersPool (thread-modular proof).
#include <new>
#include "internal/multi_thread_gemm.h"
#include "v.h"
using namespace gemmlowp;
extern "C" { void g_run(void* t, void* a); void g_gone(void* t); }
struct VT : Task {
  int pad[5];
  ~VT() override { g_gone(this); }
  void Run() override { g_run(this, local_allocator); }
};
typedef Worker::State S;
extern "C" {
void wk_ctor(void* m, BlockingCounter* c) { new (m) Worker(c); }
void wk_thread(void* w) { Worker::ThreadFunc(w); }
void wk_start(Worker* w, VT* t) { w->StartWork(t); }
void wk_dtor(Worker* w) { w->~Worker(); }
void bc_ctor(void* m) { new (m) BlockingCounter(); }
void bc_reset(BlockingCounter* c, std::size_t n) { c->Reset(n); }
bool bc_dec(BlockingCounter* c) { return c->DecrementCount(); }
void bc_wait(BlockingCounter* c) { c->Wait(); }
void wp_ctor(void* m) { new (m) WorkersPool(); }
void wp_exec(WorkersPool* p, int n, VT* t) { p->Execute(n, t); }
void wp_vec(WorkersPool* p, const std::vector<Task*>* t) { p->Execute(*t); }
void wp_dtor(WorkersPool* p) { p->~WorkersPool(); }
void vt_new(void* m) { new (m) VT; }
int k_startup() { return (int)S::ThreadStartup; }
int k_ready() { return (int)S::Ready; }
int k_work() { return (int)S::HasWork; }
int k_exit() { return (int)S::ExitAsSoonAsPossible; }
std::size_t k_worker() { return sizeof(Worker); }
std::size_t k_pool() { return sizeof(WorkersPool); }
std::size_t k_task() { return sizeof(VT); }
std::size_t k_counter() { return sizeof(BlockingCounter); }
}
