//===- pbt_free.cpp - the interface of pbt_sched without a scheduler ------===//
// The threads run freely, for builds with the thread sanitizer: which data are
// shared without synchronisation does not depend on the schedule very much.
// Detached threads are waited for as well.
#include "pbt_sched.h"
#include <algorithm>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <thread>
namespace {
std::mutex M;
std::vector<pthread_t> Detached;
bool On = false;
} // namespace
namespace sched {
void run(pbt::Gen &, const std::function<void()> &F) {
  On = true;
  F();
  for (;;) {
    pthread_t P;
    {
      std::lock_guard<std::mutex> L(M);
      if (Detached.empty()) break;
      P = Detached.back();
      Detached.pop_back();
    }
    pthread_join(P, nullptr);
  }
  On = false;
}
void point() {
  static thread_local unsigned N = 0;
  if (++N % 3 == 0) std::this_thread::yield();
}
unsigned preemptions() { return 4; }
unsigned threads() { return 0; }
Quiet::Quiet() {}
Quiet::~Quiet() {}
} // namespace sched
extern "C" int pthread_detach(pthread_t P) __THROW {
  static auto R = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  if (!On) return R(P);
  std::lock_guard<std::mutex> L(M);
  Detached.push_back(P);
  return 0;
}
