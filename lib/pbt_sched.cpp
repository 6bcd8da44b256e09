//===- pbt_sched.cpp - deterministic scheduler for real threads -----*- C++ -*-===//
// Not instrumented; the real functions are found behind the sanitizer's ones.
#include "pbt_sched.h"
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <vector>

namespace pbt {
extern long gPreempt;
extern void (*gPreemptHook)();
}
#ifdef PBT_ASAN
extern "C" void *__asan_region_is_poisoned(void *, size_t);
extern "C" void __sanitizer_print_stack_trace();
#endif

namespace {
using sched::Inside;
enum State { Ready, OnMutex, OnCond, OnJoin, Done, OnPred, Asleep };
const char *Names[] = {"ready", "waits for a mutex", "waits for a condition", "joins a thread", "is over", "waits for ", "sleeps"};
struct Thread {
  sem_t Sem;
  State St = Ready;
  pthread_mutex_t *M = nullptr;
  pthread_cond_t *C = nullptr;
  bool Timed = false, TimedOut = false, Signalled = false;
  unsigned JoinOf = 0;
  const std::function<bool()> *P = nullptr;
  const char *What = "";
  pthread_t Real{};
  void *(*Fn)(void *) = nullptr;
  void *Arg = nullptr, *Ret = nullptr;
  bool Joined = false;
  unsigned Prio = 0;
};
bool gOn = false;
pbt::Gen *G = nullptr;
std::vector<Thread *> T;
thread_local int Me = -1;
/// The scheduler itself is not preempted: functions of the library that it
/// shares with the instrumented code are.
thread_local int InSched = 0;
int gCur = 0;
std::map<pthread_mutex_t *, int> Owner; // held mutexes
std::map<const void *, int> Ids;
unsigned gSteps = 0, gPre = 0, gQuiet = 0, gMode = 0, gChanges = 0;

template <class F> F real(const char *N) {
  F R = (F)dlsym(RTLD_NEXT, N);
  if (!R) { fprintf(stderr, "no %s\n", N); _exit(99); }
  return R;
}
bool managed() { return gOn && Me >= 0; }
int id(const void *P) { return Ids.emplace(P, (int)Ids.size()).first->second; }
void say(const char *What, const void *P) {
  if (!G->tracing()) return;
  G->noteStr("    thread " + std::to_string(Me) + ": " + What + (P ? " " + std::to_string(id(P)) : ""));
}
void alive(const void *P, size_t N, const char *What) {
#ifdef PBT_ASAN
  if (__asan_region_is_poisoned((void *)P, N)) {
    __sanitizer_print_stack_trace();
    pbt::fail("use-after-free", std::string(What) + " of a released object");
  }
#endif
}
bool canRun(const Thread &X) {
  switch (X.St) {
  case Ready: return true;
  case OnMutex: return !Owner.count(X.M);
  case OnJoin: return T[X.JoinOf]->St == Done;
  case OnPred: return (*X.P)();
  default: return false;
  }
}
void rearm() {
  // Mode 2: the next switch may come in the middle of the code.
  pbt::gPreempt = 0;
  if (gMode == 2 && G->chance(1, 4)) pbt::gPreempt = 1 + (long)G->below(G->coin() ? 30 : 400);
}
/// Gives the token to a thread that can run; returns when it comes back.
void reschedule() {
  int Self = Me;
  if (++gSteps > 300000) pbt::fail("livelock", "the threads do not come to an end");
  std::vector<int> En, Late, Sleep;
  if (Self >= 0 && canRun(*T[Self])) En.push_back(Self);
  for (int I = 0; I < (int)T.size(); ++I) {
    if (I != Self && canRun(*T[I])) En.push_back(I);
    if (T[I]->St == OnCond) Late.push_back(I);
    if (T[I]->St == Asleep) Sleep.push_back(I);
  }
  if (Sleep.size() && (En.empty() || G->chance(1, 8))) En.push_back(Sleep[G->below(Sleep.size())]);
  if (En.empty()) {
    bool AllDone = true;
    std::string D;
    for (int I = 0; I < (int)T.size(); ++I) {
      if (T[I]->St != Done) AllDone = false;
      D += "thread " + std::to_string(I) + " " + Names[T[I]->St] + (T[I]->St == OnPred ? T[I]->What : "") + "; ";
    }
    if (AllDone) { // back to run()
      gOn = false;
      sem_post(&T[0]->Sem);
      return;
    }
    for (int I : Late) // a timed wait ends by itself
      if (T[I]->Timed) {
        T[I]->TimedOut = true;
        T[I]->St = OnMutex;
        if (canRun(*T[I])) En.push_back(I);
      }
    if (En.empty()) pbt::fail("deadlock", "no thread can go on: " + D);
  }
  int Next;
  if (gSteps > 3000) {
    Next = En[G->below(En.size())];
  } else if (gMode == 1) { // priorities with a few changes
    if (gChanges && G->chance(1, 12)) {
      --gChanges;
      T[Self >= 0 ? Self : En[0]]->Prio = (unsigned)G->below(100);
    }
    Next = En[0];
    for (int I : En) if (T[I]->Prio > T[Next]->Prio) Next = I;
  } else if (gMode == 2) {
    Next = G->chance(1, 3) ? En[G->below(En.size())] : En[0];
  } else {
    Next = En[G->below(En.size())];
  }
  if (!Late.empty() && G->chance(1, 40)) { // spurious wake-up or time-out
    int I = Late[G->below(Late.size())];
    T[I]->St = OnMutex;
    if (T[I]->Timed && G->coin()) T[I]->TimedOut = true;
    say("a waiting thread wakes up by itself", nullptr);
  }
  rearm();
  if (Next == Self) return;
  if (Self >= 0 && canRun(*T[Self])) ++gPre;
  gCur = Next;
  bool Over = Self < 0 || T[Self]->St == Done;
  Thread *S = Self >= 0 ? T[Self] : nullptr;
  sem_post(&T[Next]->Sem);
  if (!Over) while (sem_wait(&S->Sem)) {}
}
void preempt() {
  if (!managed() || gQuiet || Me != gCur) return;
  if (InSched) {
    pbt::gPreempt = 1;
    return;
  }
  Inside In;
  say("is preempted", nullptr);
  reschedule();
}
void *trampoline(void *A) {
  Thread *X = (Thread *)A;
  while (sem_wait(&X->Sem)) {}
  for (int I = 0; I < (int)T.size(); ++I) if (T[I] == X) Me = I;
  void *R = X->Fn(X->Arg);
  Inside In;
  X->Ret = R;
  say("is over", nullptr);
  X->St = Done;
  reschedule();
  return R;
}
void lockMutex(pthread_mutex_t *M) {
  Thread &X = *T[Me];
  while (Owner.count(M)) {
    if (Owner[M] == Me) pbt::fail("deadlock", "a thread locks a mutex it holds");
    X.St = OnMutex;
    X.M = M;
    reschedule();
    alive(M, sizeof *M, "locking");
  }
  X.St = Ready;
  Owner[M] = Me;
}
int waitCond(pthread_cond_t *C, pthread_mutex_t *M, bool Timed) {
  alive(C, sizeof *C, "waiting");
  alive(M, sizeof *M, "waiting");
  say("waits for condition", C);
  auto O = Owner.find(M);
  if (O == Owner.end() || O->second != Me) pbt::fail("mutex", "waiting without the mutex");
  Thread &X = *T[Me];
  Owner.erase(M);
  X.St = OnCond;
  X.C = C;
  X.M = M;
  X.Timed = Timed;
  X.TimedOut = X.Signalled = false;
  reschedule();
  alive(M, sizeof *M, "locking after a wait");
  lockMutex(M);
  say("goes on after condition", C);
  return X.TimedOut && !X.Signalled ? ETIMEDOUT : 0;
}
void wake(pthread_cond_t *C, bool All) {
  sched::point();
  alive(C, sizeof *C, "notification");
  say(All ? "notifies all of condition" : "notifies condition", C);
  std::vector<int> W;
  for (int I = 0; I < (int)T.size(); ++I)
    if (T[I]->St == OnCond && T[I]->C == C) W.push_back(I);
  if (!W.empty()) {
    if (!All) W = {W[G->below(W.size())]};
    for (int I : W) {
      T[I]->St = OnMutex;
      T[I]->Signalled = true;
    }
  }
  sched::point();
}
} // namespace

namespace sched {
void point() {
  if (!managed() || gQuiet) return;
  Inside In;
  reschedule();
}
void wait(const std::function<bool()> &P, const char *What) {
  Inside In;
  Thread &X = *T[Me];
  X.P = &P;
  X.What = What;
  X.St = OnPred;
  reschedule();
  X.St = Ready;
}
int self() { return managed() ? Me : -1; }
pbt::Gen &gen() { return *G; }
std::function<bool()> RefuseThread;
unsigned preemptions() { return gPre; }
unsigned threads() { return (unsigned)T.size(); }
Inside::Inside() { ++InSched; }
Inside::~Inside() { --InSched; }
Quiet::Quiet() { ++gQuiet; }
Quiet::~Quiet() { --gQuiet; }

void run(pbt::Gen &g, const std::function<void()> &F) {
  G = &g;
  T.clear();
  Owner.clear();
  Ids.clear();
  gSteps = gPre = gQuiet = 0;
  gMode = g.weighted({3, 3, 2});
  gChanges = gMode == 1 ? (unsigned)g.below(6) : 0;
  Thread Main;
  sem_init(&Main.Sem, 0, 0);
  Main.Prio = gMode == 1 ? (unsigned)g.below(100) : 0;
  T.push_back(&Main);
  Me = 0;
  gCur = 0;
  pbt::gPreemptHook = preempt;
  pbt::gPreempt = 0;
  gOn = true;
  F();
  Inside In;
  Main.St = Done;
  say("is over", nullptr);
  reschedule(); // the others; posts to Main when all are over
  while (sem_wait(&Main.Sem)) {}
  gOn = false;
  pbt::gPreempt = 0;
  Me = -1;
  auto Join = real<int (*)(pthread_t, void **)>("pthread_join");
  for (size_t I = 1; I < T.size(); ++I) {
    Join(T[I]->Real, nullptr);
    sem_destroy(&T[I]->Sem);
    delete T[I];
  }
  sem_destroy(&Main.Sem);
  T = {};
  Owner.clear();
  Ids.clear();
  G = nullptr;
}
} // namespace sched

//===-- The replaced functions --------------------------------------------===//
#define REAL(N) static auto R = real<decltype(&N)>(#N)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *M) __THROWNL {
  if (!managed()) { REAL(pthread_mutex_lock); return R(M); }
  Inside In;
  sched::point();
  alive(M, sizeof *M, "locking");
  lockMutex(M);
  say("holds mutex", M);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *M) __THROWNL {
  if (!managed()) { REAL(pthread_mutex_trylock); return R(M); }
  Inside In;
  sched::point();
  alive(M, sizeof *M, "locking");
  if (Owner.count(M)) return EBUSY;
  Owner[M] = Me;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *M) __THROWNL {
  if (!managed()) { REAL(pthread_mutex_unlock); return R(M); }
  Inside In;
  if (!Owner.count(M)) pbt::fail("mutex", "unlocking a mutex that is not held");
  alive(M, sizeof *M, "unlocking");
  if (Owner[M] != Me) pbt::fail("mutex", "unlocking a mutex of another thread");
  say("releases mutex", M);
  Owner.erase(M);
  sched::point();
  return 0;
}
int pthread_cond_wait(pthread_cond_t *C, pthread_mutex_t *M) {
  if (!managed()) { REAL(pthread_cond_wait); return R(C, M); }
  Inside In;
  return waitCond(C, M, false);
}
int pthread_cond_timedwait(pthread_cond_t *C, pthread_mutex_t *M, const timespec *A) {
  if (!managed()) { REAL(pthread_cond_timedwait); return R(C, M, A); }
  Inside In;
  return waitCond(C, M, true);
}
int pthread_cond_clockwait(pthread_cond_t *C, pthread_mutex_t *M, clockid_t K, const timespec *A) {
  if (!managed()) { REAL(pthread_cond_clockwait); return R(C, M, K, A); }
  Inside In;
  return waitCond(C, M, true);
}
int pthread_cond_signal(pthread_cond_t *C) __THROWNL {
  if (!managed()) { REAL(pthread_cond_signal); return R(C); }
  Inside In;
  wake(C, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *C) __THROWNL {
  if (!managed()) { REAL(pthread_cond_broadcast); return R(C); }
  Inside In;
  wake(C, true);
  return 0;
}
int pthread_create(pthread_t *P, const pthread_attr_t *A, void *(*F)(void *), void *Arg) __THROWNL {
  REAL(pthread_create);
  if (!managed()) return R(P, A, F, Arg);
  Inside In;
  if (sched::RefuseThread && sched::RefuseThread()) {
    if (G->tracing()) G->noteStr("    thread " + std::to_string(Me) + ": cannot start a thread");
    return EAGAIN;
  }
  Thread *X = new Thread;
  sem_init(&X->Sem, 0, 0);
  X->Fn = F;
  X->Arg = Arg;
  X->Prio = gMode == 1 ? (unsigned)G->below(100) : 0;
  // Always joinable: run() waits for the end of every thread.
  int E = R(&X->Real, nullptr, trampoline, X);
  if (E) { delete X; return E; }
  *P = X->Real;
  T.push_back(X);
  if (G->tracing()) G->noteStr("    thread " + std::to_string(Me) + ": starts thread " + std::to_string(T.size() - 1));
  sched::point();
  return 0;
}
int pthread_detach(pthread_t P) __THROW {
  if (!managed()) { REAL(pthread_detach); return R(P); }
  Inside In;
  for (auto *X : T)
    if (X->Real == P) X->Joined = true;
  return 0;
}
int pthread_join(pthread_t P, void **Res) {
  if (!managed()) { REAL(pthread_join); return R(P, Res); }
  Inside In;
  for (unsigned I = 1; I < T.size(); ++I)
    if (T[I]->Real == P && !T[I]->Joined) {
      Thread &X = *T[Me];
      X.JoinOf = I;
      X.St = OnJoin;
      reschedule();
      X.St = Ready;
      T[I]->Joined = true;
      if (Res) *Res = T[I]->Ret;
      return 0;
    }
  return ESRCH;
}
int sched_yield() __THROW {
  if (!managed()) { REAL(sched_yield); return R(); }
  Inside In;
  sched::point();
  return 0;
}
int nanosleep(const timespec *A, timespec *B) {
  if (!managed()) { REAL(nanosleep); return R(A, B); }
  Inside In;
  T[Me]->St = Asleep;
  reschedule();
  T[Me]->St = Ready;
  return 0;
}
int clock_nanosleep(clockid_t K, int F, const timespec *A, timespec *B) {
  if (!managed()) { REAL(clock_nanosleep); return R(K, F, A, B); }
  Inside In;
  T[Me]->St = Asleep;
  reschedule();
  T[Me]->St = Ready;
  return 0;
}
}
