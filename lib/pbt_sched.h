//===- pbt_sched.h - deterministic scheduler for real threads -------*- C++ -*-===//
// The pthread functions are replaced (in the executable) by ones that pass a
// token between the threads: one thread runs at a time, and which one runs
// next is a choice of the case (Gen), so a schedule is replayed and shrunk as
// any other input. A state where no thread can go on is a deadlock, whatever
// the clock says. Threads can also be preempted between basic blocks of the
// instrumented code.
#ifndef PBT_SCHED_H
#define PBT_SCHED_H
#include "pbt.h"
#include <functional>

namespace sched {
/// Runs F under the scheduler until it and all threads it starts are over.
void run(pbt::Gen &g, const std::function<void()> &F);
/// A place where another thread may be scheduled.
void point();
/// Waits until the condition holds (it is asked by the scheduler).
void wait(const std::function<bool()> &P, const char *What);
/// The number of the running thread, -1 for a thread that is not scheduled.
int self();
/// The case that is running, for choices of the simulated environment.
pbt::Gen &gen();
/// Asked before a thread is started: true means that there are no resources.
extern std::function<bool()> RefuseThread;
/// Number of switches from a thread that could go on.
unsigned preemptions();
unsigned threads();
/// The code in the scope is not preempted (the state of the harness).
struct Quiet {
  Quiet();
  ~Quiet();
};
/// The code in the scope is not preempted, but may reach scheduling points.
struct Inside {
  Inside();
  ~Inside();
};
} // namespace sched
#endif
