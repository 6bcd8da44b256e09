// TransparentQueue against std::deque, over histories on several queues.
#include "oom.h"
#include <bcl/transparent_queue.h>
#include <deque>
#include <memory>

using Q = bcl::TransparentQueue<int>;
using M = std::deque<int *>;
static int Arena[16];

static std::string nm(int *P) {
  return P ? "&" + std::to_string(P - Arena) : std::string("null");
}
static std::string show(const M &D) {
  std::string R = "[";
  for (auto *P : D) R += nm(P) + " ";
  return R + "]";
}

static int *value(pbt::Gen &g) {
  uint64_t V = g.draw(17);
  return V == 16 ? nullptr : &Arena[V];
}

static void agree(const Q &X, const M &D, const char *When) {
  CHECK("size", X.size() == D.size(), << When << ": size " << X.size() << ", model " << show(D));
  CHECK("empty", X.empty() == D.empty(), << When << ": empty " << X.empty() << ", model " << show(D));
  if (!D.empty()) {
    CHECK("front", X.front() == D.front(), << When << ": front is " << nm(X.front()) << ", model " << show(D));
    CHECK("back", X.back() == D.back(), << When << ": back is " << nm(X.back()) << ", model " << show(D));
    CHECK("front-ref", const_cast<Q &>(X).front() == D.front(), << When);
    CHECK("back-ref", const_cast<Q &>(X).back() == D.back(), << When);
  }
}

static void drain(Q X, M D) { // by value: also exercises the copy
  while (!D.empty()) {
    agree(X, D, "drain");
    int *E = D.front();
    D.pop_front();
    int *V = X.pop();
    CHECK("fifo", V == E, << "drained " << nm(V) << ", expected " << nm(E));
  }
  CHECK("drained", X.empty() && X.size() == 0);
  CHECK("pop-empty", X.pop() == nullptr, << "popping an empty queue must give null");
  CHECK("still-empty", X.empty());
}

static void compare(const Q &A, const M &DA, const Q &B, const M &DB) {
#define CMP(OP) CHECK("compare", (A OP B) == (DA OP DB), << show(DA) << " " #OP " " << show(DB) << " is " << (A OP B));
  CMP(==) CMP(!=) CMP(<) CMP(>) CMP(<=) CMP(>=)
#undef CMP
}

PROPERTY(model, 150000, 3000000) {
  const unsigned NQ = 3;
  std::unique_ptr<Q> X[NQ];
  M D[NQ];
  for (unsigned I = 0; I < NQ; ++I) {
    if (g.coin()) {
      int *V = value(g);
      X[I].reset(new Q(V));
      D[I].push_back(V);
    } else
      X[I].reset(new Q());
    NOTE("q" << I << " = " << show(D[I]));
  }
  unsigned Steps = 1 + (unsigned)g.len(40);
  bool Spilled = false, Transfer = false;
  for (unsigned S = 0; S < Steps; ++S) {
    unsigned A = (unsigned)g.below(NQ), B = (unsigned)g.below(NQ);
    Q &QA = *X[A], &QB = *X[B];
    switch (g.weighted({8, 6, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 1})) {
    case 0: {
      int *V = value(g);
      NOTE("q" << A << ".push(" << nm(V) << ")");
      QA.push(V);
      D[A].push_back(V);
      break;
    }
    case 1: {
      NOTE("q" << A << ".pop()");
      int *V = QA.pop();
      int *E = D[A].empty() ? nullptr : D[A].front();
      if (!D[A].empty()) D[A].pop_front();
      CHECK("pop", V == E, << "popped " << nm(V) << ", expected " << nm(E));
      break;
    }
    case 2: {
      int *V = value(g);
      NOTE("q" << A << ".emplace(" << nm(V) << ")");
      QA.emplace(V);
      D[A].push_back(V);
      g.label("emplace");
      break;
    }
    case 3:
      NOTE("q" << A << " = q" << B << " (copy)");
      QA = static_cast<const Q &>(QB);
      D[A] = D[B];
      Transfer |= A != B;
      g.label(A == B ? "self copy assignment" : "copy assignment");
      break;
    case 4: {
      NOTE("q" << A << " = move(q" << B << ")");
      Q &R = (QA = std::move(QB));
      CHECK("chain", &R == &QA, << "an assignment must give the assigned queue");
      if (A == B) {
        g.label("self move assignment");
        break;
      }
      D[A] = D[B];
      D[B].clear();
      Transfer = true;
      g.label("move assignment");
      break;
    }
    case 5: {
      NOTE("q" << A << " rebuilt as a copy of q" << B);
      std::unique_ptr<Q> N(new Q(static_cast<const Q &>(QB)));
      M ND = D[B];
      X[A] = std::move(N);
      D[A] = ND;
      Transfer = true;
      g.label("copy construction");
      break;
    }
    case 6: {
      NOTE("q" << A << " rebuilt from move(q" << B << ")");
      std::unique_ptr<Q> N(new Q(std::move(QB)));
      M ND = D[B];
      D[B].clear();
      agree(QB, D[B], "moved-from");
      X[A] = std::move(N);
      D[A] = ND;
      Transfer = true;
      g.label("move construction");
      break;
    }
    case 7:
      NOTE("q" << A << ".swap(q" << B << ")");
      QA.swap(QB);
      std::swap(D[A], D[B]);
      Transfer |= A != B;
      g.label("swap");
      break;
    case 8:
      NOTE("swap(q" << A << ", q" << B << ")");
      swap(QA, QB);
      std::swap(D[A], D[B]);
      Transfer |= A != B;
      break;
    case 9:
      NOTE("compare q" << A << " q" << B);
      compare(QA, D[A], QB, D[B]);
      break;
    case 10:
      if (!D[A].empty()) {
        int *V = value(g);
        bool F = g.coin();
        NOTE("q" << A << (F ? ".front() = " : ".back() = ") << nm(V));
        (F ? QA.front() : QA.back()) = V;
        (F ? D[A].front() : D[A].back()) = V;
      }
      break;
    case 11:
      drain(QA, D[A]);
      break;
    case 12: { // many at once
      if (D[A].size() > 1000) break;
      size_t N = g.pick<size_t>({3, 10, 70, 300});
      bool In = g.coin();
      NOTE((In ? "push " : "pop ") << N << " times, q" << A);
      for (size_t I = 0; I < N; ++I) {
        if (In) {
          int *V = &Arena[I * 7 % 16];
          I % 3 ? QA.push(V) : QA.emplace(V);
          D[A].push_back(V);
        } else if (!D[A].empty()) {
          int *V = QA.pop();
          CHECK("pop", V == D[A].front(), << "popped " << nm(V) << ", expected " << nm(D[A].front()));
          D[A].pop_front();
        }
      }
      g.label("many at once");
      break;
    }
    }
    Spilled |= D[A].size() > 1;
    for (unsigned I = 0; I < NQ; ++I) agree(*X[I], D[I], "after the step");
  }
  for (unsigned I = 0; I < NQ; ++I) {
    for (unsigned J = 0; J < NQ; ++J) compare(*X[I], D[I], *X[J], D[J]);
    drain(*X[I], D[I]);
  }
  if (Spilled) g.label("more than one element held");
  if (Spilled && Transfer) g.nontrivial();
}

// Memory may run out in every operation: it throws and no element is lost.
PROPERTY(exhausted, 60000, 1000000) {
  const unsigned NQ = 2;
  std::unique_ptr<Q> X[NQ];
  M D[NQ];
  for (auto &I : X) I.reset(new Q());
  unsigned Failures = 0;
  for (unsigned S = 2 + (unsigned)g.len(20); S--;) {
    unsigned A = (unsigned)g.below(NQ), At = g.coin() ? 1 + (unsigned)g.below(4) : 0;
    if (g.chance(1, 20)) At = 1 + (unsigned)g.below(20);
    Q &QA = *X[A], &QB = *X[!A];
    M &DA = D[A], &DB = D[!A];
    int *V = value(g);
    bool Bad = false;
    switch (g.weighted({6, 2, 3, 2, 2, 1, 1, 1})) {
    case 0: {
      unsigned N = g.chance(1, 10) ? 1 + (unsigned)g.below(200) : 1;
      if (N > 1) At *= 1 + (unsigned)g.below(3);
      NOTE("q" << A << ".push(" << nm(V) << ") " << N << " times, allocation " << At << " fails");
      size_t Done = 0;
      Bad = oom::run(At, [&] { for (; Done < N; ++Done) QA.push(V); });
      DA.insert(DA.end(), Done, V);
      break;
    }
    case 1:
      NOTE("q" << A << ".pop()");
      if (!DA.empty()) {
        int *P = QA.pop();
        CHECK("pop", P == DA.front(), << "popped " << nm(P) << ", expected " << nm(DA.front()));
        DA.pop_front();
      }
      break;
    case 2:
      NOTE("q" << A << ".emplace(" << nm(V) << "), allocation " << At << " fails");
      Bad = oom::run(At, [&] { QA.emplace(V); });
      if (!Bad) DA.push_back(V);
      break;
    case 3:
      NOTE("q" << A << " = q" << !A << ", allocation " << At << " fails");
      Bad = oom::run(At, [&] { QA = static_cast<const Q &>(QB); });
      if (!Bad) DA = DB;
      break;
    case 4: {
      NOTE("copy of q" << A << ", allocation " << At << " fails");
      std::unique_ptr<Q> N;
      Bad = oom::run(At, [&] { N.reset(new Q(static_cast<const Q &>(QA))); });
      if (!Bad) drain(*N, DA);
      break;
    }
    case 5:
      NOTE("swap, allocation " << At << " fails");
      Bad = oom::run(At, [&] { QA.swap(QB); });
      if (!Bad) DA.swap(DB);
      break;
    case 6:
      NOTE("q" << A << " = move(q" << !A << "), allocation " << At << " fails");
      Bad = oom::run(At, [&] { QA = std::move(QB); });
      if (!Bad) DA = std::move(DB), DB.clear();
      break;
    case 7: {
      NOTE("q" << A << " < q" << !A << ", allocation " << At << " fails");
      bool L = false;
      Bad = oom::run(At, [&] { L = QA < QB; });
      if (!Bad) CHECK("compare", L == (DA < DB));
      break;
    }
    }
    if (Bad) NOTE("  out of memory");
    Failures += Bad;
    for (unsigned I = 0; I < NQ; ++I) {
      agree(*X[I], D[I], Bad ? "after the memory has run out" : "after the step");
    }
  }
  for (unsigned I = 0; I < NQ; ++I) drain(*X[I], D[I]);
  if (Failures) g.nontrivial();
}
