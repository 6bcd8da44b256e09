// C28: iterators with data, convertible pairs, functions over tuples.
#include "pbt.h"
#include <bcl/IteratorDataAdaptor.h>
#include <bcl/convertible_pair.h>
#include <bcl/tuple_utils.h>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
using pbt::Gen;

namespace {
/// Built by the adaptor from an element and the data.
template <class E, class D> struct View {
  E *El;
  D Data;
  View(E &X, const D &Y) : El(&X), Data(Y) {}
};
template <class Cont, class D, class MakeD> void walk(Gen &g, Cont &C, MakeD Make) {
  using It = typename Cont::iterator;
  using E = typename std::remove_reference<decltype(*C.begin())>::type;
  using A = bcl::IteratorDataAdaptor<It, D, View<E, D>>;
  std::vector<E *> Elems;
  for (auto &X : C) Elems.push_back(&X);
  std::size_t N = Elems.size();
  struct M { std::size_t Pos; D Data; };
  std::vector<A> V;
  std::vector<M> W;
  unsigned Ops = g.chance(1, 50) ? (unsigned)g.range(26, 200) : 1 + (unsigned)g.len(25), Steps = 0;
  for (unsigned O = 0; O < Ops; ++O) {
    unsigned K = V.empty() ? 0 : (unsigned)g.below(V.size());
    switch (V.empty() ? 0 : g.weighted({2, 3, 3, 2, 2, 1})) {
    case 0: {
      if (V.size() >= 6) break;
      std::size_t P = g.below(N + 1);
      D X = Make(g);
      V.emplace_back(std::next(C.begin(), P), X);
      W.push_back({P, X});
      NOTE("new adaptor at " << P);
      break;
    }
    case 1: {
      if (W[K].Pos == N) break;
      NOTE("++adaptor " << K);
      A &R = ++V[K];
      ++W[K].Pos;
      ++Steps;
      CHECK("increment-result", &R == &V[K]);
      break;
    }
    case 2: {
      if (W[K].Pos == N) break;
      NOTE("adaptor " << K << "++");
      A Old = V[K]++;
      CHECK("postincrement", Old.getIterator() == std::next(C.begin(), W[K].Pos) && Old.getData() == W[K].Data);
      ++W[K].Pos;
      ++Steps;
      break;
    }
    case 3: {
      D X = Make(g);
      NOTE("data of adaptor " << K);
      V[K].getData() = X;
      W[K].Data = X;
      break;
    }
    case 4: {
      std::size_t P = g.below(N + 1);
      NOTE("adaptor " << K << " is set to " << P);
      V[K].getIterator() = std::next(C.begin(), P);
      W[K].Pos = P;
      break;
    }
    default: {
      NOTE("copies of adaptor " << K);
      unsigned L = (unsigned)g.below(V.size());
      V[L] = V[K];
      W[L] = W[K];
      A T(V[K]);
      CHECK("copy", T == V[K] && !(T != V[K]));
    }
    }
    for (std::size_t I = 0; I < V.size(); ++I) {
      const A &CA = V[I];
      CHECK("position", CA.getIterator() == std::next(C.begin(), W[I].Pos) && V[I].getIterator() == CA.getIterator(), << "adaptor " << I);
      CHECK("data", CA.getData() == W[I].Data && &V[I].getData() == &CA.getData(), << "adaptor " << I);
      if (W[I].Pos < N) {
        auto X = *CA;
        CHECK("element", X.El == Elems[W[I].Pos] && X.Data == W[I].Data, << "adaptor " << I);
      }
      for (std::size_t J = 0; J < V.size(); ++J) {
        bool Eq = W[I].Pos == W[J].Pos && W[I].Data == W[J].Data;
        CHECK("equal", (V[I] == V[J]) == Eq && (V[I] != V[J]) == !Eq, << "adaptors " << I << " and " << J);
      }
    }
  }
  // A whole walk sees every element once, in order, with the data.
  D X = Make(g);
  std::size_t Seen = 0;
  for (A I(C.begin(), X), E(C.end(), X); I != E; ++I, ++Seen)
    CHECK("walk", Seen < N && (*I).El == Elems[Seen] && (*I).Data == X, << "step " << Seen);
  CHECK("walk-count", Seen == N);
  if (N > 1 && V.size() > 1 && Steps) g.nontrivial();
}
int makeInt(Gen &g) { return (int)g.below(3); }
std::string makeStr(Gen &g) { return g.bytes(20, "ab"); }

/// Records the elements it is called with.
struct Visit {
  std::ostringstream *OS;
  int N = 0;
  template <class T> void operator()(T &X) { *OS << X << ';'; touch(X); ++N; }
  template <class T> void operator()(const T &X) { *OS << X << "c;"; ++N; }
  static void touch(int &X) { X += 1; }
  static void touch(long &X) { X += 2; }
  static void touch(char &X) { X = 'z'; }
  static void touch(std::string &X) { X += '!'; }
};
/// A function that exists once.
struct VisitOnce : Visit {
  VisitOnce(std::ostringstream *S, int *C) : Visit{S}, Count(C) {}
  VisitOnce(const VisitOnce &) = delete;
  template <class T> void operator()(const T &X) { *OS << X << "c;"; ++*Count; }
  int *Count;
};
struct CallOnce {
  CallOnce() = default;
  CallOnce(const CallOnce &) = delete;
  template <class... T> int operator()(const T &...) { return 100 + (int)sizeof...(T); }
};
template <class... T> void tuples(Gen &g, T... V) {
  std::tuple<T...> X(V...);
  const std::tuple<T...> C(V...);
  std::ostringstream Want, WantC, OS, OSC;
  ((Want << V << ';'), ...);
  ((WantC << V << "c;"), ...);
  NOTE("tuple " << Want.str());
  bcl::for_each(C, Visit{&OSC});
  CHECK("const-visit", OSC.str() == WantC.str(), "visited " << OSC.str());
  Visit F{&OS};
  bcl::for_each(X, F);
  CHECK("visit", OS.str() == Want.str(), "visited " << OS.str());
  CHECK("visitor", F.N == (int)sizeof...(T), "the function is copied: " << F.N);
  std::tuple<T...> Y(V...);
  std::apply([](auto &... Z) { (Visit::touch(Z), ...); }, Y);
  CHECK("visit-writes", X == Y);
  CHECK("empty", bcl::tuple_empty<std::tuple<T...>>::value == !sizeof...(T));
  // Arguments reach the function as references to the elements, in order.
  std::vector<const void *> A, B;
  std::apply([&](auto &... Z) { (A.push_back(&Z), ...); }, X);
  int R = bcl::forward_as_args(X, [&](auto &... Z) { (B.push_back(&Z), ...); return (int)sizeof...(Z); });
  CHECK("args", A == B && R == (int)sizeof...(T));
  A.clear(), B.clear();
  std::apply([&](auto &... Z) { (A.push_back(&Z), ...); }, C);
  bcl::forward_as_args(C, [&](const auto &... Z) { (B.push_back(&Z), ...); });
  CHECK("const-args", A == B);
  OSC.str("");
  int Visited = 0;
  bcl::for_each(C, VisitOnce(&OSC, &Visited));
  CHECK("visit-once", OSC.str() == WantC.str() && Visited == (int)sizeof...(T));
  OSC.str("");
  bcl::for_each(Y, VisitOnce(&OSC, &Visited));
  CHECK("visit-once", Visited == 2 * (int)sizeof...(T));
  CHECK("args-once", bcl::forward_as_args(X, CallOnce()) == 100 + (int)sizeof...(T) && bcl::forward_as_args(C, CallOnce()) == 100 + (int)sizeof...(T));
  int K = 5;
  int &Ref = bcl::forward_as_args(X, [&](auto &...) -> int & { return K; });
  CHECK("args-result", &Ref == &K);
  if (sizeof...(T) > 1) g.nontrivial();
}

template <class A, class B> void pairs(Gen &g, A X, B Y, A X2, B Y2) {
  using P = bcl::convertible_pair<A, B>;
  std::pair<A, B> Q(X2, Y2);
  P D, V(X, Y), C(V), F(Q);
  const P K(X, Y);
  auto is = [](const P &T, const A &X, const B &Y) {
    const A &TA = T;
    const B &TB = T;
    return T.first == X && T.second == Y && TA == X && TB == Y;
  };
  NOTE("pair (" << X << ", " << Y << ") and (" << X2 << ", " << Y2 << ")");
  CHECK("pair-default", is(D, A(), B()));
  CHECK("pair-build", is(V, X, Y) && is(C, X, Y) && is(F, X2, Y2) && is(K, X, Y));
  A &RA = V;
  B &RB = V;
  const A &CA = K;
  const B &CB = K;
  CHECK("pair-reference", &RA == &V.first && &RB == &V.second && &CA == &K.first && &CB == &K.second);
  RA = X2;
  CHECK("pair-write", is(V, X2, Y) && is(C, X, Y));
  RB = Y2;
  CHECK("pair-write", is(V, X2, Y2));
  P &R1 = (C = V);
  CHECK("pair-assign", is(C, X2, Y2) && &R1 == &C);
  P &R2 = (C = std::pair<A, B>(X, Y));
  CHECK("pair-assign", is(C, X, Y) && &R2 == &C);
  std::pair<A, B> Q2(Q);
  P &R3 = (C = Q2);
  CHECK("pair-assign", is(C, X2, Y2) && &R3 == &C);
  P F2(Q2);
  CHECK("pair-source", Q2 == Q && is(F2, X2, Y2), "the copied pair has changed");
  C = K;
  CHECK("pair-assign", is(C, X, Y) && is(K, X, Y));
  C = std::move(V);
  CHECK("pair-move", is(C, X2, Y2));
  C = C;
  CHECK("pair-self", is(C, X2, Y2));
  P M(std::move(C));
  CHECK("pair-move", is(M, X2, Y2));
  CHECK("pair-compare", (M == F) && ((K < F) == (std::pair<A, B>(X, Y) < Q)));
  if (!(X == X2) && !(Y == Y2)) g.nontrivial();
}
} // namespace

PROPERTY(iterators, 30000, 1000000) {
  std::vector<int> V;
  for (std::size_t N = g.len(12); N--;) V.push_back((int)g.below(5));
  NOTE(V.size() << " elements");
  std::list<int> L(V.begin(), V.end());
  std::map<int, int> M;
  for (std::size_t I = 0; I < V.size(); ++I) M[(int)I * 3] = V[I];
  switch (g.below(5)) {
  case 0: return walk<std::vector<int>, int>(g, V, makeInt);
  case 1: return walk<std::list<int>, std::string>(g, L, makeStr);
  case 2: return walk<std::map<int, int>, int>(g, M, makeInt);
  case 3: return walk<std::vector<int>, std::string>(g, V, makeStr);
  default: return walk<std::list<int>, int>(g, L, makeInt);
  }
}
PROPERTY(tuples, 30000, 600000) {
  int A = g.integral<int>() / 2, B = (int)g.below(9);
  std::string S = g.bytes(20, "ab"), T = g.bytes(30, "xy");
  long L = (long)g.below(1000);
  char C = (char)('a' + g.below(20));
  switch (g.below(7)) {
  case 0: return tuples(g);
  case 1: return tuples(g, A);
  case 2: return tuples(g, S, A);
  case 3: return tuples(g, A, A, B);
  case 4: return tuples(g, C, S, L, T);
  case 5: return tuples(g, S, S, S, A, L, C);
  default: return tuples(g, A, L, C, T, S, B, A, C, L);
  }
}
PROPERTY(convertible, 30000, 600000) {
  int A = (int)g.range(-9, 9), B = (int)g.range(-9, 9);
  std::string S = g.bytes(20, "ab"), T = g.bytes(20, "ab");
  switch (g.below(5)) {
  case 0: return pairs<int, std::string>(g, A, S, B, T);
  case 1: return pairs<std::string, int>(g, S, A, T, B);
  case 2: return pairs<int, long>(g, A, B, B, A);
  case 3: return pairs<char, bool>(g, (char)('a' + (A & 7)), A > 0, (char)('a' + (B & 7)), B > 0);
  default: {
    // Move-only elements.
    using P = bcl::convertible_pair<std::unique_ptr<int>, int>;
    P X(std::unique_ptr<int>(new int(A)), B), Y;
    NOTE("move-only " << A << ", " << B);
    Y = std::move(X);
    std::unique_ptr<int> &R = Y;
    int &I = Y;
    CHECK("pair-move-only", R && *R == A && I == B && !X.first);
    P Z(std::move(Y));
    CHECK("pair-move-only", Z.first && *Z.first == A && Z.second == B && !Y.first);
    std::pair<std::unique_ptr<int>, int> Q(std::unique_ptr<int>(new int(B)), A);
    Y = std::move(Q);
    CHECK("pair-move-only", Y.first && *Y.first == B && Y.second == A && !Q.first);
    P W(std::make_pair(std::unique_ptr<int>(new int(A)), B));
    CHECK("pair-move-only", W.first && *W.first == A && W.second == B);
    g.nontrivial();
  }
  }
}
