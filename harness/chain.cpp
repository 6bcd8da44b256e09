// C15: intrusive chains against a model of sequences.
#include "pbt.h"
#include <bcl/Chain.h>
#include <algorithm>
#include <vector>
using pbt::Gen;

namespace {
struct TagA;
struct TagB;
struct Node : bcl::Chain<Node, TagA>, bcl::Chain<Node, TagB> {
  int Id = -1;
};
struct Plain : bcl::Chain<Plain> {
  int Id = -1;
};

/// Chains as lists of identifiers.
struct Model {
  std::vector<std::vector<int>> C;
  explicit Model(int N) { for (int I = 0; I < N; ++I) C.push_back({I}); }
  std::pair<size_t, size_t> at(int X) const {
    for (size_t I = 0; I < C.size(); ++I)
      for (size_t J = 0; J < C[I].size(); ++J)
        if (C[I][J] == X) return {I, J};
    abort();
  }
  int next(int X) const { auto [I, J] = at(X); return J + 1 < C[I].size() ? C[I][J + 1] : -1; }
  int prev(int X) const { auto [I, J] = at(X); return J ? C[I][J - 1] : -1; }
  void cutAfter(int X) {
    auto [I, J] = at(X);
    if (J + 1 == C[I].size()) return;
    std::vector<int> T(C[I].begin() + J + 1, C[I].end());
    C[I].resize(J + 1);
    C.push_back(T);
  }
  void cutBefore(int X) { int P = prev(X); if (P >= 0) cutAfter(P); }
  /// Chain that ends with A is continued by the chain that starts with B.
  void join(int A, int B) {
    auto I = at(A).first, J = at(B).first;
    C[I].insert(C[I].end(), C[J].begin(), C[J].end());
    C.erase(C.begin() + J);
  }
  void spliceNext(int X, int N) {
    if (N >= 0) { cutAfter(N); cutBefore(N); }
    int O = next(X);
    if (O >= 0) cutAfter(X);
    if (N < 0) return;
    join(X, N);
    if (O >= 0) join(N, O);
  }
  void splicePrev(int X, int N) {
    if (N >= 0) { cutAfter(N); cutBefore(N); }
    int O = prev(X);
    if (O >= 0) cutBefore(X);
    if (N < 0) return;
    join(N, X);
    if (O >= 0) join(O, N);
  }
  void mergeNext(int X, int N) {
    if (N >= 0) cutBefore(N);
    cutAfter(X);
    if (N >= 0) join(X, N);
  }
  void mergePrev(int X, int N) {
    if (N >= 0) cutAfter(N);
    cutBefore(X);
    if (N >= 0) join(N, X);
  }
  /// Would linking make a ring?
  bool ringNext(int X, int N) const { auto A = at(X), B = at(N); return A.first == B.first && B.second <= A.second; }
  bool ringPrev(int X, int N) const { return ringNext(N, X); }
};

template <class N, class Tag> struct Test {
  using T = bcl::ChainTraits<N, Tag>;
  using Ch = bcl::Chain<N, Tag>;
  using It = bcl::ChainIterator<N, Tag>;
  using CIt = bcl::ChainIteratorC<N, Tag>;
  static void check(Gen &g, std::vector<N> &V, const Model &M) {
    const auto &CV = V;
    for (int I = 0; I < (int)V.size(); ++I) {
      Ch *C = &V[I];
      const Ch *CC = &CV[I];
      int Nx = M.next(I), Pv = M.prev(I);
      N *EN = Nx < 0 ? nullptr : &V[Nx], *EP = Pv < 0 ? nullptr : &V[Pv];
      CHECK("next", T::getNext(C) == EN && T::getNext(CC) == EN, << "element " << I << " is followed by " << (T::getNext(C) ? T::getNext(C)->Id : -1) << " instead of " << Nx);
      CHECK("prev", T::getPrev(C) == EP && T::getPrev(CC) == EP, << "element " << I << " is preceded by " << (T::getPrev(C) ? T::getPrev(C)->Id : -1) << " instead of " << Pv);
      N &R = *C;
      const N &CR = *CC;
      CHECK("cast", &R == &V[I] && &CR == &V[I] && R.Id == I);
    }
    auto walk = [&](auto Tag_, auto B, int First, bool Fwd, bool Post, const std::vector<int> &Exp) {
      std::vector<int> Got;
      auto X = B;
      CHECK("iterate", X == &V[First] && &V[First] == X && !(X != &V[First]) && !(&V[First] != X), << "an iterator differs from its node");
      while (X) {
        Got.push_back(X->Id);
        CHECK("iterate", &*X == X.get() && (*X).Id == X->Id);
        int Nx = M.next(X->Id), Pv = M.prev(X->Id);
        CHECK("iterate", X.getNext() == (Nx < 0 ? nullptr : &V[Nx]) && X.getPrev() == (Pv < 0 ? nullptr : &V[Pv]), << "neighbours of " << X->Id);
        CHECK("iterate", Got.size() <= V.size(), << "a chain does not end");
        auto Old = X;
        auto Ret = Fwd ? (Post ? X++ : ++X) : (Post ? X-- : --X);
        CHECK("iterate", Ret == (Post ? Old : X), << "result of an iterator's step");
        CHECK("iterate", X != Old && !(X == Old));
      }
      CHECK("iterate", Got == Exp, << "visited " << Got.size() << " of " << Exp.size() << " elements");
    };
    for (auto &L : M.C) {
      if (g.below(3)) continue;
      size_t S = g.below(L.size());
      std::vector<int> F(L.begin() + S, L.end()), R(L.rend() - S - 1, L.rend());
      bool Post = g.coin();
      if (g.coin()) {
        walk(0, It(&V[L[S]]), L[S], true, Post, F);
        walk(0, It(&V[L[S]]), L[S], false, Post, R);
      } else {
        walk(0, CIt(&CV[L[S]]), L[S], true, Post, F);
        walk(0, CIt(&CV[L[S]]), L[S], false, Post, R);
      }
    }
  }
  static bool step(Gen &g, std::vector<N> &V, Model &M) {
    int X = (int)g.below(V.size()), Nn = (int)g.below(V.size() + 1) - 1;
    if (Nn == X) return false;
    bool Iter = g.coin();
    unsigned Op = g.below(4);
    if (Nn >= 0 && ((Op == 2 && M.ringNext(X, Nn)) || (Op == 3 && M.ringPrev(X, Nn)))) return false;
    bool Linked = M.C.size() < V.size();
    static const char *Name[] = {"spliceNext", "splicePrev", "mergeNext", "mergePrev"};
    NOTE(Name[Op] << "(element " << Nn << ") at element " << X);
    N *P = Nn < 0 ? nullptr : &V[Nn];
    It I(&V[g.below(V.size())]);
    I = &V[X];
    switch (Op) {
    case 0: if (Iter) I.spliceNext(P); else T::spliceNext(P, &V[X]); M.spliceNext(X, Nn); break;
    case 1: if (Iter) I.splicePrev(P); else T::splicePrev(P, &V[X]); M.splicePrev(X, Nn); break;
    case 2: if (Iter) I.mergeNext(P); else T::mergeNext(P, &V[X]); M.mergeNext(X, Nn); break;
    default: if (Iter) I.mergePrev(P); else T::mergePrev(P, &V[X]); M.mergePrev(X, Nn); break;
    }
    return Linked;
  }
};
} // namespace

PROPERTY(oneChain, 60000, 1500000) {
  std::vector<Plain> V(g.chance(1, 40) ? g.range(11, 60) : 1 + g.below(10));
  for (size_t I = 0; I < V.size(); ++I) V[I].Id = (int)I;
  Model M((int)V.size());
  int Good = 0;
  for (size_t N = V.size() > 10 ? g.range(20, 150) : g.len(40); N--;) {
    Good += Test<Plain, void>::step(g, V, M);
    Test<Plain, void>::check(g, V, M);
  }
  if (Good > 2) g.nontrivial();
}

PROPERTY(twoChains, 40000, 1000000) {
  std::vector<Node> V(g.chance(1, 40) ? g.range(9, 60) : 1 + g.below(8));
  for (size_t I = 0; I < V.size(); ++I) V[I].Id = (int)I;
  Model A((int)V.size()), B((int)V.size());
  int Good = 0;
  for (size_t N = V.size() > 8 ? g.range(20, 150) : g.len(30); N--;) {
    Good += g.coin() ? Test<Node, TagA>::step(g, V, A) : Test<Node, TagB>::step(g, V, B);
    Test<Node, TagA>::check(g, V, A);
    Test<Node, TagB>::check(g, V, B);
  }
  if (Good > 2) g.nontrivial();
}
