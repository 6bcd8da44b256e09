// Trait maps, distribution of sets over maps, pointer cells.
#ifndef CELL_EXTRA_H
#define CELL_EXTRA_H
#include "cellx.h"
#include <algorithm>
#include <set>

/// A trait map whose order of cells is not told: visits are compared as sets.
template <class M, class D> void runTraitMap(Gen &g, const MapOps<M> &O) {
  Inst<M> S[2] = {fresh(g, O), fresh(g, O)};
  size_t Len = g.len(20);
  for (size_t T = 0; T < Len; ++T) {
    int A = (int)g.below(2), B = 1 - A;
    switch (g.weighted({4, 2, 1})) {
    case 0: {
      size_t K = g.below(O.id.size());
      int V = (int)g.below(1000);
      NOTE("m" << A << ": store " << V << " under " << O.id[K]);
      O.store[K](*S[A].X, V, g.coin());
      S[A].V[K] = V;
      break;
    }
    case 1: {
      std::vector<std::pair<int, int>> Out, Want;
      int Add = (int)g.below(3);
      NOTE("m" << A << ": for_each adding " << Add);
      S[A].X->for_each(typename Kind<M>::Visit{&Out, Add});
      for (size_t K = 0; K < O.id.size(); ++K) {
        Want.push_back({O.id[K], S[A].V[K]});
        S[A].V[K] += Add;
      }
      std::sort(Out.begin(), Out.end());
      std::sort(Want.begin(), Want.end());
      CHECK("for-each-once", Out == Want, << Out.size() << " cells");
      break;
    }
    case 2:
      NOTE("m" << A << " = m" << B);
      *S[A].X = *S[B].X;
      S[A].V = S[B].V;
      g.nontrivial();
      break;
    }
    for (auto &I : S) checkMap(O, *I.X, I.V);
  }
}

/// A descriptor is stored in the cells of exactly the traits it holds.
template <class D, class... Tr>
void runDistribute(Gen &g, std::vector<int> Ids) {
  using VM = bcl::StaticTraitMap<std::vector<D *>, D>;
  using CM = bcl::StaticTraitMap<int, D>;
  using SM = bcl::StaticTraitMap<std::set<D *>, D>;
  std::vector<void (*)(D &)> Set = {[](D &X) { X.template set<Tr>(); }...};
  std::vector<void (*)(D &)> Unset = {[](D &X) { X.template unset<Tr>(); }...};
  std::vector<bool (*)(const D &)> Is = {[](const D &X) { return X.template is<Tr>(); }...};
  D Objs[4];
  VM V;
  CM C;
  SM P;
  ((C.template value<Tr>() = 0), ...);
  std::vector<std::vector<D *>> Want(Ids.size());
  size_t Len = g.len(20), Stored = 0;
  std::vector<std::set<D *>> Last(Ids.size());
  for (size_t T = 0; T < Len; ++T) {
    D &X = Objs[g.below(4)];
    size_t K = g.below(Ids.size());
    if (g.chance(2, 3)) {
      bool U = g.chance(1, 4);
      NOTE("object " << &X - Objs << (U ? ": unset " : ": set ") << Ids[K]);
      (U ? Unset : Set)[K](X);
      continue;
    }
    NOTE("distribute object " << &X - Objs);
    bcl::TraitMapConstructor<D, VM> F(X, V);
    if (g.coin()) X.for_each(F);
    else X.for_each(bcl::TraitMapConstructor<D, VM>(X, V));
    X.for_each(bcl::TraitMapConstructor<D, CM, bcl::CountInserter>(X, C));
    X.for_each(bcl::TraitMapConstructor<D, SM, bcl::SimpleInserter>(X, P));
    CHECK("map-and-set", &F.getTraitMap() == &V && &F.getTraitSet() == &X, << "");
    for (size_t J = 0; J < Ids.size(); ++J)
      if (Is[J](X)) {
        Want[J].push_back(&X);
        Last[J].insert(&X);
        ++Stored;
      }
    size_t J = 0;
    auto Cmp = [&](const std::vector<D *> &G, int N, const std::set<D *> &L) {
      CHECK("distributed", G == Want[J], << "trait " << Ids[J] << ": " << G.size() << " objects");
      CHECK("counted", N == (int)Want[J].size(), << "trait " << Ids[J] << ": " << N);
      CHECK("stored", L == Last[J], << "trait " << Ids[J]);
      ++J;
    };
    (Cmp(V.template value<Tr>(), C.template value<Tr>(), P.template value<Tr>()), ...);
  }
  if (Stored > 2) g.nontrivial();
}

/// JSON form of a trait map: the names of traits are the names of fields.
template <class D, class... Tr>
void runTraitJson(Gen &g, std::vector<int> Ids) {
  using M = bcl::StaticTraitMap<std::vector<int>, D>;
  M A, B;
  bool Some = false;
  auto Fill = [&](std::vector<int> &V, std::vector<int> &W) {
    for (size_t N = g.len(4); N; --N) V.push_back((int)g.below(100));
    for (size_t N = g.len(2); N; --N) W.push_back((int)g.below(100));
    Some |= V.size() > 1;
  };
  (Fill(A.template value<Tr>(), B.template value<Tr>()), ...);
  std::string S;
  json::Traits<M>::unparse(S, A);
  NOTE(S);
  size_t J = 0;
  auto Named = [&](const std::vector<int> &V) {
    std::string T = "\"trait" + std::to_string(Ids[J++]) + "\":";
    std::string C = S;
    C.erase(std::remove(C.begin(), C.end(), ' '), C.end());
    CHECK("json-name", C.find(T) != C.npos, << T << " is not in " << S);
  };
  (Named(A.template value<Tr>()), ...);
  bool Ok;
  json::Parser<> P(S);
  Ok = P.parse(B);
  CHECK("json-parse", Ok && !P.hasErrors(), << S);
  auto Cmp = [&](const std::vector<int> &V, const std::vector<int> &W) {
    CHECK("json-value", V == W, << S);
  };
  (Cmp(A.template value<Tr>(), B.template value<Tr>()), ...);
  if (Some) g.nontrivial();
}

// Pointer cells.
struct PK0 { typedef Box<1> *ValueType; };
struct PK1 { typedef int ValueType; };
struct PK2 { typedef std::string *ValueType; };
struct PK3 { typedef const std::vector<int> *ValueType; };
#if PART == 0
PROPERTY(pointers, 3000, 30000) {
  bcl::StaticMap<PK0, PK1, PK2, PK3> M;
  M.value<PK1>() = 5;
  M.for_each(bcl::InitCellFunctor());
  CHECK("init", !M.value<PK0>() && !M.value<PK2>() && !M.value<PK3>(), << "a pointer is not null");
  CHECK("init-other", M.value<PK1>() == 5, << "a value is changed");
  unsigned W = (unsigned)g.below(8);
  if (W & 1) M.value<PK0>() = new Box<1>(1);
  if (W & 2) M.value<PK2>() = new std::string("abc");
  if (W & 4) M.value<PK3>() = new std::vector<int>(3);
  if (W) g.nontrivial();
  NOTE("pointers " << W);
  bcl::ClearCellFunctor F;
  if (g.coin()) M.for_each(F);
  else M.for_each(bcl::ClearCellFunctor());
  CHECK("clear-other", M.value<PK1>() == 5, << "a value is changed");
}
#endif
#endif
