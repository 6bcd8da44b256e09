// C29: legacy collections of cells and static trees against one number per key.
#pragma once
#include "pbt.h"
#include <bcl/legacy/cell_legacy.h>
#include <bcl/legacy/tree.h>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using pbt::Gen;

namespace lx {
/// An object that is referred to by a pointer in a cell.
struct Obj {
  static int &alive() { static int N; return N; }
  int V;
  explicit Obj(int V) : V(V) { ++alive(); }
  ~Obj() { --alive(); V = -77; }
};
/// A value that is not trivial to copy.
template <int N> struct Box {
  std::vector<int> V{-1};
};

template <class T> struct Tok {
  static void put(T &X, int K) { X = (T)K; }
  static int get(const T &X) { return (int)X; }
};
template <> struct Tok<std::string> {
  static void put(std::string &X, int K) { X = std::string(K % 40, 'x') + std::to_string(K); }
  static int get(const std::string &X) {
    std::size_t P = X.find_first_not_of('x');
    int K = P == std::string::npos ? -2 : atoi(X.c_str() + P);
    std::string Y;
    if (K >= 0) put(Y, K);
    return K >= 0 && X == Y ? K : -2;
  }
};
template <int N> struct Tok<Box<N>> {
  static void put(Box<N> &X, int K) { X.V.assign(1 + K % 5, K); }
  static int get(const Box<N> &X) {
    for (int E : X.V) if (E != X.V[0]) return -2;
    return X.V.size() == 1u + X.V[0] % 5 ? X.V[0] : -3;
  }
};
template <> struct Tok<Obj *> { // pointers are not owned by cells
  static Obj *at(int K) {
    static std::vector<std::unique_ptr<Obj>> P;
    while ((int)P.size() <= K) { P.emplace_back(new Obj((int)P.size())); --Obj::alive(); }
    return P[K].get();
  }
  static void put(Obj *&X, int K) { X = at(K); }
  static int get(Obj *const &X) { return X ? X->V : -4; }
};

/// What can be done with the cells of C; the place is the one in the declaration.
template <class C> struct Ops {
  std::vector<int> Ids;
  std::vector<std::function<void(C &, int, int)>> Put;
  std::vector<std::function<int(C &, int)>> Get;
};
template <class C, class K> void addKey(Ops<C> &O) {
  using T = typename K::ValueType;
  O.Ids.push_back(K::Id);
  O.Put.push_back([](C &X, int V, int How) {
    if (How & 1) Tok<T>::put(X.template Value<K>(), V);
    else Tok<T>::put(X[K()], V);
  });
  O.Get.push_back([](C &X, int How) {
    const C &Y = X;
    switch (How & 3) {
    case 0: return Tok<T>::get(X.template Value<K>());
    case 1: return Tok<T>::get(X[K()]);
    case 2: return Tok<T>::get(Y.template Value<K>());
    default: return Tok<T>::get(Y[K()]);
    }
  });
}
template <class C, class... Ks> const Ops<C> &ops() {
  static const Ops<C> O = [] {
    Ops<C> R;
    (addKey<C, Ks>(R), ...);
    return R;
  }();
  return O;
}

struct Reader {
  std::vector<int> Ids, Vals;
  template <class X> void operator()(X *P) {
    using Id = typename std::remove_const<X>::type::CellId;
    Ids.push_back(Id::Id);
    Vals.push_back(Tok<typename Id::ValueType>::get(P->template Value<Id>()));
  }
};
struct Writer {
  std::vector<int> Vals;
  std::size_t I = 0;
  template <class X> void operator()(X *P) {
    using Id = typename X::CellId;
    Tok<typename Id::ValueType>::put(P->template Value<Id>(), Vals.at(I++));
  }
};
struct Describer {
  std::vector<int> Ids;
  template <class X> void operator()() { Ids.push_back(X::CellId::Id); }
};
inline std::string show(const std::vector<int> &V) {
  std::string S;
  for (int X : V) S += (S.empty() ? "" : " ") + std::to_string(X);
  return "{" + S + "}";
}

template <class C> void verify(Gen &g, const Ops<C> &O, C *A, const std::vector<std::vector<int>> &M) {
  for (std::size_t J = 0; J < M.size(); ++J)
    for (std::size_t K = 0; K < O.Ids.size(); ++K) {
      int V = O.Get[K](A[J], (int)(J + K));
      CHECK("value", V == M[J][K], << "cell " << O.Ids[K] << " of object " << J << " holds " << V << " instead of " << M[J][K]);
    }
}
template <class C> std::vector<int> fill(Gen &g, const Ops<C> &O, C &X) {
  std::vector<int> V;
  for (std::size_t K = 0; K < O.Ids.size(); ++K) {
    V.push_back((int)g.below(100));
    O.Put[K](X, V[K], (int)g.below(2));
  }
  return V;
}

template <class C> void runCells(Gen &g, const Ops<C> &O) {
  C A[2];
  std::vector<std::vector<int>> M;
  for (auto &X : A) M.push_back(fill(g, O, X));
  unsigned Copies = 0;
  for (std::size_t N = 1 + g.below(12); N--;) {
    int I = (int)g.below(2);
    C &X = A[I];
    switch (g.below(6)) {
    case 0: case 1: {
      std::size_t K = g.below(O.Ids.size());
      M[I][K] = (int)g.below(100);
      NOTE("object " << I << ": cell " << O.Ids[K] << " = " << M[I][K]);
      O.Put[K](X, M[I][K], (int)g.below(2));
      break;
    }
    case 2: {
      NOTE("object " << I << " = object " << !I);
      X = A[!I];
      M[I] = M[!I];
      ++Copies;
      break;
    }
    case 3: {
      NOTE("copy of object " << I);
      C Y(X);
      std::vector<std::vector<int>> N(1, M[I]);
      verify(g, O, &Y, N);
      N[0] = fill(g, O, Y);
      verify(g, O, &Y, N);
      ++Copies;
      break;
    }
    case 4: {
      Writer W;
      for (auto &V : M[I]) { V = (int)g.below(100); W.Vals.push_back(V); }
      NOTE("object " << I << ".Foreach(store " << show(W.Vals) << ")");
      X.Foreach(W);
      CHECK("foreach", W.I == W.Vals.size(), << W.I << " cells are visited");
      break;
    }
    default: {
      Reader R;
      const C &Y = X;
      if (g.coin()) X.Foreach(R);
      else Y.Foreach(R);
      NOTE("object " << I << ".Foreach(read) -> " << show(R.Vals));
      CHECK("foreach", R.Ids == O.Ids, << "the cells " << show(R.Ids) << " are visited instead of " << show(O.Ids));
      CHECK("foreach", R.Vals == M[I], << "the values " << show(R.Vals) << " are visited instead of " << show(M[I]));
      Describer D;
      C::ForeachDefinition(D);
      CHECK("definition", D.Ids == O.Ids, << "the cells " << show(D.Ids) << " are described instead of " << show(O.Ids));
    }
    }
    verify(g, O, A, M);
  }
  if (Copies && O.Ids.size() > 1) g.nontrivial();
}

/// Cells of one collection are copied to another one and back.
template <class A, class B> void runTransfer(Gen &g, const Ops<A> &OA, const Ops<B> &OB) {
  A X;
  B Y;
  std::vector<std::vector<int>> MX{fill(g, OA, X)}, MY{fill(g, OB, Y)};
  for (std::size_t N = 1 + g.below(5); N--;) {
    bool To = g.coin();
    NOTE((To ? "CopyTo from " : "CopyFrom from ") << show(MX[0]));
    if (To) {
      Base::CopyToCellFunctor<A> F(&X);
      Y.Foreach(F);
    } else {
      Base::CopyFromCellFunctor<B> F(&Y);
      const A &C = X;
      if (g.coin()) X.Foreach(F);
      else C.Foreach(F);
    }
    unsigned Common = 0;
    for (std::size_t I = 0; I < OA.Ids.size(); ++I)
      for (std::size_t J = 0; J < OB.Ids.size(); ++J)
        if (OA.Ids[I] == OB.Ids[J]) { MY[0][J] = MX[0][I]; ++Common; }
    verify(g, OA, &X, MX);
    verify(g, OB, &Y, MY);
    if (Common && Common < OA.Ids.size() + OB.Ids.size() - Common) g.nontrivial();
    MX[0] = fill(g, OA, X);
  }
}

/// Pointers are initialised with null; what they refer to can be deleted.
template <class C> struct PtrOps {
  std::vector<std::function<Obj *&(C &)>> At;
};
template <class C, class K> void addPtr(PtrOps<C> &O) {
  if constexpr (std::is_same<typename K::ValueType, Obj *>::value)
    O.At.push_back([](C &X) -> Obj *& { return X.template Value<K>(); });
}
template <class C, class... Ks> void runPointers(Gen &g, const Ops<C> &O) {
  static const PtrOps<C> P = [] {
    PtrOps<C> R;
    (addPtr<C, Ks>(R), ...);
    return R;
  }();
  int Before = Obj::alive();
  C X;
  auto M = fill(g, O, X);
  for (std::size_t N = 1 + g.below(3); N--;) {
    Base::InitCellFunctor I;
    X.Foreach(I);
    for (auto &F : P.At) CHECK("init", F(X) == nullptr, << "a pointer is not null after the initialisation");
    int Made = 0;
    for (auto &F : P.At) if (g.coin()) { F(X) = new Obj((int)g.below(100)); ++Made; }
    NOTE(Made << " of " << P.At.size() << " pointers are set and cleared");
    CHECK("alive", Obj::alive() == Before + Made);
    Base::ClearCellFunctor D;
    X.Foreach(D);
    CHECK("clear", Obj::alive() == Before, << Obj::alive() - Before << " objects were not deleted");
    if (Made) g.nontrivial();
  }
  Base::InitCellFunctor I;
  X.Foreach(I);
  // Cells that are not pointers are left alone by both.
  Reader R;
  X.Foreach(R);
  for (std::size_t K = 0; K < O.Ids.size(); ++K)
    CHECK("others", R.Vals[K] == -4 || R.Vals[K] == M[K], << "cell " << O.Ids[K] << " holds " << R.Vals[K] << " instead of " << M[K]);
}

/// Trees: Ids in the order of visiting.
struct TreeReader {
  std::vector<int> Ids, Vals;
  template <class X> void operator()(X &N) {
    using Id = typename X::Id;
    Ids.push_back(Id::Id);
    Vals.push_back(Tok<typename std::remove_reference<typename Id::ValueType>::type>::get(N.template Value<Id>()));
  }
};
struct TreeWriter {
  std::vector<int> Vals;
  std::size_t I = 0;
  template <class X> void operator()(X &N) {
    using Id = typename X::Id;
    Tok<typename Id::ValueType>::put(N.template Value<Id>(), Vals.at(I++));
  }
};
/// Values in the order of visiting, collected through LeftNode() and RightNode().
inline void walk(Utility::Null, std::vector<int> &, std::vector<int> &) {}
template <class T> void walk(T &X, std::vector<int> &Ids, std::vector<int> &Vals) {
  walk(X.LeftNode(), Ids, Vals);
  walk(X.RightNode(), Ids, Vals);
  using Id = typename std::remove_const<T>::type::Id;
  Ids.push_back(Id::Id);
  Vals.push_back(Tok<typename std::remove_reference<typename Id::ValueType>::type>::get(X.template Value<Id>()));
}
template <class C> void treeState(Gen &g, const Ops<C> &O, C &X, const std::vector<int> &M) {
  std::vector<std::vector<int>> All(1, M);
  verify(g, O, &X, All);
  for (int K = 0; K < 2; ++K) {
    std::vector<int> Ids, Vals;
    if (K) walk(X, Ids, Vals);
    else walk((const C &)X, Ids, Vals);
    CHECK("walk", Ids == O.Ids && Vals == M, << "the nodes " << show(Ids) << show(Vals) << " are reached instead of " << show(O.Ids) << show(M));
  }
}
template <class C> void runTree(Gen &g, const Ops<C> &O) {
  C A[2];
  std::vector<std::vector<int>> M;
  for (auto &X : A) M.push_back(fill(g, O, X));
  for (std::size_t N = 1 + g.below(10); N--;) {
    int I = (int)g.below(2);
    C &X = A[I];
    switch (g.below(5)) {
    case 0: case 1: {
      std::size_t K = g.below(O.Ids.size());
      M[I][K] = (int)g.below(100);
      NOTE("object " << I << ": node " << O.Ids[K] << " = " << M[I][K]);
      O.Put[K](X, M[I][K], (int)g.below(2));
      break;
    }
    case 2:
      NOTE("object " << I << " = object " << !I);
      if (g.coin()) X = A[!I];
      else { C Y(A[!I]); X = Y; }
      M[I] = M[!I];
      if (O.Ids.size() > 2) g.nontrivial();
      break;
    case 3: {
      TreeWriter W;
      for (auto &V : M[I]) { V = (int)g.below(100); W.Vals.push_back(V); }
      NOTE("object " << I << ": all nodes are stored " << show(W.Vals));
      Base::Visit(X, W);
      CHECK("visit", W.I == W.Vals.size());
      break;
    }
    default: {
      TreeReader R;
      const C &Y = X;
      if (g.coin()) Base::Visit(X, R);
      else Base::Visit(Y, R);
      CHECK("visit", R.Ids == O.Ids && R.Vals == M[I], << "the nodes " << show(R.Ids) << show(R.Vals) << " are visited instead of " << show(O.Ids) << show(M[I]));
      break;
    }
    }
    for (int K = 0; K < 2; ++K) treeState(g, O, A[K], M[K]);
  }
}
/// A tree is made of a value and two subtrees, and of a tree of the same shape.
template <class C, class D> void runTreeMake(Gen &g, const Ops<C> &O, const Ops<D> &OD) {
  C A, B;
  auto MA = fill(g, O, A), MB = fill(g, O, B);
  int V = (int)g.below(100);
  typename C::ValueType Root;
  Tok<typename C::ValueType>::put(Root, V);
  bool L = g.coin(), R = g.coin();
  NOTE("value " << V << ", left of " << (L ? "A" : "B") << ", right of " << (R ? "A" : "B"));
  C X(Root, (L ? A : B).LeftNode(), (R ? A : B).RightNode());
  std::vector<int> Ids, M, Ignored;
  walk((L ? A : B).LeftNode(), Ids, M);
  walk((R ? A : B).RightNode(), Ids, M);
  M.push_back(V);
  treeState(g, O, X, M);
  D Y(X); // other identifiers, values of the same types
  treeState(g, OD, Y, M);
  M = fill(g, OD, Y);
  treeState(g, OD, Y, M);
  if (Ids.size() > 1) g.nontrivial();
}
} // namespace lx
