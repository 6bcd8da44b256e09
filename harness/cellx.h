// Static maps against a model: one integer per key.
#ifndef CELLX_H
#define CELLX_H
#include "pbt.h"
#include <bcl/cell.h>
#include <bcl/trait.h>
#include <bcl/Json.h>
#include <map>
#include <memory>
#include <string>
#include <typeinfo>
#include <vector>

using pbt::Gen;

/// A value that knows whether it was moved away.
template <int K> struct Box {
  int X = 0;
  Box() = default;
  explicit Box(int V) : X(V) {}
  Box(const Box &) = default;
  Box(Box &&B) : X(B.X) { B.X = -1; }
  Box &operator=(const Box &) = default;
  Box &operator=(Box &&B) {
    int V = B.X;
    B.X = -1;
    X = V;
    return *this;
  }
};

/// Code of a value: -1 is "moved away". Long strings and vectors, so that a
/// move can be told from a copy.
template <class T> struct Code;
#define ARITH(T)                                                               \
  template <> struct Code<T> {                                                 \
    static T enc(int V) { return (T)V; }                                       \
    static int dec(const T &V) { return (int)V; }                              \
    static constexpr bool Moves = false;                                       \
  };
ARITH(int) ARITH(long) ARITH(double) ARITH(short)
template <> struct Code<std::string> {
  static std::string enc(int V) { return std::string(40, 'a') + std::to_string(V); }
  static int dec(const std::string &S) { return S.empty() ? -1 : std::stoi(S.substr(40)); }
  static constexpr bool Moves = true;
};
template <> struct Code<std::vector<int>> {
  static std::vector<int> enc(int V) { return std::vector<int>(3, V); }
  static int dec(const std::vector<int> &S) { return S.empty() ? -1 : S[2]; }
  static constexpr bool Moves = true;
};
template <> struct Code<std::unique_ptr<int>> {
  static std::unique_ptr<int> enc(int V) { return std::make_unique<int>(V); }
  static int dec(const std::unique_ptr<int> &S) { return S ? *S : -1; }
  static constexpr bool Moves = true;
};
template <int K> struct Code<Box<K>> {
  static Box<K> enc(int V) { return Box<K>(V); }
  static int dec(const Box<K> &S) { return S.X; }
  static constexpr bool Moves = true;
};

/// Any: a cell whose content is not specified.
constexpr int Any = -77;

/// Uniform access to the three kinds of maps.
template <class M> struct Kind { // StaticMap
  template <class K> using Val = typename K::ValueType;
  struct Visit {
    std::vector<std::pair<int, int>> *Out;
    int Add;
    template <class C> void operator()(C *P) {
      using K = typename C::CellKey;
      using V = typename K::ValueType;
      auto &R = P->template value<K>();
      Out->push_back({K::Id, Code<V>::dec(R)});
      touch(R);
    }
    template <class V> void touch(V &R) { R = Code<V>::enc(Code<V>::dec(R) + Add); }
    template <class V> void touch(const V &) {}
  };
  struct Key {
    std::vector<int> *Out;
    template <class C> void operator()() { Out->push_back(C::CellKey::Id); }
  };
};
template <int N> struct TypeId; // of the types used in type maps
template <class... T> struct Kind<bcl::StaticTypeMap<T...>> {
  template <class K> using Val = K;
  struct Visit {
    std::vector<std::pair<int, int>> *Out;
    int Add;
    template <class V> void operator()(V &R) {
      using U = std::remove_const_t<V>;
      Out->push_back({idOf<U>(), Code<U>::dec(R)});
      touch(R);
    }
    template <class V> void touch(V &R) { R = Code<V>::enc(Code<V>::dec(R) + Add); }
    template <class V> void touch(const V &) {}
  };
  template <class U> static int idOf() {
    const std::type_info *I[] = {&typeid(T)...};
    for (size_t K = 0; K < sizeof...(T); ++K)
      if (*I[K] == typeid(U)) return (int)K;
    return -1;
  }
  struct Key {
    std::vector<int> *Out;
    template <class C> void operator()() { Out->push_back(idOf<C>()); }
  };
};
template <class Ty, class D> struct Kind<bcl::StaticTraitMap<Ty, D>> {
  template <class K> using Val = Ty;
  struct Visit {
    std::vector<std::pair<int, int>> *Out;
    int Add;
    template <class Tr> void operator()(Ty &R) {
      Out->push_back({Tr::Id, Code<Ty>::dec(R)});
      R = Code<Ty>::enc(Code<Ty>::dec(R) + Add);
    }
    template <class Tr> void operator()(const Ty &R) {
      Out->push_back({Tr::Id, Code<Ty>::dec(R)});
    }
  };
  struct Key {
    std::vector<int> *Out;
    template <class C> void operator()() { Out->push_back(C::Id); }
  };
};

template <class M> struct MapOps {
  std::vector<int> id; // of the keys, in declaration order
  std::vector<void (*)(M &, int, bool)> store;
  std::vector<int (*)(M &)> load, index;
  std::vector<int (*)(const M &)> cload, cindex;
  std::vector<bool> moves;
  std::vector<M *(*)(const std::vector<int> &)> make; // by number of values
  M *(*copy)(const M &);
  void (*assign)(M &, const M &);
};

template <class M, class K> void addMap(MapOps<M> &O, int Id) {
  using V = typename Kind<M>::template Val<K>;
  O.id.push_back(Id);
  O.moves.push_back(Code<V>::Moves);
  O.store.push_back([](M &X, int Y, bool Idx) {
    if (Idx) X[K()] = Code<V>::enc(Y);
    else X.template value<K>() = Code<V>::enc(Y);
  });
  O.load.push_back([](M &X) { return Code<V>::dec(X.template value<K>()); });
  O.index.push_back([](M &X) { return Code<V>::dec(X[K()]); });
  O.cload.push_back([](const M &X) { return Code<V>::dec(X.template value<K>()); });
  O.cindex.push_back([](const M &X) { return Code<V>::dec(X[K()]); });
}
template <class M, class... K, size_t... I>
M *makeMap(const std::vector<int> &V, std::index_sequence<I...>) {
  return new M(Code<typename Kind<M>::template Val<K>>::enc(V[I])...);
}
template <class M> struct AddMake { // prefixes of the list of keys
  template <class... K> struct Of {
    template <class... R> static void run(MapOps<M> &) {}
    template <class H, class... R> static void more(MapOps<M> &O) {
      O.make.push_back([](const std::vector<int> &V) {
        return makeMap<M, K..., H>(V, std::make_index_sequence<sizeof...(K) + 1>());
      });
      next<R...>(O, (bcl::TypeList<K..., H> *)nullptr);
    }
    template <class... R, class... L>
    static void next(MapOps<M> &O, bcl::TypeList<L...> *) {
      if constexpr (sizeof...(R) > 0) AddMake<M>::template Of<L...>::template more<R...>(O);
    }
  };
};
template <class M, bool Copyable, bool Ctor, class... K>
MapOps<M> mkMap(std::vector<int> Ids) {
  MapOps<M> O;
  size_t N = 0;
  (addMap<M, K>(O, Ids[N++]), ...);
  if constexpr (Ctor && sizeof...(K) > 0)
    AddMake<M>::template Of<>::template more<K...>(O);
  O.copy = nullptr;
  O.assign = nullptr;
  if constexpr (Copyable) {
    O.copy = [](const M &X) { return new M(X); };
    O.assign = [](M &X, const M &Y) { X = Y; };
  }
  return O;
}

using Model = std::vector<int>;
template <class M>
void checkMap(const MapOps<M> &O, M &X, const Model &V) {
  for (size_t K = 0; K < O.id.size(); ++K) {
    if (V[K] == Any) continue;
    int A = O.load[K](X), B = O.cload[K](X), C = O.index[K](X), D = O.cindex[K](X);
    CHECK("value", A == V[K] && B == V[K] && C == V[K] && D == V[K],
          << "key " << O.id[K] << " holds " << A << " instead of " << V[K]);
  }
}
template <class M> bool full(const Model &V, const MapOps<M> &) {
  for (int X : V)
    if (X == Any) return false;
  return true;
}
template <class M>
void visitMap(Gen &g, const MapOps<M> &O, M &X, Model &V) {
  int Add = (int)g.below(3);
  bool Const = g.coin();
  std::vector<std::pair<int, int>> Out;
  typename Kind<M>::Visit F{&Out, Add};
  NOTE("for_each" << (Const ? " const" : "") << " adding " << Add);
  if (Const) {
    if (g.coin()) ((const M &)X).for_each(F);
    else ((const M &)X).for_each(typename Kind<M>::Visit{&Out, Add});
  } else {
    if (g.coin()) X.for_each(F);
    else X.for_each(typename Kind<M>::Visit{&Out, Add});
  }
  CHECK("for-each-size", Out.size() == O.id.size(), << Out.size() << " cells");
  for (size_t K = 0; K < Out.size(); ++K) {
    CHECK("for-each-order", Out[K].first == O.id[K], << "place " << K << " visits key " << Out[K].first);
    CHECK("for-each-value", Out[K].second == V[K], << "key " << O.id[K] << ": " << Out[K].second);
    if (!Const) V[K] += Add;
  }
}
template <class M> void keysMap(Gen &g, const MapOps<M> &O) {
  std::vector<int> Out;
  typename Kind<M>::Key F{&Out};
  if (g.coin()) M::for_each_key(F);
  else M::for_each_key(typename Kind<M>::Key{&Out});
  CHECK("for-each-key", Out == O.id, << Out.size() << " keys visited of " << O.id.size());
}

template <class M> struct Inst {
  std::unique_ptr<M> X;
  Model V;
};
template <class M> Inst<M> fresh(Gen &g, const MapOps<M> &O) {
  Inst<M> R;
  R.V.assign(O.id.size(), Any);
  size_t Given = 0;
  if (!O.make.empty() && g.coin()) {
    size_t N = 1 + g.below(O.make.size());
    if (g.chance(2, 3)) N = O.make.size();
    for (size_t K = 0; K < N; ++K) R.V[K] = (int)g.below(1000);
    NOTE("construct from " << N << " values");
    R.X.reset(O.make[N - 1](R.V));
    checkMap(O, *R.X, R.V);
    Given = N;
  } else {
    NOTE("construct");
    R.X.reset(new M());
  }
  for (size_t K = Given; K < O.id.size(); ++K) {
    R.V[K] = (int)g.below(1000);
    O.store[K](*R.X, R.V[K], false);
  }
  return R;
}
template <class M> void moved(const MapOps<M> &O, Model &V) {
  for (size_t K = 0; K < V.size(); ++K)
    if (O.moves[K]) V[K] = -1;
}
/// After a map was moved from it is filled again.
template <class M> void refill(Gen &g, const MapOps<M> &O, Inst<M> &I) {
  checkMap(O, *I.X, I.V);
  for (size_t K = 0; K < O.id.size(); ++K)
    if (I.V[K] == -1) O.store[K](*I.X, I.V[K] = (int)g.below(1000), false);
}

template <class M> void runMap(Gen &g, const MapOps<M> &O) {
  Inst<M> S[3] = {fresh(g, O), fresh(g, O), fresh(g, O)};
  keysMap<M>(g, O);
  size_t Len = g.len(25);
  int Copies = 0;
  for (size_t T = 0; T < Len; ++T) {
    int A = (int)g.below(3), B = (int)g.below(3);
    switch (g.weighted({6, 3, 2, 2, 2, 2, 1})) {
    case 0: {
      size_t K = g.below(O.id.size());
      int V = (int)g.below(1000);
      bool Idx = g.coin();
      NOTE("m" << A << (Idx ? "[" : ".value<") << O.id[K] << "] = " << V);
      O.store[K](*S[A].X, V, Idx);
      S[A].V[K] = V;
      break;
    }
    case 1:
      visitMap(g, O, *S[A].X, S[A].V);
      break;
    case 2:
      if (!O.copy) break;
      NOTE("m" << A << " = copy of m" << B);
      S[A].X.reset(O.copy(*S[B].X));
      S[A].V = S[B].V;
      ++Copies;
      break;
    case 3:
      if (!O.assign) break;
      NOTE("m" << A << " = m" << B);
      O.assign(*S[A].X, *S[B].X);
      S[A].V = S[B].V;
      ++Copies;
      break;
    case 4:
      if (A == B) break;
      NOTE("m" << A << " = move(m" << B << ")");
      *S[A].X = std::move(*S[B].X);
      S[A].V = S[B].V;
      moved(O, S[B].V);
      refill(g, O, S[B]);
      ++Copies;
      break;
    case 5: {
      if (A == B) break;
      NOTE("m" << A << " constructed from move(m" << B << ")");
      S[A].X.reset(new M(std::move(*S[B].X)));
      S[A].V = S[B].V;
      moved(O, S[B].V);
      refill(g, O, S[B]);
      ++Copies;
      break;
    }
    case 6:
      S[A] = fresh(g, O);
      break;
    }
    for (auto &I : S) checkMap(O, *I.X, I.V);
  }
  if (Copies > 1 && O.id.size() > 1) g.nontrivial();
}

/// Transfers between maps of different shapes (StaticMap only).
template <class A, class B, bool Copyable>
void runTransfer(Gen &g, const MapOps<A> &OA, const MapOps<B> &OB) {
  Inst<A> X = fresh(g, OA);
  Inst<B> Y = fresh(g, OB);
  size_t Len = 1 + g.len(8);
  std::vector<std::pair<size_t, size_t>> Both;
  for (size_t I = 0; I < OA.id.size(); ++I)
    for (size_t J = 0; J < OB.id.size(); ++J)
      if (OA.id[I] == OB.id[J]) Both.push_back({I, J});
  for (size_t T = 0; T < Len; ++T) {
    switch (g.weighted({2, 2, 2, 2, 1, 1})) {
    case 0: // from X to Y, visiting the target
    case 1: // from X to Y, visiting the source
    {
      bool Source = g.coin();
      if constexpr (Copyable) {
        NOTE("copy a to b, visiting " << (Source ? "a" : "b"));
        if (Source) {
          bcl::CopyFromCellFunctor<B> F(Y.X.get());
          if (g.coin()) X.X->for_each(F);
          else ((const A &)*X.X).for_each(F);
        } else {
          bcl::CopyToCellFunctor<A> F(X.X.get());
          Y.X->for_each(F);
        }
        for (auto &P : Both) Y.V[P.second] = X.V[P.first];
      }
      break;
    }
    case 2:
    case 3: {
      bool Source = g.coin();
      NOTE("move a to b, visiting " << (Source ? "a" : "b"));
      if (Source) {
        bcl::MoveFromCellFunctor<B> F(Y.X.get());
        X.X->for_each(F);
      } else {
        bcl::MoveToCellFunctor<A> F(X.X.get());
        Y.X->for_each(F);
      }
      for (auto &P : Both) {
        Y.V[P.second] = X.V[P.first];
        if (OA.moves[P.first]) X.V[P.first] = -1;
      }
      refill(g, OA, X);
      break;
    }
    case 4: {
      size_t K = g.below(OA.id.size());
      int V = (int)g.below(1000);
      NOTE("a: store " << V << " under " << OA.id[K]);
      OA.store[K](*X.X, V, g.coin());
      X.V[K] = V;
      break;
    }
    case 5: {
      size_t K = g.below(OB.id.size());
      int V = (int)g.below(1000);
      NOTE("b: store " << V << " under " << OB.id[K]);
      OB.store[K](*Y.X, V, g.coin());
      Y.V[K] = V;
      break;
    }
    }
    checkMap(OA, *X.X, X.V);
    checkMap(OB, *Y.X, Y.V);
  }
  if (Both.size() > 1) g.nontrivial();
}
#endif
