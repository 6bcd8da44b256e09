// Descriptors and sets of traits against a model: a set of trait indices, the
// conflicts being computed by the generator from the declaration itself.
#ifndef TRAITX_H
#define TRAITX_H
#include "pbt.h"
#include <bcl/trait.h>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>

using pbt::Gen;
using Bits = std::set<int>; // indices of traits inside one shape

struct Info {
  int n;
  std::vector<int> gid;               // global number of the trait
  std::vector<int> group;             // declared group
  std::vector<std::vector<int>> conf; // traits in conflict
  int local(int G) const {
    for (int I = 0; I < n; ++I)
      if (gid[I] == G) return I;
    return -1;
  }
};

inline std::string show(const Bits &B) {
  std::string S = "{";
  for (int X : B) S += (S.size() > 1 ? "," : "") + std::to_string(X);
  return S + "}";
}
inline std::string show(const std::vector<int> &B) {
  std::string S = "<";
  for (int X : B) S += (S.size() > 1 ? "," : "") + std::to_string(X);
  return S + ">";
}
inline bool conflict(const Info &I, int A, int B) {
  return std::count(I.conf[A].begin(), I.conf[A].end(), B) != 0;
}
inline bool conflictFree(const Info &I, const Bits &S) {
  for (int A : S)
    for (int B : S)
      if (conflict(I, A, B)) return false;
  return true;
}
/// What setting all of W makes of S when W is free of conflicts.
inline Bits doSet(const Info &I, Bits S, const Bits &W) {
  for (int A : W)
    for (int B : I.conf[A]) S.erase(B);
  S.insert(W.begin(), W.end());
  return S;
}

/// Visitor that records global numbers; keeps no state of its own, so that it
/// may be copied.
struct Rec {
  std::vector<int> *Out;
  template <class T> void operator()() { Out->push_back(T::Id); }
};

template <class D> struct Multi {
  std::vector<int> idx;
  void (*set)(D &), (*unset)(D &), (*tset)(D &), (*tunset)(D &);
  void (*ugroup)(D &);
  bool (*is)(const D &), (*isAny)(const D &), (*tis)(const D &),
      (*tisAny)(const D &);
  bcl::TraitKey key, mask;
  std::string keyText, maskText;
};
/// The bits of a key, the highest one first.
inline std::string bitText(bcl::TraitKey K) {
  std::string R;
  for (int B = sizeof(K) * 8 - 1; B >= 0; --B) R += (char)('0' + ((K >> B) & 1));
  return R;
}
template <class D> struct Ops {
  std::vector<Multi<D>> one, many;
  std::vector<void (*)(const D &, std::vector<int> &, bool)> eachConf, eachGroup;
  void (*each)(const D &, std::vector<int> &, bool);
  void (*avail)(std::vector<int> &, bool);
};

template <class D> struct DescOf { using type = D; };
template <class D, class M, class T> struct DescOf<bcl::TraitSet<D, M, T>> {
  using type = D;
};

template <class D, class... T> struct UGroup {
  static void run(D &X) { X.template unset_group<T...>(); }
};
template <class D, class M, class G, class... T>
struct UGroup<bcl::TraitSet<D, M, G>, T...> {
  static void run(bcl::TraitSet<D, M, G> &) {}
};

template <class D, class... T> Multi<D> mk(std::vector<int> Idx) {
  using TD = typename DescOf<D>::type;
  using L = bcl::TypeList<T...>;
  Multi<D> M;
  M.idx = Idx;
  M.set = [](D &X) { X.template set<T...>(); };
  M.unset = [](D &X) { X.template unset<T...>(); };
  M.tset = [](D &X) { bcl::trait::set<T...>(X); };
  M.tunset = [](D &X) { bcl::trait::unset<T...>(X); };
  M.ugroup = &UGroup<D, T...>::run;
  M.is = [](const D &X) { return X.template is<T...>(); };
  M.isAny = [](const D &X) { return X.template is_any<T...>(); };
  M.tis = [](const D &X) {
    return bcl::ForwardTypeList<bcl::trait::Is, L>::Type::is(X);
  };
  M.tisAny = [](const D &X) {
    return bcl::ForwardTypeList<bcl::trait::IsAny, L>::Type::is_any(X);
  };
  M.key = TD::template joinKey<T...>();
  M.mask = TD::template joinMask<T...>();
  std::ostringstream K, A;
  TD::template printKey<T...>(K);
  TD::template printMask<T...>(A);
  M.keyText = K.str();
  M.maskText = A.str();
  return M;
}

template <class D, class... T> Ops<D> mkOps(std::vector<Multi<D>> Many) {
  Ops<D> O;
  int N = 0;
  (O.one.push_back(mk<D, T>({N++})), ...);
  O.many = Many;
  (O.eachConf.push_back([](const D &X, std::vector<int> &V, bool RV) {
    Rec R{&V};
    if (RV) X.template for_each_conflict<T>(Rec{&V});
    else X.template for_each_conflict<T>(R);
  }), ...);
  (O.eachGroup.push_back([](const D &X, std::vector<int> &V, bool RV) {
    Rec R{&V};
    if (RV) X.template for_each_in_group<T>(Rec{&V});
    else X.template for_each_in_group<T>(R);
  }), ...);
  O.each = [](const D &X, std::vector<int> &V, bool RV) {
    Rec R{&V};
    if (RV) X.for_each(Rec{&V});
    else X.for_each(R);
  };
  O.avail = [](std::vector<int> &V, bool RV) {
    Rec R{&V};
    if (RV) D::for_each_available(Rec{&V});
    else D::for_each_available(R);
  };
  return O;
}

/// The traits that were visited, as local indices; each must come once.
inline Bits visited(const Info &I, const std::vector<int> &V, const char *What) {
  Bits R;
  for (int G : V) {
    int L = I.local(G);
    CHECK("visit-foreign", L >= 0, << What << " visits trait " << G);
    CHECK("visit-once", R.insert(L).second, << What << " visits trait " << L << " twice");
  }
  return R;
}

/// Everything that can be asked about one object.
template <class D>
void verify(Gen &g, const Info &I, const Ops<D> &O, const D &X, const Bits &M) {
  for (int K = 0; K < I.n; ++K) {
    CHECK("is", O.one[K].is(X) == (M.count(K) != 0),
          << "trait " << K << ", model " << show(M));
    CHECK("is-any", O.one[K].isAny(X) == (M.count(K) != 0),
          << "trait " << K << ", model " << show(M));
  }
  for (auto &A : O.many) {
    bool All = true, Any = false;
    for (int K : A.idx) {
      All &= M.count(K) != 0;
      Any |= M.count(K) != 0;
    }
    CHECK("is-many", A.is(X) == All && A.tis(X) == All,
          << show(A.idx) << ", model " << show(M));
    CHECK("is-any-many", A.isAny(X) == Any && A.tisAny(X) == Any,
          << show(A.idx) << ", model " << show(M));
  }
  CHECK("conflict-free", conflictFree(I, M), << show(M));
  bool RV = g.coin();
  std::vector<int> V;
  O.each(X, V, RV);
  Bits E = visited(I, V, "for_each");
  CHECK("for-each", E == M, << show(E) << " visited, model " << show(M));
  int T = (int)g.below(I.n);
  V.clear();
  O.eachConf[T](X, V, RV);
  E = visited(I, V, "for_each_conflict");
  Bits W;
  for (int B : I.conf[T])
    if (M.count(B)) W.insert(B);
  CHECK("for-each-conflict", E == W,
        << "trait " << T << ": " << show(E) << " visited, model " << show(W));
  V.clear();
  O.eachGroup[T](X, V, RV);
  E = visited(I, V, "for_each_in_group");
  W.clear();
  for (int B : M)
    if (I.group[B] == I.group[T]) W.insert(B);
  CHECK("for-each-in-group", E == W,
        << "trait " << T << ": " << show(E) << " visited, model " << show(W));
  std::ostringstream OS, Want;
  X.print(OS);
  bcl::TraitKey Key = 0;
  for (int B : M) Key |= O.one[B].key;
  for (int B = 63; B >= 0; --B) Want << ((Key >> B) & 1);
  CHECK("print", OS.str() == Want.str(), << OS.str() << " != " << Want.str());
}

/// The traits an object holds according to itself (only to follow operations
/// whose outcome is left open).
template <class D> Bits ask(const Info &I, const Ops<D> &O, const D &X) {
  Bits R;
  for (int K = 0; K < I.n; ++K)
    if (O.one[K].is(X)) R.insert(K);
  return R;
}

/// After W was set in an object that held M: exact when W is free of
/// conflicts, otherwise only what any order of setting would give.
template <class D>
Bits afterSet(const Info &I, const Ops<D> &O, const D &X, const Bits &M,
              const Bits &W) {
  if (conflictFree(I, W)) return doSet(I, M, W);
  Bits R = ask(I, O, X), Free = W;
  for (int A : W) Free.insert(I.conf[A].begin(), I.conf[A].end());
  for (int K = 0; K < I.n; ++K)
    if (!Free.count(K))
      CHECK("set-untouched", (R.count(K) != 0) == (M.count(K) != 0),
            << "setting " << show(W) << " changes trait " << K);
  for (int K : R)
    CHECK("set-named", M.count(K) || W.count(K),
          << "setting " << show(W) << " sets trait " << K);
  CHECK("set-conflict-free", conflictFree(I, R),
        << "setting " << show(W) << " gives " << show(R));
  return R;
}

/// Facts about the declaration alone.
template <class D> void statics(Gen &g, const Info &I, const Ops<D> &O) {
  bcl::TraitKey All = 0;
  for (int K = 0; K < I.n; ++K) {
    bcl::TraitKey X = O.one[K].key;
    CHECK("key-one-bit", X && !(X & (X - 1)), << "trait " << K);
    CHECK("key-unique", !(X & All), << "trait " << K);
    All |= X;
  }
  for (int K = 0; K < I.n; ++K) {
    bcl::TraitKey M = 0;
    for (int J = 0; J < I.n; ++J)
      if (I.group[J] == I.group[K]) M |= O.one[J].key;
    CHECK("mask", O.one[K].mask == M, << "trait " << K);
    CHECK("print-key", O.one[K].keyText == bitText(O.one[K].key) && O.one[K].maskText == bitText(M), << "trait " << K << ": " << O.one[K].keyText << " " << O.one[K].maskText);
  }
  for (auto &A : O.many) {
    bcl::TraitKey K = 0, M = 0;
    for (int X : A.idx) {
      K |= O.one[X].key;
      M |= O.one[X].mask;
    }
    CHECK("join-key", K == A.key, << show(A.idx));
    CHECK("join-mask", M == A.mask, << show(A.idx));
    CHECK("print-join", A.keyText == bitText(K) && A.maskText == bitText(M), << show(A.idx) << ": " << A.keyText << " " << A.maskText);
  }
  std::vector<int> V;
  O.avail(V, g.coin());
  Bits B = visited(I, V, "for_each_available"), W;
  for (int K = 0; K < I.n; ++K) W.insert(K);
  CHECK("available", B == W, << show(B));
}

template <class D> void runDesc(Gen &g, const Info &I, const Ops<D> &O) {
  constexpr int N = 3;
  D X[N];
  Bits M[N];
  statics(g, I, O);
  bool Displaced = false;
  size_t Len = g.len(40);
  for (size_t S = 0; S < Len; ++S) {
    int A = (int)g.below(N), B = (int)g.below(N);
    bool Many = !O.many.empty() && g.chance(2, 5);
    auto &U = Many ? g.pick(O.many) : g.pick(O.one);
    Bits W(U.idx.begin(), U.idx.end());
    switch (g.weighted({8, 3, 2, 1, 1, 1, 1})) {
    case 0: {
      bool Tr = g.coin();
      NOTE("d" << A << (Tr ? ": trait::set" : ": set") << show(U.idx));
      Bits Old = M[A];
      Tr ? U.tset(X[A]) : U.set(X[A]);
      M[A] = afterSet(I, O, X[A], Old, W);
      for (int K : Old)
        if (!M[A].count(K) && M[A].size() > 1) Displaced = true;
      break;
    }
    case 1: {
      bool Tr = g.coin();
      NOTE("d" << A << (Tr ? ": trait::unset" : ": unset") << show(U.idx));
      Tr ? U.tunset(X[A]) : U.unset(X[A]);
      for (int K : W) M[A].erase(K);
      break;
    }
    case 2:
      NOTE("d" << A << ": unset_group" << show(U.idx));
      U.ugroup(X[A]);
      for (int K = 0; K < I.n; ++K)
        for (int Y : W)
          if (I.group[K] == I.group[Y]) M[A].erase(K);
      break;
    case 3:
      NOTE("d" << A << ": unset_all");
      X[A].unset_all();
      M[A].clear();
      break;
    case 4:
      NOTE("d" << A << " = d" << B);
      X[A] = X[B];
      M[A] = M[B];
      break;
    case 5: {
      NOTE("d" << A << " = copy of d" << B);
      D C(X[B]);
      X[A] = std::move(C);
      M[A] = M[B];
      break;
    }
    case 6:
      NOTE("compare d" << A << " d" << B);
      CHECK("equal", (X[A] == X[B]) == (M[A] == M[B]),
            << show(M[A]) << " and " << show(M[B]));
      CHECK("not-equal", (X[A] != X[B]) == (M[A] != M[B]),
            << show(M[A]) << " and " << show(M[B]));
      break;
    }
    for (int K = 0; K < N; ++K) verify(g, I, O, X[K], M[K]);
  }
  if (Displaced) g.nontrivial();
}

/// trait::set and trait::update between objects with different declarations.
template <class A, class B>
void runCross(Gen &g, const Info &IA, const Ops<A> &OA, const Info &IB,
              const Ops<B> &OB) {
  A X;
  B Y;
  Bits MX, MY;
  Bits Avail; // traits of A, in B's numbering
  for (int K = 0; K < IA.n; ++K)
    if (IB.local(IA.gid[K]) >= 0) Avail.insert(IB.local(IA.gid[K]));
  size_t Len = g.len(30);
  bool Some = false;
  for (size_t S = 0; S < Len; ++S) {
    switch (g.weighted({3, 1, 3, 1, 2, 2})) {
    case 0: {
      int K = (int)g.below(IA.n);
      NOTE("a: set " << K);
      OA.one[K].set(X);
      MX = doSet(IA, MX, {K});
      break;
    }
    case 1: {
      int K = (int)g.below(IA.n);
      NOTE("a: unset " << K);
      OA.one[K].unset(X);
      MX.erase(K);
      break;
    }
    case 2: {
      int K = (int)g.below(IB.n);
      NOTE("b: set " << K);
      OB.one[K].set(Y);
      MY = doSet(IB, MY, {K});
      break;
    }
    case 3: {
      int K = (int)g.below(IB.n);
      NOTE("b: unset " << K);
      OB.one[K].unset(Y);
      MY.erase(K);
      break;
    }
    default: {
      Bits W;
      for (int K : MX)
        if (IB.local(IA.gid[K]) >= 0) W.insert(IB.local(IA.gid[K]));
      bool Upd = g.coin();
      NOTE((Upd ? "trait::update(a, b)" : "trait::set(a, b)"));
      Bits Old = MY;
      if (Upd) {
        bcl::trait::update(X, Y);
        for (int K : Avail)
          if (!W.count(K)) Old.erase(K);
      } else {
        bcl::trait::set(X, Y);
      }
      if (Upd && !conflictFree(IB, W)) {
        MY = ask(IB, OB, Y);
        CHECK("update-conflict-free", conflictFree(IB, MY), << show(MY));
        for (int K : MY)
          CHECK("update-only", W.count(K) || (!Avail.count(K) && Old.count(K)),
                << "trait " << K << " of b");
      } else {
        MY = afterSet(IB, OB, Y, Old, W);
      }
      if (W.size() > 1) Some = true;
      break;
    }
    }
    verify(g, IA, OA, X, MX);
    verify(g, IB, OB, Y, MY);
  }
  if (Some) g.nontrivial();
}

/// Lists of traits given as a descriptor: all traits of A in an object of B.
template <class A, class B>
void runWhole(Gen &g, const Info &IA, const Info &IB, const Ops<B> &OB) {
  B Y;
  Bits MY, W;
  for (int K = 0; K < IA.n; ++K) W.insert(IB.local(IA.gid[K]));
  size_t Len = g.len(12);
  for (size_t S = 0; S < Len; ++S) {
    switch (g.weighted({4, 2, 2})) {
    case 0: {
      int K = (int)g.below(IB.n);
      NOTE("b: set " << K);
      OB.one[K].set(Y);
      MY = doSet(IB, MY, {K});
      break;
    }
    case 1:
      NOTE("trait::unset<A>(b)");
      bcl::trait::unset<A>(Y);
      if (!MY.empty()) g.nontrivial();
      for (int K : W) MY.erase(K);
      break;
    case 2:
      NOTE("trait::set<A>(b)");
      bcl::trait::set<A>(Y);
      MY = afterSet(IB, OB, Y, MY, W);
      break;
    }
    verify(g, IB, OB, Y, MY);
  }
}
#endif
