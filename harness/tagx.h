// Tagged tuples and pairs against one integer per element.
#ifndef TAGX_H
#define TAGX_H
#include "cellx.h"
#include <bcl/tagged.h>
#include <bcl/tuple_utils.h>
#include <bcl/convertible_pair.h>

template <int I> struct Tag { static constexpr int Id = I; };

template <class TT> struct TupOps {
  size_t n = 0;
  // one entry per tag, with the element that carries it
  struct ByTag {
    int tag;
    size_t elem;
    int (*get)(TT &);
    int (*cget)(const TT &);
    void (*set)(TT &, int);
    const void *(*addr)(TT &);
    size_t idx;
    bool type, tagged, mainTag, alias;
  };
  std::vector<ByTag> tags;
  struct ByElem {
    int (*get)(TT &);
    const void *(*addr)(TT &);
    bool tag, moves;
    int main;
  };
  std::vector<ByElem> elems;
};
template <class TT, size_t E, class Tg, class Want, class Tup> void addTag(TupOps<TT> &O) {
  using V = typename Tup::type;
  typename TupOps<TT>::ByTag T;
  T.tag = Tg::Id;
  T.elem = E;
  T.get = [](TT &X) { return Code<V>::dec(X.template get<Tg>()); };
  T.cget = [](const TT &X) { return Code<V>::dec(X.template get<Tg>()); };
  T.set = [](TT &X, int Y) { X.template get<Tg>() = Code<V>::enc(Y); };
  T.addr = [](TT &X) { return (const void *)&X.template get<Tg>(); };
  T.idx = E;
  O.tags.push_back(T);
}

/// Operations common to tuples and pairs; Elem<E> is the bcl::tagged.
template <class TT, class... Elem> struct Build {
  template <size_t E, class El, class... Al>
  static void tags(TupOps<TT> &O, bcl::TypeList<Al...> *) {
    (addTag<TT, E, Al, void, El>(O), ...);
    (query<Al, El>(O.tags[O.tags.size() - sizeof...(Al) + pos<Al, Al...>()]), ...);
  }
  template <class T, class... L> static constexpr size_t pos() {
    size_t N = 0;
    bool Found = false;
    ((Found |= std::is_same_v<T, L>, N += !Found), ...);
    return N;
  }
  template <class Al, class El> static void query(typename TupOps<TT>::ByTag &T) {
    using G = bcl::get_tagged<Al, Elem...>;
    using GL = bcl::get_tagged<Al, bcl::TypeList<Elem...>>;
    T.tagged = std::is_same_v<G, El> && std::is_same_v<GL, El>;
    T.type = std::is_same_v<bcl::get_tagged_t<Al, Elem...>, typename El::type>;
    T.mainTag = std::is_same_v<bcl::get_tagged_tag<Al, Elem...>, typename El::tag>;
    T.alias = std::is_same_v<bcl::get_tagged_alias<Al, Elem...>, typename El::alias>;
  }
};

template <class TT> struct IsTuple : std::false_type {};
template <class... E> struct IsTuple<bcl::tagged_tuple<E...>> : std::true_type {};

template <class TT, class... Elem> struct Maker {
  template <size_t... I> static TupOps<TT> run(std::index_sequence<I...>) {
    TupOps<TT> O;
    O.n = sizeof...(Elem);
    (Build<TT, Elem...>::template tags<I, Elem>(O, (typename Elem::alias *)nullptr), ...);
    (elem<I, Elem>(O), ...);
    if constexpr (IsTuple<TT>::value) {
      size_t K = 0;
      auto Idx = [&](auto *L) { idx(O, K, L); };
      (Idx((typename Elem::alias *)nullptr), ...);
    }
    return O;
  }
  template <class... Al> static void idx(TupOps<TT> &O, size_t &K, bcl::TypeList<Al...> *) {
    ((O.tags[K].idx = bcl::tagged_tuple_idx<Al, TT>::value,
      O.tags[K].type &= std::is_same_v<typename bcl::tagged_tuple_element<Al, TT>::type,
                                       bcl::get_tagged_t<Al, Elem...>>,
      ++K), ...);
  }
  template <size_t I, class El> static void elem(TupOps<TT> &O) {
    using V = typename El::type;
    typename TupOps<TT>::ByElem E;
    E.get = [](TT &X) { return Code<V>::dec(std::get<I>(X)); };
    E.addr = [](TT &X) { return (const void *)&std::get<I>(X); };
    E.moves = Code<V>::Moves;
    E.main = El::tag::Id;
    E.tag = true;
    if constexpr (IsTuple<TT>::value)
      E.tag = std::is_same_v<typename bcl::tagged_tuple_tag<I, TT>::type, typename El::tag>;
    O.elems.push_back(E);
  }
};

template <class TT> void checkTup(const TupOps<TT> &O, TT &X, const Model &M) {
  for (auto &T : O.tags) {
    int A = T.get(X), B = T.cget(X);
    CHECK("get-tag", A == M[T.elem] && B == M[T.elem],
          << "tag " << T.tag << " gives " << A << " instead of " << M[T.elem]);
    CHECK("same-object", T.addr(X) == O.elems[T.elem].addr(X), << "tag " << T.tag);
  }
  for (size_t E = 0; E < O.n; ++E)
    CHECK("element", O.elems[E].get(X) == M[E], << "element " << E);
}
template <class TT> void checkDecl(const TupOps<TT> &O) {
  for (auto &T : O.tags) {
    CHECK("index", T.idx == T.elem, << "tag " << T.tag << " has index " << T.idx);
    CHECK("get-tagged", T.tagged, << "tag " << T.tag);
    CHECK("type", T.type, << "tag " << T.tag);
    CHECK("main-tag", T.mainTag, << "tag " << T.tag);
    CHECK("alias", T.alias, << "tag " << T.tag);
  }
  for (auto &E : O.elems) CHECK("tag-of-index", E.tag, << "");
}

struct TagVisit {
  std::vector<std::pair<int, int>> *Out;
  int Add;
  template <class Tg, class V> void operator()(V &R) {
    using U = std::remove_const_t<V>;
    static_assert(std::is_same_v<U, typename Tg::type>);
    Out->push_back({Tg::tag::Id, Code<U>::dec(R)});
    if constexpr (!std::is_const_v<V>) R = Code<U>::enc(Code<U>::dec(R) + Add);
  }
};

template <class TT, class... Elem, size_t... I>
TT *makeTup(const Model &V, std::index_sequence<I...>) {
  return new TT(Code<typename Elem::type>::enc(V[I])...);
}
template <class... V, size_t... I>
std::tuple<V...> make(const Model &M, std::tuple<V...> *, std::index_sequence<I...>) {
  return std::tuple<V...>(Code<V>::enc(M[I])...);
}
inline Model randomModel(Gen &g, size_t N) {
  Model M(N);
  for (auto &X : M) X = (int)g.below(1000);
  return M;
}
template <class O> void movedAway(const O &Ops, Model &M) {
  for (size_t E = 0; E < M.size(); ++E)
    if (Ops.elems[E].moves) M[E] = -1;
}

template <class TT, bool Copyable, class... Elem> void runTuple(Gen &g) {
  constexpr size_t N = sizeof...(Elem);
  using Std = std::tuple<typename Elem::type...>;
  using Seq = std::make_index_sequence<N>;
  static const TupOps<TT> O = Maker<TT, Elem...>::run(Seq());
  checkDecl(O);
  constexpr size_t Size = bcl::tagged_tuple_size<TT>::value;
  constexpr bool Empty = bcl::tagged_tuple_empty<TT>::value;
  CHECK("size", Size == N, << Size);
  CHECK("empty", Empty == (N == 0), << "");
  CHECK("is-tagged", (bcl::is_tagged<Elem>::value && ...), << "");
  CHECK("is-not-tagged", !(bcl::is_tagged<typename Elem::type>::value || ...) &&
        !bcl::is_tagged<TT>::value, << "");
  std::unique_ptr<TT> S[2];
  Model M[2];
  for (int K = 0; K < 2; ++K) {
    M[K] = randomModel(g, N);
    S[K].reset(makeTup<TT, Elem...>(M[K], Seq()));
  }
  size_t Len = g.len(20);
  int Writes = 0, Copies = 0;
  for (size_t T = 0; T < Len; ++T) {
    int A = (int)g.below(2), B = 1 - A;
    switch (g.weighted({5, 3, 2, 2, 2, 2, 1, 1})) {
    case 0: {
      auto &Tg = g.pick(O.tags);
      int V = (int)g.below(1000);
      NOTE("t" << A << ".get<" << Tg.tag << ">() = " << V);
      Tg.set(*S[A], V);
      M[A][Tg.elem] = V;
      ++Writes;
      break;
    }
    case 1: {
      std::vector<std::pair<int, int>> Out;
      int Add = (int)g.below(3);
      bool Const = g.coin(), RV = g.coin();
      NOTE("t" << A << ": for_each" << (Const ? " const" : "") << " adding " << Add);
      TagVisit F{&Out, Add};
      if (Const) {
        const TT &C = *S[A];
        if (RV) bcl::for_each(C, TagVisit{&Out, Add});
        else bcl::for_each(C, F);
      } else {
        if (RV) bcl::for_each(*S[A], TagVisit{&Out, Add});
        else bcl::for_each(*S[A], F);
      }
      CHECK("for-each", Out.size() == N, << Out.size());
      for (size_t E = 0; E < N; ++E) {
        CHECK("for-each-order", Out[E].first == O.elems[E].main, << "place " << E);
        CHECK("for-each-value", Out[E].second == M[A][E], << "place " << E);
        if (!Const) M[A][E] += Add;
      }
      break;
    }
    case 2:
      if constexpr (Copyable) {
        bool Ctor = g.coin();
        NOTE("t" << A << (Ctor ? " constructed from t" : " = t") << B);
        if (Ctor) S[A] = std::make_unique<TT>(std::as_const(*S[B]));
        else *S[A] = std::as_const(*S[B]);
        M[A] = M[B];
        ++Copies;
      }
      break;
    case 3: {
      bool Ctor = g.coin();
      NOTE("t" << A << (Ctor ? " constructed from move t" : " = move t") << B);
      if (Ctor) S[A] = std::make_unique<TT>(std::move(*S[B]));
      else *S[A] = std::move(*S[B]);
      M[A] = M[B];
      movedAway(O, M[B]);
      checkTup(O, *S[B], M[B]);
      M[B] = randomModel(g, N);
      S[B].reset(makeTup<TT, Elem...>(M[B], Seq()));
      ++Copies;
      break;
    }
    case 4: {
      Model V = randomModel(g, N);
      Std X = make(V, (Std *)nullptr, Seq());
      bool Ctor = g.coin();
      NOTE("t" << A << (Ctor ? " constructed from" : " =") << " a std::tuple");
      if (Ctor) S[A] = std::make_unique<TT>(std::move(X));
      else *S[A] = std::move(X);
      M[A] = V;
      ++Copies;
      break;
    }
    case 5:
      if constexpr (Copyable) { // a const lvalue of the underlying tuple
        Model V = randomModel(g, N);
        const Std X = make(V, (Std *)nullptr, Seq());
        bool Ctor = g.coin();
        NOTE("t" << A << (Ctor ? " constructed from" : " =") << " a const std::tuple");
        if (Ctor) S[A] = std::make_unique<TT>(X);
        else *S[A] = X;
        M[A] = V;
        ++Copies;
      }
      break;
    case 6: { // the underlying tuple sees the same elements
      Std &X = *S[A];
      NOTE("t" << A << ": as std::tuple");
      int E = 0;
      std::apply([&](auto &...V) {
        auto One = [&](auto &W) {
          CHECK("as-tuple", Code<std::decay_t<decltype(W)>>::dec(W) == M[A][E], << "");
          ++E;
        };
        (One(V), ...);
      }, X);
      break;
    }
    case 7:
      M[A] = randomModel(g, N);
      NOTE("t" << A << ": new");
      S[A].reset(makeTup<TT, Elem...>(M[A], Seq()));
      break;
    }
    checkTup(O, *S[0], M[0]);
    checkTup(O, *S[1], M[1]);
  }
  if (Writes > 0 && Copies > 0 && N > 1) g.nontrivial();
}

template <class E1, class E2, bool Copyable> void runPair(Gen &g) {
  using TT = bcl::tagged_pair<E1, E2>;
  using V1 = typename E1::type;
  using V2 = typename E2::type;
  using Std = std::pair<V1, V2>;
  static const TupOps<TT> O = Maker<TT, E1, E2>::run(std::make_index_sequence<2>());
  checkDecl(O);
  std::unique_ptr<TT> S[2];
  Model M[2];
  auto Make = [](const Model &X) {
    return std::make_unique<TT>(Code<V1>::enc(X[0]), Code<V2>::enc(X[1]));
  };
  for (int K = 0; K < 2; ++K) S[K] = Make(M[K] = randomModel(g, 2));
  size_t Len = g.len(20);
  int Writes = 0, Copies = 0;
  for (size_t T = 0; T < Len; ++T) {
    int A = (int)g.below(2), B = 1 - A;
    switch (g.weighted({5, 2, 2, 2, 2, 1})) {
    case 0: {
      auto &Tg = g.pick(O.tags);
      int V = (int)g.below(1000);
      NOTE("p" << A << ".get<" << Tg.tag << ">() = " << V);
      Tg.set(*S[A], V);
      M[A][Tg.elem] = V;
      ++Writes;
      break;
    }
    case 1:
      if constexpr (Copyable) {
        bool Ctor = g.coin();
        NOTE("p" << A << (Ctor ? " constructed from p" : " = p") << B);
        if (Ctor) S[A] = std::make_unique<TT>(std::as_const(*S[B]));
        else *S[A] = std::as_const(*S[B]);
        M[A] = M[B];
        ++Copies;
      }
      break;
    case 2: {
      bool Ctor = g.coin();
      NOTE("p" << A << (Ctor ? " constructed from move p" : " = move p") << B);
      if (Ctor) S[A] = std::make_unique<TT>(std::move(*S[B]));
      else *S[A] = std::move(*S[B]);
      M[A] = M[B];
      movedAway(O, M[B]);
      checkTup(O, *S[B], M[B]);
      S[B] = Make(M[B] = randomModel(g, 2));
      ++Copies;
      break;
    }
    case 3: {
      Model V = randomModel(g, 2);
      Std X(Code<V1>::enc(V[0]), Code<V2>::enc(V[1]));
      bool Ctor = g.coin();
      NOTE("p" << A << (Ctor ? " constructed from" : " =") << " a std::pair");
      if (Ctor) S[A] = std::make_unique<TT>(std::move(X));
      else *S[A] = std::move(X);
      M[A] = V;
      ++Copies;
      break;
    }
    case 4:
      NOTE("p" << A << ": first and second");
      CHECK("first", Code<V1>::dec(S[A]->first) == M[A][0], << "");
      CHECK("second", Code<V2>::dec(S[A]->second) == M[A][1], << "");
      break;
    case 5:
      S[A] = Make(M[A] = randomModel(g, 2));
      NOTE("p" << A << ": new");
      break;
    }
    checkTup(O, *S[0], M[0]);
    checkTup(O, *S[1], M[1]);
  }
  if (Writes > 0 && Copies > 0) g.nontrivial();
}

/// convertible_pair: conversion to each of the elements.
template <class V1, class V2, bool Copyable> void runConv(Gen &g) {
  using CP = bcl::convertible_pair<V1, V2>;
  using Std = std::pair<V1, V2>;
  Model M[2];
  std::unique_ptr<CP> S[2];
  auto Make = [](const Model &X) {
    return std::make_unique<CP>(Code<V1>::enc(X[0]), Code<V2>::enc(X[1]));
  };
  for (int K = 0; K < 2; ++K) S[K] = Make(M[K] = randomModel(g, 2));
  size_t Len = g.len(15);
  int Writes = 0, Copies = 0;
  for (size_t T = 0; T < Len; ++T) {
    int A = (int)g.below(2), B = 1 - A;
    int V = (int)g.below(1000);
    switch (g.weighted({3, 3, 2, 2, 2})) {
    case 0: {
      NOTE("c" << A << " as the first = " << V);
      V1 &R = *S[A];
      R = Code<V1>::enc(V);
      M[A][0] = V;
      ++Writes;
      break;
    }
    case 1: {
      NOTE("c" << A << " as the second = " << V);
      V2 &R = *S[A];
      R = Code<V2>::enc(V);
      M[A][1] = V;
      ++Writes;
      break;
    }
    case 2:
      if constexpr (Copyable) {
        bool Ctor = g.coin();
        NOTE("c" << A << (Ctor ? " constructed from c" : " = c") << B);
        if (Ctor) S[A] = std::make_unique<CP>(std::as_const(*S[B]));
        else *S[A] = std::as_const(*S[B]);
        M[A] = M[B];
        ++Copies;
      }
      break;
    case 3: {
      NOTE("c" << A << " = move c" << B);
      *S[A] = std::move(*S[B]);
      M[A] = M[B];
      S[B] = Make(M[B] = randomModel(g, 2));
      ++Copies;
      break;
    }
    case 4: {
      Model W = randomModel(g, 2);
      bool Ctor = g.coin();
      NOTE("c" << A << (Ctor ? " constructed from" : " =") << " a std::pair");
      Std X(Code<V1>::enc(W[0]), Code<V2>::enc(W[1]));
      if (Ctor) S[A] = std::make_unique<CP>(std::move(X));
      else *S[A] = std::move(X);
      M[A] = W;
      ++Copies;
      break;
    }
    }
    for (int K = 0; K < 2; ++K) {
      CP &X = *S[K];
      const CP &C = X;
      V1 &R1 = X;
      V2 &R2 = X;
      const V1 &C1 = C;
      const V2 &C2 = C;
      CHECK("converted", &R1 == &X.first && &R2 == &X.second && &C1 == &X.first &&
            &C2 == &X.second, << "not the elements");
      CHECK("first", Code<V1>::dec(R1) == M[K][0], << "pair " << K);
      CHECK("second", Code<V2>::dec(R2) == M[K][1], << "pair " << K);
    }
  }
  if (Writes > 0 && Copies > 0) g.nontrivial();
}

/// for_each and forward_as_args on plain tuples.
struct PlainVisit {
  std::vector<int> *Out;
  int Add;
  template <class V> void operator()(V &R) {
    using U = std::remove_const_t<V>;
    Out->push_back(Code<U>::dec(R));
    if constexpr (!std::is_const_v<V>) R = Code<U>::enc(Code<U>::dec(R) + Add);
  }
};
struct Collect {
  std::vector<int> *Out;
  template <class... V> std::vector<int> &operator()(V &...R) {
    (Out->push_back(Code<std::remove_const_t<V>>::dec(R)), ...);
    return *Out;
  }
};
template <class... V> void runPlain(Gen &g) {
  constexpr size_t N = sizeof...(V);
  Model M = randomModel(g, N);
  using Std = std::tuple<V...>;
  Std X = make(M, (Std *)nullptr, std::make_index_sequence<N>());
  constexpr bool E = bcl::tuple_empty<Std>::value;
  CHECK("tuple-empty", E == (N == 0), << "");
  for (size_t T = g.len(6) + 1; T; --T) {
    std::vector<int> Out;
    int Add = (int)g.below(3);
    unsigned How = (unsigned)g.below(6);
    NOTE("way " << How << " adding " << Add);
    const Std &C = X;
    PlainVisit F{&Out, Add};
    Collect L{&Out};
    switch (How) {
    case 0: bcl::for_each(X, F); break;
    case 1: bcl::for_each(X, PlainVisit{&Out, Add}); break;
    case 2: bcl::for_each(C, F); break;
    case 3: bcl::for_each(C, PlainVisit{&Out, Add}); break;
    case 4: {
      std::vector<int> &R = bcl::forward_as_args(X, L);
      CHECK("result", &R == &Out, << "the result is not passed through");
      break;
    }
    case 5: {
      auto &R = bcl::forward_as_args(C, Collect{&Out});
      CHECK("result", &R == &Out, << "the result is not passed through");
      break;
    }
    }
    CHECK("visited", Out == M, << Out.size() << " elements");
    if (How < 2)
      for (auto &Y : M) Y += Add;
    if (N > 1) g.nontrivial();
  }
}

#if PART == 0
struct RefVisit {
  std::vector<const void *> *Out;
  template <class Tg, class V> void operator()(V &R) { Out->push_back(&R); }
};
/// Elements that are references, and the empty tuple.
PROPERTY(references, 5000, 50000) {
  using E1 = bcl::tagged<int &, Tag<0>, Tag<1>>;
  using E2 = bcl::tagged<const std::string &, Tag<2>>;
  using E3 = bcl::tagged<int &, Tag<3>>;
  int A = (int)g.below(100), B = (int)g.below(100);
  std::string S = "abc";
  bcl::tagged_tuple<E1, E2, E3> T(A, S, B);
  const auto &C = T;
  bcl::tagged_pair<E1, E3> P(A, B);
  const auto &CP = P;
  CHECK("same-object", &T.get<Tag<0>>() == &A && &T.get<Tag<1>>() == &A &&
        &T.get<Tag<2>>() == &S && &T.get<Tag<3>>() == &B && &C.get<Tag<1>>() == &A &&
        &C.get<Tag<3>>() == &B && &P.get<Tag<1>>() == &A && &P.get<Tag<3>>() == &B &&
        &CP.get<Tag<0>>() == &A && &CP.get<Tag<3>>() == &B, << "");
  int V = (int)g.below(100);
  switch (g.below(4)) {
  case 0: T.get<Tag<1>>() = V; break;
  case 1: C.get<Tag<0>>() = V; break;
  case 2: P.get<Tag<0>>() = V; break;
  case 3: CP.get<Tag<1>>() = V; break;
  }
  NOTE("store " << V);
  CHECK("stored", A == V, << A);
  std::vector<const void *> Out;
  bcl::for_each(T, RefVisit{&Out});
  bcl::for_each(C, RefVisit{&Out});
  std::vector<const void *> Want = {&A, &S, &B, &A, &S, &B};
  CHECK("visited", Out == Want, << Out.size());
  // assignment writes through the references
  int X = (int)g.below(100), Y = (int)g.below(100);
  bcl::tagged_pair<E1, E3> P2(X, Y);
  P = P2;
  CHECK("assigned", A == X && B == Y, << A << " " << B);
  bcl::tagged_tuple<> Z, Z2(Z);
  bcl::for_each(Z, RefVisit{&Out});
  bcl::for_each(std::as_const(Z2), RefVisit{&Out});
  CHECK("empty", Out.size() == 6 && bcl::tagged_tuple_empty<bcl::tagged_tuple<>>::value, << "");
  if (V > 1) g.nontrivial();
}
#endif
#endif
