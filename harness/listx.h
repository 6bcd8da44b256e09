// Lists of types: results of the compile-time operations, as numbers of types,
// against the operations on vectors of numbers.
#ifndef LISTX_H
#define LISTX_H
#include "pbt.h"
#include <bcl/cell.h>
#include <bcl/utility.h>
#include <bcl/tagged.h>
#include <algorithm>
#include <string>
#include <vector>

using pbt::Gen;
template <int I> struct P; // never complete
using List = std::vector<int>;
constexpr int NP = 8; // one more than is used in lists

template <class T> struct Num;
template <int I> struct Num<P<I>> { static constexpr int V = I; };
template <class L> struct Nums;
template <class... T> struct Nums<bcl::TypeList<T...>> {
  static List get() { return {Num<T>::V...}; }
};
/// A target for forwarded lists; not a TypeList.
template <class... T> struct Target {
  static List get() { return {Num<T>::V...}; }
};
/// Keys of a collection.
template <class T> struct Key { typedef int ValueType; static constexpr int V = Num<T>::V; };
template <class M> struct Keys;
template <class... K> struct Keys<bcl::StaticMap<K...>> {
  static List get() { return {K::V...}; }
};
template <class L> struct MapOf;
template <class... T> struct MapOf<bcl::TypeList<T...>> {
  using type = bcl::StaticMap<Key<T>...>;
};
inline std::string show(const List &L) {
  std::string S = "[";
  for (int X : L) S += (S.size() > 1 ? "," : "") + std::to_string(X);
  return S + "]";
}
struct Push {
  List *Out;
  template <class T> void operator()() { Out->push_back(Num<T>::V); }
};

struct Unary {
  List L;
  List whole, dedup, forward, reversed;
  size_t size1, size2;
  List (*each)(bool);
  List removed[NP];
  List found[NP]; // the collection from the found key on
  bool exist[NP], contained[NP], cell[NP];
  int index1[NP], index2[NP]; // -1: not asked
};
template <class L, class T> constexpr bool in() { return bcl::IsTypeExist<T, L>::value; }
template <class... T> struct Query {
  using L = bcl::TypeList<T...>;
  using M = typename MapOf<L>::type;
  template <int I> static void run(Unary &U) {
    if constexpr (I < NP) {
      using X = P<I>;
      U.removed[I] = Nums<typename bcl::RemoveFromTypeList<X, L>::Type>::get();
      U.exist[I] = bcl::IsTypeExist<X, L>::value;
      U.contained[I] = bcl::is_contained<X, T...>::value;
      U.cell[I] = bcl::IsCellExist<M, Key<X>>::value;
      U.found[I] = Keys<typename bcl::IsCellExist<M, Key<X>>::Cell>::get();
      U.index1[I] = U.index2[I] = -1;
      if constexpr ((std::is_same_v<X, T> || ...)) {
        constexpr auto A = L::template index_of<X>();
        constexpr auto B = bcl::index_of<X, T...>();
        U.index1[I] = (int)A;
        U.index2[I] = (int)B;
      }
      run<I + 1>(U);
    }
  }
};
template <class... T> Unary unary(List In) {
  using L = bcl::TypeList<T...>;
  Unary U;
  U.L = In;
  U.whole = Nums<L>::get();
  U.dedup = Nums<typename bcl::RemoveDuplicate<L>::Type>::get();
  U.forward = bcl::ForwardTypeList<Target, L>::Type::get();
  U.reversed = Keys<typename bcl::ReverseCell<typename MapOf<L>::type>::Result>::get();
  constexpr auto S1 = L::size_of();
  constexpr auto S2 = bcl::size_of<T...>();
  U.size1 = S1;
  U.size2 = S2;
  U.each = [](bool RV) {
    List Out;
    Push F{&Out};
    if (RV) L::for_each_type(Push{&Out});
    else L::for_each_type(F);
    return Out;
  };
  Query<T...>::template run<0>(U);
  return U;
}

inline void runUnary(Gen &g, const Unary &U) {
  const List &L = U.L;
  NOTE("list " << show(L));
  CHECK("itself", U.whole == L, << show(U.whole));
  CHECK("size", U.size1 == L.size() && U.size2 == L.size(), << U.size1 << " " << U.size2);
  List R(L.rbegin(), L.rend()), E = U.each(g.coin());
  CHECK("for-each-type", E == L, << show(E));
  CHECK("forward", U.forward == L, << show(U.forward));
  CHECK("reverse", U.reversed == R, << show(U.reversed));
  List S = U.dedup, W = L;
  std::sort(S.begin(), S.end());
  std::sort(W.begin(), W.end());
  W.erase(std::unique(W.begin(), W.end()), W.end());
  CHECK("remove-duplicate", S == W, << show(U.dedup) << " from " << show(L));
  int X = (int)g.below(NP);
  NOTE("type " << X);
  auto It = std::find(L.begin(), L.end(), X);
  bool In = It != L.end();
  CHECK("exist", U.exist[X] == In, << "");
  CHECK("contained", U.contained[X] == In, << "");
  CHECK("cell-exist", U.cell[X] == In, << "");
  CHECK("cell-found", U.found[X] == List(It, L.end()), << show(U.found[X]));
  if (In) {
    CHECK("index", U.index1[X] == It - L.begin() && U.index2[X] == It - L.begin(),
          << U.index1[X] << " " << U.index2[X]);
  }
  List Rm = L;
  Rm.erase(std::remove(Rm.begin(), Rm.end(), X), Rm.end());
  CHECK("remove", U.removed[X] == Rm, << show(U.removed[X]) << " instead of " << show(Rm));
  if (L.size() > W.size()) g.nontrivial();
}

struct Binary {
  List A, B, merge, intersect, cells;
};
template <class X, class Y> Binary binary(List A, List B) {
  return {A, B, Nums<typename bcl::MergeTypeLists<X, Y>::Type>::get(),
          Nums<typename bcl::IntersectTypeLists<X, Y>::Type>::get(),
          Keys<typename bcl::MergeCell<typename MapOf<X>::type,
                                       typename MapOf<Y>::type>::Result>::get()};
}
inline void runBinary(Gen &g, const Binary &X) {
  NOTE("lists " << show(X.A) << " " << show(X.B));
  List M = X.A, I;
  M.insert(M.end(), X.B.begin(), X.B.end());
  for (int Y : X.A)
    if (std::count(X.B.begin(), X.B.end(), Y)) I.push_back(Y);
  CHECK("merge", X.merge == M, << show(X.merge));
  CHECK("intersect", X.intersect == I, << show(X.intersect) << " instead of " << show(I));
  CHECK("merge-cells", X.cells == M, << show(X.cells));
  if (!I.empty() && I.size() < X.A.size()) g.nontrivial();
}
#endif
