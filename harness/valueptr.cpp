// C24: values wrapped together with pointers to them, against identifiers.
#include "pbt.h"
#include <bcl/ValuePtrWrapper.h>
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <string>
#include <vector>
using pbt::Gen;

namespace {
/// Knows where it is and what it holds; breaks when it is copied bitwise or
/// used after it has been moved away.
struct Probe {
  Probe *Self;
  int V;
  std::unique_ptr<int> P;
  explicit Probe(int V) : Self(this), V(V), P(new int(V)) {}
  Probe(int A, int B) : Probe(A + B) {}
  Probe(Probe &&X) : Self(this), V(X.V), P(std::move(X.P)) { X.V = -1; }
  Probe &operator=(Probe &&X) {
    if (this != &X) { V = X.V; P = std::move(X.P); X.V = -1; }
    return *this;
  }
  ~Probe() { Self = nullptr; }
  int get() const { return Self == this && P && *P == V ? V : -100; }
};
template <class T> struct Val;
template <> struct Val<int> {
  static int make(int V) { return V; }
  static int get(const int &X) { return X; }
};
template <> struct Val<std::string> {
  static std::string make(int V) { return std::to_string(V) + std::string(V % 3 ? 0 : 40, 'x'); }
  static int get(const std::string &X) {
    int V = X.empty() ? -1 : atoi(X.c_str());
    return X == make(V) ? V : -100;
  }
};
template <> struct Val<Probe> {
  static Probe make(int V) { return Probe(V); }
  static int get(const Probe &X) { return X.get(); }
};
template <> struct Val<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(int V) { return std::unique_ptr<int>(new int(V)); }
  static int get(const std::unique_ptr<int> &X) { return X ? *X : -1; }
};

template <class T, class Cont> struct Run {
  using W = bcl::ValuePtrWrapper<T>;
  Gen &g;
  std::deque<T *> Ptr; // never relocated
  Cont C;
  struct Item { std::size_t Id; int V; };
  std::vector<Item> M;
  unsigned Relocations = 0;
  explicit Run(Gen &g) : g(g) {}

  typename Cont::iterator at(std::size_t K) { return std::next(C.begin(), K); }
  void check(const char *When) {
    CHECK("count", (std::size_t)std::distance(C.begin(), C.end()) == M.size());
    std::size_t K = 0;
    for (auto &X : C) {
      const Item &I = M[K];
      T *P = Ptr[I.Id];
      CHECK("aim", P == X.operator->(), << When << ": the pointer of value " << I.V
            << " (item " << K << ") does not point into the wrapper it was given to");
      CHECK("value", Val<T>::get(*P) == I.V, << When << ": the pointer leads to " << Val<T>::get(*P) << ", expected " << I.V);
      const W &CX = X;
      T &R = X;
      const T &CR = CX;
      CHECK("access", &R == P && &CR == P && &*X == P && (&X) == P);
      ++K;
    }
  }
  void insert(std::size_t K) {
    std::size_t Id = Ptr.size();
    int V = (int)g.below(1000);
    Ptr.push_back(nullptr);
    NOTE("insert " << V << " at " << K);
    if (g.coin()) C.emplace(at(K), Ptr[Id], Val<T>::make(V));
    else C.insert(at(K), W(Ptr[Id], Val<T>::make(V)));
    if (K != M.size()) ++Relocations;
    M.insert(M.begin() + K, Item{Id, V});
  }
  /// Order of the values given by a permutation of the items.
  template <class F> void reorder(F &&Op) {
    Op();
    ++Relocations;
  }
  void history() {
    bool Long = g.chance(1, 50);
    const std::size_t Cap = Long ? 400 : 40;
    unsigned Ops = Long ? (unsigned)g.range(40, 400) : 1 + (unsigned)g.len(40);
    for (unsigned O = 0; O < Ops; ++O) {
      std::size_t N = M.size();
      switch (N ? g.weighted({6, 2, 2, 2, 2, 2, 2, 1, 2}) : 0) {
      case 0:
        if (N < Cap) insert(g.coin() ? N : g.below(N + 1));
        break;
      case 1: { // erase
        std::size_t B = g.below(N), E = B + 1 + g.below(std::min<std::size_t>(N - B, 3));
        NOTE("erase " << B << ".." << E);
        C.erase(at(B), at(E));
        M.erase(M.begin() + B, M.begin() + E);
        ++Relocations;
        break;
      }
      case 2: { // new value through the wrapper
        std::size_t K = g.below(N);
        int V = (int)g.below(1000);
        NOTE("item " << K << " = " << V);
        auto &X = *at(K);
        switch (g.below(4)) {
        case 0: *X = Val<T>::make(V); break;
        case 1: static_cast<T &>(X) = Val<T>::make(V); break;
        case 2: *X.operator->() = Val<T>::make(V); break;
        default: *Ptr[M[K].Id] = Val<T>::make(V);
        }
        M[K].V = V;
        break;
      }
      case 3: { // out of the container and back
        std::size_t K = g.below(N), L = g.below(N);
        NOTE("take item " << K << " out and insert it at " << L);
        if (g.chance(1, 4)) { NOTE("  its pointer has been reset by its owner"); Ptr[M[K].Id] = nullptr; }
        W X(std::move(*at(K)));
        CHECK("aim-out", Ptr[M[K].Id] == X.operator->() && Val<T>::get(*X) == M[K].V);
        C.erase(at(K));
        Item I = M[K];
        M.erase(M.begin() + K);
        C.insert(at(L), std::move(X));
        M.insert(M.begin() + L, I);
        ++Relocations;
        break;
      }
      case 4: { // exchange of two items
        std::size_t K = g.below(N), L = g.below(N);
        if (K == L) break;
        NOTE("swap items " << K << " and " << L);
        std::swap(*at(K), *at(L));
        std::swap(M[K], M[L]);
        ++Relocations;
        break;
      }
      case 5: { // item replaced by another one, which is erased
        std::size_t K = g.below(N), L = g.below(N);
        if (K == L) break;
        NOTE("item " << K << " = move(item " << L << "), item " << L << " is erased");
        if (g.chance(1, 4)) { NOTE("  the pointer of item " << L << " has been reset by its owner"); Ptr[M[L].Id] = nullptr; }
        auto &Res = (*at(K) = std::move(*at(L)));
        CHECK("assign-result", Res.operator->() == at(K)->operator->());
        M[K] = M[L];
        C.erase(at(L));
        M.erase(M.begin() + L);
        ++Relocations;
        break;
      }
      case 6: { // sort by value
        NOTE("sort");
        sort(C);
        std::stable_sort(M.begin(), M.end(), [](const Item &A, const Item &B) { return A.V < B.V; });
        ++Relocations;
        break;
      }
      case 7: { // the container itself moves
        NOTE("move the container");
        Cont D(std::move(C));
        C = std::move(D);
        break;
      }
      case 8: {
        NOTE("reverse and grow");
        std::reverse(C.begin(), C.end());
        std::reverse(M.begin(), M.end());
        grow(C);
        ++Relocations;
        break;
      }
      }
      check("after the operation");
    }
    if (Relocations > 1 && M.size() > 1) g.nontrivial();
  }
  static bool less(const W &A, const W &B) {
    return Val<T>::get(static_cast<const T &>(A)) < Val<T>::get(static_cast<const T &>(B));
  }
  static void sort(std::list<W> &L) { L.sort(less); }
  template <class X> static void sort(X &V) { std::stable_sort(V.begin(), V.end(), less); }
  static void grow(std::vector<W> &V) { V.reserve(V.capacity() + 1); V.shrink_to_fit(); }
  template <class X> static void grow(X &) {}
};
template <class T> void conts(Gen &g) {
  using W = bcl::ValuePtrWrapper<T>;
  switch (g.weighted({3, 1, 1})) {
  case 0: NOTE("vector"); return Run<T, std::vector<W>>(g).history();
  case 1: NOTE("deque"); return Run<T, std::deque<W>>(g).history();
  default: NOTE("list"); return Run<T, std::list<W>>(g).history();
  }
}
} // namespace

PROPERTY(relocation, 40000, 1200000) {
  switch (g.below(4)) {
  case 0: return conts<int>(g);
  case 1: return conts<std::string>(g);
  case 2: return conts<Probe>(g);
  default: return conts<std::unique_ptr<int>>(g);
  }
}
PROPERTY(construction, 5000, 100000) {
  int A = (int)g.below(500), B = (int)g.below(500);
  NOTE("arguments " << A << ", " << B);
  Probe *P = nullptr;
  std::string *S = nullptr;
  std::unique_ptr<int> *U = nullptr;
  int *Z = nullptr;
  bcl::ValuePtrWrapper<Probe> X(P, A, B);
  bcl::ValuePtrWrapper<std::string> Y(S, (std::size_t)(A % 50), (char)('a' + B % 26));
  bcl::ValuePtrWrapper<std::unique_ptr<int>> V(U, std::unique_ptr<int>(new int(A)));
  bcl::ValuePtrWrapper<int> D(Z);
  CHECK("arguments", P == X.operator->() && P->get() == A + B && *S == std::string(A % 50, (char)('a' + B % 26)) && **U == A && *Z == 0);
  using W = bcl::ValuePtrWrapper<int>;
  CHECK("uncopyable", (!std::is_copy_constructible<W>::value && !std::is_copy_assignable<W>::value && !std::is_constructible<W, W &>::value && !std::is_assignable<W &, W &>::value));
  g.nontrivial();
}
