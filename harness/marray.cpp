// C21: multidimensional arrays against a map from multi-index to value.
#include "pbt.h"
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <vector>
using pbt::Gen;
extern "C" { extern const bool pbtHugeBlocks = true; }

namespace {
/// Element that counts the live elements of all arrays.
struct Tracked {
  static long Live;
  int V = -7;
  Tracked() { ++Live; }
  Tracked(const Tracked &) = delete;
  Tracked &operator=(const Tracked &) = delete;
  ~Tracked() { --Live; V = -99; }
};
long Tracked::Live = 0;

template <class T> struct El;
template <> struct El<int> {
  static void set(int &E, int V) { E = V; }
  static bool is(const int &E, int V) { return E == V; }
};
template <> struct El<char> {
  static void set(char &E, int V) { E = (char)V; }
  static bool is(const char &E, int V) { return E == (char)V; }
};
template <> struct El<std::string> {
  static std::string of(int V) { return std::string(1 + V % 40, (char)('a' + V % 26)) + std::to_string(V); }
  static void set(std::string &E, int V) { E = of(V); }
  static bool is(const std::string &E, int V) { return E == of(V); }
};
template <> struct El<Tracked> {
  static void set(Tracked &E, int V) { E.V = V; }
  static bool is(const Tracked &E, int V) { return E.V == V; }
};

template <class T, std::size_t R> struct ByCall {
  using Array = bcl::marray_f<T, R>;
  template <std::size_t... I>
  static T &at(Array &A, const std::array<std::size_t, R> &X, int Kind, std::index_sequence<I...>) {
    switch (Kind) {
    case 0: return A(X[I]...);
    case 1: return A((int)X[I]...);
    case 2: return A((unsigned char)X[I]...);
    default: return const_cast<T &>(const_cast<const Array &>(A)((long)X[I]...));
    }
  }
  static T &at(Array &A, const std::array<std::size_t, R> &X, int Kind) {
    return at(A, X, Kind, std::make_index_sequence<R>());
  }
};
template <class T, std::size_t R> struct ByIndex {
  using Array = bcl::marray<T, R>;
  template <class A> static auto sub(A &&S, const std::size_t *X, std::integral_constant<std::size_t, 1>) -> T & {
    return S[*X];
  }
  template <class A, std::size_t N>
  static T &sub(A &&S, const std::size_t *X, std::integral_constant<std::size_t, N>) {
    return sub(S[*X], X + 1, std::integral_constant<std::size_t, N - 1>());
  }
  static T &at(Array &A, const std::array<std::size_t, R> &X, int) {
    return sub(A, X.data(), std::integral_constant<std::size_t, R>());
  }
};

template <class T, std::size_t R, class Access> void history(Gen &g) {
  using Array = typename Access::Array;
  struct Model {
    bool Has = false; // is not moved-from
    std::array<std::size_t, R> Dims{};
    std::vector<int> V; // -1: never stored
  };
  long Live0 = Tracked::Live;
  {
    std::vector<std::unique_ptr<Array>> A;
    std::vector<Model> M;
    auto index = [&](const Model &X, std::size_t L) {
      std::array<std::size_t, R> I;
      for (std::size_t D = R; D-- > 0;) { I[D] = L % X.Dims[D]; L /= X.Dims[D]; }
      return I;
    };
    auto create = [&] {
      Model X;
      X.Has = true;
      std::size_t N = 1;
      for (auto &D : X.Dims) {
        D = g.chance(1, 30) ? 0 : 1 + g.len(R >= 4 ? 4 : R == 3 ? 7 : 20);
        N *= D;
      }
      if (R >= 2 && g.chance(1, 4)) { // one long dimension
        auto K = g.below(R);
        if (N && N / X.Dims[K] * 200 < 6000) { N = N / X.Dims[K] * 200; X.Dims[K] = 200; }
      }
      NOTE("new array of " << X.Dims[0] << (R > 1 ? " x ..." : "") << ", " << N << " elements");
      X.V.assign(N, -1);
      if (g.coin()) {
        A.emplace_back(new Array(X.Dims));
      } else {
        auto D = X.Dims;
        A.emplace_back(new Array(std::move(D)));
      }
      M.push_back(X);
    };
    auto verify = [&](std::size_t K) {
      if (!M[K].Has) return;
      T *First = nullptr;
      for (std::size_t L = 0; L < M[K].V.size(); ++L) {
        auto &E = Access::at(*A[K], index(M[K], L), (int)(L % 4));
        if (!L) First = &E;
        CHECK("layout", &E == First + L, "Element number " << L << " of the row-major order is at distance "
              << (&E - First) << " from the first one");
        if (M[K].V[L] >= 0) CHECK("value", El<T>::is(E, M[K].V[L]), "Element " << L << " of array " << K
                                  << " does not have the value stored last");
      }
    };
    create();
    unsigned Ops = 1 + (unsigned)g.len(25), Moves = 0, Stores = 0;
    for (unsigned O = 0; O < Ops; ++O) {
      std::size_t K = g.below(A.size());
      switch (g.weighted({6, 2, 2, 2, 1, 1, 2})) {
      case 0: case 6: { // store
        if (!M[K].Has || M[K].V.empty()) break;
        unsigned N = 1 + (unsigned)g.len(20);
        for (unsigned I = 0; I < N; ++I) {
          std::size_t L = g.below(M[K].V.size());
          int V = (int)g.below(1000);
          auto X = index(M[K], L);
          NOTE("array " << K << ": store " << V << " at element " << L);
          El<T>::set(Access::at(*A[K], X, (int)g.below(3)), V);
          M[K].V[L] = V;
          ++Stores;
        }
        break;
      }
      case 1: { // fill
        if (!M[K].Has) break;
        NOTE("array " << K << ": fill");
        for (std::size_t L = 0; L < M[K].V.size(); ++L) {
          El<T>::set(Access::at(*A[K], index(M[K], L), 0), (int)(L % 900));
          M[K].V[L] = (int)(L % 900);
          ++Stores;
        }
        break;
      }
      case 2: if (A.size() < 5) create(); break;
      case 3: { // move assignment
        std::size_t F = g.below(A.size());
        NOTE("array " << K << " = move(array " << F << ")");
        auto &Res = (*A[K] = std::move(*A[F]));
        CHECK("assign-result", &Res == A[K].get());
        if (F != K) {
          M[K] = M[F];
          M[F].Has = false;
          ++Moves;
        }
        break;
      }
      case 4: { // move construction
        if (A.size() >= 5) break;
        NOTE("new array from move(array " << K << ")");
        std::unique_ptr<Array> P(new Array(std::move(*A[K])));
        A.push_back(std::move(P));
        M.push_back(M[K]);
        M[K].Has = false;
        ++Moves;
        break;
      }
      case 5: { // destruction
        if (A.size() < 2) break;
        NOTE("destroy array " << K);
        A.erase(A.begin() + K);
        M.erase(M.begin() + K);
        break;
      }
      }
      if (std::is_same<T, Tracked>::value) {
        long Want = 0;
        for (auto &X : M) Want += X.Has ? (long)X.V.size() : 0;
        CHECK("live", Tracked::Live - Live0 == Want, "Live elements: " << Tracked::Live - Live0 << ", expected " << Want);
      }
      for (std::size_t I = 0; I < A.size(); ++I) verify(I);
    }
    if (Moves && Stores > 1) g.nontrivial();
    if (Moves) g.label("array moved");
  }
  CHECK("live-end", Tracked::Live == Live0, "Live elements at the end: " << Tracked::Live - Live0);
}

template <template <class, std::size_t> class Access, std::size_t R> void types(Gen &g) {
  switch (g.below(4)) {
  case 0: NOTE("rank " << R << " of int"); return history<int, R, Access<int, R>>(g);
  case 1: NOTE("rank " << R << " of std::string"); return history<std::string, R, Access<std::string, R>>(g);
  case 2: NOTE("rank " << R << " of tracked"); return history<Tracked, R, Access<Tracked, R>>(g);
  default: NOTE("rank " << R << " of char"); return history<char, R, Access<char, R>>(g);
  }
}
} // namespace

PROPERTY(call, 40000, 1500000) {
  switch (g.below(6)) {
  case 0: return types<ByCall, 2>(g);
  case 1: return types<ByCall, 3>(g);
  case 2: return types<ByCall, 4>(g);
  case 3: return types<ByCall, 5>(g);
  case 4: return types<ByCall, 6>(g);
  default: return types<ByCall, 1>(g);
  }
}

PROPERTY(subscript, 30000, 1200000) {
  switch (g.below(5)) {
  case 0: return types<ByIndex, 2>(g);
  case 1: return types<ByIndex, 3>(g);
  case 2: return types<ByIndex, 4>(g);
  case 3: return types<ByIndex, 5>(g);
  default: return types<ByIndex, 6>(g);
  }
}

namespace {
/// Arrays too large to look at every element: random elements and the corners.
template <class T, std::size_t R, class Access> void large(Gen &g, bool Huge) {
  using Array = typename Access::Array;
  std::array<std::size_t, R> Dims;
  std::size_t Total = 1, Long = g.below(R);
  if (Huge) {
    Dims.fill(2 + g.below(4));
    for (std::size_t D = 0; D < R; ++D)
      if (D != Long) Total *= Dims[D];
    if (g.coin()) { // two long dimensions
      std::size_t Other = (Long + 1) % R;
      Total = Total / Dims[Other] * (Dims[Other] = 65537 + g.below(100));
    }
    Dims[Long] = ((std::size_t(1) << (32 + g.below(3))) + g.below(1000)) / Total + 1;
  } else {
    std::size_t Goal = g.range(1000, g.chance(1, 4) ? 3000000 : 200000), Side = 2;
    while (std::pow((double)Side + 1, (double)R) <= (double)Goal) ++Side;
    for (std::size_t D = 0; D < R; ++D)
      if (D != Long) Total *= Dims[D] = 1 + g.below(2 * Side);
    Dims[Long] = Goal / Total + 1;
  }
  Total *= Dims[Long];
  std::string Show;
  for (auto D : Dims) Show += " " + std::to_string(D);
  NOTE("array of" << Show);
  if (Huge) {
    void *P = mmap(nullptr, Total + Total / 2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (P == MAP_FAILED) { g.label("no room"); return; }
    munmap(P, Total + Total / 2);
  }
  std::vector<std::unique_ptr<Array>> A;
  A.emplace_back(new Array(Dims));
  std::map<std::size_t, int> M;
  std::array<std::size_t, R> Zero{};
  auto First = &Access::at(*A[0], Zero, 0);
  auto number = [&](const std::array<std::size_t, R> &X) {
    std::size_t L = 0;
    for (std::size_t D = 0; D < R; ++D) L = L * Dims[D] + X[D];
    return L;
  };
  std::vector<std::array<std::size_t, R>> Places;
  for (unsigned N = 4 + g.below(20); N--;) {
    std::array<std::size_t, R> X;
    for (std::size_t D = 0; D < R; ++D) X[D] = g.coin() ? Dims[D] - 1 - g.below(std::min<std::size_t>(Dims[D], 2)) : g.below(Dims[D]);
    int V = (int)g.below(100);
    auto L = number(X);
    auto &E = Access::at(*A.back(), X, g.coin() ? 0 : 3);
    CHECK("layout", &E == First + L, "Element number " << L << " of the row-major order is at distance " << (&E - First) << " from the first one");
    El<T>::set(E, V);
    M[L] = V;
    Places.push_back(X);
    if (g.chance(1, 6)) {
      NOTE("the array is moved");
      A.emplace_back(new Array(std::move(*A.back())));
    } else if (g.chance(1, 6)) {
      NOTE("the array is assigned to a small one");
      std::array<std::size_t, R> Small;
      Small.fill(1);
      std::unique_ptr<Array> B(new Array(Small));
      *B = std::move(*A.back());
      A.push_back(std::move(B));
    }
  }
  for (auto &X : Places) {
    auto L = number(X);
    CHECK("value", El<T>::is(Access::at(*A.back(), X, 0), M[L]), "Element " << L << " does not have the value stored last");
  }
  if (M.size() > 1) g.nontrivial();
}
template <template <class, std::size_t> class Access, std::size_t R> void sizes(Gen &g) {
  if (g.coin()) large<int, R, Access<int, R>>(g, false);
  else large<char, R, Access<char, R>>(g, false);
}
} // namespace

PROPERTY(large, 20000, 400000) {
  switch (g.below(6)) {
  case 0: return sizes<ByCall, 2>(g);
  case 1: return sizes<ByCall, 3>(g);
  case 2: return sizes<ByCall, 5>(g);
  case 3: return sizes<ByIndex, 2>(g);
  case 4: return sizes<ByIndex, 3>(g);
  default: return sizes<ByIndex, 5>(g);
  }
}

PROPERTY(huge, 400, 4000) {
  switch (g.below(4)) {
  case 0: return ::large<char, 2, ByCall<char, 2>>(g, true);
  case 1: return ::large<char, 3, ByCall<char, 3>>(g, true);
  case 2: return ::large<char, 2, ByIndex<char, 2>>(g, true);
  default: return ::large<char, 4, ByIndex<char, 4>>(g, true);
  }
}
