// C23: numeric, memory and text helpers against their definitions.
#include "pbt.h"
#include <bcl/utility.h>
#include <cctype>
#include <algorithm>
#include <deque>
#include <limits>
#include <memory>
#include <set>
#include <vector>
using pbt::Gen;

namespace {
using U128 = unsigned __int128;
template <class T> U128 magnitude(T V) {
  return V < 0 ? (U128)0 - (U128)(__int128)V : (U128)V;
}
/// Digits of the magnitude in positional notation, least significant first.
template <class T> std::vector<unsigned long long> digits(T V, T Base) {
  std::vector<unsigned long long> D;
  U128 M = magnitude(V), B = magnitude(Base);
  do {
    D.push_back((unsigned long long)(M % B));
    M /= B;
  } while (M);
  return D;
}
template <class T> T base(Gen &g) {
  T Max = std::numeric_limits<T>::max();
  switch (g.below(5)) {
  case 0: return 2;
  case 1: return 10;
  case 2: return 16;
  case 3: return (T)(2 + g.below(40));
  default: {
    T B = g.integral<T>();
    if (B < 0) B = (T)(B == std::numeric_limits<T>::min() ? Max : -B);
    return B < 2 ? 2 : B;
  }
  }
}
/// Values with structure in the base: powers, powers +-1, multiples of powers.
template <class T> T value(Gen &g, T Base) {
  if (g.chance(1, 3)) return g.integral<T>();
  T Max = std::numeric_limits<T>::max(), V = 1;
  if (g.coin()) V = (T)(1 + g.below((unsigned long long)std::min<U128>(1000, (U128)Max)));
  unsigned E = (unsigned)g.below(66);
  while (E-- && V <= Max / Base) V = (T)(V * Base);
  switch (g.below(3)) {
  case 0: break;
  case 1: V = (T)(V - 1); break;
  default: if (V < Max) V = (T)(V + 1);
  }
  return std::is_signed<T>::value && g.coin() ? (T)-V : V;
}
template <class T> void numbers(Gen &g) {
  T B = base<T>(g), V = value<T>(g, B);
  auto D = digits(V, B);
  NOTE(+(long long)V << " in base " << +(long long)B << " (" << 8 * sizeof(T) << " bits, " << (std::is_signed<T>::value ? "signed" : "unsigned") << ")");
  std::size_t N = bcl::numberOfDigits<T>(V, B);
  CHECK("digits", N == D.size(), "numberOfDigits gives " << N << ", there are " << D.size());
  std::size_t Z = 0;
  while (Z < D.size() && !D[Z]) ++Z;
  std::size_t R = bcl::numberOfLessZeros<T>(V, B);
  CHECK("zeros", R == Z, "numberOfLessZeros gives " << R << ", there are " << Z);
  if (D.size() > 1 && Z) g.nontrivial();
}
template <class T> void masks(Gen &g) {
  unsigned W = 8 * sizeof(T), N = (unsigned)g.below(W + 1);
  T M = bcl::unitMask<T>(N);
  using U = std::make_unsigned_t<T>;
  U Want = N == W ? (U)~(U)0 : (U)(((U)1 << N) - 1);
  NOTE("unitMask of " << W << " bits, " << N << " digits");
  CHECK("mask", (U)M == Want, "unitMask gives 0x" << std::hex << (unsigned long long)(U)M);
  T V = g.integral<T>();
  std::ostringstream OS;
  bcl::bitPrint(V, OS);
  std::string S;
  for (unsigned I = W; I-- > 0;) S += ((U)V >> I) & 1 ? '1' : '0';
  NOTE("bitPrint of " << +(long long)V);
  CHECK("bits", OS.str() == S, "bitPrint gives " << OS.str() << ", expected " << S);
  if (N && V) g.nontrivial();
}

template <std::size_t Size> class Locked { // may be neither copied nor assigned
public:
  explicit Locked(const std::string &S) { std::copy(S.begin(), S.end(), mB); }
  std::string get() const { return std::string(mB, Size); }
private:
  Locked(const Locked &) = delete;
  Locked &operator=(const Locked &) = delete;
  char mB[Size];
};
template <std::size_t Size> void swapped(Gen &g) {
  std::string A, B;
  for (std::size_t I = 0; I < Size; ++I) A += (char)g.below(256), B += (char)g.below(256);
  std::unique_ptr<Locked<Size>> L(new Locked<Size>(A)), R(new Locked<Size>(B));
  NOTE("swap of " << Size << " bytes: " << pbt::show(A) << " " << pbt::show(B));
  bcl::swapMemory(*L, *R);
  CHECK("swap", L->get() == B && R->get() == A, "exchanged: " << pbt::show(L->get()) << " " << pbt::show(R->get()));
  bcl::swapMemory(*L, *L);
  CHECK("swap-self", L->get() == B, "after exchange with itself: " << pbt::show(L->get()));
  if (A != B) g.nontrivial();
}

struct Rec { // what reached a constructor
  int A;
  int *Ref;
  std::unique_ptr<int> P;
  std::string S;
  Rec(int A, int &R, std::unique_ptr<int> P, std::string S) : A(A), Ref(&R), P(std::move(P)), S(std::move(S)) {}
  Rec() : A(-5), Ref(nullptr) {}
};
struct Copies {
  int C = 0, M = 0;
  Copies() = default;
  Copies(const Copies &X) : C(X.C + 1), M(X.M) {}
  Copies(Copies &&X) : C(X.C), M(X.M + 1) {}
};
struct Hold {
  Copies X;
  template <class T> explicit Hold(T &&V) : X(std::forward<T>(V)) {}
};
} // namespace

PROPERTY(numbers, 400000, 20000000) {
  switch (g.below(9)) {
  case 0: return numbers<int>(g);
  case 1: return numbers<unsigned>(g);
  case 2: return numbers<long long>(g);
  case 3: return numbers<unsigned long>(g);
  case 4: return numbers<short>(g);
  case 5: return numbers<unsigned short>(g);
  case 6: return numbers<signed char>(g);
  case 7: return numbers<unsigned char>(g);
  default: return numbers<long>(g);
  }
}
PROPERTY(masks, 200000, 5000000) {
  switch (g.below(9)) {
  case 0: return masks<int>(g);
  case 1: return masks<unsigned>(g);
  case 2: return masks<long long>(g);
  case 3: return masks<unsigned long>(g);
  case 4: return masks<short>(g);
  case 5: return masks<unsigned short>(g);
  case 6: return masks<signed char>(g);
  case 7: return masks<unsigned char>(g);
  default: return masks<char>(g);
  }
}
PROPERTY(quoting, 100000, 3000000) {
  std::string S = g.bytes(g.chance(1, 8) ? 2000 : 8, g.coin() ? "\"\"a\\ \n" : nullptr);
  bool Has = S.size() > 1 && S.front() == '"' && S.back() == '"';
  std::string Want = Has ? S : '"' + S + '"';
  NOTE("quote " << pbt::show(S));
  const std::string C = S;
  std::string Q = bcl::quote(C);
  CHECK("quote", Q == Want && C == S, "quote gives " << pbt::show(Q));
  std::string M = S;
  CHECK("quote-rvalue", bcl::quote(std::move(M)) == Want);
  CHECK("quote-literal", bcl::quote(S.c_str()) == bcl::quote(std::string(S.c_str())));
  CHECK("quote-once", bcl::quote(Q) == Q, "quoting twice gives " << pbt::show(bcl::quote(Q)));
  if (S.find('"') != S.npos) g.nontrivial();
  unsigned char Ch = (unsigned char)g.below(256);
  bool W = Ch == ' ' || Ch == '\t' || Ch == '\f' || Ch == '\v' || Ch == '\r';
  NOTE("isWhitespace " << (int)Ch);
  CHECK("whitespace", bcl::isWhitespace(Ch) == W);
}
PROPERTY(swapping, 60000, 2000000) {
  switch (g.below(7)) {
  case 0: return swapped<1>(g);
  case 1: return swapped<2>(g);
  case 2: return swapped<3>(g);
  case 3: return swapped<8>(g);
  case 4: return swapped<13>(g);
  case 5: return swapped<64>(g);
  default: return swapped<300>(g);
  }
}
PROPERTY(inserting, 60000, 1500000) {
  std::vector<int> V;
  for (std::size_t N = g.len(30); N--;) V.push_back((int)g.range(-5, 5));
  std::vector<int> B;
  std::deque<int> D;
  std::set<int> S;
  std::vector<int *> P;
  std::set<int *> SP;
  std::size_t C = g.below(5), C0 = C;
  for (int &X : V) {
    bcl::PushBackInserter<int, std::vector<int>>::insert(X, B);
    bcl::PushBackInserter<int, std::deque<int>>::insert(X, D);
    bcl::SimpleInserter<int, std::set<int>>::insert(X, S);
    bcl::PushBackInserter<int *, std::vector<int *>>::insert(&X, P);
    bcl::SimpleInserter<int *, std::set<int *>>::insert(&X, SP);
    if (g.coin()) bcl::CountInserter<int, std::size_t>::insert(X, C);
    else bcl::CountInserter<int *, std::size_t>::insert(&X, C);
  }
  NOTE(V.size() << " insertions");
  CHECK("push-back", B == V && std::equal(V.begin(), V.end(), D.begin(), D.end()));
  CHECK("insert", S == std::set<int>(V.begin(), V.end()) && SP.size() == V.size());
  bool Same = P.size() == V.size();
  for (std::size_t I = 0; Same && I < V.size(); ++I) Same = P[I] == &V[I] && SP.count(&V[I]);
  CHECK("insert-pointer", Same);
  CHECK("count", C == C0 + V.size(), "counted " << C - C0 << " of " << V.size());
  if (V.size() > 1) g.nontrivial();
}
PROPERTY(making, 60000, 1500000) {
  int A = g.integral<int>(), R = 3, X = g.integral<int>();
  std::string S = g.bytes(40);
  NOTE("make_unique of " << A << ", " << X << ", " << pbt::show(S));
  auto check = [&](const std::unique_ptr<Rec> &P, const char *How) {
    CHECK("make", P && P->A == A && P->Ref == &R && P->P && *P->P == X && P->S == S, << How);
  };
  check(bcl::make_unique<Rec>(A, R, std::unique_ptr<int>(new int(X)), S), "make_unique");
  check(bcl::make_unique_piecewise<Rec>(std::tuple<int, int &, std::unique_ptr<int>, std::string>(A, R, std::unique_ptr<int>(new int(X)), S)), "make_unique_piecewise");
  std::unique_ptr<int> Q(new int(X));
  const std::string CS = S;
  check(bcl::make_unique_piecewise<Rec>(std::forward_as_tuple(A, R, std::move(Q), CS)), "make_unique_piecewise of references");
  CHECK("make-moved", !Q && CS == S);
  auto E = bcl::make_unique_piecewise<Rec>(std::tuple<>());
  CHECK("make-empty", E && E->A == -5);
  Copies L;
  CHECK("forward-lvalue", bcl::make_unique<Hold>(L)->X.C == 1 && bcl::make_unique<Hold>(Copies())->X.C == 0);
  CHECK("forward-tuple", bcl::make_unique_piecewise<Hold>(std::tuple<Copies>())->X.C == 0);
  std::size_t N = g.len(300);
  auto Arr = bcl::make_unique<int[]>(N);
  for (std::size_t I = 0; I < N; ++I) CHECK("make-array", Arr[I] == 0, << "element " << I);
  for (std::size_t I = 0; I < N; ++I) Arr[I] = (int)I;
  auto Str = bcl::make_unique<std::string[]>(N % 7);
  for (std::size_t I = 0; I < N % 7; ++I) CHECK("make-array", Str[I].empty());
  if (N) g.nontrivial();
}
PROPERTY(foreach, 60000, 1500000) {
  int V[7];
  for (int &X : V) X = (int)g.range(-9, 9);
  std::string S = g.bytes(10);
  unsigned N = (unsigned)g.below(9);
  std::ostringstream OS, Want;
  auto F = [&OS](const auto &X) { OS << X << ';'; };
  switch (N) {
  case 0: bcl::staticForeach(F); break;
  case 1: bcl::staticForeach(F, V[0]); break;
  case 2: bcl::staticForeach(F, V[0], V[1]); break;
  case 3: bcl::staticForeach(F, V[0], V[1], V[2]); break;
  case 4: bcl::staticForeach(F, V[0], V[1], V[2], V[3]); break;
  case 5: bcl::staticForeach(F, V[0], V[1], V[2], V[3], V[4]); break;
  case 6: bcl::staticForeach(F, V[0], V[1], V[2], V[3], V[4], V[5]); break;
  case 7: bcl::staticForeach(F, V[0], V[1], V[2], V[3], V[4], V[5], V[6]); break;
  default: bcl::staticForeach(F, V[0], S, 'x', V[1], (unsigned char)'y', S); break;
  }
  if (N < 8) for (unsigned I = 0; I < N; ++I) Want << V[I] << ';';
  else Want << V[0] << ';' << S << ";x;" << V[1] << ";y;" << S << ';';
  NOTE(N << " values");
  CHECK("foreach", OS.str() == Want.str(), "visited " << pbt::show(OS.str()) << ", expected " << pbt::show(Want.str()));
  // A function with a state that is passed by value as a temporary.
  std::vector<int> Seen;
  struct Fun {
    std::vector<int> *S; int K;
    void operator()(int X) { S->push_back(X + K++); }
  };
  bcl::staticForeach(Fun{&Seen, 0}, V[0], V[1], V[2], V[3]);
  CHECK("foreach-state", (Seen == std::vector<int>{V[0], V[1] + 1, V[2] + 2, V[3] + 3}));
  if (N > 1) g.nontrivial();
}

// What is derived from the bases that prevent copying.
namespace {
struct Unique : bcl::Uncopyable {
  std::vector<int> V;
  Unique() = default;
  Unique(Unique &&) = default;
  Unique &operator=(Unique &&) = default;
};
struct Once : bcl::Unassignable {
  std::vector<int> V;
  Once() = default;
  Once(const Once &) = default;
  Once(Once &&) = default;
  Once &operator=(Once &&) = default;
};
struct Two : bcl::Uncopyable, bcl::Unassignable {};
struct Imp : bcl::Uncopyable { int X; };
struct Ass : bcl::Unassignable { int X; };
} // namespace
PROPERTY(owners, 2000, 50000) {
  CHECK("uncopyable", (!std::is_copy_constructible<Imp>::value && !std::is_copy_assignable<Imp>::value && !std::is_copy_constructible<Two>::value));
  CHECK("movable", (std::is_move_constructible<Imp>::value && std::is_move_assignable<Imp>::value && std::is_nothrow_move_constructible<Unique>::value));
  CHECK("unassignable", (!std::is_copy_assignable<Ass>::value && std::is_copy_constructible<Ass>::value && std::is_move_constructible<Ass>::value && std::is_move_assignable<Ass>::value));
  Unique A, B;
  Once C;
  for (std::size_t N = g.len(10); N--;) A.V.push_back((int)g.below(9));
  C.V = A.V;
  auto V = A.V;
  Unique D(std::move(A));
  B = std::move(D);
  Once E(C), F(std::move(C));
  C = std::move(E);
  CHECK("moved", B.V == V && C.V == V && F.V == V);
  if (!V.empty()) g.nontrivial();
}
