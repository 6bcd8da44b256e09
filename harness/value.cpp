// C31: legacy values that may be undefined, against std::optional.
#include "pbt.h"
#include <bcl/legacy/value.h>
#include <bcl/legacy/text.h>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
using pbt::Gen;
using Utility::Value;
typedef Utility::True Yes;
typedef Utility::False No;

namespace {
template <class T> struct Rnd {
  static T get(Gen &g) { return (T)g.range(-3, 3); }
  static std::string str(const T &X) { std::ostringstream S; S << X; return S.str(); }
};
template <> struct Rnd<bool> {
  static bool get(Gen &g) { return g.coin(); }
  static std::string str(bool X) { return X ? "1" : "0"; }
};
template <> struct Rnd<std::string> {
  static std::string get(Gen &g) { return g.bytes(g.coin() ? 2 : 30, "ab"); }
  static std::string str(const std::string &X) { return X; }
};
template <> struct Rnd<std::vector<int>> {
  static std::vector<int> get(Gen &g) {
    std::vector<int> V(g.below(4));
    for (auto &X : V) X = (int)g.below(2);
    return V;
  }
};
int Cells[4];
template <> struct Rnd<int *> {
  static int *get(Gen &g) { return &Cells[g.below(4)]; }
};

/// The six comparisons of L and R; an undefined value is only equal to an undefined one.
template <class A, class B, class T, class U>
void compare(Gen &g, const A &L, const B &R, const std::optional<T> &ML, const std::optional<U> &MR) {
  bool Both = ML && MR;
  CHECK("==", (L == R) == (Both ? *ML == *MR : !ML && !MR), "wrong result");
  CHECK("!=", (L != R) == !(Both ? *ML == *MR : !ML && !MR), "wrong result");
  CHECK("<", (L < R) == (Both && *ML < *MR), "wrong result");
  CHECK("<=", (L <= R) == (Both && *ML <= *MR), "wrong result");
  CHECK(">", (L > R) == (Both && *ML > *MR), "wrong result");
  CHECK(">=", (L >= R) == (Both && *ML >= *MR), "wrong result");
}
template <class T> void state(Gen &g, const Value<T, Yes> &X, const std::optional<T> &M) {
  Value<T, Yes> &Y = const_cast<Value<T, Yes> &>(X);
  CHECK("undef", (X == undef) == !M && (X != undef) == !!M && (Y == undef) == !M && (Y != undef) == !!M,
        << "the value is " << (M ? "taken for undefined" : "not taken for undefined"));
  CHECK("undef", (undef == X) == !M && (undef != X) == !!M, "wrong result");
  if (M) {
    CHECK("value", static_cast<const T &>(X) == *M, "another value is held");
    CHECK("value", static_cast<T &>(Y) == *M, "another value is held");
  }
}
template <class T> void strong(Gen &g, const Value<T, No> &X, const T &M) {
  Value<T, No> &Y = const_cast<Value<T, No> &>(X);
  CHECK("strong", static_cast<const T &>(X) == M && static_cast<T &>(Y) == M, "another value is held");
  CHECK("strong", !(X == undef) && X != undef && !(Y == undef) && Y != undef && !(undef == X) && undef != X, "taken for undefined");
}

template <class T, bool Print> void run(Gen &g) {
  typedef Value<T, Yes> W;
  typedef Value<T, No> S;
  constexpr bool Text = std::is_same<T, std::string>::value;
  W A[3];
  std::optional<T> M[3];
  T V0 = Rnd<T>::get(g);
  S B[2] = {S(V0), S(V0)};
  T MS[2] = {V0, V0};
  unsigned Undef = 0, Thrown = 0, Copies = 0;
  for (std::size_t N = 1 + g.below(20); N--;) {
    int I = (int)g.below(3), J = (int)g.below(3), K = (int)g.below(2);
    switch (g.below(12)) {
    case 0: {
      NOTE("w" << I << " = undef");
      if (g.coin()) A[I] = undef;
      else A[I] = g.coin() ? W() : W(undef);
      M[I].reset();
      ++Undef;
      break;
    }
    case 1: {
      T V = Rnd<T>::get(g);
      NOTE("w" << I << " = value");
      if (g.coin()) A[I] = V;
      else A[I] = W(V);
      M[I] = V;
      break;
    }
    case 2:
      NOTE("w" << I << " = w" << J);
      if (g.coin()) A[I] = A[J];
      else { W C(A[J]); A[I] = C; }
      M[I] = M[J];
      ++Copies;
      break;
    case 3:
      NOTE("w" << I << " = s" << K);
      if (g.coin()) A[I] = B[K];
      else { W C(B[K]); A[I] = C; }
      M[I] = MS[K];
      break;
    case 4: {
      NOTE("s" << K << " = w" << I << (M[I] ? "" : " (undefined)"));
      bool Got = false;
      try {
        if (g.coin()) B[K] = A[I];
        else { S C(A[I]); B[K] = C; }
      } catch (const Base::BCLException &E) {
        Got = true;
        CHECK("error", E.Code<Base::BCL>() == 1 && E.Type() == "error", << E.ToText<Base::BCL>());
      }
      CHECK("error", Got == !M[I], << (Got ? "a defined value is refused" : "an undefined value is accepted"));
      if (M[I]) MS[K] = *M[I];
      Thrown += Got;
      break;
    }
    case 5: {
      T V = Rnd<T>::get(g);
      NOTE("s" << K << " = value");
      if (g.coin()) B[K] = V;
      else B[K] = g.coin() ? S(V) : S(S(V));
      MS[K] = V;
      break;
    }
    case 6:
      NOTE("s0 and s1 are copied");
      B[K] = B[!K];
      MS[K] = MS[!K];
      break;
    case 7: { // through the reference
      T V = Rnd<T>::get(g);
      if (g.coin()) {
        if (!M[I]) break;
        NOTE("w" << I << " is changed in place");
        static_cast<T &>(A[I]) = V;
        M[I] = V;
      } else {
        NOTE("s" << K << " is changed in place");
        static_cast<T &>(B[K]) = V;
        MS[K] = V;
      }
      break;
    }
    case 8:
      if constexpr (Text) {
        std::string V = Rnd<T>::get(g);
        NOTE("text from a literal");
        if (g.coin()) {
          switch (g.below(3)) {
          case 0: A[I] = V.c_str(); break;
          case 1: A[I] = W(V.c_str()); break;
          default: A[I] = 'c'; V = "c";
          }
          M[I] = V;
        } else {
          switch (g.below(3)) {
          case 0: B[K] = V.c_str(); break;
          case 1: B[K] = S(V.c_str()); break;
          default: B[K] = &V[0];
          }
          MS[K] = V;
        }
      }
      break;
    case 9: {
      T V = Rnd<T>::get(g);
      NOTE("w" << I << " is compared with w" << J << ", s" << K << " and a value");
      compare(g, A[I], A[J], M[I], M[J]);
      std::optional<T> MV = V, MK = MS[K];
      compare(g, A[I], V, M[I], MV);
      compare(g, V, A[I], MV, M[I]);
      if constexpr (std::is_arithmetic<T>::value) { // template operators of library types do not convert
        compare(g, A[I], B[K], M[I], MK);
        compare(g, B[K], A[I], MK, M[I]);
      }
      break;
    }
    case 10:
      if constexpr (Print) {
        std::ostringstream O;
        O << A[I];
        std::string Want = M[I] ? Rnd<T>::str(*M[I]) : "undef";
        CHECK("print", O.str() == Want, << pbt::show(O.str()) << " instead of " << pbt::show(Want));
      }
      break;
    default:
      if constexpr (std::is_arithmetic<T>::value) { // another type
        Value<long, Yes> X;
        std::optional<long> MX;
        if (g.coin()) { MX = g.range(-3, 3); X = *MX; }
        compare(g, A[I], X, M[I], MX);
        compare(g, X, A[I], MX, M[I]);
      }
    }
    for (int X = 0; X < 3; ++X) state(g, A[X], M[X]);
    for (int X = 0; X < 2; ++X) strong(g, B[X], MS[X]);
  }
  if (Undef && Copies && Thrown) g.nontrivial();
}
} // namespace

PROPERTY(integers, 60000, 800000, O.Guided = true) { run<int, true>(g); }
PROPERTY(doubles, 30000, 400000) { run<double, true>(g); }
PROPERTY(bools, 30000, 400000) { run<bool, true>(g); }
PROPERTY(texts, 60000, 800000) { run<std::string, true>(g); }
PROPERTY(vectors, 30000, 400000) { run<std::vector<int>, false>(g); }
/// A pointer is undefined exactly if it is null.
PROPERTY(pointers, 60000, 800000) {
  typedef Value<int *, Yes> W;
  W A[3];
  std::optional<int *> M[3];
  unsigned Undef = 0, Copies = 0;
  for (std::size_t N = 1 + g.below(20); N--;) {
    int I = (int)g.below(3), J = (int)g.below(3);
    switch (g.below(5)) {
    case 0:
      NOTE("p" << I << " = undef");
      switch (g.below(4)) {
      case 0: A[I] = undef; break;
      case 1: A[I] = W(); break;
      case 2: A[I] = W(undef); break;
      default: A[I] = (int *)nullptr;
      }
      M[I].reset();
      ++Undef;
      break;
    case 1: {
      int *P = Rnd<int *>::get(g);
      NOTE("p" << I << " = pointer");
      switch (g.below(3)) {
      case 0: A[I] = P; break;
      case 1: A[I] = W(P); break;
      default: static_cast<int *&>(A[I]) = P;
      }
      M[I] = P;
      break;
    }
    case 2:
      NOTE("p" << I << " = p" << J);
      if (g.coin()) A[I] = A[J];
      else { W C(A[J]); A[I] = C; }
      M[I] = M[J];
      ++Copies;
      break;
    case 3:
      if (M[I]) CHECK("dereference", &*A[I] == *M[I]);
      break;
    default: {
      int *P = Rnd<int *>::get(g);
      std::optional<int *> MP = P;
      compare(g, A[I], A[J], M[I], M[J]);
      compare(g, A[I], P, M[I], MP);
      compare(g, P, A[I], MP, M[I]);
    }
    }
    for (int X = 0; X < 3; ++X) state(g, A[X], M[X]);
  }
  if (Undef && Copies) g.nontrivial();
}
PROPERTY(traits, 1, 1) {
  typedef std::vector<int> V;
  CHECK("scalar", (Utility::IsScalar<Value<int, Yes>>::Value() && Utility::IsScalar<Value<int, No>>::Value() &&
                   !Utility::IsScalar<Value<V, Yes>>::Value() && !Utility::IsScalar<Value<V, No>>::Value()));
  CHECK("pointer", (Utility::IsPointer<Value<int *, Yes>>::Value() && !Utility::IsPointer<Value<int, Yes>>::Value() &&
                    !Utility::IsPointer<Value<int, No>>::Value()));
  CHECK("null", (undef == undef) && !(undef != undef));
  g.nontrivial();
}
