// Reference solver and helpers for bcl/Equation.h (C08, C09).
#ifndef EQ_H
#define EQ_H
#include "pbt.h"
#include <bcl/Equation.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>

namespace eq {
using Big = __int128;
inline std::string s(Big V) {
  if (V < 0) return "-" + s(-V);
  if (V < 10) return std::string(1, char('0' + (int)V));
  return s(V / 10) + char('0' + (int)(V % 10));
}
inline Big gcd(Big A, Big B) {
  if (A < 0) A = -A;
  if (B < 0) B = -B;
  while (B) { Big T = A % B; A = B; B = T; }
  return A;
}
inline Big mod(Big A, Big M) { A %= M; return A < 0 ? A + M : A; }
/// Inverse of A modulo M, gcd(A, M) == 1.
inline Big inverse(Big A, Big M) {
  Big R0 = M, R1 = mod(A, M), S0 = 0, S1 = 1;
  while (R1) {
    Big Q = R0 / R1, T = R0 - Q * R1;
    R0 = R1; R1 = T; T = S0 - Q * S1; S0 = S1; S1 = T;
  }
  return mod(S0, M);
}

/// a*x[I] + b*x[J] = c
struct Eq { int I; Big A; int J; Big B; Big C; };

/// Integer solutions of a component in which all variables are proportional.
struct Comp {
  std::vector<int> Vars;
  bool Point = false;     // a single solution
  std::map<int, Big> P;   // a solution
  std::map<int, Big> D;   // the primitive direction (if not Point)
};

/// Is the system solvable? If so, Out describes all integer solutions as the
/// product of components (free variables are components of their own).
inline bool reference(const std::vector<Eq> &E, int N, std::vector<Comp> &Out) {
  Out.clear();
  struct Edge { int To; Big AFrom, ATo, C; };
  std::vector<std::vector<Edge>> G(N);
  std::vector<std::vector<std::pair<Big, Big>>> Unary(N); // a*x = c
  for (auto &Q : E) {
    Big A = Q.A, B = Q.B;
    if (Q.I == Q.J) { A += B; B = 0; }
    if (A == 0 && B == 0) {
      if (Q.C != 0) return false;
    } else if (B == 0) Unary[Q.I].push_back({A, Q.C});
    else if (A == 0) Unary[Q.J].push_back({B, Q.C});
    else {
      G[Q.I].push_back({Q.J, A, B, Q.C});
      G[Q.J].push_back({Q.I, B, A, Q.C});
    }
  }
  std::vector<int> Seen(N, 0);
  for (int R = 0; R < N; ++R) {
    if (Seen[R]) continue;
    // x_v = (Al_v + Be_v * r) / De_v
    struct Lin { Big Al, Be, De; };
    std::map<int, Lin> L;
    L[R] = {0, 1, 1};
    Seen[R] = 1;
    std::vector<int> St{R};
    bool Fixed = false;
    Big FN = 0, FD = 1; // r = FN / FD
    bool Bad = false;
    auto fix = [&](Big N_, Big D_) { // r == N_/D_
      if (D_ < 0) { D_ = -D_; N_ = -N_; }
      Big Gc = gcd(N_, D_);
      if (Gc) { N_ /= Gc; D_ /= Gc; }
      if (Fixed && (FN != N_ || FD != D_)) Bad = true;
      Fixed = true; FN = N_; FD = D_;
    };
    while (!St.empty()) {
      int V = St.back();
      St.pop_back();
      auto LV = L[V];
      for (auto &Ed : G[V]) {
        // ATo*x_to = C - AFrom*(Al+Be r)/De
        Lin X{Ed.C * LV.De - Ed.AFrom * LV.Al, -Ed.AFrom * LV.Be, LV.De * Ed.ATo};
        Big Gc = gcd(gcd(X.Al, X.Be), X.De);
        X.Al /= Gc; X.Be /= Gc; X.De /= Gc;
        if (X.De < 0) { X.Al = -X.Al; X.Be = -X.Be; X.De = -X.De; }
        auto It = L.find(Ed.To);
        if (It == L.end()) {
          L[Ed.To] = X;
          Seen[Ed.To] = 1;
          St.push_back(Ed.To);
        } else {
          auto &Y = It->second;
          // (X.Al + X.Be r)*Y.De == (Y.Al + Y.Be r)*X.De
          Big Be = X.Be * Y.De - Y.Be * X.De, Al = Y.Al * X.De - X.Al * Y.De;
          if (Be == 0) { if (Al != 0) Bad = true; }
          else fix(Al, Be);
        }
      }
    }
    for (auto &[V, X] : L)
      for (auto &U : Unary[V]) // a*(Al+Be r) = c*De
        fix(U.second * X.De - U.first * X.Al, U.first * X.Be);
    if (Bad) return false;
    Comp C;
    for (auto &[V, X] : L) C.Vars.push_back(V);
    if (Fixed) {
      if (FD != 1) return false;
      C.Point = true;
      for (auto &[V, X] : L) {
        Big Nn = X.Al + X.Be * FN;
        if (Nn % X.De != 0) return false;
        C.P[V] = Nn / X.De;
      }
    } else {
      Big R0 = 0, M = 1; // r == R0 (mod M)
      for (auto &[V, X] : L) {
        // Al + Be*(R0 + M*k) == 0 (mod De)
        Big K = mod(X.Be * M, X.De), T = mod(-(X.Al + X.Be * R0), X.De);
        Big Gc = gcd(K, X.De);
        if (Gc == 0) continue;
        if (T % Gc != 0) return false;
        Big DD = X.De / Gc;
        Big KK = DD == 1 ? 0 : mod((T / Gc) * inverse(K / Gc, DD), DD);
        R0 += M * KK;
        M *= DD;
        R0 = mod(R0, M);
      }
      for (auto &[V, X] : L) {
        C.P[V] = (X.Al + X.Be * R0) / X.De;
        C.D[V] = X.Be * M / X.De;
      }
    }
    Out.push_back(C);
  }
  return true;
}

/// Largest magnitude met when such a system is eliminated with 64-bit-like
/// arithmetic; keeps generated systems inside the domain (no overflow).
inline bool fits(std::vector<Eq> E, Big Limit) {
  auto Ab = [](Big X) { return X < 0 ? -X : X; };
  int Next = 1000;
  bool Ok = true;
  auto Chk = [&](Big X) { if (Ab(X) > Limit) Ok = false; return X; };
  std::vector<Eq> Sol;
  for (size_t K = 0; K < E.size() && Ok; ++K) {
    Eq Q = E[K];
    Chk(Q.A); Chk(Q.B); Chk(Q.C);
    if (Q.I == Q.J) { Q.A += Q.B; Q.B = 0; }
    Big G = gcd(Q.A, Q.B);
    if (!Ok || G == 0) continue;
    Big A = Q.A, B = Q.B, X0 = 1, Y0 = 0, X1 = 0, Y1 = 1;
    while (B) {
      Big T = A / B, R = A - T * B; A = B; B = R;
      R = X0 - T * X1; X0 = X1; X1 = R; R = Y0 - T * Y1; Y0 = Y1; Y1 = R;
    }
    if (A < 0) { X0 = -X0; Y0 = -Y0; }
    Big F = Ab(Q.C / G) + 1;
    Big XC = Chk(X0 * F), YC = Chk(Y0 * F);
    int T = Next++;
    auto Up = [&](Eq &W) {
      for (int S = 0; S < 2; ++S) {
        int &Col = S ? W.J : W.I;
        Big &Val = S ? W.B : W.A;
        if (Col == Q.I) { W.C = Chk(Ab(W.C) + Ab(Chk(XC * Val))); Val = Chk(-(Val * (Q.B / G))); Col = T; }
        else if (Col == Q.J) { W.C = Chk(Ab(W.C) + Ab(Chk(YC * Val))); Val = Chk(Val * (Q.A / G)); Col = T; }
        if (!Ok) return;
      }
    };
    for (size_t J = K + 1; J < E.size() && Ok; ++J) Up(E[J]);
    for (auto &W : Sol) if (Ok) Up(W);
    Sol.push_back({Q.I, 1, T, Q.B / G, XC});
    Sol.push_back({Q.J, 1, T, -Q.A / G, YC});
  }
  return Ok;
}

/// Columns: variables 0..N-1 (column = Base + index), computed values, guards.
template <class Col, class Val> struct Info {
  std::map<Col, Val> Values;
  std::map<Col, bool> Guards;
  Col Next;
  Col Attached;
  std::map<Col, Col> Attach;
  std::vector<Col> Params;
  Col First;
  Info(Col ParamBase) : Next(ParamBase), Attached(ParamBase + 1000), First(ParamBase) {}
  template <class T> T get(Col C) const;
  Col parameterColumn() { Params.push_back(Next); return Next++; }
  Col parameterColumn(Col C) { return Attach.emplace(C, (Col)(Attached + (Col)Attach.size())).first->second; }
  bool isParameter(Col C) const { return C >= First; }
  std::string name(Col C) const { return "v" + std::to_string((long long)C); }
};
template <class Col, class Val> template <class T> T Info<Col, Val>::get(Col C) const {
  if constexpr (std::is_same_v<T, bool>) {
    auto It = Guards.find(C);
    if (It == Guards.end()) pbt::fail("guard", "value of a column that is not a guard is asked");
    return It->second;
  } else {
    static_assert(std::is_same_v<T, Val>, "documented types are bool and ValueT");
    auto It = Values.find(C);
    if (It == Values.end()) pbt::fail("value", "value of a column that is not computable is asked");
    return It->second;
  }
}

/// Checks that Sol describes exactly the integer solutions.
template <class SolT>
void checkSolution(const char *What, const SolT &Sol, const std::vector<Eq> &E, int N,
                   const std::vector<Comp> &Ref, const std::map<long long, int> &VarOf,
                   const std::function<bool(long long)> &IsParam) {
  struct D { Big K, C; long long P; };
  std::map<int, D> V; // x = C - K*P
  for (auto &S : Sol) {
    auto It = VarOf.find((long long)S.LHS.Column);
    CHECK("form", It != VarOf.end(), << "solution for an unknown column");
    CHECK("form", S.LHS.Value == 1, << "coefficient of a variable is not 1");
    CHECK("form", IsParam((long long)S.RHS.Column), << "not a parameter in a solution");
    D X{(Big)S.RHS.Value, (Big)S.Constant, (long long)S.RHS.Column};
    auto R = V.emplace(It->second, X);
    CHECK("form", R.second || (R.first->second.K == X.K && R.first->second.C == X.C &&
          (X.K == 0 || R.first->second.P == X.P)), << "two different solutions for a variable");
  }
  // Every choice of parameters gives a solution (unmentioned: any value).
  for (size_t Q = 0; Q < E.size(); ++Q) {
    std::map<long long, Big> Co;
    Big Const = 0;
    for (int Sd = 0; Sd < 2; ++Sd) {
      int X = Sd ? E[Q].J : E[Q].I;
      Big A = Sd ? E[Q].B : E[Q].A;
      auto It = V.find(X);
      if (It == V.end()) Co[-1 - X] += A;
      else { Const += A * It->second.C; Co[It->second.P] -= A * It->second.K; }
    }
    for (auto &C : Co)
      CHECK("sound", C.second == 0, << What << ": equation " << Q << " depends on "
            << (C.first < 0 ? "a free variable" : "a parameter"));
    CHECK("sound", Const == E[Q].C, << What << ": equation " << Q << " gives " << s(Const) << " instead of " << s(E[Q].C));
  }
  // Every solution is given by some parameters.
  for (int K = -1; K < (int)Ref.size(); ++K) {
    if (K >= 0 && Ref[K].Point) continue;
    std::map<long long, Big> T;
    for (int C = 0; C < (int)Ref.size(); ++C)
      for (int X : Ref[C].Vars) {
        Big Val = Ref[C].P.at(X) + (C == K ? Ref[C].D.at(X) : 0);
        auto It = V.find(X);
        if (It == V.end()) continue;
        auto &S = It->second;
        if (S.K == 0) {
          CHECK("complete", S.C == Val, << What << ": variable " << X << " is fixed to " << s(S.C) << ", but may be " << s(Val));
          continue;
        }
        CHECK("complete", (S.C - Val) % S.K == 0, << What << ": variable " << X << " = " << s(Val) << " is not reached");
        Big P = (S.C - Val) / S.K;
        auto R = T.emplace(S.P, P);
        CHECK("complete", R.second || R.first->second == P, << What << ": no parameter gives variable " << X << " = " << s(Val));
      }
  }
}
} // namespace eq
#endif
