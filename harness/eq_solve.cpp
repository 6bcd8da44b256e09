// C08: solutions of BinomialSystem are exactly the integer solutions.
#include "eq.h"
using namespace eq;
using pbt::Gen;

namespace {
struct Sys { std::vector<Eq> E; int N; bool Acyclic; };

Sys system(Gen &g, Big Limit) {
  Sys S;
  S.N = 2 + (int)g.below(6);
  int Rows = 1 + (int)g.below(6);
  int Mag = g.pick({1, 2, 3, 6, 12, 100});
  if (g.chance(1, 15)) { // many equations
    S.N = 9 + (int)g.below(40);
    Rows = S.N / 2 + (int)g.below(S.N);
    Mag = g.chance(1, 4) ? 2 : 1;
  }
  auto coef = [&] {
    if (g.chance(1, 14)) return (Big)0;
    Big V = 1 + (Big)g.below(Mag);
    return g.coin() ? -V : V;
  };
  unsigned Mode = g.weighted({5, 2, 2});  // acyclic, any, planted solution
  std::vector<int> Cls(S.N);
  for (int I = 0; I < S.N; ++I) Cls[I] = I;
  auto find = [&](int X) { while (Cls[X] != X) X = Cls[X]; return X; };
  bool Planted = g.chance(2, 3);
  std::vector<Big> Sol(S.N);
  if (Planted)
    for (auto &X : Sol) X = g.range(-9, 9);
  S.Acyclic = true;
  for (int R = 0; R < Rows; ++R) {
    Eq Q;
    Q.I = (int)g.below(S.N);
    Q.J = (int)g.below(S.N);
    if (Mode == 0)
      for (int T = 0; T < S.N && find(Q.I) == find(Q.J); ++T) Q.J = (Q.J + 1) % S.N;
    if (find(Q.I) == find(Q.J)) {
      if (Mode == 0) continue;
      S.Acyclic = false;
    } else
      Cls[find(Q.I)] = find(Q.J);
    Q.A = coef();
    Q.B = coef();
    if (Planted && !g.chance(1, 10)) Q.C = Q.A * Sol[Q.I] + Q.B * Sol[Q.J];
    else Q.C = g.range(-30, 30);
    if (g.chance(1, 8)) Q.C *= g.range(1, 50);
    S.E.push_back(Q);
  }
  while (!S.E.empty() && !fits(S.E, Limit)) S.E.resize(S.E.size() > 8 ? S.E.size() * 3 / 4 : S.E.size() - 1);
  return S;
}

struct NullStream { template <class T> NullStream &operator<<(const T &) { return *this; } };

template <class Col, class Val> void run(Gen &g, Big Limit) {
  Sys S = system(g, Limit);
  Col Base = (Col)(std::is_signed<Col>::value && g.coin() ? -3 : g.pick({0, 1, 40}));
  milp::BinomialSystem<Col, Val, 1, 1, 1> B;
  std::map<long long, int> VarOf;
  for (int I = 0; I < S.N; ++I) VarOf[(long long)(Col)(Base + I)] = I;
  for (auto &Q : S.E) {
    NOTE("push_back: " << s(Q.A) << "*x" << Q.I << " + " << s(Q.B) << "*x" << Q.J << " = " << s(Q.C));
    B.push_back({(Col)(Base + Q.I), (Val)Q.A}, {(Col)(Base + Q.J), (Val)Q.B}, (Val)Q.C);
  }
  Info<Col, Val> In((Col)100);
  B.instantiate(In);
  CHECK("size", B.instantiated_size() == S.E.size());
  std::vector<Comp> Ref, Full;
  size_t Good = 0;
  for (; Good < S.E.size(); ++Good) {
    std::vector<Eq> Pre(S.E.begin(), S.E.begin() + Good + 1);
    if (!reference(Pre, S.N, Ref)) break;
  }
  bool Solvable = Good == S.E.size();
  bool Assume = Solvable && g.coin();
  std::ostringstream Log;
  bool Logged = g.chance(1, 4);
  size_t R = Assume ? (Logged ? B.template solve<Info<Col, Val>, true, std::ostream>(In, Log)
                              : B.template solve<Info<Col, Val>>(In))
                    : (Logged ? B.template solve<Info<Col, Val>, false, std::ostream>(In, Log)
                              : B.template solve<Info<Col, Val>, false>(In));
  NOTE("solve" << (Assume ? " (assumed to be solvable)" : "") << " -> " << R << " of " << S.E.size());
  CHECK("solvable", R == Good, << "reported " << R << " solved equations, expected " << Good << " of " << S.E.size());
  if (!Solvable) { g.label("unsolvable"); if (Good) g.nontrivial(); return; }
  if (S.E.empty()) { CHECK("empty", B.getSolution().empty()); return; }
  reference(S.E, S.N, Full);
  for (auto &X : B.getSolution())
    NOTE("solution: " << s((Big)X.LHS.Value) << "*col" << (long long)X.LHS.Column << " + " << s((Big)X.RHS.Value) << "*p" << (long long)X.RHS.Column << " = " << s((Big)X.Constant));
  auto IsP = [&](long long C) { return std::find(In.Params.begin(), In.Params.end(), (Col)C) != In.Params.end(); };
  checkSolution("solve", B.getSolution(), S.E, S.N, Full, VarOf, IsP);
  g.label(S.Acyclic ? "acyclic" : "cyclic");
  if (S.E.size() > 12) g.label("more than 12 equations");
  if (S.E.size() > 1) g.nontrivial();
  // Other forms of the solution.
  auto Old = B.getSolution();
  std::map<long long, std::pair<Big, Big>> At; // attached column
  switch (g.below(3)) {
  case 1: {
    B.solutioWithPositiveConstant(In);
    auto &New = B.getSolution();
    CHECK("positive", New.size() == Old.size());
    Big Shift = 0;
    for (auto &X : Old) Shift = std::min(Shift, (Big)X.Constant);
    for (size_t I = 0; I < Old.size(); ++I) {
      CHECK("positive", New[I].Constant >= 0, << "constant " << I << " is negative");
      CHECK("positive", (Big)New[I].Constant == (Big)Old[I].Constant - Shift, << "constant " << I << " is not shifted by the same value");
      CHECK("positive", New[I].LHS.Value == 1 && New[I].RHS.Value == Old[I].RHS.Value && New[I].RHS.Column == Old[I].RHS.Column);
      Col Exp = Shift == 0 ? Old[I].LHS.Column : In.Attach.count(Old[I].LHS.Column) ? In.Attach[Old[I].LHS.Column] : (Col)-1;
      CHECK("positive", New[I].LHS.Column == Exp, << "variable " << I << " is not replaced by the attached one");
    }
    g.label("positive");
    break;
  }
  case 2: {
    Big Prod = 1;
    bool Ok = true;
    for (auto &X : Old) {
      Ok = Ok && X.RHS.Value != 0;
      Big M = X.RHS.Value < 0 ? -(Big)X.RHS.Value : (Big)X.RHS.Value;
      Prod = Ok && Prod < Limit ? Prod * M : Limit;
    }
    for (auto &X : Old) {
      Big M = X.Constant < 0 ? -(Big)X.Constant : (Big)X.Constant;
      Ok = Ok && Prod < Limit && M < Limit / Prod;
    }
    if (!Ok) return;
    B.reverseSolution(In);
    auto &New = B.getSolution();
    CHECK("reverse", New.size() == Old.size());
    // y + c*x = d with y = c' * t for the same c' > 0
    Big L = 0;
    for (size_t I = 0; I < Old.size(); ++I) {
      auto &X = New[I];
      CHECK("reverse", X.LHS.Value == 1 && X.RHS.Column == Old[I].LHS.Column && X.RHS.Value != 0, << "variable " << I);
      CHECK("reverse", In.Attach.count(Old[I].RHS.Column) && X.LHS.Column == In.Attach[Old[I].RHS.Column], << "variable attached to parameter " << I);
      CHECK("reverse", (Big)X.Constant == (Big)X.RHS.Value * (Big)Old[I].Constant, << "constant " << I);
      Big C = (Big)X.RHS.Value * (Big)Old[I].RHS.Value;
      CHECK("reverse", C > 0 && (I == 0 || C == L), << "the new variables differ: " << s(C) << " and " << s(L));
      L = C;
    }
    g.label("reverse");
    break;
  }
  }
}
} // namespace

PROPERTY(solveLong, 60000, 2000000) { run<long long, long long>(g, (Big)1 << 50); }
PROPERTY(solveInt, 40000, 1200000) { run<int, int>(g, (Big)1 << 22); }
PROPERTY(solveUnsignedColumns, 40000, 1200000) { run<unsigned, long>(g, (Big)1 << 50); }
