// C09: instantiation keeps what guards allow, with evaluated constants.
#include "eq.h"
#include "oom.h"
using namespace eq;
using pbt::Gen;

namespace {
struct R { Eq Q; std::vector<int> G, I; std::vector<std::pair<int, long long>> M; };
using Key = std::vector<long long>;

template <class Col, class Val, int GN = 3, int IN = 2, int MN = 3> struct Test {
  using Sys = milp::BinomialSystem<Col, Val, GN, IN, MN>;
  template <class RowT> static Key key(const RowT &W) {
    Key K{(long long)W.LHS.Column, (long long)W.LHS.Value, (long long)W.RHS.Column, (long long)W.RHS.Value, (long long)W.Constant};
    K.push_back((long long)W.guard_size());
    for (auto &C : W.guards()) K.push_back((long long)C);
    K.push_back((long long)W.inverse_size());
    for (auto &C : W.inverse_guards()) K.push_back((long long)C);
    K.push_back((long long)W.computed_size());
    for (auto &C : W.computed_monoms()) { K.push_back((long long)C.Column); K.push_back((long long)C.Value); }
    return K;
  }
  static std::string str(const Key &K) {
    std::string S;
    for (auto X : K) S += std::to_string(X) + " ";
    return S;
  }
  static std::string str(const std::vector<Key> &V) {
    std::string S;
    for (auto &X : V) S += "{" + str(X) + "} ";
    return S;
  }
  static void run(Gen &g) {
    Sys B;
    Info<Col, Val> In((Col)100);
    for (int I = 0; I < 6; ++I) In.Guards[(Col)(50 + I)] = g.coin();
    for (int I = 0; I < 6; ++I) In.Values[(Col)(70 + I)] = (Val)g.range(-20, 20);
    for (auto &X : In.Guards) NOTE("guard " << (long long)X.first << " = " << X.second);
    for (auto &X : In.Values) NOTE("value " << (long long)X.first << " = " << (long long)X.second);
    std::vector<R> Rows;
    bool Lack = g.chance(1, 6);
    CHECK("size", B.size() == 0 && B.begin() == B.end() && !B.isInstantiated());
    for (size_t N = g.chance(1, 40) ? 20 + g.below(60) : g.len(12); N--;) {
      R W;
      W.Q = {(int)g.below(6), (Big)g.range(-4, 4), (int)g.below(6), (Big)g.range(-4, 4), (Big)g.range(-40, 40)};
      // An equation that finds no memory is not added.
      unsigned Fail = Lack ? (unsigned)g.below(3) : 0;
      bool Thrown = oom::run(Fail, [&] { B.push_back({(Col)W.Q.I, (Val)W.Q.A}, {(Col)W.Q.J, (Val)W.Q.B}, (Val)W.Q.C); });
      CHECK("size", B.size() == Rows.size() + !Thrown && (size_t)(B.end() - B.begin()) == B.size(),
            << B.size() << " equations, " << (B.end() - B.begin()) << " to go through, " << Rows.size() + !Thrown << " expected");
      if (Thrown) {
        NOTE("no memory for an equation");
        g.label("no memory for an equation");
        if (!Rows.empty()) CHECK("back", key(B.back()) == expect(Rows.back(), In, false), << "the last equation has changed");
        continue;
      }
      std::ostringstream O;
      // Guards and monomials are attached in any order.
      for (size_t K = g.below(GN + MN + 1); K--;)
        switch (g.below(3)) {
        case 0: if (W.G.size() < GN) { W.G.push_back(50 + (int)g.below(6)); B.back().addGuard((Col)W.G.back()); O << " if " << W.G.back(); } break;
        case 1: if (W.I.size() < IN) { W.I.push_back(50 + (int)g.below(6)); B.back().addInverseGuard((Col)W.I.back()); O << " unless " << W.I.back(); } break;
        default: if (W.M.size() < MN) { W.M.push_back({70 + (int)g.below(6), g.range(-9, 9)}); B.back().addComputedMonom({(Col)W.M.back().first, (Val)W.M.back().second}); O << " + " << W.M.back().second << "*" << W.M.back().first; } break;
        }
      NOTE(s(W.Q.A) << "*" << W.Q.I << " + " << s(W.Q.B) << "*" << W.Q.J << " = " << s(W.Q.C) << O.str());
      Rows.push_back(W);
      CHECK("size", B.size() == Rows.size());
      auto Exp = expect(Rows.back(), In, false);
      CHECK("back", key(B.back()) == Exp, << "the last equation is " << str(key(B.back())) << " instead of " << str(Exp));
    }
    std::vector<Key> All, Enabled, Disabled;
    for (auto &W : Rows) {
      All.push_back(expect(W, In, false));
      if (on(W, In)) Enabled.push_back(expect(W, In, true));
      else Disabled.push_back(All.back());
    }
    std::vector<Key> Got;
    const Sys &CB = B;
    for (auto &W : B) Got.push_back(key(W));
    CHECK("rows", Got == All, << "equations " << str(Got) << " instead of " << str(All));
    B.instantiate(In);
    CHECK("instantiated", B.isInstantiated() && B.size() == Rows.size());
    NOTE("instantiate -> " << B.instantiated_size());
    CHECK("instantiated", B.instantiated_size() == Enabled.size(), << B.instantiated_size() << " equations instead of " << Enabled.size());
    Got.clear();
    for (auto I = B.instantiated_begin(), EI = B.instantiated_end(); I != EI; ++I) Got.push_back(key(*I));
    std::vector<Key> CGot;
    for (auto I = CB.instantiated_begin(), EI = CB.instantiated_end(); I != EI; ++I) CGot.push_back(key(*I));
    CHECK("instantiated", Got == CGot);
    auto Order = Got;
    std::sort(Got.begin(), Got.end());
    std::sort(Enabled.begin(), Enabled.end());
    CHECK("instantiated", Got == Enabled, << "instantiated " << str(Got) << " instead of " << str(Enabled));
    Got.clear();
    for (auto &W : CB) Got.push_back(key(W));
    auto Want = Enabled;
    Want.insert(Want.end(), Disabled.begin(), Disabled.end());
    std::sort(Got.begin(), Got.end());
    std::sort(Want.begin(), Want.end());
    CHECK("discarded", Got == Want, << "equations " << str(Got) << " instead of " << str(Want));
    if (!Disabled.empty() && Enabled.size() > 1) g.nontrivial();
    if (!Disabled.empty()) g.label("with discarded equations");
    if (g.chance(1, 4)) {
      std::ostringstream O;
      B.printInstantiated(In, O);
      // One line per equation in either section.
      std::string T = O.str();
      size_t P = T.find("--- discarded ---\n");
      CHECK("print", T.rfind("--- instantiated ---\n", 0) == 0 && P != std::string::npos, << T);
      std::vector<std::string> L[2], WL[2];
      std::istringstream IS(T);
      int Sec = 0;
      for (std::string X; std::getline(IS, X);)
        if (X == "--- discarded ---") Sec = 1;
        else if (X != "--- instantiated ---") L[Sec].push_back(X);
      for (auto &K : Enabled) WL[0].push_back(line(K, In));
      for (auto &K : Disabled) WL[1].push_back(line(K, In));
      for (int S = 0; S < 2; ++S) {
        std::sort(L[S].begin(), L[S].end());
        std::sort(WL[S].begin(), WL[S].end());
        for (auto &X : WL[S]) X += " ";
        for (auto &X : L[S]) X += X.empty() || X.back() != ' ' ? " " : "";
        auto squeeze = [](std::vector<std::string> &V) { // blanks do not matter
          for (auto &X : V) {
            std::string Y;
            for (char C : X) if (C != ' ' || (!Y.empty() && Y.back() != ' ')) Y += C;
            X = Y;
          }
        };
        squeeze(L[S]);
        squeeze(WL[S]);
        CHECK("print", L[S] == WL[S], << (S ? "discarded" : "instantiated") << " equations are printed as\n" << T << "instead of, e.g., " << (WL[S].empty() ? "nothing" : WL[S][0]));
      }
    }
    // What is solved is exactly what has been instantiated.
    std::vector<Eq> E;
    for (auto &K : Order) E.push_back({(int)K[0], K[1], (int)K[2], K[3], K[4]});
    if (!fits(E, sizeof(Val) == 4 ? (Big)1 << 22 : (Big)1 << 50)) return;
    std::vector<Comp> Ref;
    size_t Good = 0;
    for (; Good < E.size(); ++Good)
      if (!reference({E.begin(), E.begin() + Good + 1}, 6, Ref)) break;
    size_t Ret = B.template solve<Info<Col, Val>, false>(In);
    CHECK("solve", Ret == Good, << "solved " << Ret << " equations instead of " << Good);
    if (Good < E.size() || E.empty()) return;
    reference(E, 6, Ref);
    std::map<long long, int> VarOf;
    for (int I = 0; I < 6; ++I) VarOf[I] = I;
    if (g.chance(1, 4)) {
      std::ostringstream O, W;
      B.printSolution(In, O);
      for (auto &X : B.getSolution())
        W << X.LHS.Value << " " << In.name(X.LHS.Column) << " + " << X.RHS.Value << " " << In.name(X.RHS.Column) << " = " << X.Constant << "\n";
      std::string T = O.str();
      size_t P = T.find('\n');
      CHECK("print-solution", P != std::string::npos && T.substr(P + 1) == W.str(), << "the solution is printed as\n" << T << "instead of\n" << W.str());
    }
    checkSolution("solve", B.getSolution(), E, 6, Ref, VarOf, [&](long long C) { return C >= 100; });
    g.label("solved");
  }
  /// A printed equation.
  static std::string line(const Key &K, const Info<Col, Val> &In) {
    std::ostringstream O;
    auto N = [&](long long C) { return In.name((Col)C); };
    O << K[1] << " " << N(K[0]) << " + " << K[3] << " " << N(K[2]) << " = " << K[4] << " | guards: ";
    size_t P = 5;
    for (size_t C = K[P++]; C--; ++P) O << N(K[P]) << "=" << In.Guards.at((Col)K[P]) << " ";
    O << " inverse guards: ";
    for (size_t C = K[P++]; C--; ++P) O << N(K[P]) << "=" << In.Guards.at((Col)K[P]) << " ";
    O << " computed monoms: ";
    for (size_t C = K[P++]; C--; P += 2) O << K[P + 1] << " " << N(K[P]) << " = " << K[P + 1] * (long long)In.Values.at((Col)K[P]) << " ";
    return O.str();
  }
  static bool on(const R &W, const Info<Col, Val> &In) {
    for (int X : W.G) if (!In.Guards.at((Col)X)) return false;
    for (int X : W.I) if (In.Guards.at((Col)X)) return false;
    return true;
  }
  static Key expect(const R &W, const Info<Col, Val> &In, bool Eval) {
    Key K{W.Q.I, (long long)W.Q.A, W.Q.J, (long long)W.Q.B, (long long)W.Q.C};
    if (Eval) for (auto &M : W.M) K[4] += M.second * (long long)In.Values.at((Col)M.first);
    K.push_back(W.G.size());
    for (int X : W.G) K.push_back(X);
    K.push_back(W.I.size());
    for (int X : W.I) K.push_back(X);
    K.push_back(W.M.size());
    for (auto &M : W.M) { K.push_back(M.first); K.push_back(M.second); }
    return K;
  }
};
} // namespace

PROPERTY(instantiateLong, 60000, 2000000) { Test<long, long long>::run(g); }
PROPERTY(instantiateInt, 60000, 2000000) { Test<unsigned short, int>::run(g); }
PROPERTY(instantiateWide, 30000, 900000) { Test<int, long, 9, 7, 8>::run(g); }
PROPERTY(instantiateNarrow, 30000, 900000) { Test<short, long long, 1, 1, 1>::run(g); }
