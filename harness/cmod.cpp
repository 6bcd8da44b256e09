// C35: the CMake modules: lists of compiler options and patches.
#include "pbt.h"
#include "proc.h"
#include <algorithm>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using pbt::Gen;
using proc::run;
using proc::slurp;

namespace {
using Tokens = std::vector<std::string>;
Tokens split(const std::string &S) {
  std::istringstream I(S);
  Tokens T;
  for (std::string X; I >> X;) T.push_back(X);
  return T;
}
std::string bracket(const std::string &S) { return "[=======[" + S + "]=======]"; }
std::string option(Gen &g) {
  static const Tokens Common{"-O2", "-O3", "-g", "-O", "-Os", "-std=c++11", "-std=c++17", "-std=c", "-Wall", "-W", "-DX", "-DX=1", "-DX=(1)", "-I/a.b/c", "-I/aXb/c",
                             "/W3", "/W4", "-Wl,-z,now", "-fno-rtti", "-lc++", "-lc", "-f[a]", "-fa", "-a|b", "-a", "b", "-x*", "-x", "-q?", "-D$", "-D^", "-DN=\\1"};
  if (g.chance(5, 6)) return g.pick(Common);
  std::string S = "-";
  for (size_t N = 1 + g.below(4); N; --N) S += "abO1+.*?()[]|^$=,:/\\_\""[g.below(22)];
  return S;
}
int cmake(const std::string &Script, const std::string &Log) { return run({"timeout", "60", "cmake", "-P", Script}, Log); }
bool undecided(int E, const std::string &L) {
  return E < 0 || E == 124 || E > 125 || L.find("Cannot allocate") != std::string::npos || L.find("No space left") != std::string::npos;
}
std::string show(const Tokens &T) {
  std::string S;
  for (auto &X : T) S += (S.empty() ? "" : " ") + X;
  return S;
}
} // namespace

PROPERTY(options, 1500, 40000, O.Guided = false; O.WallLimit = 120; O.CpuLimit = 120; O.LeakCheck = false) {
  static int Serial;
  proc::Scratch D(pbt::tmp() + "/m" + std::to_string(getpid()) + "_" + std::to_string(++Serial));
  const std::string Dir = D.Dir;
  std::string S = "include(" + proc::repo() + "/cmake/BCLUtils.cmake)\n";
  const Tokens Vars{"FLAGS_A", "FLAGS_B", "CMAKE_CXX_FLAGS"};
  std::map<std::string, Tokens> M;
  for (auto &V : Vars) {
    std::string T;
    for (size_t N = g.below(6); N; --N) T += (T.empty() ? "" : g.chance(1, 8) ? "  " : " ") + (!M[V].empty() && g.chance(1, 6) ? M[V].back() : option(g)), M[V] = split(T);
    if (g.chance(1, 6)) T += " ";
    if (!T.empty() || g.coin()) S += "set(" + V + " " + bracket(T) + ")\n";
    NOTE(V << " \"" << T << "\"");
  }
  struct Op { std::string Text; Tokens Appended; std::map<std::string, bool> To; Tokens Replaced; };
  std::vector<Op> Ops;
  std::map<std::string, Tokens> Now = M;
  for (size_t N = 1 + g.below(5); N; --N) {
    Op O;
    if (g.chance(1, 4)) {
      std::string X = option(g), A;
      if (g.chance(1, 4)) X += " " + option(g);
      for (auto &V : Vars)
        if (g.coin()) {
          A += " " + V;
          O.To[V] = true;
          for (auto &T : split(X)) M[V].push_back(T);
        }
      O.Appended = split(X);
      O.Text = "bcl_append(" + bracket(X) + A + ")";
    } else {
      auto &V = g.pick(Vars);
      auto &T = M[V];
      std::string Old = g.chance(1, 16) ? "" : !T.empty() && g.chance(2, 3) ? g.pick(T) : option(g);
      std::string New = g.chance(1, 16) ? "" : !T.empty() && g.chance(1, 4) ? g.pick(T) : option(g);
      O.Replaced = {Old, New};
      O.To[V] = true;
      O.Text = "bcl_replace(" + V + " " + bracket(Old) + " " + bracket(New) + ")";
      // What other operations choose from.
      std::replace(T.begin(), T.end(), Old, New);
      T.erase(std::remove(T.begin(), T.end(), ""), T.end());
      g.nontrivial();
    }
    S += O.Text + "\nfile(APPEND " + Dir + "/out \"";
    for (auto &V : Vars) S += "${" + V + "}\\n";
    S += "\")\n";
    NOTE(O.Text);
    Ops.push_back(O);
  }
  std::ofstream(Dir + "/s.cmake") << S;
  int E = cmake(Dir + "/s.cmake", Dir + "/log");
  std::string L = slurp(Dir + "/log");
  if (E && undecided(E, L)) return;
  CHECK("runs", !E, << L.substr(0, 800));
  std::istringstream Out(slurp(Dir + "/out"));
  for (auto &O : Ops)
    for (auto &V : Vars) {
      std::string Line;
      std::getline(Out, Line);
      Tokens Was = Now[V], Is = split(Line);
      Now[V] = Is;
#define SAME(COND) CHECK("value", COND, << O.Text << ": " << V << " was \"" << show(Was) << "\", is \"" << Line << "\"")
      if (!O.To.count(V)) { SAME(Is == Was); continue; }
      if (O.Replaced.empty()) {
        Was.insert(Was.end(), O.Appended.begin(), O.Appended.end());
        SAME(Is == Was);
        continue;
      }
      auto &Old = O.Replaced[0], &New = O.Replaced[1];
      auto count = [](const Tokens &T, const std::string &X) { return (size_t)std::count(T.begin(), T.end(), X); };
      if (Old == New) {
        if (!count(Was, New) && !New.empty()) Was.push_back(New);
        SAME(Is == Was);
        continue;
      }
      // The other options stay, the new one stands where the old one was.
      auto others = [&](const Tokens &T) {
        Tokens R;
        for (auto &X : T)
          if (X != Old && X != New) R.push_back(X);
        return R;
      };
      SAME(others(Is) == others(Was));
      SAME(!count(Is, Old) && (New.empty() || count(Is, New)));
      if (count(Was, New)) {
        Was.erase(std::remove(Was.begin(), Was.end(), Old), Was.end());
        SAME(Is == Was);
      } else if (count(Was, Old) && !New.empty()) {
        SAME(std::find(Is.begin(), Is.end(), New) - Is.begin() == std::find(Was.begin(), Was.end(), Old) - Was.begin());
        SAME(count(Is, New) <= count(Was, Old));
      } else if (!New.empty()) {
        SAME(Is.back() == New && count(Is, New) == 1);
      }
#undef SAME
    }
}

namespace {
struct File { std::string Name; Tokens Lines; };
std::string text(const Tokens &L) {
  std::string S;
  for (auto &X : L) S += X + "\n";
  return S;
}
/// A unified difference with three lines of context (one hunk per file).
std::string difference(const std::string &Name, const Tokens &A, const Tokens &B) {
  size_t P = 0, Q = 0;
  while (P < A.size() && P < B.size() && A[P] == B[P]) ++P;
  while (Q < A.size() - P && Q < B.size() - P && A[A.size() - 1 - Q] == B[B.size() - 1 - Q]) ++Q;
  size_t From = P > 3 ? P - 3 : 0, End = Q > 3 ? Q - 3 : 0;
  size_t NA = A.size() - End - From, NB = B.size() - End - From;
  std::ostringstream S;
  S << "--- a/" << Name << "\n+++ b/" << Name << "\n@@ -" << (NA ? From + 1 : From) << "," << NA << " +" << (NB ? From + 1 : From) << "," << NB << " @@\n";
  for (size_t I = From; I < P; ++I) S << " " << A[I] << "\n";
  for (size_t I = P; I < A.size() - Q; ++I) S << "-" << A[I] << "\n";
  for (size_t I = P; I < B.size() - Q; ++I) S << "+" << B[I] << "\n";
  for (size_t I = A.size() - Q; I < A.size() - End; ++I) S << " " << A[I] << "\n";
  return S.str();
}
} // namespace

// A patch is applied and reversed; one that does not fit is an error, or a
// warning if it is to be ignored.
PROPERTY(patches, 500, 15000, O.Guided = false; O.WallLimit = 120; O.CpuLimit = 120; O.LeakCheck = false) {
  static int Serial;
  proc::Scratch D(pbt::tmp() + "/q" + std::to_string(getpid()) + "_" + std::to_string(++Serial));
  const std::string Dir = D.Dir, Target = Dir + "/target";
  mkdir(Target.c_str(), 0755);
  std::vector<File> Old, New;
  std::string Patch;
  size_t Line = 0;
  for (size_t N = 1 + g.below(3), I = 0; I < N; ++I) {
    File F{std::string("file") + char('a' + I) + (g.coin() ? ".txt" : ".c"), {}};
    for (size_t K = 1 + g.below(20); K; --K) F.Lines.push_back("line " + std::to_string(++Line) + (g.coin() ? " x" : ""));
    Old.push_back(F);
    size_t P = g.below(F.Lines.size()), K = g.below(std::min<size_t>(3, F.Lines.size() - P) + 1), M = g.below(3);
    if (!K && !M) M = 1;
    if (K == F.Lines.size() && !M) M = 1;
    F.Lines.erase(F.Lines.begin() + P, F.Lines.begin() + P + K);
    for (; M; --M) F.Lines.insert(F.Lines.begin() + P, "new " + std::to_string(++Line));
    New.push_back(F);
    Patch += difference(F.Name, Old.back().Lines, New.back().Lines);
  }
  std::ofstream(Dir + "/p.diff") << Patch;
  bool Applied = false;
  for (auto &F : Old) std::ofstream(Target + "/" + F.Name) << text(F.Lines);
  NOTE(Patch);
  for (size_t N = 1 + g.below(4), I = 0; I < N; ++I) {
    bool Reverse = g.chance(3, 4) ? Applied : !Applied, Ignore = g.chance(1, 3), Missing = g.chance(1, 10);
    const char *Tool = g.pick(std::vector<const char *>{"", " PATCH", " GIT"});
    std::string Call = "bcl_patch(PATCHFILE " + Dir + (Missing ? "/none.diff" : "/p.diff") + " TARGET " + Target + (Reverse ? " REVERSE" : "") + (Ignore ? " IGNORE" : "") + Tool + ")";
    NOTE("bcl_patch(" << (Missing ? "none.diff" : "p.diff") << (Reverse ? " REVERSE" : "") << (Ignore ? " IGNORE" : "") << Tool << ")");
    std::ofstream(Dir + "/s.cmake") << "include(" << proc::repo() << "/cmake/BCLPatch.cmake)\n" << Call << "\nfile(WRITE " << Dir << "/out done)\n";
    run({"rm", "-f", Dir + "/out"}, "/dev/null");
    int E = cmake(Dir + "/s.cmake", Dir + "/log");
    std::string L = slurp(Dir + "/log");
    if (E && undecided(E, L)) return;
    bool Fits = Missing || Reverse == Applied;
    if (!Fits) g.nontrivial();
    CHECK("result", (E == 0) == (Fits || Ignore), << "exit code " << E << "\n" << L.substr(0, 800));
    CHECK("continues", (access((Dir + "/out").c_str(), F_OK) == 0) == (E == 0), << "exit code " << E);
    CHECK("warns", Fits == (L.find("error") == std::string::npos), << L.substr(0, 800));
    if (!Missing && Fits) Applied = !Applied;
    if (I) g.nontrivial();
    for (size_t K = 0; K < Old.size(); ++K) {
      std::string T = slurp(Target + "/" + Old[K].Name), W = text((Applied ? New : Old)[K].Lines);
      CHECK("content", T == W, << Old[K].Name << " has\n" << T << "expected\n" << W << L.substr(0, 500));
    }
  }
}
