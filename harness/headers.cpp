// C33: programs of several translation units that include the public headers
// in any selection and order.
#include "pbt.h"
#include "proc.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <spawn.h>
#include <string>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <vector>
using pbt::Gen;

namespace {
/// A header and its use: declarations at the top level and the body of a
/// function that returns whether all is right and adds to Digest, which has
/// to be the same in each translation unit. @ is the number of the unit.
struct Use { const char *Name, *Decl, *Body; };
const Use Uses[] = {
{"bcl/CSocket.h", "", "using namespace bcl::net; bcl::Socket<std::string> *S = nullptr; Digest += sizeof(Connection) + sizeof(*S); return SocketStatus::Listen != SocketStatus::Accept;"},
{"bcl/Chain.h", "namespace u@ { struct N : bcl::Chain<N> { int I; }; }",
  "N A, B; A.I = 1; B.I = 2; bcl::ChainTraits<N>::spliceNext(&B, &A); Digest += sizeof(N); return bcl::ChainTraits<N>::getNext(&A) == &B && bcl::ChainTraits<N>::getPrev(&B) == &A;"},
{"bcl/Diagnostic.h", "", "bcl::Diagnostic D(\"warning\"); D.insert(7, \"%d-%s\", 5, 12, \"x\"); Digest += sizeof(D); return D.size() == 1 && *D.begin() == std::string(\"warning C7(5): 12-x\");"},
{"bcl/Equation.h", "", "auto R = milp::euclidGCD(12, 18); milp::BAEquation<int, int> E(1, 2, 3, 4, 5); Digest += sizeof(E); return std::get<0>(R) == 6 && E.LHS.Column == 1 && E.RHS.Value == 4 && E.Constant == 5;"},
{"bcl/IntrusiveConnection.h", "namespace u@ { struct K : bcl::Socket<std::string> { mutable std::vector<ClosedCallback> C; mutable std::string Out; void send(const std::string &S) const override { Out += S; } void receive(const ReceiveCallback &) const override { } void closed(const ClosedCallback &F) const override { C.push_back(F); } }; }",
  "K S; bool Seen = false; bcl::IntrusiveConnection::connect(&S, '\\n', [&](bcl::IntrusiveConnection) { Seen = true; }); for (auto &F : S.C) F(false); Digest += sizeof(bcl::IntrusiveConnection); return !S.C.empty();"},
{"bcl/IteratorDataAdaptor.h", "namespace u@ { struct E { int X, Y; E(int X, int Y) : X(X), Y(Y) {} }; }",
  "int V[] = {3, 4}; bcl::IteratorDataAdaptor<int *, int, E> I(V, 9); ++I; E Z = *I; Digest += sizeof(I); return Z.X == 4 && Z.Y == 9;"},
{"bcl/Json.h", "", "std::map<std::string, std::vector<int>> M, N; M[\"a\\\"\\n\"] = {1, -2}; M[\"b\"]; json::Parser<> P(json::Parser<>::unparse(M)); Digest += sizeof(P); return P.parse(N) && M == N && !P.hasErrors();"},
{"bcl/JsonObjectMacros.h", "#include <bcl/Json.h>\nJSON_OBJECT_BEGIN(R@)\nJSON_OBJECT_PAIR_2(R@, A, int, B, std::string)\nJSON_OBJECT_END(R@)\nJSON_DEFAULT_TRAITS(::, R@)\n",
  "R@ R, Q; R[R@::A] = 5; R[R@::B] = \"t\"; json::Parser<> P(json::Parser<>::unparse(R)); Digest += sizeof(R); return P.parse(Q) && Q[R@::A] == 5 && Q[R@::B] == \"t\";"},
{"bcl/RedirectIO.h", "", "bcl::RedirectIO R; Digest += sizeof(R); return !R.mayRedirected();"},
{"bcl/Socket.h", "", "Digest += sizeof(bcl::Socket<std::string>); return std::has_virtual_destructor<bcl::Socket<std::string>>::value;"},
{"bcl/ValuePtrWrapper.h", "", "int *P = nullptr; bcl::ValuePtrWrapper<int> W(P, 4); bcl::ValuePtrWrapper<int> V(std::move(W)); Digest += sizeof(V); return P == &*V && *P == 4;"},
{"bcl/cell.h", "namespace u@ { struct A { typedef int ValueType; }; struct B { typedef long ValueType; }; }",
  "bcl::StaticMap<A, B> M; M.value<A>() = 1; M.value<B>() = 2; auto N = M; Digest += sizeof(M); return N.value<A>() == 1 && N.value<B>() == 2 && bcl::IsCellExist<bcl::StaticMap<A, B>, B>::value;"},
{"bcl/convertible_pair.h", "", "bcl::convertible_pair<int, char> P(1, 'c'); int &I = P; char &C = P; Digest += sizeof(P); return I == 1 && C == 'c';"},
{"bcl/marray.h", "", "bcl::marray<int, 2> A(std::array<size_t, 2>{2, 3}); for (int I = 0; I < 2; ++I) for (int J = 0; J < 3; ++J) A[I][J] = I * 3 + J; Digest += sizeof(A); return A[1][2] == 5 && A[0][2] == 2;"},
{"bcl/marray_f.h", "", "bcl::marray_f<int, 2> A(std::array<size_t, 2>{2, 3}); for (int I = 0; I < 2; ++I) for (int J = 0; J < 3; ++J) A(I, J) = I * 3 + J; Digest += sizeof(A); return A(1, 2) == 5 && A(0, 2) == 2;"},
{"bcl/tagged.h", "namespace u@ { struct X {}; struct Y {}; }", "bcl::tagged_tuple<bcl::tagged<int, X>, bcl::tagged<long, Y>> T(1, 2l); Digest += sizeof(T); return T.get<X>() == 1 && T.get<Y>() == 2;"},
{"bcl/trait.h", "namespace u@ { BCL_TRAIT@ }", "bcl::TraitDescriptor<bcl::TraitAlternative<P, Q>, O> D; D.set<P>(); D.set<Q, O>(); Digest += sizeof(D); return !D.is<P>() && D.is<Q, O>();"},
{"bcl/transparent_queue.h", "", "int A, B; bcl::TransparentQueue<int> Q; Q.push(&A); Q.push(&B); Digest += sizeof(Q); return Q.size() == 2 && Q.pop() == &A && Q.pop() == &B && Q.empty();"},
{"bcl/tuple_utils.h", "", "int S = 0; std::tuple<int, long> T(3, 4); bcl::for_each(T, [&](auto &X) { S += X; }); Digest += S; return S == 7;"},
{"bcl/utility.h", "", "auto P = bcl::make_unique<int>(5); Digest += sizeof(bcl::Uncopyable); return *P == 5 && bcl::numberOfDigits(1234, 10) == 4 && bcl::is_contained<int, char, int>::value;"},
{"bcl/legacy/declaration.h", "", "Base::TextAnsi T = \"x\"; Digest += sizeof(Base::CharUnicode); return T.size() == 1;"},
{"bcl/legacy/cell_macros.h", "#include <bcl/legacy/cell_legacy.h>\nnamespace u@ { struct CA { typedef int ValueType; }; struct CB { typedef long ValueType; }; }",
  "CELL_COLL_2(CA, CB) C; C.Value<CA>() = 1; C.Value<CB>() = 2; Digest += sizeof(C); return C.Value<CA>() == 1 && C.Value<CB>() == 2;"},
{"bcl/legacy/cell_legacy.h", "namespace u@ { struct LA { typedef int ValueType; }; struct LB { typedef long ValueType; }; }",
  "Base::Cell<LA, Base::Cell<LB, Utility::Null>> C; C.Value<LA>() = 1; C.Value<LB>() = 2; Digest += sizeof(C); return C.Value<LA>() == 1 && C.Value<LB>() == 2;"},
{"bcl/legacy/exception.h", "", "Digest += sizeof(Base::IException); try { throw Base::BCLException::Error<CELL_COLL_1(Base::ErrorList::CopyString)>(); } catch (const Base::IException &E) { return E.RelativeCode() > 0; } return false;"},
{"bcl/legacy/text.h", "", "char B[4]; Base::CopyAnsi(B, 4, \"abc\"); return Base::ToTextAnsi(-15) == \"-15\" && B[2] == 'c' && !B[3];"},
{"bcl/legacy/tree.h", "namespace u@ { struct TA { typedef int ValueType; }; struct TB { typedef long ValueType; }; }",
  "Base::Node<TA, Base::Node<TB>> N; N.Value<TA>() = 1; N.Value<TB>() = 2; Digest += sizeof(N); return N.Value<TA>() == 1 && N.Value<TB>() == 2;"},
{"bcl/legacy/value.h", "", "Utility::Value<int, Utility::True> W; bool U = !W; W = 4; int I = W; Digest += sizeof(W); return U && I == 4;"},
};
constexpr size_t Count = sizeof Uses / sizeof *Uses;

std::string at(std::string S, size_t N) {
  for (size_t P; (P = S.find("BCL_TRAIT@")) != std::string::npos;)
    S.replace(P, 10, "BCL_TRAIT_(P, 1) BCL_TRAIT_(Q, 2) BCL_TRAIT_(O, 3)");
  for (size_t P; (P = S.find('@')) != std::string::npos;) S.replace(P, 1, std::to_string(N));
  return S;
}
using proc::repo;
using proc::run;
using proc::slurp;
/// The configuration header as CMake writes it.
std::string config(bool Legacy) {
  std::string T = slurp(repo() + "/include/bcl/bcl-config.h.in"), R, L;
  for (size_t I = 0; I < T.size(); ++I) {
    L += T[I];
    if (T[I] != '\n' && I + 1 < T.size()) continue;
    size_t P = L.find("#cmakedefine ");
    if (P != std::string::npos)
      L = Legacy || L.find("BCL_LEGACY") == std::string::npos ? "#define " + L.substr(P + 13) : "/* #undef BCL_LEGACY */\n";
    else
      for (size_t A; (A = L.find('@')) != std::string::npos;) {
        size_t B = L.find('@', A + 1);
        if (B == std::string::npos) break;
        L.replace(A, B - A + 1, "3");
      }
    R += L;
    L.clear();
  }
  return R;
}

struct Program {
  std::vector<std::vector<size_t>> Units;
  std::vector<std::string> Flags;
  std::string Cxx;
  bool Legacy;
};
void check(Gen &g, const Program &P) {
  static int Serial;
  proc::Scratch D(pbt::tmp() + "/h" + std::to_string(getpid()) + "_" + std::to_string(++Serial));
  const std::string Dir = D.Dir;
  mkdir((Dir + "/inc").c_str(), 0755);
  mkdir((Dir + "/inc/bcl").c_str(), 0755);
  std::ofstream(Dir + "/inc/bcl/bcl-config.h") << config(P.Legacy);
  std::vector<std::string> Objs, Files, Link{"timeout", "100", P.Cxx, "-pthread"};
  std::string Main = "#include <cstdio>\n#include <map>\n#include <string>\nstruct Res { bool Ok; long Digest; };\n", Body;
  for (size_t U = 0; U < P.Units.size(); ++U) {
    std::string S, T = "namespace u@ {\nstruct Res { bool Ok; long Digest; };\n";
    std::vector<size_t> Seen;
    for (size_t H : P.Units[U]) S += "#include <" + std::string(Uses[H].Name) + ">\n";
    S += "#include <map>\n#include <memory>\n#include <string>\n#include <tuple>\n#include <type_traits>\n#include <utility>\n#include <vector>\n"
         "#define BCL_TRAIT_(N, K) struct N : bcl::TraitBase<K> {};\n";
    for (size_t H : P.Units[U]) {
      if (std::count(Seen.begin(), Seen.end(), H)) continue;
      Seen.push_back(H);
      S += std::string(Uses[H].Decl) + "\n";
      T += "static bool use" + std::to_string(H) + "(long &Digest) { " + Uses[H].Body + " }\n";
    }
    T += "}\nint unit@(void (*Report)(int, int, bool, long)) {\n";
    for (size_t H : Seen) T += "  { long D = 0; bool Ok = u@::use" + std::to_string(H) + "(D); Report(@, " + std::to_string(H) + ", Ok, D); }\n";
    T += "  return 0;\n}\n";
    std::string F = Dir + "/u" + std::to_string(U) + ".cpp";
    std::ofstream(F) << at(S + T, U);
    Files.push_back(F);
    Main += "int unit" + std::to_string(U) + "(void (*)(int, int, bool, long));\n";
    Body += "  unit" + std::to_string(U) + "(report);\n";
  }
  Main += "static std::map<int, long> D; static int Bad;\nstatic void report(int U, int H, bool Ok, long X) {\n"
          "  if (!Ok) { std::printf(\"header %d in unit %d\\n\", H, U); Bad = 1; }\n"
          "  if (!D.emplace(H, X).second && D[H] != X) { std::printf(\"header %d differs in unit %d\\n\", H, U); Bad = 1; }\n}\n"
          "int main() {\n" + Body + "  return Bad;\n}\n";
  std::ofstream(Dir + "/main.cpp") << Main;
  Files.push_back(Dir + "/main.cpp");
  for (size_t I = 0; I < Files.size(); ++I) {
    std::vector<std::string> C{"timeout", "200", P.Cxx, "-w", "-I" + repo() + "/include", "-I" + Dir + "/inc", "-c", Files[I], "-o", Files[I] + ".o"};
    C.insert(C.end(), P.Flags.begin(), P.Flags.end());
    int E = run(C, Dir + "/log");
    std::string L = slurp(Dir + "/log");
    // A compiler that was killed tells nothing about the headers.
    if (E < 0 || E > 100 || L.find("Killed") != std::string::npos || L.find("memory exhausted") != std::string::npos || L.find("internal compiler error") != std::string::npos) { g.label("not compiled"); return; }
    if (E) {
      std::string Inc;
      if (I < P.Units.size()) for (size_t H : P.Units[I]) Inc += std::string(" ") + Uses[H].Name;
      CHECK("compiles", !E, << P.Cxx << " refuses a translation unit with" << Inc << "\n" << L.substr(0, 1500));
    }
    Link.push_back(Files[I] + ".o");
  }
  Link.insert(Link.end(), {"-o", Dir + "/prog"});
  int E = run(Link, Dir + "/log");
  std::string L = slurp(Dir + "/log");
  if (E < 0 || E > 100 || L.find("Killed") != std::string::npos) { g.label("not linked"); return; }
  CHECK("links", !E, << L.substr(0, 1500));
  E = run({"timeout", "60", Dir + "/prog"}, Dir + "/log");
  L = slurp(Dir + "/log");
  CHECK("works", E == 0, << "exit code " << E << " " << L.substr(0, 1500));
}
} // namespace

// Up to three headers alone and together, each in at least two units.
PROPERTY(combined, 80, 1200, O.Guided = false; O.WallLimit = 600; O.CpuLimit = 600; O.LeakCheck = false) {
  Program P;
  P.Cxx = g.chance(1, 3) ? "clang++" : "g++";
  P.Flags = {g.chance(1, 4) ? "-std=c++20" : g.coin() ? "-std=c++17" : "-std=gnu++17", g.chance(1, 4) ? "-O1" : "-O0"};
  if (g.chance(1, 4)) P.Flags.push_back("-DNDEBUG");
  P.Legacy = g.coin();
  std::vector<size_t> All(Count), Some;
  for (size_t I = 0; I < Count; ++I) All[I] = I;
  for (size_t N = 2 + g.below(2); N; --N) {
    size_t K = g.below(All.size());
    Some.push_back(All[K]);
    All.erase(All.begin() + K);
  }
  for (size_t H : Some) P.Units.push_back({H});
  for (size_t N = g.below(12); N; --N) Some.push_back(g.chance(1, 4) ? g.pick(Some) : (size_t)g.below(Count));
  for (size_t I = Some.size(); I > 1; --I) std::swap(Some[I - 1], Some[g.below(I)]);
  P.Units.push_back(Some);
  for (auto &U : P.Units) {
    std::string S;
    for (size_t H : U) S += std::string(" ") + Uses[H].Name;
    NOTE("unit:" << S);
  }
  NOTE(P.Cxx << " " << P.Flags[0] << " " << P.Flags[1] << (P.Legacy ? " BCL_LEGACY" : ""));
  check(g, P);
  if (Some.size() > 2) g.nontrivial();
}
