// C34: the CMake package in every configuration and after every history of
// configuration steps, against a model of the options.
#include "pbt.h"
#include "proc.h"
#include <algorithm>
#include <map>
#include <string>
#include <vector>
using pbt::Gen;
using proc::run;
using proc::slurp;

namespace {
struct Option { const char *Name; bool Default; };
const Option Options[] = {{"BCL_LEGACY", false}, {"BCL_TEST", true}, {"BCL_EXAMPLE", true}, {"BCL_INSTALL", true},
                          {"BCL_C_SOCKET", true}, {"BCL_NODEJS_SOCKET", true}, {"BUILD_SHARED_LIBS", false}};
using Settings = std::map<std::string, bool>;
enum Kind { Installed, Moved, BuildTree, Subdirectory };
const char *KindName[] = {"installed", "moved", "build tree", "subdirectory"};

/// Nothing is known about a program that was killed or that ran out of time,
/// memory or disk space.
bool undecided(int E, const std::string &L) {
  if (E < 0 || E == 124 || E > 125) return true;
  for (const char *S : {"Killed", "memory exhausted", "internal compiler error", "No space left", "Cannot allocate", "Resource temporarily"})
    if (L.find(S) != std::string::npos) return true;
  return false;
}
std::string tail(const std::string &S) { return S.size() > 1500 ? S.substr(S.size() - 1500) : S; }

std::string consumer(Kind K, const std::string &Dir, const std::string &Ask, bool Twice) {
  std::string S = "cmake_minimum_required(VERSION 3.5)\nproject(Consumer CXX)\n", Hint;
  if (K == Subdirectory) {
    S += "add_subdirectory(" + proc::repo() + " bcl-build)\n";
    S += "set(BCL_DIR ${CMAKE_CURRENT_BINARY_DIR}/bcl-build/bcl)\n";
  } else if (K == BuildTree)
    S += "set(BCL_DIR " + Dir + "/build/bcl)\n";
  else
    S += "set(CMAKE_PREFIX_PATH ${CMAKE_PREFIX_PATH} " + Dir + (K == Moved ? "/moved" : "/inst") + ")\n";
  S += "find_package(BCL " + Ask + " REQUIRED)\n";
  if (Twice) S += "find_package(BCL REQUIRED)\n";
  S += "set(CMAKE_MODULE_PATH ${CMAKE_MODULE_PATH} ${BCL_CMAKE_MODULE_PATH})\ninclude(BCLCompilerOptions)\n"
       "set(OUT \"\")\n"
       "foreach(V BCL_LEGACY BCL_TEST BCL_EXAMPLE BCL_C_SOCKET BCL_NODEJS_SOCKET BCL_COMPILER_IS_GCC_COMPATIBLE)\n"
       "  if(${V})\n    set(OUT \"${OUT}${V}=1\\n\")\n  else()\n    set(OUT \"${OUT}${V}=0\\n\")\n  endif()\nendforeach()\n"
       "foreach(V BCL::Core BCL::CSocket BCL::NodeJSSocket)\n"
       "  if(TARGET ${V})\n    set(OUT \"${OUT}${V}=1\\n\")\n  else()\n    set(OUT \"${OUT}${V}=0\\n\")\n  endif()\nendforeach()\n"
       "set(OUT \"${OUT}version=${BCL_VERSION}\\ndescription=${BCL_DESCRIPTION}\\n\")\n"
       "set(N 0)\nforeach(F ${BCL_NODEJS_SOCKET_SOURCES})\n  string(REGEX REPLACE \"^\\\\$<BUILD_INTERFACE:(.*)>$\" \"\\\\1\" F \"${F}\")\n"
       "  if(EXISTS ${F})\n    math(EXPR N \"${N}+1\")\n  endif()\nendforeach()\nset(OUT \"${OUT}sources=${N}\\n\")\n"
       "file(WRITE ${CMAKE_CURRENT_BINARY_DIR}/out \"${OUT}\")\n"
       "add_executable(Example main.cpp)\ntarget_link_libraries(Example BCL::Core)\n"
       "if(TARGET BCL::CSocket)\n  target_link_libraries(Example BCL::CSocket)\nendif()\n";
  return S;
}
std::string program(const Settings &S) {
  std::string P = "#include <bcl/bcl-config.h>\n";
  for (const char *H : {"Chain", "Diagnostic", "Equation", "Json", "trait", "cell", "tagged", "transparent_queue", "RedirectIO", "IntrusiveConnection"})
    P += std::string("#include <bcl/") + H + ".h>\n";
  if (S.at("BCL_C_SOCKET")) P += "#include <bcl/CSocket.h>\n";
  if (S.at("BCL_LEGACY")) P += "#include <bcl/legacy/cell_legacy.h>\n#include <bcl/legacy/value.h>\n";
  P += "#include <iostream>\n";
  if (S.at("BCL_C_SOCKET")) P += "namespace bcl { template <> void createServer(const Socket<std::string> *) {} }\n";
  P += "int main(int Argc, char **) {\n"
       "  std::cout << BCL_VERSION_MAJOR << ' ' << BCL_VERSION_MINOR << ' ' << BCL_VERSION_STRING << ' ' << BCL_DESCRIPTION << '\\n';\n";
  for (const char *M : {"BCL_LEGACY", "BCL_NODEJS_SOCKET", "BCL_C_SOCKET"})
    P += std::string("#ifdef ") + M + "\n  std::cout << \"" + M + "\\n\";\n#endif\n";
  if (S.at("BCL_C_SOCKET")) P += "  if (Argc > 5) bcl::net::startServer(\"\", 0, 0, [](bcl::net::SocketStatus, const bcl::net::Connection &) {});\n";
  return P + "}\n";
}
std::string expectedRun(const Settings &S) {
  std::string E = "3 0 3.0 Base Construction Library\n";
  for (const char *M : {"BCL_LEGACY", "BCL_NODEJS_SOCKET", "BCL_C_SOCKET"})
    if (S.at(M)) E += std::string(M) + "\n";
  return E;
}
} // namespace

PROPERTY(configurations, 30, 800, O.Guided = false; O.WallLimit = 600; O.CpuLimit = 600; O.LeakCheck = false) {
  Settings S;
  for (auto &X : Options) S[X.Name] = X.Default;
  Kind K = Kind(g.below(4));
  std::string Gen = g.coin() ? "Ninja" : "Unix Makefiles", Ask = g.pick(std::vector<std::string>{"", "3.0", "1.2", "3"});
  bool Twice = g.chance(1, 4);
  // Settings persist in the cache: a later step changes what it names.
  std::vector<std::vector<std::string>> Steps(1 + (g.coin() ? g.below(3) : 0));
  for (auto &Step : Steps)
    for (auto &X : Options) {
      bool Need = std::string(X.Name) == "BCL_INSTALL" && K <= Moved;
      // Tests and examples take most of the time.
      bool Slow = std::string(X.Name) == "BCL_TEST" || std::string(X.Name) == "BCL_EXAMPLE";
      if (!g.chance(1, 2) && !(Slow && &Step == &Steps.front() && g.chance(2, 3))) continue;
      bool V = Need || (Slow ? g.chance(1, 4) : g.coin());
      S[X.Name] = V;
      Step.push_back(std::string("-D") + X.Name + "=" + (V ? "ON" : "OFF"));
    }
  std::string T;
  for (auto &Step : Steps) { T += " configure"; for (auto &X : Step) T += " " + X; }
  NOTE(KindName[K] << ", " << Gen << ", find_package(BCL " << Ask << ")" << (Twice ? " twice," : ",") << T);
  if (Steps.size() > 1 || K != Installed) g.nontrivial();

  static int Serial;
  proc::Scratch D(pbt::tmp() + "/p" + std::to_string(getpid()) + "_" + std::to_string(++Serial));
  const std::string Dir = D.Dir, Log = Dir + "/log";
  mkdir((Dir + "/user").c_str(), 0755);
  std::ofstream(Dir + "/user/CMakeLists.txt") << consumer(K, Dir, Ask, Twice);
  std::ofstream(Dir + "/user/main.cpp") << program(S);
  auto cmake = [&](std::vector<std::string> A) {
    A.insert(A.begin(), {"timeout", "200", "cmake"});
    return run(A, Log);
  };
#define STEP(NAME, CALL)                                                                                             \
  {                                                                                                                  \
    int E = CALL;                                                                                                    \
    std::string L = slurp(Log);                                                                                      \
    if (E && undecided(E, L)) { g.label("undecided"); return; }                                                      \
    CHECK(NAME, !E, << NAME << ": " << tail(L));                                                                     \
  }
  const std::string Own = K == Subdirectory ? Dir + "/user-build" : Dir + "/build";
  auto configure = [&](const std::string &From, const std::string &To, const std::vector<std::string> &Step) {
    std::vector<std::string> A{"-S", From, "-B", To, "-G", Gen, "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-O0",
                               "-DCMAKE_INSTALL_PREFIX=" + Dir + "/inst", "-Wno-dev"};
    A.insert(A.end(), Step.begin(), Step.end());
    return cmake(A);
  };
  for (auto &Step : Steps) STEP("configure", configure(K == Subdirectory ? Dir + "/user" : proc::repo(), Own, Step));
  STEP("build", cmake({"--build", Own}));
  if (K <= Moved) STEP("install", cmake({"--install", Own}));
  if (K == Moved) CHECK("move", !rename((Dir + "/inst").c_str(), (Dir + "/moved").c_str()), << "the installation is not moved");
  if (K != Subdirectory) {
    STEP("find", configure(Dir + "/user", Dir + "/user-build", {}));
    if (Steps.size() == 1 && Steps[0].size() % 2) STEP("find again", configure(Dir + "/user", Dir + "/user-build", {}));
    STEP("use", cmake({"--build", Dir + "/user-build"}));
  }
#undef STEP
  if (K <= Moved)
    CHECK("legacy headers", !access((Dir + (K == Moved ? "/moved" : "/inst") + "/include/bcl/legacy/value.h").c_str(), F_OK) == S["BCL_LEGACY"], << "BCL_LEGACY=" << S["BCL_LEGACY"]);
  std::string Expected;
  for (const char *V : {"BCL_LEGACY", "BCL_TEST", "BCL_EXAMPLE", "BCL_C_SOCKET", "BCL_NODEJS_SOCKET"})
    Expected += std::string(V) + "=" + (S[V] ? "1\n" : "0\n");
  Expected += "BCL_COMPILER_IS_GCC_COMPATIBLE=1\nBCL::Core=1\n";
  Expected += std::string("BCL::CSocket=") + (S["BCL_C_SOCKET"] ? "1\n" : "0\n") + "BCL::NodeJSSocket=" + (S["BCL_NODEJS_SOCKET"] ? "1\n" : "0\n");
  Expected += std::string("version=3.0\ndescription=Base Construction Library\nsources=") + (S["BCL_NODEJS_SOCKET"] ? "1\n" : "0\n");
  std::string Out = slurp(Dir + "/user-build/out");
  CHECK("package", Out == Expected, << "the package tells\n" << Out << "expected\n" << Expected);
  int E = run({"timeout", "60", Dir + "/user-build/Example"}, Log);
  std::string L = slurp(Log);
  if (E && undecided(E, L) && E > 0) { g.label("undecided"); return; }
  CHECK("program", !E && L == expectedRun(S), << "the program tells\n" << L << "expected\n" << expectedRun(S));
}
