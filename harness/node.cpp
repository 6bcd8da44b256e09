// C26: histories of connections of the Node.js add-on against a sequential
// model. Every worker drives one node process which loads the add-on.
#include "pbt.h"
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using pbt::Gen;
namespace {
std::string hex(const std::string &S) {
  static const char D[] = "0123456789abcdef";
  std::string R;
  for (unsigned char C : S) R += {D[C >> 4], D[C & 15]};
  return R;
}
struct Node {
  pid_t Pid = -1;
  int In = -1, Out = -1;
  std::string Err, Buf;
  void start() {
    int A[2], B[2];
    if (pipe2(A, O_CLOEXEC) || pipe2(B, O_CLOEXEC)) pbt::fail("harness", "pipe");
    Err = pbt::tmp() + "/node." + std::to_string(getpid()) + ".err";
    char Exe[4096];
    ssize_t N = readlink("/proc/self/exe", Exe, sizeof Exe - 1);
    Exe[N] = 0;
    std::string So = Exe;
    So = So.substr(0, So.rfind('/')) + "/bclSocket.node";
    Pid = fork();
    if (!Pid) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      for (int S = 1; S < 32; ++S) signal(S, SIG_DFL);
      sigset_t Set;
      sigemptyset(&Set);
      sigprocmask(SIG_SETMASK, &Set, nullptr);
      int E = open(Err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      int I = fcntl(A[0], F_DUPFD, 10), O = fcntl(B[1], F_DUPFD, 10);
      dup2(E, 1), dup2(E, 2), dup2(I, 0), dup2(O, 3);
      for (int F = 4; F < 64; ++F) close(F);
      setenv("LD_PRELOAD", NODE_PRELOAD, 1);
      setenv("ASAN_OPTIONS", "detect_leaks=0:quarantine_size_mb=8:exitcode=77:detect_odr_violation=0", 1);
      setenv("UBSAN_OPTIONS", "print_stacktrace=1", 1);
      unsetenv("NODE_OPTIONS");
      execlp("node", "node", "--expose-gc", "--single-threaded-gc", NODE_JS, So.c_str(), (char *)nullptr);
      _exit(127);
    }
    close(A[0]), close(B[1]);
    In = A[1], Out = B[0];
    Buf.clear();
    std::string L;
    for (int Try = 0; Try < 2 && L != "ready"; ++Try)
      if (!line(L)) break;
    if (L != "ready") down("start");
  }
  bool line(std::string &L) {
    for (;;) {
      size_t P = Buf.find('\n');
      if (P != std::string::npos) {
        L = Buf.substr(0, P);
        Buf.erase(0, P + 1);
        return true;
      }
      pollfd F{Out, POLLIN, 0};
      int R = poll(&F, 1, 25000);
      if (R < 0 && errno == EINTR) continue;
      if (!R) down("hang");
      char T[65536];
      ssize_t N = read(Out, T, sizeof T);
      if (N < 0 && errno == EINTR) continue;
      if (N <= 0) return false;
      Buf.append(T, N);
    }
  }
  void stop() {
    if (Pid < 0) return;
    kill(Pid, SIGKILL);
    waitpid(Pid, nullptr, 0);
    close(In), close(Out);
    Pid = -1;
  }
  [[noreturn]] void down(const char *Tag) {
    std::string Text(3000, 0);
    int F = open(Err.c_str(), O_RDONLY);
    ssize_t N = F < 0 ? 0 : read(F, &Text[0], Text.size());
    if (F >= 0) close(F);
    Text.resize(N > 0 ? N : 0);
    stop();
    pbt::fail(Tag, std::string("the Node.js process does not answer: ") + Text);
  }
  std::vector<std::string> run(const std::string &Script) {
    if (Pid < 0) start();
    std::string S = Script + "\n";
    for (size_t I = 0; I < S.size();) {
      ssize_t N = write(In, S.data() + I, S.size() - I);
      if (N < 0 && errno == EINTR) continue;
      if (N <= 0) down("crash");
      I += N;
    }
    std::vector<std::string> R;
    for (std::string L;;) {
      if (!line(L)) down("crash");
      R.push_back(L);
      if (!L.compare(0, 4, "done")) return R;
    }
  }
};
Node gNode;
pid_t gOwner;
Node &node() {
  if (gOwner != getpid()) gNode = Node(), gOwner = getpid(); // not the parent's one
  signal(SIGPIPE, SIG_IGN);
  return gNode;
}

std::string text(Gen &g, size_t Max) { // well-formed UTF-8
  std::string S;
  if (g.chance(1, 50)) S.assign(g.range(100, 70000), (char)('a' + g.below(26)));
  for (size_t N = g.len(Max); N--;) {
    unsigned C;
    switch (g.weighted({6, 2, 1, 1, 1, 1})) {
    default: C = 'a' + g.below(26); break;
    case 1: C = g.below(128); break;
    case 2: C = 0; break;
    case 3: C = 0x80 + g.below(0x800 - 0x80); break;
    case 4: C = g.pick({0x800u, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffdu, 0xffffu, 0x20acu}); break;
    case 5: C = 0x10000 + g.below(0x100000); break;
    }
    if (C < 0x80) S += (char)C;
    else if (C < 0x800) S += {(char)(0xc0 | C >> 6), (char)(0x80 | (C & 63))};
    else if (C < 0x10000) S += {(char)(0xe0 | C >> 12), (char)(0x80 | (C >> 6 & 63)), (char)(0x80 | (C & 63))};
    else S += {(char)(0xf0 | C >> 18), (char)(0x80 | (C >> 12 & 63)), (char)(0x80 | (C >> 6 & 63)), (char)(0x80 | (C & 63))};
  }
  return S;
}
struct Listener { std::vector<std::string> Acts; };
struct Conn {
  std::string Id;
  std::vector<Listener> R;
  int C = 0;
  bool Closed = false, Echo = false, Nested = false;
};
std::string dec(const std::string &Hex) {
  std::string R;
  for (size_t I = 0; I + 1 < Hex.size(); I += 2) R += (char)strtol(Hex.substr(I, 2).c_str(), nullptr, 16);
  return R;
}
std::string join(const std::vector<std::string> &V, const char *D) {
  std::string S;
  for (size_t I = 0; I < V.size(); ++I) S += (I ? D : "") + V[I];
  return S;
}
/// A plan of a server and its part of the expected history.
std::string plan(Gen &g, Conn &C, std::vector<std::string> &Want, bool Real = false) {
  std::string P = C.Id;
  Want.push_back("B " + C.Id);
  C.Echo = !Real && g.chance(1, 3); // then only well-formed UTF-8 is received
  for (size_t N = 1 + g.below(5); N--;)
    switch (g.weighted({1, 2, 4})) {
    case 0: {
      std::string H = hex(text(g, 12));
      P += ":S" + H;
      Want.push_back("S " + C.Id + " 1string x" + H);
      break;
    }
    case 1:
      P += ":C";
      ++C.C;
      break;
    case 2: {
      Listener L;
      for (size_t K = g.below(4); K--;)
        switch (g.weighted({2, 2, C.Echo ? 3u : 0u, Real ? 0u : 1u, 1})) {
        case 0: L.Acts.push_back("s" + hex(text(g, 12))); break;
        case 1: L.Acts.push_back("l"); break;
        case 2: L.Acts.push_back("e"); break;
        case 3: L.Acts.push_back("n"); break;
        case 4: L.Acts.push_back("k"); break;
        }
      if (L.Acts.empty()) L.Acts.push_back("l");
      P += ":R" + join(L.Acts, ".");
      C.R.push_back(L);
      break;
    }
    }
  if (Real && C.R.empty()) { // a socket without a listener of data is never read
    P += ":Rl";
    C.R.push_back({{"l"}});
  }
  return P;
}
void receive(Conn &C, const std::string &D, std::vector<std::string> &Want) {
  size_t N = C.R.size();
  for (size_t I = 0; I < N; ++I) {
    Want.push_back("R " + C.Id + " " + std::to_string(I) + " x" + hex(D));
    auto Acts = C.R[I].Acts;
    for (auto &A : Acts) {
      std::string S = "S " + C.Id + " 1string x";
      if (A[0] == 's') Want.push_back(S + A.substr(1));
      else if (A[0] == 'l') Want.push_back(S + hex(std::to_string(D.size())));
      else if (A[0] == 'e') Want.push_back(S + hex(D));
      else if (A[0] == 'n') C.R.push_back({{"l"}});
      else if (A[0] == 'k') ++C.C;
    }
  }
}
void close(Conn &C, bool Flag, std::vector<std::string> &Want) {
  for (int I = 0; I < C.C; ++I) Want.push_back("C " + C.Id + " " + std::to_string(I) + (Flag ? " 1" : " 0"));
  C.Closed = true;
}
std::string data(Gen &g, const Conn &C) {
  if (C.Echo) return text(g, 20);
  if (g.chance(1, 12)) return std::string(g.coin() ? g.pick({4096u, 65536u, 70000u}) : (unsigned)g.range(30, 200000), (char)g.below(256));
  return g.bytes(24);
}
void compare(Gen &g, const std::vector<std::string> &Got, const std::vector<std::string> &Want, const std::vector<std::string> &Free) {
  std::vector<std::string> G;
  std::map<std::string, int> F;
  for (auto &L : Got)
    if (L[0] == 'F') ++F[L.substr(2)];
    else if (L[0] == 'T') G.push_back("T");
    else if (L.compare(0, 4, "done")) G.push_back(L);
  size_t I = 0;
  while (I < G.size() && I < Want.size() && G[I] == Want[I]) ++I;
  auto Show = [](const std::vector<std::string> &V, size_t I) { return I < V.size() ? V[I].substr(0, 400) : std::string("the end"); };
  const char *Tag = "history";
  std::string W = Show(Want, I), H = Show(G, I);
  if (W[0] == 'R' || H[0] == 'R') Tag = "receive";
  else if (W[0] == 'S' || H[0] == 'S') Tag = "send";
  else if (W[0] == 'C' || H[0] == 'C') Tag = "close";
  else if (W[0] == 'T' || H[0] == 'T') Tag = "type-error";
  CHECK(Tag, I == G.size() && I == Want.size(), << "event " << I << " is " << H << ", expected " << W);
  for (auto &C : Free)
    CHECK("released", F[C] == 1, << "the listeners of the closed connection " << C << " were released " << F[C] << " times");
  CHECK("functions-released", Got.back() == "done 0", << "functions given to closed connections are still held: " << Got.back());
}
}

PROPERTY(history, 2500, 60000, O.LeakCheck = false; O.Guided = false; O.WallLimit = 200) {
  std::vector<std::string> Ops, Want, Ids;
  std::vector<Conn> Cs;
  int Data = 0, Sp = 0;
  auto Op = [&](const std::string &S) {
    NOTE(S);
    Ops.push_back(S);
  };
  for (size_t N = 3 + g.len(25); N--;) {
    std::vector<size_t> Live;
    for (size_t I = 0; I < Cs.size(); ++I)
      if (!Cs[I].Closed) Live.push_back(I);
    unsigned K = g.weighted({2, 8, 1, 1, 2, 1, 1, 1, 1});
    if (Live.empty() && K && K != 8 && K != 5) K = 0;
    if (!K && Live.size() > 3) K = 1;
    switch (K) {
    case 0: {
      Conn C;
      C.Id = std::to_string(Ids.size());
      Ids.push_back(C.Id);
      std::string P = plan(g, C, Want);
      Op("O," + C.Id + "," + P + "," + (g.chance(1, 4) ? "1" : "0"));
      Cs.push_back(C);
      break;
    }
    case 1: {
      auto &C = Cs[g.pick(Live)];
      std::string D = data(g, C);
      Op("D," + C.Id + "," + std::to_string(g.below(4)) + "," + hex(D));
      receive(C, D, Want);
      if (!C.R.empty()) ++Data;
      break;
    }
    case 2: {
      auto &C = Cs[g.pick(Live)];
      if (C.R.empty()) break;
      Op("B," + C.Id + "," + std::to_string(g.below(11)));
      Want.push_back("T");
      break;
    }
    case 3: {
      auto &C = Cs[g.pick(Live)];
      if (!C.C) break;
      Op("b," + C.Id + "," + std::to_string(g.below(6)));
      Want.push_back("T");
      break;
    }
    case 4: {
      auto &C = Cs[g.pick(Live)];
      bool F = g.coin();
      Op("X," + C.Id + "," + (F ? "1" : "0") + "," + (g.coin() ? "1" : "0"));
      close(C, F, Want);
      break;
    }
    case 5: Op("G"); ++Sp; break;
    case 6: Op("A"); break;
    case 7: {
      auto &C = Cs[g.pick(Live)];
      Op("P," + C.Id);
      ++Sp;
      break;
    }
    case 8:
      Op("W," + std::to_string(g.below(10)));
      Want.push_back("T");
      break;
    }
  }
  for (auto &C : Cs)
    if (!C.Closed) {
      bool F = g.coin();
      if (g.coin()) Op("P," + C.Id);
      Op("X," + C.Id + "," + (F ? "1" : "0") + "," + (g.coin() ? "1" : "0"));
      close(C, F, Want);
    }
  if (Data >= 2) g.nontrivial();
  if (Sp) g.label("collected");
  if (Cs.size() > 1) g.label("several connections");
  auto Got = node().run(join(Ops, ";"));
  compare(g, Got, Want, Ids);
}

// Over real connections of the loop-back interface: data may be received in
// other pieces than they were sent in.
PROPERTY(loop, 300, 6000, O.LeakCheck = false; O.Guided = false; O.WallLimit = 200) {
  Conn C;
  C.Id = "0";
  std::vector<std::string> Want;
  std::string P = plan(g, C, Want, true), Sent;
  std::string S = "N," + P;
  for (size_t N = g.len(8); N--;) {
    if (g.chance(1, 4)) S += ",w";
    std::string D = data(g, C);
    if (D.empty()) continue;
    S += "," + hex(D);
    Sent += D;
  }
  NOTE(S.substr(0, 3000));
  if (Sent.size() > 1) g.nontrivial();
  auto Got = node().run(S);
  // The pieces as the first listener saw them; the rest must fit them.
  std::string All, Answers, Client;
  for (auto &L : Got) {
    if (!L.compare(0, 5, "R 0 0")) {
      All += dec(L.substr(7));
      receive(C, dec(L.substr(7)), Want);
    }
    if (!L.compare(0, 2, "L ")) Client = L.substr(3);
  }
  CHECK("all-data", C.R.empty() || All == Sent, << "received " << pbt::show(All) << ", sent " << pbt::show(Sent));
  close(C, false, Want);
  for (auto &W : Want)
    if (W[0] == 'S') Answers += W.substr(W.find(" x") + 2);
  CHECK("all-answers", Client == Answers, << "the client received " << Client << ", sent " << Answers);
  std::vector<std::string> Rest;
  for (auto &L : Got)
    if (L[0] != 'L') Rest.push_back(L);
  compare(g, Rest, Want, {"0"});
}

// Memory of received data is not kept.
PROPERTY(memory, 8, 40, O.LeakCheck = false; O.Guided = false; O.WallLimit = 200) {
  size_t Size = (size_t)g.range(200000, 400000), N = 300;
  std::string S = "O,0,0:Rq,0;D,0,0,41;H,0," + std::to_string(Size) + "," + std::to_string(N) + ";X,0,0,0";
  NOTE(S);
  g.nontrivial();
  auto Got = node().run(S);
  long long Grown = -1;
  for (auto &L : Got)
    if (L[0] == 'M') Grown = atoll(L.c_str() + 2);
  CHECK("memory", Grown < (long long)(Size * N / 2), << N << " messages of " << Size << " bytes: the process has grown by " << Grown << " bytes");
}
