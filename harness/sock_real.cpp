// C13: the socket server with real loopback connections and free threads.
#include <bcl/Socket.h>
#include <bcl/CSocket.h>
#include "pbt.h"
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <list>
#include <map>
#include <mutex>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using pbt::Gen;
using namespace bcl::net;

namespace {
const int Patience = 60; // seconds
struct App {
  std::string Data;
  int Closed = 0;
  bool Ok = false;
};
std::mutex M;
std::condition_variable Ev;
int gPort = 0;
std::list<App> Apps;          // of the running case
std::map<int, std::string> Log; // events by port of the client
std::atomic<unsigned> gBuffer;

void server() {
  startServer("127.0.0.1", 0, 0, [](SocketStatus S, const Connection &C) {
    std::lock_guard<std::mutex> L(M);
    if (S == SocketStatus::Listen) {
      gPort = C.getServerPort();
      Ev.notify_all();
    }
    Log[C.getClientPort()] += S == SocketStatus::Accept ? 'A' : S == SocketStatus::Receive ? 'R' : S == SocketStatus::Send ? 'S' :
      S == SocketStatus::Close ? 'C' : S == SocketStatus::SendError ? 's' : S == SocketStatus::ReceiveError ? 'r' : '?';
  }, gBuffer);
}
struct Init {
  Init() {
    pbt::gWorkerInit = [] {
      gBuffer = 1 + (unsigned)(pbt::seed() % 3 ? 65534 : getpid() % 4096);
      std::thread(server).detach();
      std::unique_lock<std::mutex> L(M);
      Ev.wait_for(L, std::chrono::seconds(Patience), [] { return gPort != 0; });
    };
  }
} I;
std::string twist(std::string S) {
  for (char &C : S) C ^= 0x2a;
  return S;
}
} // namespace

template <> void bcl::createServer<std::string>(const Socket<std::string> *S) {
  App *A;
  {
    std::lock_guard<std::mutex> L(M);
    Apps.emplace_back();
    A = &Apps.back();
  }
  S->receive([A, S](const std::string &D) {
    {
      std::lock_guard<std::mutex> L(M);
      A->Data += D;
    }
    S->send(twist(D));
  });
  S->closed([A](bool Ok) {
    std::lock_guard<std::mutex> L(M);
    ++A->Closed;
    A->Ok = Ok;
    Ev.notify_all();
  });
}

namespace {
struct Client {
  std::vector<std::string> Writes;
  unsigned How; // 0: half-close and read to the end, 1: close, 2: reset
  bool Pipelined; // writes everything before it reads
  std::string All, Got, Problem;
  int Port = 0;
};
void run(Client &C) {
  int F = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in A;
  memset(&A, 0, sizeof A);
  A.sin_family = AF_INET;
  A.sin_port = htons((uint16_t)gPort);
  A.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (F < 0 || connect(F, (sockaddr *)&A, sizeof A)) { C.Problem = "no connection"; if (F >= 0) close(F); return; }
  socklen_t L = sizeof A;
  getsockname(F, (sockaddr *)&A, &L);
  C.Port = ntohs(A.sin_port);
  auto readTo = [&](size_t N) {
    char B[4096];
    while (C.Got.size() < N) {
      pollfd P{F, POLLIN, 0};
      if (poll(&P, 1, Patience * 1000) <= 0) { C.Problem = "no answer"; return; }
      ssize_t K = recv(F, B, sizeof B, 0);
      if (K <= 0) return;
      C.Got.append(B, (size_t)K);
    }
  };
  size_t Sent = 0;
  for (auto &W : C.Writes) {
    for (size_t O = 0; O < W.size();) {
      ssize_t K = send(F, W.data() + O, W.size() - O, MSG_NOSIGNAL);
      if (K <= 0) { C.Problem = "the server has closed the connection"; break; }
      O += (size_t)K;
    }
    Sent += W.size();
    if (!C.Pipelined && C.Problem.empty()) readTo(Sent);
  }
  if (C.How == 0) {
    ::shutdown(F, SHUT_WR);
    readTo((size_t)-1);
  } else if (C.How == 2) {
    linger G{1, 0};
    setsockopt(F, SOL_SOCKET, SO_LINGER, &G, sizeof G);
  }
  close(F);
}
} // namespace

PROPERTY(loopback, 2400, 60000, O.LeakCheck = false; O.Guided = false; O.NeedRepro = false) {
  std::vector<Client> Cs(1 + g.below(5));
  {
    std::lock_guard<std::mutex> L(M);
    Apps.clear();
    Log.clear();
  }
  unsigned Id = 0;
  for (auto &C : Cs) {
    C.Pipelined = g.coin();
    C.How = g.weighted({4, 1, 1});
    std::string Head(1, (char)++Id);
    C.Writes.push_back(Head);
    for (size_t N = g.len(6); N--;) {
      size_t Z = g.chance(1, 6) ? g.below(8000) : g.below(40);
      std::string S(Z, 0);
      uint64_t X = g.integral<uint64_t>() | 1;
      for (char &Y : S) {
        X ^= X << 13; X ^= X >> 7; X ^= X << 17;
        Y = (char)((X & 7) ? X >> 8 : 0);
      }
      if (Z) C.Writes.push_back(S);
    }
    for (auto &W : C.Writes) C.All += W;
  }
  std::vector<std::thread> T;
  for (auto &C : Cs) T.emplace_back([&C] { run(C); });
  for (auto &X : T) X.join();
  std::unique_lock<std::mutex> L(M);
  // A connection that was closed before it is accepted may have no data.
  auto Ready = [&] {
    if (Apps.size() < Cs.size()) return false;
    for (auto &A : Apps) if (!A.Closed) return false;
    return true;
  };
  bool Done = Ev.wait_for(L, std::chrono::seconds(Patience), Ready);
  CHECK("end", Done, << Apps.size() << " of " << Cs.size() << " connections are reported");
  for (auto &C : Cs) {
    std::string Who = "client " + std::to_string(&C - &Cs[0]) + ": ";
    App *A = nullptr;
    for (auto &X : Apps) if (X.Data.size() && X.Data[0] == C.Writes[0][0]) {
      CHECK("one", !A, << Who << "two connections");
      A = &X;
    }
    std::string E = Log[C.Port];
    if (C.How == 2) { // data may be lost
      if (A) CHECK("prefix", C.All.compare(0, A->Data.size(), A->Data) == 0, << Who << "other data are received");
      if (A) g.label("reset");
      continue;
    }
    CHECK("served", A && C.Problem.empty(), << Who << C.Problem << ", events " << E);
    if (C.How == 1 && C.Pipelined && C.All.size() > 1) { // closed with answers under way
      CHECK("prefix", C.All.compare(0, A->Data.size(), A->Data) == 0, << Who << "other data are received");
      g.label("closed before the answers");
      continue;
    }
    if (C.How == 1) {
      CHECK("data", A->Data == C.All, << Who << A->Data.size() << " bytes are received, " << C.All.size() << " are sent");
    } else {
      CHECK("data", A->Data == C.All, << Who << A->Data.size() << " bytes are received, " << C.All.size() << " are sent");
      CHECK("answers", C.Got == twist(C.All), << Who << C.Got.size() << " bytes come back, " << C.All.size() << " are sent");
      CHECK("closed", A->Ok && A->Closed == 1, << Who << "closed " << A->Closed << " times, ok " << A->Ok);
      CHECK("events", E.size() > 2 && E[0] == 'A' && E.back() == 'C' && E.find_first_not_of("RS", 1) == E.size() - 1, << Who << E);
    }
  }
  if (Cs.size() > 1) g.nontrivial();
}
