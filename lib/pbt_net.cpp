//===- pbt_net.cpp - simulated network ------------------------------------===//
#include "pbt_net.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

namespace net {
Net *N = nullptr;
const int First = 5000; // descriptors; real ones are less
std::vector<void *> Fds; // nullptr: free, (void *)1: not connected

static bool happens(unsigned Rate) { return Rate && sched::gen().chance(Rate, 1000); }
void begin(Net &X) {
  static bool First = true;
  if (First) { // the handler of the timer calls these: look them up here
    First = false;
    char B;
    (void)!::read(-1, &B, 1);
    ::close(-1);
  }
  N = &X;
  Fds.clear();
  sched::RefuseThread = [] {
    if (sched::self() == 0) { // the server starts a thread for the connection it has accepted
      if (!N->Latest || !N->Listening) return false;
      if (happens(N->ThreadFault)) return N->Latest->NoThread = true;
      size_t Next = sched::threads();
      if (N->ByThread.size() <= Next) N->ByThread.resize(Next + 1);
      N->ByThread[Next] = N->Latest;
      return false;
    }
    Conn *C = N->current();
    return C && happens(N->ThreadFault) && (C->NoEngine = true);
  };
}
void end() {
  sched::RefuseThread = nullptr;
  N = nullptr;
  Fds = {};
}
static bool on() { return N && sched::self() >= 0; }
static int alloc(void *P) {
  size_t I = 0;
  while (I < Fds.size() && Fds[I]) ++I;
  if (I == Fds.size()) Fds.push_back(nullptr);
  Fds[I] = P;
  return First + (int)I;
}
static bool sim(int Fd) { return Fd >= First && Fd < First + 4000; }
static void *object(int Fd, const char *What) {
  size_t I = Fd - First;
  if (I >= Fds.size() || !Fds[I]) pbt::fail("bad-descriptor", std::string(What) + " of a closed descriptor");
  return Fds[I];
}
static Conn *conn(int Fd, const char *What) {
  void *P = object(Fd, What);
  if (P == (void *)1) pbt::fail("bad-descriptor", std::string(What) + " of a listening socket");
  size_t Me = (size_t)sched::self();
  if (N->ByThread.size() <= Me) N->ByThread.resize(Me + 1);
  N->ByThread[Me] = (Conn *)P;
  return (Conn *)P;
}
static void note(const std::string &S) {
  if (sched::gen().tracing()) sched::gen().noteStr("    thread " + std::to_string(sched::self()) + ": " + S);
}
static std::string name(Conn *C) { return " (client " + std::to_string(C->Client) + ")"; }

Conn *Net::current() {
  size_t Me = (size_t)sched::self();
  return Me < ByThread.size() ? ByThread[Me] : nullptr;
}

Conn *connect(unsigned Client) {
  sched::Inside In;
  sched::wait([] { return N->Listening || N->ListenClosed; }, "the server");
  if (!N->Listening) return nullptr;
  N->Conns.emplace_back();
  Conn *C = &N->Conns.back();
  C->Client = Client;
  C->CliPort = (int)N->NextPort++;
  N->Backlog.push_back(C);
  note("client " + std::to_string(Client) + " connects");
  sched::point();
  return C;
}
void write(Conn *C, const std::string &S) {
  sched::Inside In;
  C->In += S;
  note("client " + std::to_string(C->Client) + " writes " + pbt::show(S.size() > 40 ? S.substr(0, 40) : S) + ", " + std::to_string(S.size()) + " bytes");
  sched::point();
}
std::string read(Conn *C, size_t Count) {
  sched::Inside In;
  sched::wait([&] { return C->Out.size() >= Count || C->Closed || C->Broken; }, "data from the server");
  return C->Out;
}
void shutdown(Conn *C) {
  sched::Inside In;
  C->Fin = true;
  note("client " + std::to_string(C->Client) + " ends its direction");
  sched::point();
}
void close(Conn *C) {
  sched::Inside In;
  C->Fin = C->Gone = true;
  note("client " + std::to_string(C->Client) + " closes");
  sched::point();
}
void reset(Conn *C) {
  sched::Inside In;
  C->Reset = C->Gone = true;
  // Data that are on the way may be lost.
  if (C->In.size() && sched::gen().coin()) C->In.resize(sched::gen().below(C->In.size()));
  note("client " + std::to_string(C->Client) + " resets");
  sched::point();
}

static ssize_t doRecv(int Fd, void *B, size_t L) {
  sched::Inside In;
  Conn *C = conn(Fd, "receiving");
  sched::point();
  sched::wait([&] { return C->In.size() || C->Fin || C->Reset || C->Broken; }, "data from a client");
  object(Fd, "receiving");
  if (C->RecvError) { // an error is reported once
    note("recv() returns 0" + name(C));
    return 0;
  }
  bool Err = happens(N->RecvFault) || (C->In.empty() && (C->Reset || (C->Broken && !C->Fin)));
  if (Err) {
    C->RecvError = true;
    C->Broken = true;
    note("recv() fails" + name(C));
    errno = C->Reset ? ECONNRESET : ETIMEDOUT;
    return -1;
  }
  if (C->In.empty()) {
    C->Eof = true;
    note("recv() returns 0" + name(C));
    return 0;
  }
  size_t K = std::min(L, C->In.size());
  if (K > 1 && sched::gen().chance(1, 3)) K = 1 + sched::gen().below(K);
  memcpy(B, C->In.data(), K);
  C->Chunks.push_back(C->In.substr(0, K));
  C->In.erase(0, K);
  note("recv() returns " + std::to_string(K) + " bytes" + name(C));
  return (ssize_t)K;
}
static ssize_t doSend(int Fd, const void *B, size_t L, int Flags) {
  sched::Inside In;
  Conn *C = conn(Fd, "sending");
  sched::point();
  object(Fd, "sending");
  if (!C->Broken && C->Gone && sched::gen().coin()) {
    C->Broken = true; // the answer of the client has come
    if (C->Reset && sched::gen().coin()) {
      C->SendFailed = true;
      errno = ECONNRESET;
      note("send() fails" + name(C));
      return -1;
    }
  }
  bool Fault = happens(N->SendFault);
  if (C->Broken || Fault) {
    C->SendFailed = true;
    if (C->Broken) {
      struct sigaction A;
      sigaction(SIGPIPE, nullptr, &A);
      if (!(Flags & MSG_NOSIGNAL) && A.sa_handler == SIG_DFL)
        pbt::fail("sigpipe", "send() to a connection closed by the client" + name(C) + " ends the server process");
      errno = EPIPE;
    } else {
      C->Broken = true;
      errno = ETIMEDOUT;
    }
    note("send() fails" + name(C));
    return -1;
  }
  size_t K = L;
  if (K > 1 && N->Partial && sched::gen().chance(1, 3)) K = 1 + sched::gen().below(K - 1);
  C->Out.append((const char *)B, K);
  note("send() takes " + std::to_string(K) + " of " + std::to_string(L) + " bytes" + name(C));
  sched::point();
  return (ssize_t)K;
}
} // namespace net
using net::Conn; using net::First; using net::Fds; using net::N; using net::Stop; using net::alloc; using net::conn; using net::doRecv; using net::doSend; using net::happens; using net::object; using net::on; using net::sim; using net::note; using net::name; using net::CallSocket; using net::CallOption; using net::CallBind; using net::CallName; using net::CallListen; using net::CallHost;
#define REAL(NAME) static auto R = (decltype(&::NAME))dlsym(RTLD_NEXT, #NAME)

extern "C" {
int socket(int D, int Ty, int P) __THROW {
  if (!on()) { REAL(socket); return R(D, Ty, P); }
  sched::Inside In;
  if (N->FailStart == CallSocket) { errno = EMFILE; return -1; }
  return alloc((void *)1);
}
int setsockopt(int Fd, int L, int O, const void *V, socklen_t S) __THROW {
  if (!on() || !sim(Fd)) { REAL(setsockopt); return R(Fd, L, O, V, S); }
  sched::Inside In;
  object(Fd, "setsockopt()");
  if (N->FailStart == CallOption) { errno = ENOPROTOOPT; return -1; }
  return 0;
}
int bind(int Fd, const sockaddr *A, socklen_t L) __THROW {
  if (!on() || !sim(Fd)) { REAL(bind); return R(Fd, A, L); }
  sched::Inside In;
  object(Fd, "bind()");
  if (N->FailStart == CallBind) { errno = EADDRINUSE; return -1; }
  auto *I = (const sockaddr_in *)A;
  if (L < sizeof(sockaddr_in) || I->sin_family != AF_INET) { errno = EINVAL; return -1; }
  N->Addr = ntohl(I->sin_addr.s_addr);
  N->Port = ntohs(I->sin_port);
  if (!N->Port) N->Port = 41234;
  N->Bound = true;
  return 0;
}
int listen(int Fd, int B) __THROW {
  if (!on() || !sim(Fd)) { REAL(listen); return R(Fd, B); }
  sched::Inside In;
  object(Fd, "listen()");
  if (N->FailStart == CallListen) { errno = EADDRINUSE; return -1; }
  N->ListenFd = Fd;
  N->Listening = true;
  sched::point();
  return 0;
}
int getsockname(int Fd, sockaddr *A, socklen_t *L) __THROW {
  if (!on() || !sim(Fd)) { REAL(getsockname); return R(Fd, A, L); }
  sched::Inside In;
  void *P = object(Fd, "getsockname()");
  bool Listener = P == (void *)1;
  if (Listener ? N->FailStart == CallName : happens(N->NameFault)) {
    if (!Listener) {
      ++N->NameErrors;
      ((Conn *)P)->Refused = true;
    }
    errno = ENOBUFS;
    return -1;
  }
  sockaddr_in I;
  memset(&I, 0, sizeof I);
  I.sin_family = AF_INET;
  I.sin_port = htons((uint16_t)N->Port);
  // A socket bound to any address: the connection has the one it is used by.
  I.sin_addr.s_addr = htonl(!Listener && !N->Addr ? 0x0A000001 : N->Addr);
  memcpy(A, &I, std::min<size_t>(*L, sizeof I));
  *L = sizeof I;
  return 0;
}
int accept(int Fd, sockaddr *A, socklen_t *L) {
  if (!on() || !sim(Fd)) { REAL(accept); return R(Fd, A, L); }
  sched::Inside In;
  object(Fd, "accept()");
  sched::wait([] { return !N->Backlog.empty() || N->Finished == N->Clients; }, "a client");
  if (N->Backlog.empty()) throw Stop();
  if (happens(N->AcceptFault)) {
    ++N->AcceptErrors;
    note("accept() fails");
    errno = ECONNABORTED;
    return -1;
  }
  Conn *C = N->Backlog.front();
  N->Backlog.pop_front();
  C->Fd = alloc(C);
  C->Accepted = (int)++N->Accepts;
  N->Latest = C;
  note("accept() returns " + std::to_string(C->Fd - First) + name(C));
  sockaddr_in I;
  memset(&I, 0, sizeof I);
  I.sin_family = AF_INET;
  I.sin_port = htons((uint16_t)C->CliPort);
  I.sin_addr.s_addr = htonl(0x0A000100 + C->Client);
  if (A) memcpy(A, &I, std::min<size_t>(*L, sizeof I));
  if (L) *L = sizeof I;
  if (++N->Active > N->MaxActive) N->MaxActive = N->Active;
  sched::point();
  return C->Fd;
}
ssize_t recv(int Fd, void *B, size_t L, int F) {
  if (!on() || !sim(Fd)) { REAL(recv); return R(Fd, B, L, F); }
  return doRecv(Fd, B, L);
}
ssize_t read(int Fd, void *B, size_t L) {
  if (!on() || !sim(Fd)) { REAL(read); return R(Fd, B, L); }
  return doRecv(Fd, B, L);
}
ssize_t send(int Fd, const void *B, size_t L, int F) {
  if (!on() || !sim(Fd)) { REAL(send); return R(Fd, B, L, F); }
  return doSend(Fd, B, L, F);
}
ssize_t write(int Fd, const void *B, size_t L) {
  if (!on() || !sim(Fd)) { REAL(write); return R(Fd, B, L); }
  return doSend(Fd, B, L, 0);
}
int shutdown(int Fd, int How) __THROW {
  if (!on() || !sim(Fd)) { REAL(shutdown); return R(Fd, How); }
  sched::Inside In;
  conn(Fd, "shutdown()");
  return 0;
}
int close(int Fd) {
  if (!on() || !sim(Fd)) { REAL(close); return R(Fd); }
  sched::Inside In;
  void *P = object(Fd, "closing");
  sched::point();
  object(Fd, "closing");
  Fds[Fd - First] = nullptr; // also if the call reports an error
  bool Fail = false;
  if (P == (void *)1) {
    N->Listening = false;
    N->ListenClosed = true;
    note("the listening socket is closed");
  } else {
    Conn *C = (Conn *)P;
    --N->Active;
    Fail = happens(N->CloseFault);
    C->Closed = true;
    C->CloseFailed = Fail;
    note(std::string("the connection is closed") + (Fail ? ", with an error" : "") + name(C));
  }
  sched::point();
  if (Fail) { errno = EIO; return -1; }
  return 0;
}
hostent *gethostbyname(const char *Name) {
  if (!on()) { REAL(gethostbyname); return R(Name); }
  sched::Inside In;
  static in_addr_t A;
  static char *List[2] = {(char *)&A, nullptr};
  static hostent H;
  if (N->FailStart == CallHost) { h_errno = HOST_NOT_FOUND; return nullptr; }
  if (!strcmp(Name, "localhost")) A = htonl(0x7F000001);
  else if (!strcmp(Name, "some.host")) A = htonl(0xC0A80007);
  else {
    A = inet_addr(Name);
    if (A == INADDR_NONE) { h_errno = HOST_NOT_FOUND; return nullptr; }
  }
  H.h_name = (char *)Name;
  H.h_addrtype = AF_INET;
  H.h_length = 4;
  H.h_addr_list = List;
  return &H;
}
}
