// C13: the socket server on a simulated network under chosen schedules.
#include "pbt_net.h"
#include "connx.h"
#include <bcl/CSocket.h>
#include <map>
#include <set>
using namespace bcl::net;
using net::Conn;

namespace {
enum Kind { Log, Echo, Greet, Listeners, Requests, Throwing };
struct Client {
  unsigned Id;
  struct Step {
    int What; // 0: write, 1: wait for so many bytes of answers
    std::string Data;
    size_t Count;
  };
  std::vector<Step> Steps;
  unsigned How; // 0: ends its direction and reads to the end, 1: closes, 2: resets
  int After = -1; // connects after the end of this client
  std::string Sent, Got;
  Conn *C = nullptr;
  bool Over = false;
};
/// The application of one connection.
struct App {
  Conn *C = nullptr;
  std::string Data;
  std::vector<std::string> Chunks;
  std::vector<int> Closed;
  std::vector<int> Order; // which listener is called
  std::vector<std::string> Sends; // in order of the calls
  bool Threw = false; // an exception has left the application
  // Kind Requests.
  std::vector<std::string> Seen;
};
struct Event {
  SocketStatus S;
  std::string SA, CA;
  int SP, CP;
  size_t Chunks, Sends; // of the connection, when the event is reported
  bool Active;
};
Kind K;
unsigned ThrowAt; // Throwing: at the start (0), before (odd) or after (even) an answer
struct Failure {};
char Delim;
std::list<App> Apps;
std::function<bool()> Slow; // the end of a connection is waited for
std::vector<Event> Events;

const char *name(SocketStatus S) {
  static const char *Ns[] = {"UnknownError", "InitializeError", "HostnameError", "ServerAddressError", "CreateError",
    "OptionError", "BindError", "ListenError", "AcceptError", "ReceiveError", "SendError", "CloseError",
    "Listen", "Accept", "Receive", "Send", "Close"};
  return Ns[(int)S];
}
std::string answer(const std::string &D, size_t N) { return "<" + std::to_string(N) + ":" + D + ">"; }
void on(SocketStatus S, const Connection &C) {
  sched::point();
  sched::Quiet Q;
  Events.push_back({S, C.getServerAddress(), C.getClientAddress(), C.getServerPort(), C.getClientPort(), 0, 0, C.isActive()});
  for (auto &X : net::N->Conns)
    if (X.CliPort == C.getClientPort()) {
      Events.back().Chunks = X.Chunks.size();
      Events.back().Sends = X.Sends.size();
    }
}
void bind(App *A) {
  if (!A->C) A->C = net::N->current();
}
} // namespace

template <> void bcl::createServer<std::string>(const Socket<std::string> *S) {
  App *A;
  {
    sched::Quiet Q;
    Apps.emplace_back();
    A = &Apps.back();
    if (K == Throwing || K == Requests) bind(A);
  }
  auto Throw = [A](bool Now) {
    if (K != Throwing || !Now) return;
    sched::Quiet Q;
    A->Threw = true;
    throw Failure();
  };
  if (K == Requests) {
    // The data and the end are seen by further listeners.
    struct Failed {
      App *A;
      bool On = true;
      ~Failed() { if (On) A->Threw = true; }
    } Failed{A};
    IntrusiveConnection::connect(S, Delim, [A](IntrusiveConnection I) {
      for (;;) {
        sched::point();
        bool Go = I.answer([A](const std::string &R) {
          sched::Quiet Q;
          A->Seen.push_back(R);
          return answer(R, A->Seen.size());
        });
        if (!Go) break;
      }
    });
    Failed.On = false;
  }
  auto Receive = [A, S, Throw](const std::string &D, int Which) {
    {
      sched::Quiet Q;
      bind(A);
      CHECK("after-close", A->Closed.empty(), << "data are delivered after the connection is closed");
      A->Order.push_back(Which);
    }
    sched::point();
    if (Which) return;
    std::string R;
    {
      sched::Quiet Q;
      A->Data += D;
      A->Chunks.push_back(D);
      R = answer(D, A->Chunks.size());
      if (K == Log) return;
    }
    Throw(A->Chunks.size() * 2 - 1 == ThrowAt);
    {
      sched::Quiet Q;
      A->Sends.push_back(R);
    }
    S->send(R);
    Throw(A->Chunks.size() * 2 == ThrowAt);
  };
  auto Closed = [A](bool Ok, int Which) {
    sched::point();
    sched::Quiet Q;
    bind(A);
    A->Order.push_back(10 + Which);
    if (!Which) A->Closed.push_back(Ok);
    if (!Which && Slow) sched::wait(Slow, "what the end of a connection waits for");
  };
  if (K == Requests) { // the data are seen by a second listener
    S->receive([A](const std::string &D) {
      sched::Quiet Q;
      bind(A);
      A->Data += D;
      A->Chunks.push_back(D);
    });
    S->closed([A](bool Ok) {
      sched::Quiet Q;
      bind(A);
      A->Closed.push_back(Ok);
    });
    return;
  }
  Throw(ThrowAt == 0);
  S->receive([=](const std::string &D) { Receive(D, 0); });
  S->closed([=](bool Ok) { Closed(Ok, 0); });
  if (K == Listeners)
    for (int I = 1; I < 3; ++I) {
      S->closed([=](bool Ok) { Closed(Ok, I); });
      S->receive([=](const std::string &D) { Receive(D, I); });
    }
  if (K == Greet) {
    A->Sends.push_back(std::string("hello\0\n", 7));
    S->send(A->Sends.back());
    sched::Quiet Q;
    bind(A);
  }
}

namespace {
void runClient(Client &X, std::list<Client> &All) {
  if (X.After >= 0) {
    Client *P = nullptr;
    for (auto &Y : All) if ((int)Y.Id == X.After) P = &Y;
    sched::wait([P] { return P->Over; }, "another client");
  }
  X.C = net::connect(X.Id);
  if (X.C) {
    for (auto &S : X.Steps) {
      if (S.What == 0) {
        X.Sent += S.Data;
        net::write(X.C, S.Data);
      } else {
        net::read(X.C, S.Count);
      }
    }
    switch (X.How) {
    case 0:
      net::shutdown(X.C);
      net::read(X.C, (size_t)-1);
      net::close(X.C);
      break;
    case 1: net::close(X.C); break;
    default: net::reset(X.C);
    }
  }
  sched::Quiet Q;
  X.Over = true;
  ++net::N->Finished;
}

void serve(Gen &g, bool Faults) {
  net::Net W;
  Apps.clear();
  Events.clear();
  K = (Kind)g.below(Faults ? 6 : 5);
  ThrowAt = (unsigned)g.below(6);
  Delim = g.pick({'\n', '$', '\0'});
  std::list<Client> Cs;
  unsigned Count = 1 + g.weighted({2, 3, 2, 1, 1});
  for (unsigned I = 0; I < Count; ++I) {
    Cs.emplace_back();
    Client &X = Cs.back();
    X.Id = I;
    if (I && g.chance(1, 3)) X.After = (int)g.below(I);
    for (size_t N = g.len(5); N--;) {
      if (g.chance(1, 4)) X.Steps.push_back({1, "", (size_t)g.below(30)});
      else {
        std::string D = g.chance(1, 12) ? g.bytes(3000) : g.bytes(10, g.coin() ? "ab$\n" : nullptr);
        if (g.chance(1, 5)) D += '\0';
        if (D.size()) X.Steps.push_back({0, D, 0});
      }
    }
    X.How = g.weighted({4, 2, Faults ? 2u : 0u});
    size_t Have = 0; // an answer is not shorter than the data
    for (auto &S : X.Steps)
      if (S.What == 0) Have += S.Data.size();
      else S.Count = K == Log ? 0 : std::min(S.Count, Have);
  }
  size_t Max = g.pick({(size_t)0, (size_t)0, (size_t)1, (size_t)2, (size_t)3});
  bool Short = false; // the size of the buffer is not given
  size_t Buffer = g.pick({(size_t)1, (size_t)2, (size_t)5, (size_t)16, (size_t)100, (size_t)65535});
  if (Buffer == 65535) Short = g.coin();
  std::string Addr = g.pick({std::string(), std::string("127.0.0.1"), std::string("localhost"), std::string("some.host"), std::string("10.1.2.3")});
  int Port = g.pick({0, 1, 80, 40000, 65535});
  W.Partial = g.coin();
  W.Clients = Count;
  std::string Bad;
  if (Faults) {
    if (g.chance(1, 3)) W.SendFault = 1 + g.below(150);
    if (g.chance(1, 3)) W.RecvFault = 1 + g.below(150);
    if (g.chance(1, 3)) W.AcceptFault = 1 + g.below(500);
    if (g.chance(1, 3)) W.NameFault = 1 + g.below(500);
    if (g.chance(1, 3)) W.CloseFault = 1 + g.below(900);
    if (g.chance(1, 3)) W.ThreadFault = 1 + g.below(500);
    if (g.chance(1, 12)) W.FailStart = (net::Call)(1 + g.below(6));
    if (W.FailStart == net::CallHost) Addr = g.pick({std::string("no.such.host"), std::string("256.1.1.1")});
  }
  NOTE("server address " << pbt::show(Addr) << ", port " << Port << ", limit " << Max << ", buffer " << Buffer << ", application " << (int)K << ", " << Count << " clients");
  net::begin(W);
  bool Returned = false;
  sched::run(g, [&] {
    std::vector<std::thread> T;
    for (auto &X : Cs) T.emplace_back([&] { runClient(X, Cs); });
    try {
      if (Short) startServer(Addr, Port, Max, on);
      else startServer(Addr, Port, Max, on, Buffer);
      Returned = true;
      W.ListenClosed = true; // for the clients
    } catch (net::Stop &) {
    }
    for (auto &X : T) X.join();
  });
  net::end();
  for (auto &E : Events)
    CHECK("active", E.Active == (E.SP > 0 && E.CP > 0), << "event " << name(E.S) << " of the ports " << E.SP << " and " << E.CP << (E.Active ? " is" : " is not") << " of an active connection");

  // What is reported about the server itself.
  auto ev = [&](size_t I) { return I < Events.size() ? Events[I].S : SocketStatus::UnknownError; };
  std::string Shown;
  for (auto &E : Events) {
    Shown += std::string(" ") + name(E.S);
    if (E.CP) Shown += "(" + std::to_string(E.CP - 50000) + ")";
  }
  if (W.FailStart) {
    SocketStatus Want[] = {SocketStatus::UnknownError, SocketStatus::CreateError, SocketStatus::OptionError, SocketStatus::BindError,
                           SocketStatus::ServerAddressError, SocketStatus::ListenError, SocketStatus::HostnameError};
    bool Socket = W.FailStart != net::CallSocket && W.FailStart != net::CallHost;
    CHECK("start-error", Returned && Events.size() == 1u + Socket && ev(0) == Want[W.FailStart],
          << "the call " << (int)W.FailStart << " fails at start; events:" << Shown);
    CHECK("start-close", !Socket || (ev(1) == SocketStatus::Close && W.ListenClosed), << "events:" << Shown);
    CHECK("start-address", Events[0].CP == 0 && (Events[0].SP == Port || W.FailStart == net::CallListen));
    g.label("start fails");
    return;
  }
  auto dotted = [](unsigned A) {
    return std::to_string(A >> 24) + "." + std::to_string(A >> 16 & 255) + "." + std::to_string(A >> 8 & 255) + "." + std::to_string(A & 255);
  };
  unsigned WantAddr = Addr.empty() ? 0 : Addr == "localhost" || Addr == "127.0.0.1" ? 0x7F000001 : Addr == "some.host" ? 0xC0A80007 : 0x0A010203;
  CHECK("server-runs", !Returned, << "the server returns; events:" << Shown);
  CHECK("listen", ev(0) == SocketStatus::Listen && Events[0].SA == dotted(WantAddr) && W.Addr == WantAddr &&
                      Events[0].SP == (Port ? Port : 41234) && W.Port == Events[0].SP && !Events[0].CP,
        << "events:" << Shown << "; the server listens on " << Events[0].SA << ":" << Events[0].SP);
  CHECK("limit", !Max || W.MaxActive <= Max, << W.MaxActive << " connections at the same time, the limit is " << Max);
  size_t Listen = 0, AcceptErr = 0, NameErr = 0, NoClient = 0;
  std::map<int, std::vector<Event>> By;
  for (auto &E : Events) {
    Listen += E.S == SocketStatus::Listen;
    AcceptErr += E.S == SocketStatus::AcceptError;
    NameErr += E.S == SocketStatus::ServerAddressError;
    if (E.CP) By[E.CP].push_back(E);
    else NoClient += E.S == SocketStatus::Close || E.S == SocketStatus::CloseError;
  }
  CHECK("server-events", Listen == 1 && AcceptErr == W.AcceptErrors && NameErr == W.NameErrors && NoClient == W.NameErrors,
        << W.AcceptErrors << " failures of accept(), " << W.NameErrors << " of getsockname(); events:" << Shown);
  std::map<Conn *, App *> AppOf;
  for (auto &A : Apps)
    if (A.C) {
      CHECK("one-application", !AppOf.count(A.C), << "two applications for client " << A.C->Client);
      AppOf[A.C] = &A;
    }
  size_t Served = 0, Nontrivial = 0;
  for (auto &X : Cs) {
    Conn *C = X.C;
    std::string Who = "client " + std::to_string(X.Id) + ": ";
    CHECK("accepted", C && C->Accepted, << Who << "is not accepted");
    CHECK("closed", C->Closed, << Who << "the connection is not closed by the server");
    std::vector<Event> &E = By[C->CliPort];
    std::string Es;
    for (auto &Y : E) Es += std::string(" ") + name(Y.S);
    if (C->Refused) { // getsockname() has failed
      CHECK("refused", E.empty() && !AppOf.count(C), << Who << "events:" << Es);
      continue;
    }
    if (C->NoThread) { // no resources: the client is disconnected
      CHECK("no-thread", E.size() == 2 && E[0].S == SocketStatus::Accept && E[1].S == (C->CloseFailed ? SocketStatus::CloseError : SocketStatus::Close) && !AppOf.count(C),
            << Who << "no thread can be started; events:" << Es);
      CHECK("no-thread", C->Out.empty() && C->Chunks.empty());
      g.label("no thread");
      continue;
    }
    ++Served;
    App *A = AppOf.count(C) ? AppOf[C] : nullptr;
    CHECK("application", A, << Who << "there is no application");
    // The data.
    std::string D;
    for (auto &Y : C->Chunks) D += Y;
    CHECK("data", A->Data == D, << Who << "the application receives " << pbt::show(A->Data) << ", the client has sent " << pbt::show(D));
    CHECK("complete", D == X.Sent || A->Threw || C->Reset || C->RecvError || C->SendFailed || X.How == 2,
          << Who << "the server reads " << D.size() << " of " << X.Sent.size() << " bytes");
    for (auto &Y : C->Chunks) CHECK("buffer", Y.size() <= Buffer);
    // The answers.
    std::string Out;
    size_t SendOk = 0, SendErr = 0;
    for (auto &Y : E) {
      SendOk += Y.S == SocketStatus::Send;
      SendErr += Y.S == SocketStatus::SendError;
    }
    if (K == Requests) {
      std::vector<std::string> R;
      for (auto &Y : A->Chunks) for (auto &Z : connx::split(Y, Delim)) R.push_back(Z);
      CHECK("requests", A->Seen == R, << Who << A->Seen.size() << " requests are seen, " << R.size() << " have been sent");
      for (size_t I = 0; I < R.size(); ++I) Out += answer(R[I], I + 1) + Delim;
    } else {
      for (auto &Y : A->Sends) Out += Y;
      CHECK("send-events", SendOk + SendErr == A->Sends.size(), << Who << A->Sends.size() << " messages are sent; events:" << Es);
    }
    if (!C->SendFailed) CHECK("answers", C->Out == Out && !SendErr, << Who << "gets " << pbt::show(C->Out) << ", the application has sent " << pbt::show(Out));
    else {
      CHECK("answers-prefix", (Out.compare(0, C->Out.size(), C->Out) == 0), << Who << "gets " << pbt::show(C->Out) << ", the application has sent " << pbt::show(Out));
      CHECK("send-error", SendErr, << Who << "a failed send() is not reported; events:" << Es);
    }
    // The events.
    CHECK("lifecycle", E.size() >= 2 && E[0].S == SocketStatus::Accept, << Who << "events:" << Es);
    size_t N = E.size(), Rec = 0;
    CHECK("end", E[N - 1].S == (C->CloseFailed ? SocketStatus::CloseError : SocketStatus::Close), << Who << "events:" << Es);
    bool Err = C->RecvError;
    if (Err) CHECK("receive-error", E[N - 2].S == SocketStatus::ReceiveError, << Who << "events:" << Es);
    for (size_t I = 1; I + 1 + Err < N; ++I) {
      auto S = E[I].S;
      Rec += S == SocketStatus::Receive;
      CHECK("event", S == SocketStatus::Receive || S == SocketStatus::Send || S == SocketStatus::SendError, << Who << "events:" << Es);
      if (S == SocketStatus::Receive) CHECK("receive-event", E[I].Chunks == Rec, << Who << "events:" << Es);
    }
    CHECK("receive-events", Rec == C->Chunks.size(), << Who << C->Chunks.size() << " pieces are received; events:" << Es);
    std::string SA = dotted(WantAddr ? WantAddr : 0x0A000001), CA = "10.0.1." + std::to_string(X.Id);
    for (auto &Y : E)
      CHECK("addresses", Y.SA == SA && Y.CA == CA && Y.SP == W.Port, << Who << "event " << name(Y.S) << " of " << Y.SA << ":" << Y.SP << " and " << Y.CA << ":" << Y.CP);
    // The listeners.
    if (C->NoEngine) CHECK("no-engine", A->Threw && C->Chunks.empty());
    if (A->Threw) {
      g.label(C->NoEngine ? "no thread for requests" : "listener throws");
      CHECK("nothing-after", A->Chunks.size() == (ThrowAt + 1) / 2 || K == Requests, << Who << "data are delivered after an exception");
      if (A->Closed.empty()) { // not registered
        CHECK("closed-once", C->NoEngine || ThrowAt == 0, << Who << "the listener of the end is not called after an exception");
        continue;
      }
    }
    CHECK("closed-once", A->Closed.size() == 1, << Who << A->Closed.size() << " calls of the listener of the end");
    bool Fail = Err || C->CloseFailed || A->Threw;
    if (!C->SendFailed) CHECK("closed-how", A->Closed[0] == !Fail, << Who << "the listener gets " << A->Closed[0]);
    else if (K == Echo || Fail) CHECK("closed-send", !A->Closed[0], << Who << "the listener gets " << A->Closed[0] << " after a failed send()");
    if (K == Listeners) {
      std::vector<int> O;
      for (size_t I = 0; I < C->Chunks.size(); ++I) for (int J = 0; J < 3; ++J) O.push_back(J);
      for (int J = 0; J < 3; ++J) O.push_back(10 + J);
      CHECK("listeners", A->Order == O, << Who << "the listeners are not called in the order of registration");
    }
    if (C->SendFailed && K == Echo) { // no data after the failed answer
      bool Seen = false;
      for (auto &Y : E) {
        if (Y.S == SocketStatus::SendError) Seen = true;
        else CHECK("after-send-error", !Seen || Y.S != SocketStatus::Receive, << Who << "events:" << Es);
      }
    }
    if (C->Chunks.size() > 1) ++Nontrivial;
    if (D.find('\0') != D.npos) g.label("NUL received");
    if (C->SendFailed) g.label("send fails");
    if (C->RecvError) g.label("receive fails");
    if (X.How == 2) g.label("reset");
  }
  CHECK("applications", Apps.size() == Served, << Apps.size() << " applications, " << Served << " clients");
  if (W.MaxActive > 1) g.label("parallel connections");
  if (W.Accepts > Max && Max) g.label("limit reached");
  if (Nontrivial && Count > 1) g.nontrivial();
}
} // namespace
PROPERTY(orderly, 8000, 300000) { serve(g, false); }
PROPERTY(faults, 8000, 300000) { serve(g, true); }

// A description of a connection keeps what it is given.
PROPERTY(description, 2000, 20000) {
  std::string SA = g.bytes(12, ".0123456789ab"), CA = g.bytes(12, ".0123456789ab");
  int SP = g.pick({0, 1, 2, 80, 41234, 65535}), CP = g.pick({0, 1, 2, 80, 41234, 65535});
  Connection Half(SA, SP), Full(SA, SP, CA, CP);
  CHECK("description-server", Half.getServerAddress() == SA && Half.getServerPort() == SP && Half.getClientAddress().empty() && Half.getClientPort() == 0);
  CHECK("description-half", !Half.isActive(), << "a connection without a client (server port " << SP << ") is active");
  CHECK("description-full", Full.getServerAddress() == SA && Full.getServerPort() == SP && Full.getClientAddress() == CA && Full.getClientPort() == CP);
  CHECK("description-active", Full.isActive() == (SP > 0 && CP > 0), << "server port " << SP << ", client port " << CP);
  Connection Copy(Half);
  Copy = Full;
  CHECK("description-copy", Copy.getServerAddress() == SA && Copy.getServerPort() == SP && Copy.getClientAddress() == CA && Copy.getClientPort() == CP && Copy.isActive() == Full.isActive());
  if (SP && CP) g.nontrivial();
}

// Without a limit: every client waits until all the others have been answered.
PROPERTY(unlimited, 1500, 60000) {
  net::Net W;
  Apps.clear();
  Events.clear();
  K = Echo;
  unsigned Count = g.chance(1, 4) ? g.range(8, 24) : 2 + g.below(6), Answered = 0;
  W.Clients = Count;
  W.Partial = g.coin();
  std::vector<std::string> Want(Count), Got(Count);
  for (unsigned I = 0; I < Count; ++I) Want[I] = std::to_string(I) + g.bytes(5);
  unsigned How = g.below(3);
  bool Successive = g.chance(1, 3); // one after another, the end of each connection waits for the last one
  NOTE(Count << " clients " << (Successive ? "one after another" : "at the same time") << ", " << How + 2 << " arguments");
  if (Successive) Slow = [&] { return Answered == Count; };
  struct Quick { ~Quick() { Slow = nullptr; } } Quick;
  net::begin(W);
  bool Returned = false;
  sched::run(g, [&] {
    std::vector<std::thread> T;
    for (unsigned I = 0; I < Count; ++I)
      T.emplace_back([&, I] {
        if (Successive) sched::wait([&] { return Answered >= I && (int)net::N->Finished >= (int)I; }, "the client before");
        auto *C = net::connect(I);
        if (C) {
          net::write(C, Want[I]);
          net::read(C, 1);
          {
            sched::Quiet Q;
            ++Answered;
          }
          if (!Successive) sched::wait([&] { return Answered == Count; }, "the other clients");
          net::shutdown(C);
          net::read(C, (size_t)-1);
          net::close(C);
        }
        sched::Quiet Q;
        ++net::N->Finished;
      });
    try {
      if (How == 0) startServer("", 80);
      else if (How == 1) startServer("", 80, 0);
      else startServer("", 80, 0, on);
      Returned = true;
      W.ListenClosed = true;
    } catch (net::Stop &) {
    }
    for (auto &X : T) X.join();
  });
  net::end();
  CHECK("server-runs", !Returned);
  if (Successive) g.label("slow end");
  CHECK("parallel", Successive || W.MaxActive == Count, << W.MaxActive << " of " << Count << " clients are served at the same time");
  CHECK("applications", Apps.size() == Count);
  for (auto &A : Apps) {
    CHECK("application", A.C && A.Data == Want[A.C->Client], << "an application receives " << pbt::show(A.Data));
    std::string Out;
    for (auto &Y : A.Sends) Out += Y;
    CHECK("answers", A.C->Out == Out, << "a client gets " << pbt::show(A.C->Out) << ", the application has sent " << pbt::show(Out));
    CHECK("closed-once", A.Closed.size() == 1 && A.Closed[0] == 1);
  }
  if (Count > 2) g.nontrivial();
}
