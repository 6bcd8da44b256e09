// C11, C12: connections under chosen schedules, against a queue of requests.
#ifndef CONNX_H
#define CONNX_H
#include "pbt_sched.h"
#include <bcl/IntrusiveConnection.h>
#include <list>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using pbt::Gen;
#ifdef PBT_TSAN // free-running threads
#define QUICK(N) N / 2
#define THOROUGH(N) N / 4
#define FREE O.NeedRepro = false
#else
#define QUICK(N) N
#define THOROUGH(N) N
#define FREE
#endif

namespace connx {
/// Socket that records what is sent and hands the callbacks to the harness.
struct Sock : bcl::Socket<std::string> {
  mutable std::vector<ReceiveCallback> OnData;
  mutable std::vector<ClosedCallback> OnClose;
  mutable std::vector<std::string> Sent;
  mutable bool Closed = false;
  void send(const std::string &M) const override {
    sched::point();
    sched::Quiet Q;
    CHECK("send-after-close", !Closed, "the socket is used after it is closed");
    Sent.push_back(M);
  }
  void receive(const ReceiveCallback &F) const override { OnData.push_back(F); }
  void closed(const ClosedCallback &F) const override { OnClose.push_back(F); }
};

/// What the application does.
struct Plan {
  int Answers;       // abandons after so many answers; < 0: serves until closed
  unsigned How;      // how it abandons
  unsigned Moves;    // moves the object before so many of the answers
  unsigned Extra;    // calls after the end was reported
  unsigned Args;     // variant of the application function
  bool Throw = false; // the evaluation of the next request fails
};
struct Failed {}; // is thrown
struct Client {
  // Set before the start.
  char Delim;
  std::vector<std::string> Deliveries;
  std::vector<std::string> Requests; // expected
  std::vector<std::string> Answers;  // to the requests
  Plan P;
  unsigned Id;
  // Set by the threads.
  std::vector<std::string> Seen;
  bool ToldEnd = false, Over = false, Called = false;
  std::unique_ptr<Sock> S;
};

inline std::string answerTo(Client &C) {
  return C.Seen.size() <= C.Answers.size() ? C.Answers[C.Seen.size() - 1] : "?";
}

/// One call of answer().
inline bool serve(bcl::IntrusiveConnection &I, Client &C, bool Throw = false) {
  bool Ran = false;
  bool Ok = I.answer([&](const std::string &R) {
    Ran = true;
    std::string A;
    {
      sched::Quiet Q;
      C.Seen.push_back(R);
      CHECK("order", C.Seen.size() <= C.Requests.size(),
            << "connection " << C.Id << ": the application gets " << pbt::show(R) << ", but all requests have been seen");
      CHECK("request", R == C.Requests[C.Seen.size() - 1],
            << "connection " << C.Id << ": request " << C.Seen.size() << " is " << pbt::show(R) << ", expected "
            << pbt::show(C.Requests[C.Seen.size() - 1]));
      CHECK("called-after-end", !C.ToldEnd, << "connection " << C.Id);
      A = answerTo(C);
    }
    sched::point();
    if (Throw) throw Failed();
    return A;
  });
  {
    sched::Quiet Q;
    CHECK("answer-result", Ok == Ran, << "connection " << C.Id << ": answer() returns " << Ok << ", the function is called: " << Ran);
    if (!Ok) C.ToldEnd = true;
  }
  return Ok;
}

inline void app(bcl::IntrusiveConnection I, Client *C) {
  C->Called = true;
  Plan P = C->P;
  std::unique_ptr<bcl::IntrusiveConnection> Moved;
  bcl::IntrusiveConnection *Cur = &I;
  auto move = [&] {
    std::unique_ptr<bcl::IntrusiveConnection> N(new bcl::IntrusiveConnection(std::move(*Cur)));
    {
      // The object that was moved from does not serve any more.
      bool Ran = false;
      bool Ok = Cur->answer([&](const std::string &) { Ran = true; return std::string(); });
      sched::Quiet Q;
      CHECK("moved-from", !Ok && !Ran, << "a connection that was moved from serves a request");
    }
    Moved = std::move(N);
    Cur = Moved.get();
  };
  for (int N = 0; P.Answers < 0 || N < P.Answers; ++N) {
    if (P.Moves) {
      --P.Moves;
      move();
    }
    sched::point();
    if (!serve(*Cur, *C)) break;
  }
  if (P.Throw && !C->ToldEnd) {
    try {
      serve(*Cur, *C, true);
    } catch (Failed &) {
    }
  }
  if (C->ToldEnd)
    for (unsigned N = 0; N < P.Extra; ++N) {
      bool Ok = serve(*Cur, *C);
      sched::Quiet Q;
      CHECK("end-twice", !Ok);
    }
  switch (P.How) {
  case 0: break; // the function returns
  case 1: move(); Moved.reset(); break;
  case 2: { // assignment from an object without connection
    bcl::IntrusiveConnection E(std::move(*Cur)), F(std::move(E));
    auto &R = (F = std::move(E));
    sched::Quiet Q;
    CHECK("assign-result", &R == &F);
    break;
  }
  case 3: { // assignment to an object without connection, and to itself
    bcl::IntrusiveConnection E(std::move(*Cur)), F(std::move(E));
    E = std::move(F);
    auto &R = E;
    E = std::move(R);
    break;
  }
  }
  sched::point();
  sched::Quiet Q;
  C->Over = true;
}
struct Functor {
  std::unique_ptr<int> Token;
  void operator()(bcl::IntrusiveConnection I, Client *C, std::string A, std::unique_ptr<int> B) {
    {
      sched::Quiet Q;
      CHECK("arguments", A == std::string(30, 'a') && B && *B == 7 && Token && *Token == 5);
    }
    app(std::move(I), C);
  }
};

inline void start(Client &C) {
  switch (C.P.Args) {
  case 0: bcl::IntrusiveConnection::connect(C.S.get(), C.Delim, app, &C); break;
  case 1: {
    Functor F{std::unique_ptr<int>(new int(5))};
    bcl::IntrusiveConnection::connect(C.S.get(), C.Delim, std::move(F), &C, std::string(30, 'a'), std::unique_ptr<int>(new int(7)));
    break;
  }
  default: {
    Client *P = &C;
    bcl::IntrusiveConnection::connect(C.S.get(), C.Delim, [P](bcl::IntrusiveConnection I) { app(std::move(I), P); });
  }
  }
}
/// The network side of one connection.
inline void network(Client &C) {
  start(C);
  {
    sched::Quiet Q;
    CHECK("subscribed", C.S->OnData.size() && C.S->OnClose.size());
  }
  for (auto &D : C.Deliveries) {
    sched::point();
    for (auto &F : C.S->OnData) F(D);
  }
  sched::point();
  C.S->Closed = true;
  for (auto &F : C.S->OnClose) F(C.Id % 2);
  C.S->OnData.clear();
  C.S->OnClose.clear();
}

/// Requests in one delivery: pieces that end with the delimiter, and what is
/// left after the last one if it is not empty.
inline std::vector<std::string> split(const std::string &D, char Delim) {
  std::vector<std::string> R;
  std::string Cur;
  for (char X : D)
    if (X == Delim) {
      R.push_back(Cur);
      Cur.clear();
    } else {
      Cur += X;
    }
  if (!Cur.empty()) R.push_back(Cur);
  return R;
}

inline std::string text(Gen &g, size_t Max, bool NoNul) {
  std::string S = g.bytes(Max, g.coin() ? "ab$\n;" : nullptr);
  if (NoNul)
    for (char &X : S) if (!X) X = 'n';
  return S;
}

inline void make(Gen &g, Client &C, unsigned Id, bool Abandon) {
  C.Id = Id;
  C.Delim = g.pick({'$', '\n', ';', 'a', '\0', '\xff'});
  bool Nul = !C.Delim;
  for (size_t N = g.len(Abandon ? 5 : 8); N--;) {
    std::string D;
    switch (g.below(3)) {
    case 0: D = text(g, g.chance(1, 20) ? 5000 : 12, Nul); break;
    case 1: // one request
      D = text(g, 6, true);
      if (!Nul) D += C.Delim;
      break;
    default: // several requests
      for (size_t K = 1 + g.below(4); K--;) {
        D += text(g, 3, true);
        if (!Nul && (K || g.coin())) D += C.Delim;
      }
    }
    C.Deliveries.push_back(D);
    for (auto &R : split(D, C.Delim)) C.Requests.push_back(R);
  }
  for (size_t I = 0; I < C.Requests.size(); ++I)
    C.Answers.push_back(g.coin() ? "r" + std::to_string(I) : text(g, g.chance(1, 20) ? 3000 : 8, Nul));
  C.P.Answers = Abandon && g.chance(4, 5) ? (int)g.below(C.Requests.size() + 2) : -1;
  C.P.How = (unsigned)g.below(4);
  C.P.Moves = g.chance(1, 3) ? (unsigned)g.below(3) : 0;
  C.P.Extra = (unsigned)g.below(3);
  C.P.Args = (unsigned)g.below(3);
  C.P.Throw = C.P.Answers >= 0 && g.chance(1, 5);
  C.S.reset(new Sock);
  if (g.tracing()) {
    std::ostringstream O;
    O << "connection " << Id << ": delimiter " << pbt::show(std::string(1, C.Delim)) << ", deliveries";
    for (auto &D : C.Deliveries) O << ' ' << pbt::show(D);
    O << "; the application " << (C.P.Answers < 0 ? std::string("serves until the end") : "abandons after " + std::to_string(C.P.Answers) + " answers" + (C.P.Throw ? " and a failure" : "") + ", way " + std::to_string(C.P.How));
    g.noteStr(O.str());
  }
}

/// What must have been sent and seen when everything is over.
inline void verify(Client &C) {
  size_t N = C.Requests.size();
  size_t K = C.P.Answers < 0 ? N : std::min<size_t>(N, C.P.Answers);
  CHECK("over", C.Called && C.Over, << "connection " << C.Id << ": the application has not run to the end");
  size_t Seen = std::min<size_t>(N, K + C.P.Throw);
  CHECK("seen", C.Seen.size() == Seen, << "connection " << C.Id << ": the application has seen " << C.Seen.size() << " requests, expected " << Seen);
  bool End = C.P.Answers < 0 || (size_t)C.P.Answers + C.P.Throw > N;
  CHECK("told", C.ToldEnd == End, << "connection " << C.Id << ": the application is told about the end: " << C.ToldEnd << ", expected " << End);
  std::vector<std::string> Want;
  for (size_t I = 0; I < N; ++I) Want.push_back(I < K ? C.Answers[I] : "REJECT");
  auto list = [](const std::vector<std::string> &V) {
    std::string S;
    for (auto &X : V) S += " " + pbt::show(X.size() > 60 ? X.substr(0, 60) : X);
    return S;
  };
  if (!C.Delim) {
    // Whether a separator follows is not specified here.
    std::vector<std::string> Got = C.S->Sent;
    for (size_t I = 0; I < Got.size() && I < Want.size(); ++I)
      if (Got[I].size() == Want[I].size() + 1 && Got[I].back() == 0) Got[I].pop_back();
    CHECK("sent", Got == Want, << "connection " << C.Id << " sends" << list(Got) << ", expected" << list(Want));
    return;
  }
  std::string A, B;
  for (auto &X : C.S->Sent) A += X;
  for (auto &X : Want) B += X + C.Delim;
  CHECK("sent", A == B, << "connection " << C.Id << " sends" << list(C.S->Sent) << ", expected" << list(Want)
        << ", each followed by the delimiter");
}

inline void scenario(Gen &g, bool Abandon) {
  std::list<Client> Cs;
  unsigned K = g.weighted({5, 2, 1}) + 1;
  for (unsigned I = 0; I < K; ++I) {
    Cs.emplace_back();
    make(g, Cs.back(), I, Abandon);
  }
  auto Body = [&] {
    if (K == 1) {
      network(Cs.front());
      return;
    }
    std::vector<std::thread> T;
    for (auto &C : Cs) {
      Client *P = &C;
      T.emplace_back([P] { network(*P); });
    }
    for (auto &X : T) X.join();
  };
  sched::run(g, Body);
  size_t Reqs = 0, Rej = 0;
  for (auto &C : Cs) {
    verify(C);
    Reqs += C.Requests.size();
    Rej += C.Requests.size() - C.Seen.size() + (C.P.Throw && C.Seen.size() > (size_t)C.P.Answers);
  }
  if (Rej) g.label("requests rejected");
  if (K > 1) g.label("several connections");
  if (sched::preemptions() > 3) g.label("more than 3 preemptions");
  if (Reqs > 1 && sched::preemptions() && (!Abandon || Rej || Cs.front().P.Answers < 0)) g.nontrivial();
}
} // namespace connx
#endif
