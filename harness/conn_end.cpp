// C12: end of connections (close, abandonment) under chosen schedules.
#include "connx.h"
using namespace connx;
PROPERTY(ending, QUICK(12000), THOROUGH(400000), FREE) { scenario(g, true); }

/// Two connections in the hands of one thread, one is assigned to the other.
PROPERTY(reassigned, QUICK(8000), THOROUGH(250000), FREE) {
  std::list<Client> Cs;
  for (unsigned I = 0; I < 2; ++I) {
    Cs.emplace_back();
    make(g, Cs.back(), I, true);
    Cs.back().P.Args = 0;
    Cs.back().P.Throw = false;
    Cs.back().Answers.assign(Cs.back().Requests.size(), "ok");
  }
  Client &A = Cs.front(), &B = Cs.back();
  unsigned Before[2] = {(unsigned)g.below(3), (unsigned)g.below(3)}, After = (unsigned)g.below(4);
  NOTE("one thread holds both: " << Before[0] << " and " << Before[1] << " answers, then 0 = move(1), then " << After << " answers");
  std::mutex M;
  std::condition_variable Ev;
  std::unique_ptr<bcl::IntrusiveConnection> Slot;
  auto Keep = [&](bcl::IntrusiveConnection I, int) {
    std::lock_guard<std::mutex> L(M);
    Slot.reset(new bcl::IntrusiveConnection(std::move(I)));
    Ev.notify_one();
  };
  auto Use = [&](bcl::IntrusiveConnection I, int) {
    std::unique_ptr<bcl::IntrusiveConnection> O;
    {
      std::unique_lock<std::mutex> L(M);
      Ev.wait(L, [&] { return !!Slot; });
      O = std::move(Slot);
    }
    // A request of one is only answered here: wait for each in turn.
    for (unsigned N = 0; N < Before[0]; ++N) if (!serve(I, A)) break;
    for (unsigned N = 0; N < Before[1]; ++N) if (!serve(*O, B)) break;
    auto &R = (I = std::move(*O));
    {
      sched::Quiet Q;
      CHECK("assign-result", &R == &I);
    }
    for (unsigned N = 0; N < After; ++N) if (!serve(I, B)) break;
  };
  auto Net = [&](Client &C, bool First) {
    if (First) bcl::IntrusiveConnection::connect(C.S.get(), C.Delim, [Use](bcl::IntrusiveConnection I, int X) { Use(std::move(I), X); }, 1);
    else bcl::IntrusiveConnection::connect(C.S.get(), C.Delim, [Keep](bcl::IntrusiveConnection I, int X) { Keep(std::move(I), X); }, 2);
    for (auto &D : C.Deliveries) {
      sched::point();
      for (auto &F : C.S->OnData) F(D);
    }
    sched::point();
    C.S->Closed = true;
    for (auto &F : C.S->OnClose) F(true);
    C.S->OnData.clear();
    C.S->OnClose.clear();
  };
  sched::run(g, [&] {
    std::thread T1([&] { Net(A, true); }), T2([&] { Net(B, false); });
    T1.join();
    T2.join();
  });
  auto End = [&](Client &C, unsigned Calls) {
    size_t K = std::min<size_t>(Calls, C.Requests.size());
    CHECK("seen", C.Seen.size() == K, << "connection " << C.Id << ": " << C.Seen.size() << " requests are seen, expected " << K);
    std::string X, Y;
    for (size_t I = 0; I < C.Requests.size(); ++I) X += (I < K ? std::string("ok") : "REJECT") + C.Delim;
    for (auto &S : C.S->Sent) Y += C.Delim || (S.size() && !S.back()) ? S : S + '\0';
    CHECK("sent", X == Y, << "connection " << C.Id << " sends " << pbt::show(Y) << ", expected " << pbt::show(X));
  };
  End(A, Before[0]);
  End(B, Before[1] + After);
  if (A.Requests.size() > Before[0] && B.Requests.size()) g.nontrivial();
}

/// A connection has one owner.
PROPERTY(owner, 100, 1000) {
  using I = bcl::IntrusiveConnection;
  CHECK("uncopyable", (!std::is_copy_constructible<I>::value && !std::is_copy_assignable<I>::value));
  CHECK("movable", (std::is_move_constructible<I>::value && std::is_move_assignable<I>::value));
  g.nontrivial();
}
