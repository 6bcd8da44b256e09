// Sets of traits with attached values. Every value has a number; a registry
// knows which numbers are alive.
#ifndef TRAITSET_H
#define TRAITSET_H
#include "traitx.h"

struct Registry {
  std::map<int, int> Alive; // number of a value -> kind of its type
  int Next = 0;
  static Registry *&cur() {
    static Registry *R;
    return R;
  }
};
/// A value; the sizes differ, so that a delete through a wrong type is seen.
template <int K> struct Data {
  int Num = -1;
  char Pad[16 * (K % 7) + 1] = {};
  Data() = default;
  Data(const Data &) = delete;
  ~Data() {
    Registry *R = Registry::cur();
    if (Num < 0 || !R) return;
    auto It = R->Alive.find(Num);
    CHECK("destroyed-twice", It != R->Alive.end(), << "value " << Num);
    CHECK("destroyed-as-other-type", It->second == K, << "value " << Num);
    R->Alive.erase(It);
  }
  int born() {
    Num = Registry::cur()->Next++;
    Registry::cur()->Alive[Num] = K;
    return Num;
  }
};

template <class TS> struct SetOps : Ops<TS> {
  std::vector<int (*)(TS &, bool)> put;       // number of the new value
  std::vector<int (*)(TS &)> get, release;    // -1: null
  std::vector<int (*)(const TS &)> cget;
};
template <class TS, class T> void addSetOps(SetOps<TS> &O) {
  O.put.push_back([](TS &X, bool Null) {
    using Ty = std::remove_pointer_t<decltype(X.template get<T>())>;
    if (Null) {
      X.template set<T>(nullptr);
      return -1;
    }
    auto *P = new Ty;
    int Id = P->born();
    X.template set<T>(P);
    return Id;
  });
  O.get.push_back([](TS &X) {
    auto *P = X.template get<T>();
    return P ? P->Num : -1;
  });
  O.cget.push_back([](const TS &X) {
    const auto *P = X.template get<T>();
    return P ? P->Num : -1;
  });
  O.release.push_back([](TS &X) {
    auto *P = X.template release<T>();
    int Id = P ? P->Num : -1;
    if (P)
      CHECK("released-destroyed", Registry::cur()->Alive.count(Id), << "value " << Id);
    delete P;
    return Id;
  });
}
template <class TS, class... T>
SetOps<TS> mkSetOps(std::vector<Multi<TS>> Many) {
  SetOps<TS> O;
  static_cast<Ops<TS> &>(O) = mkOps<TS, T...>(Many);
  (addSetOps<TS, T>(O), ...);
  return O;
}

template <class TS> struct SetState {
  std::unique_ptr<TS> X;
  Bits M;
  std::map<int, int> V; // present traits with a value that is not null
};

template <class TS, class D>
void runSet(Gen &g, const Info &I, const SetOps<TS> &O, const Ops<D> &OD) {
  constexpr int N = 3;
  Registry R;
  struct Guard {
    Guard(Registry *R) { Registry::cur() = R; }
    ~Guard() { Registry::cur() = nullptr; }
  } Gd(&R);
  std::vector<SetState<TS>> S(N);
  for (auto &X : S) X.X = std::make_unique<TS>();
  D Desc;
  Bits MD;
  int Kills = 0;
  auto sync = [&](SetState<TS> &Z, const Bits &New, bool Exact) {
    for (auto It = Z.V.begin(); It != Z.V.end();) {
      int Now = O.get[It->first](*Z.X);
      bool Keep = New.count(It->first) && (Exact || Now >= 0);
      if (!Keep) {
        ++Kills;
        It = Z.V.erase(It);
      } else
        ++It;
    }
    Z.M = New;
  };
  auto drop = [&](SetState<TS> &Z) {
    Kills += (int)Z.V.size();
    Z.V.clear();
  };
  size_t Len = g.len(40);
  for (size_t Step = 0; Step < Len; ++Step) {
    int A = (int)g.below(N), B = (int)g.below(N);
    int K = (int)g.below(I.n);
    auto &Z = S[A];
    switch (g.weighted({8, 3, 2, 2, 2, 1, 3, 2, 2, 2, 1, 2, 1})) {
    case 0: {
      bool Null = g.chance(1, 8);
      NOTE("s" << A << ": set<" << K << ">(" << (Null ? "nullptr" : "value " + std::to_string(R.Next)) << ")");
      int Id = O.put[K](*Z.X, Null);
      sync(Z, doSet(I, Z.M, {K}), true);
      if (Z.V.count(K)) ++Kills;
      if (Null) Z.V.erase(K);
      else Z.V[K] = Id;
      break;
    }
    case 1: {
      bool Tr = g.coin();
      NOTE("s" << A << (Tr ? ": trait::set<" : ": set<") << K << ">");
      Tr ? O.one[K].tset(*Z.X) : O.one[K].set(*Z.X);
      sync(Z, doSet(I, Z.M, {K}), true);
      break;
    }
    case 2: {
      bool Tr = g.coin();
      NOTE("s" << A << (Tr ? ": trait::unset<" : ": unset<") << K << ">");
      Tr ? O.one[K].tunset(*Z.X) : O.one[K].unset(*Z.X);
      Bits M = Z.M;
      M.erase(K);
      sync(Z, M, true);
      break;
    }
    case 3: {
      if (O.many.empty()) break;
      auto &U = g.pick(O.many);
      bool Tr = g.coin();
      NOTE("s" << A << (Tr ? ": trait::set" : ": set") << show(U.idx));
      Tr ? U.tset(*Z.X) : U.set(*Z.X);
      Bits W(U.idx.begin(), U.idx.end());
      sync(Z, afterSet(I, (const Ops<TS> &)O, *Z.X, Z.M, W), conflictFree(I, W));
      break;
    }
    case 4: {
      if (O.many.empty()) break;
      auto &U = g.pick(O.many);
      bool Tr = g.coin();
      NOTE("s" << A << (Tr ? ": trait::unset" : ": unset") << show(U.idx));
      Tr ? U.tunset(*Z.X) : U.unset(*Z.X);
      Bits M = Z.M;
      for (int Y : U.idx) M.erase(Y);
      sync(Z, M, true);
      break;
    }
    case 5:
      NOTE("s" << A << ": unset_all");
      Z.X->unset_all();
      sync(Z, {}, true);
      break;
    case 6: {
      NOTE("s" << A << ": release<" << K << ">");
      int Id = O.release[K](*Z.X);
      int Want = Z.V.count(K) ? Z.V[K] : -1;
      CHECK("release", Id == Want, << "value " << Id << " instead of " << Want);
      Z.V.erase(K);
      break;
    }
    case 7: {
      if (A == B) break;
      NOTE("s" << A << " = move(s" << B << ")");
      *Z.X = std::move(*S[B].X);
      drop(Z);
      Z.M = S[B].M;
      Z.V = S[B].V;
      S[B].V.clear();
      NOTE("s" << B << ": new");
      S[B].X = std::make_unique<TS>();
      S[B].M.clear();
      break;
    }
    case 8: {
      if (A == B) break;
      NOTE("s" << A << ": constructed from move(s" << B << ")");
      auto P = std::make_unique<TS>(std::move(*S[B].X));
      drop(Z);
      Z.X = std::move(P);
      Z.M = S[B].M;
      Z.V = S[B].V;
      S[B].V.clear();
      S[B].X = std::make_unique<TS>();
      S[B].M.clear();
      break;
    }
    case 9: {
      bool Mv = g.coin(), Ctor = g.coin();
      NOTE("s" << A << (Ctor ? ": constructed from" : " =") << " descriptor "
               << show(MD) << (Mv ? " (moved)" : ""));
      D C(Desc);
      if (Ctor)
        Z.X = Mv ? std::make_unique<TS>(std::move(C)) : std::make_unique<TS>(C);
      else if (Mv)
        *Z.X = std::move(C);
      else
        *Z.X = C;
      drop(Z);
      Z.M = MD;
      break;
    }
    case 10:
      NOTE("s" << A << ": new");
      Z.X = std::make_unique<TS>();
      drop(Z);
      Z.M.clear();
      break;
    case 11: {
      bool Un = g.chance(1, 4);
      NOTE("descriptor: " << (Un ? "unset " : "set ") << K);
      if (Un) {
        OD.one[K].unset(Desc);
        MD.erase(K);
      } else {
        OD.one[K].set(Desc);
        MD = doSet(I, MD, {K});
      }
      break;
    }
    case 12: {
      bool Upd = g.coin(), FromSet = g.coin() && A != B;
      const Bits W = FromSet ? S[B].M : MD;
      NOTE((Upd ? "trait::update(" : "trait::set(")
           << (FromSet ? "s" + std::to_string(B) : "descriptor") << ", s" << A << ")");
      if (FromSet)
        Upd ? bcl::trait::update(*S[B].X, *Z.X) : bcl::trait::set(*S[B].X, *Z.X);
      else
        Upd ? bcl::trait::update(Desc, *Z.X) : bcl::trait::set(Desc, *Z.X);
      sync(Z, Upd ? W : doSet(I, Z.M, W), true);
      break;
    }
    }
    std::map<int, int> Want;
    for (int J = 0; J < N; ++J) {
      for (int T = 0; T < I.n; ++T) {
        int E = S[J].V.count(T) ? S[J].V[T] : -1;
        int G1 = O.get[T](*S[J].X), G2 = O.cget[T](*S[J].X);
        CHECK("get", G1 == E && G2 == E, << "set " << J << " trait " << T << ": value " << G1
              << " instead of " << E);
      }
      for (auto &P : S[J].V) Want[P.second] = 1;
    }
    for (auto &P : R.Alive)
      CHECK("not-destroyed", Want.count(P.first),
            << "value " << P.first << " is owned by nobody");
    for (auto &P : Want)
      CHECK("destroyed-early", R.Alive.count(P.first), << "value " << P.first);
    int J = (int)g.below(N);
    verify(g, I, (const Ops<TS> &)O, *S[J].X, S[J].M);
    D C1 = *S[J].X, C2 = S[J].X->get();
    CHECK("descriptor-of-set", C1 == C2 && ask(I, OD, C1) == S[J].M,
          << show(ask(I, OD, C1)) << " instead of " << show(S[J].M));
  }
  S.clear();
  CHECK("not-destroyed", R.Alive.empty(), << R.Alive.size() << " values are left");
  if (Kills > 1) g.nontrivial();
}
#endif
