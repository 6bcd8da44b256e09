// C06: the list and the index-map notation of an array are equivalent.
#include "jsonx.h"
using namespace jx;

static std::string keyText(Gen &g, size_t I) {
  std::string D = std::to_string(I), R = "\"";
  if (g.chance(1, 12)) D.insert(0, g.coin() ? "0" : "00");
  for (char C : D) {
    if (g.chance(1, 12)) R += '\\'; // an escaped digit is the digit
    R += C;
  }
  return R + "\"";
}
static std::vector<size_t> shuffled(Gen &g, size_t N) {
  std::vector<size_t> P(N);
  for (size_t I = 0; I < N; ++I) P[I] = I;
  for (size_t I = N; I > 1; --I) std::swap(P[I - 1], P[g.below(I)]);
  return P;
}
static std::string asList(Gen &g, const std::vector<std::string> &E) {
  std::string R = "[" + randomSpace(g);
  for (size_t I = 0; I < E.size(); ++I) R += (I ? "," + randomSpace(g) : "") + E[I] + randomSpace(g);
  return R + "]";
}
static std::string asMap(Gen &g, const std::vector<std::string> &E, bool &Perm) {
  auto P = shuffled(g, E.size());
  std::string R = "{" + randomSpace(g);
  for (size_t I = 0; I < E.size(); ++I) {
    Perm |= P[I] != I;
    R += (I ? "," + randomSpace(g) : "") + keyText(g, P[I]) + randomSpace(g) + ":" + randomSpace(g) + E[P[I]] + randomSpace(g);
  }
  return R + "}";
}

// Text of a value with nested arrays in a random notation at each level.
template <class T> struct N {
  static std::string text(Gen &, const T &X, bool &) { return write(X); }
};
template <class T> struct N<std::vector<T>> {
  static std::string text(Gen &g, const std::vector<T> &X, bool &Perm) {
    std::vector<std::string> E;
    for (auto &V_ : X) E.push_back(N<T>::text(g, V_, Perm));
    return g.coin() ? asMap(g, E, Perm) : asList(g, E);
  }
};
template <class T> void check(Gen &g) {
  std::vector<T> X = V<std::vector<T>>::gen(g, 0);
  bool Perm = false;
  std::string Text = N<std::vector<T>>::text(g, X, Perm);
  NOTE(pbt::show(Text));
  {
    std::vector<T> Y;
    json::Parser<> P(Text);
    CHECK("sequence accepted", P.parse(Y), << pbt::show(Text) << ": " << errs(P));
    CHECK("sequence", V<std::vector<T>>::same(X, Y), << pbt::show(Text) << " read as " << pbt::show(write(Y)));
    CHECK("no errors", !P.hasErrors(), << errs(P));
  }
  {
    T *Y = nullptr;
    json::Parser<> P(Text);
    CHECK("array accepted", P.parse(Y), << pbt::show(Text) << ": " << errs(P));
    CHECK("array", (Y == nullptr) == X.empty(), << pbt::show(Text));
    for (size_t I = 0; I < X.size(); ++I)
      CHECK("array element", V<T>::same(X[I], Y[I]), << pbt::show(Text) << " element " << I << " is " << pbt::show(write(Y[I])));
    delete[] Y;
  }
  if (Perm) g.nontrivial();
}
PROPERTY(equivalent, 90000, 2500000) {
  switch (g.below(8)) {
  case 0: return check<int>(g);
  case 1: return check<std::string>(g);
  case 2: return check<std::vector<int>>(g);
  case 3: return check<std::vector<std::string>>(g);
  case 4: return check<char>(g);
  case 5: return check<Small>(g);
  case 6: return check<std::map<std::string, int>>(g);
  default: return check<std::vector<std::vector<int>>>(g);
  }
}

// Arrays inside other values.
PROPERTY(inside, 40000, 1000000) {
  Big X = V<Big>::gen(g, 0);
  bool Perm = false;
  std::string L = N<std::vector<int>>::text(g, X[Big::List], Perm);
  std::string M = N<std::vector<std::string>>::text(g, X[Big::Names], Perm);
  std::string Text = "{\"Names\":" + M + ",\"List\":" + L + ",\"Flag\":" + write(X[Big::Flag]) + ",\"Sub\":" + write(X[Big::Sub]) + "}";
  NOTE(pbt::show(Text));
  Fresh<Big> Y;
  json::Parser<> P(Text);
  CHECK("accepted", P.parse(Y.X), << pbt::show(Text) << ": " << errs(P));
  CHECK("list", Y.X[Big::List] == X[Big::List], << pbt::show(Text));
  CHECK("names", Y.X[Big::Names] == X[Big::Names], << pbt::show(Text));
  CHECK("others", Y.X[Big::Flag] == X[Big::Flag] && V<Small>::same(Y.X[Big::Sub], X[Big::Sub]), << pbt::show(Text));
  if (Perm) g.nontrivial();
}

// Defective index maps.
template <class T> void defect(Gen &g) {
  std::vector<T> X = V<std::vector<T>>::gen(g, 0);
  if (X.empty()) X.push_back(T{});
  std::vector<std::pair<std::string, std::string>> F;
  for (size_t I = 0; I < X.size(); ++I) F.emplace_back(std::to_string(I), write(X[I]));
  size_t Victim = g.below(X.size());
  const char *Kind = "";
  switch (g.below(5)) {
  case 0: // one index used twice, another one missing
    if (X.size() < 2) { F.push_back(F[0]); Kind = "duplicate"; break; }
    F[Victim].first = F[(Victim + 1 + g.below(X.size() - 1)) % X.size()].first;
    Kind = "duplicate and hole";
    break;
  case 1:
    F.push_back(F[Victim]);
    Kind = "duplicate";
    break;
  case 2: { // a hole: the victim moves behind the end
    uint64_t To = X.size() + g.below(3);
    if (Victim + 1 == X.size() && To == Victim) ++To;
    F[Victim].first = g.coin() ? std::to_string(To) : g.pick({std::string("4294967296"), std::string("9223372036854775807"), std::string("18446744073709551615"), std::string("18446744073709551614"), std::string("4611686018427387904")});
    Kind = "hole";
    break;
  }
  case 3:
    F[Victim].first = g.pick({std::string("x"), std::string(""), std::string("-1"), std::string("18446744073709551616"), std::string("99999999999999999999999"), std::string("true"), std::string("\\n"), std::string("-"), std::string("\\\"0"), std::string("-18446744073709551615")});
    // strtoull wraps the last one around to 1, which may be in range.
    if (F[Victim].first[0] == '-' && F[Victim].first.size() > 5) F[Victim].first = "-x";
    Kind = "bad index";
    break;
  default:
    F[Victim].second = g.pick({std::string("{"), std::string("]"), std::string(""), std::string("\""), std::string("@")});
    Kind = "bad value";
  }
  auto Ord = shuffled(g, F.size());
  std::string Text = "{";
  for (size_t I = 0; I < F.size(); ++I) Text += (I ? "," : "") + ("\"" + F[Ord[I]].first + "\":" + F[Ord[I]].second);
  Text += "}";
  if (g.chance(1, 4)) { // nested in a list after good elements
    Text = "[[]," + Text + "]";
    NOTE(Kind << ": " << pbt::show(Text));
    std::vector<std::vector<T>> Y;
    json::Parser<> P(Text);
    CHECK("nested rejected", !P.parse(Y), << Kind << ": " << pbt::show(Text) << " read as " << pbt::show(write(Y)));
    CHECK("nested error", P.hasErrors(), << pbt::show(Text));
  } else {
    NOTE(Kind << ": " << pbt::show(Text));
    {
      std::vector<T> Y;
      json::Parser<> P(Text);
      CHECK("sequence rejected", !P.parse(Y), << Kind << ": " << pbt::show(Text) << " read as " << pbt::show(write(Y)));
      CHECK("sequence error", P.hasErrors(), << pbt::show(Text));
    }
    {
      T *Y = nullptr;
      json::Parser<> P(Text);
      CHECK("array rejected", !P.parse(Y), << Kind << ": " << pbt::show(Text));
      CHECK("array error", P.hasErrors(), << pbt::show(Text));
      CHECK("array released", Y == nullptr, << pbt::show(Text));
    }
  }
  g.label(Kind);
  g.nontrivial();
}
PROPERTY(defective, 90000, 2500000) {
  switch (g.below(5)) {
  case 0: return defect<int>(g);
  case 1: return defect<std::string>(g);
  case 2: return defect<std::vector<int>>(g);
  case 3: return defect<Small>(g);
  default: return defect<char>(g);
  }
}
