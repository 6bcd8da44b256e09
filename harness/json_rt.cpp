// C02: writing a value and reading the text back gives the value.
#include "jsonx.h"
#include "oom.h"
#include <deque>
using namespace jx;

template <class T> bool hasContent(const T &) { return true; }
template <class T> void roundTrip(Gen &g) {
  T X = V<T>::gen(g, 0);
  std::string Text = json::Parser<>::unparse(X);
  NOTE("written: " << pbt::show(Text));
  Dom D;
  CHECK("well-formed", read(Text, D), << "the written text is not well formed: " << pbt::show(Text));
  {
    Fresh<T> Y;
    json::Parser<> P(Text);
    bool Ok = P.parse(Y.X);
    CHECK("reads back", Ok, << "the written text " << pbt::show(Text) << " is rejected: " << errs(P));
    CHECK("no errors", !P.hasErrors(), << pbt::show(Text) << ": " << errs(P));
    CHECK("same value", V<T>::same(X, Y.X), << "wrote " << pbt::show(Text) << ", read " << pbt::show(write(Y.X)));
    // Parsing the same text again with the same parser.
    Fresh<T> Z;
    CHECK("parse again", P.parse(Z.X) && V<T>::same(X, Z.X), << pbt::show(Text));
  }
  std::string Spaced = respace(g, Text);
  if (Spaced != Text) {
    NOTE("respaced: " << pbt::show(Spaced));
    Fresh<T> Y;
    json::Parser<> P(Spaced);
    bool Ok = P.parse(Y.X);
    CHECK("white space", Ok, << "rejected with other white space: " << pbt::show(Spaced) << ": " << errs(P));
    CHECK("white space value", V<T>::same(X, Y.X), << pbt::show(Spaced) << " read as " << pbt::show(write(Y.X)));
  }
  if (Text.size() > 4) g.nontrivial();
}

// Pointers to scalars: one value behind a pointer.
template <class T> void pointer(Gen &g) {
  T X = V<std::remove_const_t<T>>::gen(g, 0);
  T *PX = &X;
  std::string Text = json::Parser<>::unparse(PX);
  NOTE("written: " << pbt::show(Text));
  T *PY = nullptr;
  json::Parser<> P(g.coin() ? respace(g, Text) : Text);
  CHECK("reads back", P.parse(PY), << pbt::show(Text) << ": " << errs(P));
  CHECK("allocated", PY != nullptr);
  CHECK("same value", V<std::remove_const_t<T>>::same(X, *PY), << pbt::show(Text));
  delete PY;
  g.nontrivial();
}
template <class C> void charPointer(Gen &g) {
  std::string S = anyText(g, 12, false);
  C PX = const_cast<C>(S.c_str());
  std::string Text = json::Parser<>::unparse(PX);
  NOTE("written: " << pbt::show(Text));
  C PY = nullptr;
  json::Parser<> P(g.coin() ? respace(g, Text) : Text);
  CHECK("reads back", P.parse(PY), << pbt::show(Text) << ": " << errs(P));
  CHECK("same value", PY && S == PY, << pbt::show(Text));
  delete[] PY;
  if (S.size() > 1) g.nontrivial();
}
template <class T> void pointerVector(Gen &g) {
  std::vector<T> Vals = V<std::vector<T>>::gen(g, 0);
  std::vector<T *> X, Y;
  for (auto &E : Vals) X.push_back(&E);
  std::string Text = json::Parser<>::unparse(X);
  NOTE("written: " << pbt::show(Text));
  json::Parser<> P(Text);
  CHECK("reads back", P.parse(Y), << pbt::show(Text) << ": " << errs(P));
  CHECK("same size", X.size() == Y.size());
  for (size_t I = 0; I < X.size(); ++I) {
    CHECK("same value", Y[I] && V<T>::same(*X[I], *Y[I]), << pbt::show(Text) << " element " << I);
    delete Y[I];
  }
  if (X.size() > 1) g.nontrivial();
}
// Null pointers are left out when a sequence is written; what is written is
// the map from the other indices.
void sparse(Gen &g) {
  std::vector<int> Vals = V<std::vector<int>>::gen(g, 0);
  std::vector<int *> X;
  std::map<size_t, int> M;
  for (auto &E : Vals) {
    bool Null = g.coin();
    if (!Null) M[X.size()] = E;
    X.push_back(Null ? nullptr : &E);
  }
  if (X.empty()) return;
  std::string Text = json::Parser<>::unparse(X);
  NOTE("written: " << pbt::show(Text));
  if (M.size() == X.size()) return;
  std::map<unsigned long, int> Y;
  json::Parser<> P(Text);
  CHECK("reads back", P.parse(Y), << pbt::show(Text) << ": " << errs(P));
  CHECK("same size", M.size() == Y.size(), << pbt::show(Text));
  for (auto &E : M) CHECK("same value", Y.count(E.first) && Y[E.first] == E.second, << pbt::show(Text));
  g.nontrivial();
}

// The same for values behind pointers in maps and multimaps, which may be
// nested: an entry without a value is left out, wherever it stands.
template <class M> M nullableMap(Gen &g, std::deque<int> &Pool) {
  M R;
  std::vector<typename M::key_type> Ks;
  for (size_t N = g.len(6); N; --N) {
    auto K = !Ks.empty() && g.chance(1, 3) ? g.pick(Ks) : V<typename M::key_type>::gen(g, 1);
    Ks.push_back(K);
    Pool.push_back(g.integral<int>());
    R.emplace(K, g.coin() ? &Pool.back() : nullptr);
  }
  return R;
}
template <class M> M present(const M &X) {
  M R;
  for (auto &E : X) if (E.second) R.emplace(E);
  return R;
}
template <class M> std::string sameMap(const M &A, const M &B) {
  if (A.size() != B.size()) return "size " + std::to_string(B.size()) + " instead of " + std::to_string(A.size());
  auto J = B.begin();
  for (auto &E : A) {
    if (!(E.first == J->first)) return "another key";
    if (!J->second || *E.second != *J->second) return "another value";
    ++J;
  }
  return "";
}
template <class M> void nullable(Gen &g) {
  std::deque<int> Pool;
  M X = nullableMap<M>(g, Pool), E = present(X), Y;
  std::string Text = json::Parser<>::unparse(X);
  NOTE("written: " << pbt::show(Text));
  json::Parser<> P(g.coin() ? respace(g, Text) : Text);
  bool Ok = P.parse(Y);
  std::string Diff = Ok ? sameMap(E, Y) : "";
  for (auto &V : Y) delete V.second;
  CHECK("reads back", Ok, << pbt::show(Text) << ": " << errs(P));
  CHECK("same entries", Diff.empty(), << pbt::show(Text) << ": " << Diff);
  if (E.size() < X.size() && !E.empty()) g.nontrivial();
}
template <class M> void nullableNested(Gen &g) {
  std::deque<int> Pool;
  std::vector<M> X, Y;
  bool Some = false;
  for (size_t N = g.len(4); N; --N) {
    X.push_back(nullableMap<M>(g, Pool));
    Some |= present(X.back()).size() < X.back().size();
  }
  std::string Text = json::Parser<>::unparse(X);
  NOTE("written: " << pbt::show(Text));
  json::Parser<> P(g.coin() ? respace(g, Text) : Text);
  bool Ok = P.parse(Y);
  std::string Diff = X.size() == Y.size() ? "" : "number of maps";
  for (size_t I = 0; Ok && Diff.empty() && I < X.size(); ++I) Diff = sameMap(present(X[I]), Y[I]);
  for (auto &M_ : Y) for (auto &V : M_) delete V.second;
  CHECK("reads back", Ok, << pbt::show(Text) << ": " << errs(P));
  CHECK("same entries", Diff.empty(), << pbt::show(Text) << ": " << Diff);
  if (Some) g.nontrivial();
}
// Sets of pointers: the written elements are the present ones, in some order.
void nullableSet(Gen &g) {
  std::deque<int> Pool;
  std::set<const int *> X, Y;
  std::multiset<int> E, R;
  bool Null = g.coin();
  if (Null) X.insert(nullptr);
  for (size_t N = g.len(5); N; --N) {
    Pool.push_back(g.integral<int>());
    X.insert(&Pool.back());
    E.insert(Pool.back());
  }
  std::string Text = json::Parser<>::unparse(X);
  NOTE("written: " << pbt::show(Text));
  json::Parser<> P(g.coin() ? respace(g, Text) : Text);
  bool Ok = P.parse(Y);
  for (auto *V : Y) { if (V) R.insert(*V); delete V; }
  CHECK("reads back", Ok, << pbt::show(Text) << ": " << errs(P));
  CHECK("same elements", E == R && Y.size() == E.size(), << pbt::show(Text));
  if (Null && !E.empty()) g.nontrivial();
}

using SV = std::vector<std::string>;
using MSI = std::map<std::string, int>;
PROPERTY(scalars, 60000, 1500000) {
  switch (g.below(10)) {
  case 0: return roundTrip<int>(g);
  case 1: return roundTrip<long>(g);
  case 2: return roundTrip<long long>(g);
  case 3: return roundTrip<unsigned>(g);
  case 4: return roundTrip<unsigned long>(g);
  case 5: return roundTrip<unsigned long long>(g);
  case 6: return roundTrip<float>(g);
  case 7: return roundTrip<double>(g);
  case 8: return roundTrip<bool>(g);
  default: return roundTrip<char>(g);
  }
}
PROPERTY(strings, 60000, 1500000) { roundTrip<std::string>(g); }
PROPERTY(pointers, 40000, 800000) {
  switch (g.below(9)) {
  case 0: return pointer<int>(g);
  case 1: return pointer<const int>(g);
  case 2: return pointer<std::string>(g);
  case 3: return pointer<double>(g);
  case 4: return charPointer<char *>(g);
  case 5: return charPointer<const char *>(g);
  case 6: return pointerVector<int>(g);
  case 7: return pointerVector<std::string>(g);
  default: return sparse(g);
  }
}
PROPERTY(nullables, 40000, 1000000) {
  switch (g.below(6)) {
  case 0: return nullable<std::map<std::string, const int *>>(g);
  case 1: return nullable<std::map<int, int *>>(g);
  case 2: return nullable<std::multimap<std::string, int *>>(g);
  case 3: return nullable<std::multimap<char, const int *>>(g);
  case 4: return g.coin() ? nullableNested<std::map<std::string, int *>>(g) : nullableNested<std::multimap<int, int *>>(g);
  default: return nullableSet(g);
  }
}
PROPERTY(moreContainers, 60000, 1500000) {
  switch (g.below(14)) {
  case 0: return roundTrip<std::set<char>>(g);
  case 1: return roundTrip<std::set<unsigned long long>>(g);
  case 2: return roundTrip<std::set<std::vector<int>>>(g);
  case 3: return roundTrip<std::map<unsigned long, double>>(g);
  case 4: return roundTrip<std::map<bool, std::string>>(g);
  case 5: return roundTrip<std::map<std::string, std::set<long>>>(g);
  case 6: return roundTrip<std::multimap<std::string, std::multimap<std::string, char>>>(g);
  case 7: return roundTrip<std::multimap<char, std::optional<bool>>>(g);
  case 8: return roundTrip<std::optional<char>>(g);
  case 9: return roundTrip<std::optional<double>>(g);
  case 10: return roundTrip<std::vector<std::vector<std::vector<std::string>>>>(g);
  case 11: return roundTrip<std::vector<std::optional<std::string>>>(g);
  case 12: return roundTrip<std::optional<std::map<std::string, std::optional<long long>>>>(g);
  default: return roundTrip<std::vector<unsigned long long>>(g);
  }
}
PROPERTY(containers, 90000, 2500000) {
  switch (g.below(20)) {
  case 0: return roundTrip<std::vector<int>>(g);
  case 1: return roundTrip<SV>(g);
  case 2: return roundTrip<std::vector<std::vector<int>>>(g);
  case 3: return roundTrip<std::vector<char>>(g);
  case 4: return roundTrip<std::set<int>>(g);
  case 5: return roundTrip<std::set<std::string>>(g);
  case 6: return roundTrip<MSI>(g);
  case 7: return roundTrip<std::map<int, std::string>>(g);
  case 8: return roundTrip<std::map<long long, bool>>(g);
  case 9: return roundTrip<std::map<std::string, std::vector<int>>>(g);
  case 10: return roundTrip<std::map<std::string, std::map<std::string, double>>>(g);
  case 11: return roundTrip<std::multimap<std::string, int>>(g);
  case 12: return roundTrip<std::multimap<int, SV>>(g);
  case 13: return roundTrip<std::optional<int>>(g);
  case 14: return roundTrip<std::optional<std::string>>(g);
  case 15: return roundTrip<std::vector<std::optional<int>>>(g);
  case 16: return roundTrip<std::map<std::string, std::optional<std::string>>>(g);
  case 17: return roundTrip<std::map<char, int>>(g);
  case 18: return roundTrip<std::vector<std::set<std::string>>>(g);
  default: return roundTrip<std::optional<std::vector<unsigned>>>(g);
  }
}
PROPERTY(records, 40000, 1200000) {
  switch (g.below(6)) {
  case 0: return roundTrip<Small>(g);
  case 1: return roundTrip<Big>(g);
  case 2: return roundTrip<std::vector<Small>>(g);
  case 3: return roundTrip<std::map<std::string, Big>>(g);
  case 4: return roundTrip<Human>(g);
  default: return roundTrip<std::vector<std::map<int, Small>>>(g);
  }
}

// Some allocation fails: nothing else than what was written is ever read, the
// end of memory is an ordinary failure or std::bad_alloc, nothing is lost (the
// runner looks for leaks), and the same parser reads the text afterwards.
template <class T> void exhausted(Gen &g) {
  T X = V<T>::gen(g, 0);
  unsigned At = 1 + (unsigned)(g.chance(1, 3) ? g.below(60) : g.below(12));
  bool All = g.chance(1, 3);
  std::string Text = json::Parser<>::unparse(X), Again;
  NOTE("written: " << pbt::show(Text) << ", allocation " << At << (All ? " and later ones fail" : " fails"));
  bool Thrown = oom::run(At, [&] { Again = json::Parser<>::unparse(X); }, All);
  CHECK("written", Thrown || Again == Text, << pbt::show(Again) << " instead of " << pbt::show(Text));
  if (Thrown) g.label("writing fails");
  At = 1 + (unsigned)(g.chance(1, 3) ? g.below(60) : g.below(12));
  NOTE("allocation " << At << " of the parser fails");
  json::Parser<> P(Text);
  for (unsigned Round = 0; Round < 2; ++Round) {
    Fresh<T> Y;
    bool Ok = false;
    Thrown = oom::run(At, [&] { Ok = P.parse(Y.X); }, All);
    CHECK("only what was written", Thrown || !Ok || V<T>::same(X, Y.X), << pbt::show(Text) << " is read as " << pbt::show(write(Y.X)));
    CHECK("fails without a reason", Ok || oom::Failed, << errs(P));
    if (oom::Failed) g.label(Thrown ? "bad_alloc" : Ok ? "read in spite of it" : "refused");
    if (oom::Failed) g.nontrivial();
    Fresh<T> Z;
    json::Parser<> P2(Text);
    json::Parser<> &Q = Round ? P : P2;
    CHECK("parse again", Q.parse(Z.X) && V<T>::same(X, Z.X), << pbt::show(Text) << " is read as " << pbt::show(write(Z.X)) << ": " << errs(Q));
  }
}
template <class C, class T> void exhaustedPointer(Gen &g) {
  T X = V<T>::gen(g, 0);
  std::string Text = write(X);
  unsigned At = 1 + (unsigned)g.below(12);
  bool All = g.chance(1, 3);
  NOTE(pbt::show(Text) << ", allocation " << At << (All ? " and later ones fail" : " fails"));
  C Y = nullptr;
  bool Ok = false;
  json::Parser<> P(Text);
  bool Thrown = oom::run(At, [&] { Ok = P.parse(Y); }, All);
  CHECK("unused", Ok || Y == nullptr, << "a pointer is given though reading failed");
  CHECK("fails without a reason", Ok || oom::Failed || Text == "[]" || Text == "{}", << errs(P));
  if (oom::Failed) g.label(Thrown ? "bad_alloc" : Ok ? "read in spite of it" : "refused");
  if (oom::Failed) g.nontrivial();
  if (!Ok) return;
  bool Same = true;
  if constexpr (std::is_same_v<T, std::string>) Same = !memcmp(Y, X.c_str(), X.size() + 1);
  else for (size_t I = 0; I < X.size(); ++I) Same &= Y[I] == X[I];
  delete[] Y;
  CHECK("same value", Same, << pbt::show(Text));
}
PROPERTY(exhausted, 40000, 1200000) {
  switch (g.below(19)) {
  case 0: return exhausted<std::string>(g);
  case 1: return exhausted<SV>(g);
  case 2: return exhausted<std::vector<int>>(g);
  case 3: return exhausted<std::vector<std::vector<int>>>(g);
  case 4: return exhausted<std::set<std::string>>(g);
  case 5: return exhausted<MSI>(g);
  case 6: return exhausted<std::map<std::string, std::vector<int>>>(g);
  case 7: return exhausted<std::multimap<int, SV>>(g);
  case 8: return exhausted<std::optional<std::string>>(g);
  case 9: return exhausted<std::optional<std::vector<unsigned>>>(g);
  case 10: return exhausted<std::map<std::string, std::optional<std::string>>>(g);
  case 11: return exhausted<Small>(g);
  case 12: return exhausted<Big>(g);
  case 13: return exhausted<std::map<std::string, Big>>(g);
  case 14: return exhausted<Human>(g);
  case 15: return exhausted<char>(g);
  case 16: return exhausted<long long>(g);
  case 17: return exhaustedPointer<char *, std::string>(g);
  default: return exhaustedPointer<int *, std::vector<int>>(g);
  }
}

// Recorded finding: an optional text that is exactly null.
PROPERTY(finding_optional_null, 1, 1) {
  std::optional<std::string> X("null"), Y("other");
  json::Parser<> P(write(X));
  CHECK("reads back", P.parse(Y), << write(X));
  if (!Y) g.label("finding:C02-optional-null");
  else CHECK("same value", *Y == "null", << write(X));
}
