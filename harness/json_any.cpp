// C04: arbitrary text is parsed or cleanly rejected. The oracle is a
// reference reader and decoder (jsonx.h) that does not share code with the
// library.
#include "jsonx.h"
#include "oom.h"
using namespace jx;

static std::string alphabet(Gen &g, size_t Max) {
  static const char *Tok[] = {"{", "}", "[", "]", ",", ":", "\"", "\"A\"", "\"Text\"", "\"Num\"", "\"List\"",
    "\"Sub\"", "\"Opt\"", "\"0\"", "\"1\"", "\"2\"", "\"a\"", "\"\"", "1", "-7", "2.5", "true", "false", "null",
    " ", "\\", "n", "i", "k", "\"\\n1\"", "4294967296", "99999999999999999999", "-", "+3", ".", "nul", "\"true\"",
    "\"null\"", "/", "\"5x\"", "{}", "[]", "\t", "\"18446744073709551615\"", "\"Names\"", "\"Flag\""};
  std::string R;
  for (size_t N = g.len(Max); N; --N) R += Tok[g.below(sizeof Tok / sizeof *Tok)];
  return R;
}

static std::string mutate(Gen &g, std::string T) {
  for (size_t N = 1 + g.len(3); N; --N) {
    size_t P = g.below(T.size() + 1);
    switch (g.weighted({3, 3, 2, 2, 2, 1})) {
    case 0: if (P < T.size()) T.erase(P, 1 + g.below(3)); break;
    case 1: T.insert(P, 1, "{}[],:\"\\ n01-.tkx"[g.below(17)]); break;
    case 2: if (P < T.size()) T[P] = "{}[],:\"\\ n01-.tkx"[g.below(17)]; break;
    case 3: T.insert(P, alphabet(g, 2)); break;
    case 4: T.resize(P); break;
    default: if (P < T.size()) T[P] = (char)g.below(256);
    }
  }
  return T;
}

/// A well formed text with some scalars replaced by other ones: the structure
/// stays, the values often do not fit.
static std::string rescalar(Gen &g, const std::string &T) {
  std::string R;
  auto Tk = tokens(T);
  for (size_t I = 0; I < Tk.size(); ++I) {
    char C = Tk[I][0];
    bool Scalar = C == '"' || digit(C) || C == '-' || isalpha((unsigned char)C);
    bool Key = I + 1 < Tk.size() && Tk[I + 1] == ":";
    if (!Scalar || !g.chance(1, 3)) R += Tk[I];
    else if (Key) R += g.pick({std::string("\"0\""), std::string("\"1\""), std::string("\"2\""), std::string("\"A\""), std::string("\"Z\""), std::string("\"\\1\""), std::string("\"-2147483649\""), std::string("\"4294967296\""), std::string("\"Text\"")});
    else
      switch (g.below(6)) {
      case 0: R += std::to_string(g.integral<long long>()); break;
      case 1: R += write(anyText(g, 5)); break;
      case 2: R += g.pick({std::string("true"), std::string("false"), std::string("null"), std::string("\"null\""), std::string("\"true\"")}); break;
      case 3: R += g.pick({std::string("2147483648"), std::string("-2147483649"), std::string("4294967296"), std::string("9223372036854775808"), std::string("18446744073709551616"), std::string("-9223372036854775809"), std::string("4294967295"), std::string("18446744073709551615")}); break;
      case 4: R += g.pick({std::string("[]"), std::string("{}"), std::string("[1]"), std::string("{\"0\":1}"), std::string("\"\""), std::string("\"7\"")}); break;
      default: R += std::to_string(g.range(-9, 9));
      }
  }
  return R;
}
/// The list notation of some array turned into the map notation.
static std::string remap(Gen &g, const std::string &T) {
  auto Tk = tokens(T);
  std::vector<size_t> Open;
  for (size_t I = 0; I < Tk.size(); ++I) if (Tk[I] == "[") Open.push_back(I);
  if (Open.empty()) return T;
  size_t At = g.pick(Open), Depth = 0, Idx = 0;
  std::string R;
  auto Next = [&] { return "\"" + std::to_string(g.chance(1, 8) ? g.below(4) : Idx++) + "\":"; };
  bool In = false;
  for (size_t I = 0; I < Tk.size(); ++I) {
    if (I == At) {
      In = true;
      Depth = 1;
      R += "{";
      if (I + 1 < Tk.size() && Tk[I + 1] != "]") R += Next();
      continue;
    }
    if (In) {
      if (Tk[I] == "[" || Tk[I] == "{") ++Depth;
      else if (Tk[I] == "]" || Tk[I] == "}") {
        if (--Depth == 0) { In = false; R += "}"; continue; }
      } else if (Tk[I] == "," && Depth == 1) { R += "," + Next(); continue; }
    }
    R += Tk[I];
  }
  return R;
}

// Writing keeps any text well formed, so equality after a second round trip
// is demanded for every accepted value.
template <class T> bool isFinite(const T &) { return true; }
static bool isFinite(const double &D) { return std::isfinite(D); }

template <class T> std::string anyFor(Gen &g) {
  std::string Text;
  switch (g.weighted({4, 2, 2, 3, 2, 1})) {
  case 0: Text = mutate(g, write(V<T>::gen(g, 0))); break;
  case 1: Text = alphabet(g, 14); break;
  case 2: Text = respace(g, write(V<T>::gen(g, 0))); break;
  case 3: Text = rescalar(g, write(V<T>::gen(g, 0))); break;
  case 4: Text = remap(g, write(V<T>::gen(g, 0))); break;
  default: Text = g.bytes(24, g.coin() ? "{}[],:\"\\ n01-.tkAxe" : nullptr);
  }
  return Text;
}
template <class T> void any(Gen &g, const char *Name) {
  std::string Text = anyFor<T>(g);
  NOTE(Name << ": " << pbt::show(Text));
  Dom D;
  bool Well = read(Text, D);
  Fresh<T> E, X;
  Verdict W = Well ? V<T>::ref(D, E.X) : Reject;
  json::Parser<> P(Text);
  bool Ok = P.parse(X.X); // an escaping exception ends the process
  if (Ok) {
    CHECK("mis-accepted", Well, << Name << " accepts the malformed text " << pbt::show(Text) << " as " << pbt::show(write(X.X)));
    CHECK("mis-accepted value", W != Reject, << Name << " accepts " << pbt::show(Text) << " as " << pbt::show(write(X.X)));
    CHECK("no errors", !P.hasErrors(), << pbt::show(Text) << ": " << errs(P));
    if (W == Accept)
      CHECK("value", V<T>::same(X.X, E.X), << Name << ": " << pbt::show(Text) << " read as " << pbt::show(write(X.X)) << ", expected " << pbt::show(write(E.X)));
    if (isFinite(X.X)) {
      std::string T2 = write(X.X);
      Fresh<T> Y;
      json::Parser<> P2(T2);
      CHECK("fixed point", P2.parse(Y.X) && V<T>::same(X.X, Y.X), << Name << ": " << pbt::show(Text) << " is written as " << pbt::show(T2) << ": " << errs(P2));
    }
    g.label("accepted");
  } else {
    CHECK("errors", P.hasErrors(), << Name << " rejects " << pbt::show(Text) << " without an error");
    CHECK("rejected", W != Accept, << Name << " rejects " << pbt::show(Text) << ": " << errs(P));
    g.label(Well ? "rejected: does not fit" : "rejected: malformed");
  }
  if (Text.size() > 2) g.nontrivial();
}

// Some allocation fails: what is read, if anything, is what is read with
// enough memory; otherwise the text is rejected, or std::bad_alloc is thrown.
template <class T> void exhausted(Gen &g, const char *Name) {
  std::string Text = g.chance(1, 6) ? write(anyText(g, 40)) : anyFor<T>(g);
  unsigned At = 1 + (unsigned)(g.chance(1, 3) ? g.below(60) : g.below(12));
  bool All = g.chance(1, 3);
  NOTE(Name << ": " << pbt::show(Text) << ", allocation " << At << (All ? " and later ones fail" : " fails"));
  Fresh<T> X, Y, Z;
  json::Parser<> P(Text), Q(Text);
  bool Exp = P.parse(X.X), Ok = false;
  bool Thrown = oom::run(At, [&] { Ok = Q.parse(Y.X); }, All);
  if (oom::Failed) {
    g.label(Thrown ? "bad_alloc" : Ok ? "accepted" : "rejected");
    g.nontrivial();
  }
  if (Ok) CHECK("mis-accepted", Exp && (V<T>::same(X.X, Y.X) || !isFinite(X.X)), << Name << ": " << pbt::show(Text) << " read as " << pbt::show(write(Y.X)) << " instead of " << pbt::show(write(X.X)));
  else CHECK("rejected", !Exp || oom::Failed, << Name << " rejects " << pbt::show(Text) << ": " << errs(Q));
  Ok = Q.parse(Z.X);
  CHECK("parse again", Ok == Exp && (!Ok || V<T>::same(X.X, Z.X) || !isFinite(X.X)), << Name << ": " << pbt::show(Text) << " " << errs(Q));
}

// Raw pointers: the caller owns what a successful parse allocated; a failed
// parse must release it.
template <class T> void pointer(Gen &g, const char *Name) {
  std::string Text;
  switch (g.weighted({3, 3, 2, 2})) {
  case 0: Text = mutate(g, write(V<std::vector<T>>::gen(g, 0))); break;
  case 1: Text = alphabet(g, 10); break;
  case 2: Text = rescalar(g, write(V<std::vector<T>>::gen(g, 0))); break;
  default: Text = remap(g, write(V<std::vector<T>>::gen(g, 0)));
  }
  NOTE(Name << ": " << pbt::show(Text));
  Dom D;
  bool Well = read(Text, D);
  T *X = nullptr;
  json::Parser<> P(Text);
  bool Ok = P.parse(X);
  std::vector<T> E;
  T One{};
  Verdict W = !Well ? Reject : scalar(D) ? V<T>::ref(D, One) : V<std::vector<T>>::ref(D, E);
  // A failure after the value itself (trailing text) leaves the pointer to
  // the caller, the parser cannot know how to release it.
  Dom Prefix;
  Reader R(Text);
  bool HasPrefix = R.value(Prefix);
  if (Ok) {
    CHECK("mis-accepted", Well, << Name << " accepts the malformed text " << pbt::show(Text));
    CHECK("mis-accepted value", W != Reject, << Name << " accepts " << pbt::show(Text));
    if (W == Accept) {
      if (scalar(D)) CHECK("value", X && V<T>::same(*X, One), << pbt::show(Text));
      else
        for (size_t I = 0; I < E.size(); ++I) CHECK("value", X && V<T>::same(X[I], E[I]), << pbt::show(Text));
    }
    g.label("accepted");
  } else {
    CHECK("errors", P.hasErrors(), << Name << " rejects " << pbt::show(Text) << " without an error");
    CHECK("rejected", W != Accept, << Name << " rejects " << pbt::show(Text) << ": " << errs(P));
    if (!HasPrefix) CHECK("released", X == nullptr, << pbt::show(Text));
  }
  if (X) {
    if (HasPrefix && !scalar(Prefix)) delete[] X; else delete X;
  }
  if (Text.size() > 2) g.nontrivial();
}
static void chars(Gen &g) {
  std::string Text = g.coin() ? mutate(g, write(g.coin() ? write(V<std::string>::gen(g, 0)) : write(V<std::vector<char>>::gen(g, 0)))) : alphabet(g, 8);
  NOTE("char *: " << pbt::show(Text));
  Dom D;
  bool Well = read(Text, D);
  char *X = nullptr;
  json::Parser<> P(Text);
  bool Ok = P.parse(X);
  std::vector<char> E;
  Verdict W = !Well ? Reject : scalar(D) ? Accept : V<std::vector<char>>::ref(D, E);
  if (Ok) {
    CHECK("mis-accepted", Well, << "char * accepts the malformed text " << pbt::show(Text));
    CHECK("mis-accepted value", W != Reject, << "char * accepts " << pbt::show(Text));
    if (W == Accept && scalar(D)) CHECK("value", X && !memcmp(X, D.Text.c_str(), D.Text.size() + 1), << pbt::show(Text));
    if (W == Accept && !scalar(D))
      for (size_t I = 0; I < E.size(); ++I) CHECK("value", X[I] == E[I], << pbt::show(Text));
    g.label("accepted");
  } else {
    CHECK("errors", P.hasErrors(), << pbt::show(Text));
    CHECK("rejected", W != Accept, << "char * rejects " << pbt::show(Text) << ": " << errs(P));
  }
  delete[] X;
  if (Text.size() > 2) g.nontrivial();
}

#define ANY(...) return any<__VA_ARGS__>(g, #__VA_ARGS__)
PROPERTY(scalars, 80000, 2500000) {
  switch (g.below(9)) {
  case 0: ANY(int);
  case 1: ANY(unsigned);
  case 2: ANY(long long);
  case 3: ANY(unsigned long);
  case 4: ANY(double);
  case 5: ANY(bool);
  case 6: ANY(char);
  case 7: ANY(std::string);
  default: ANY(std::optional<int>);
  }
}
PROPERTY(containers, 150000, 5000000) {
  switch (g.below(13)) {
  case 0: ANY(std::vector<int>);
  case 1: ANY(std::vector<std::string>);
  case 2: ANY(std::vector<std::vector<int>>);
  case 3: ANY(std::set<int>);
  case 4: ANY(std::set<std::string>);
  case 5: ANY(std::map<std::string, int>);
  case 6: ANY(std::map<int, std::string>);
  case 7: ANY(std::map<std::string, std::vector<int>>);
  case 8: ANY(std::multimap<std::string, int>);
  case 9: ANY(std::optional<std::vector<int>>);
  case 10: ANY(std::vector<std::optional<int>>);
  case 11: ANY(std::map<unsigned, std::set<std::string>>);
  default: ANY(std::vector<std::map<std::string, std::string>>);
  }
}
PROPERTY(records, 120000, 4000000) {
  switch (g.below(5)) {
  case 0: ANY(Small);
  case 1: ANY(Big);
  case 2: ANY(std::vector<Small>);
  case 3: ANY(std::map<std::string, Small>);
  default: ANY(Human);
  }
}
PROPERTY(pointers, 60000, 2000000) {
  switch (g.below(5)) {
  case 0: return pointer<int>(g, "int *");
  case 1: return pointer<std::string>(g, "std::string *");
  case 2: return pointer<unsigned>(g, "unsigned *");
  case 3: return pointer<std::vector<int>>(g, "std::vector<int> *");
  default: return chars(g);
  }
}

#undef ANY
#define ANY(...) return exhausted<__VA_ARGS__>(g, #__VA_ARGS__)
PROPERTY(exhausted, 60000, 2000000) {
  switch (g.below(19)) {
  case 0: ANY(int);
  case 1: ANY(unsigned);
  case 2: ANY(unsigned long);
  case 3: ANY(double);
  case 4: ANY(bool);
  case 5: ANY(char);
  case 6: ANY(std::string);
  case 7: ANY(std::optional<int>);
  case 8: ANY(std::vector<int>);
  case 9: ANY(std::vector<std::string>);
  case 10: ANY(std::set<std::string>);
  case 11: ANY(std::map<std::string, int>);
  case 12: ANY(std::map<int, std::string>);
  case 13: ANY(std::multimap<std::string, int>);
  case 14: ANY(std::vector<std::optional<int>>);
  case 15: ANY(std::map<unsigned, std::set<std::string>>);
  case 16: ANY(Small);
  case 17: ANY(Big);
  default: ANY(Human);
  }
}

// parse() without a destination type: the object type is chosen by name.
PROPERTY(dispatch, 60000, 2000000) {
  std::string Text;
  std::string Name = g.pick({std::string("Dog"), std::string("Do"), std::string("Human")});
  std::string Body = Name == "Human" ? write(V<Human>::gen(g, 0)) : write(V<Small>::gen(g, 0));
  Text = "{\"name\":\"" + Name + "\"," + Body.substr(1);
  if (g.chance(3, 4)) Text = mutate(g, Text); else Text = alphabet(g, 12);
  NOTE(pbt::show(Text));
  Dom D;
  bool Well = read(Text, D);
  json::Parser<Dog, Do, Human> P(Text);
  auto O = P.parse();
  std::string N;
  bool Named = false, NameOk = false;
  if (Well && D.K == Dom::Obj)
    for (size_t I = 0; I < D.Fields.size() && !Named; ++I)
      if (D.RawKeys[I] == "name") {
        Named = true;
        NameOk = D.Fields[I].second.K == Dom::Str;
        N = D.Fields[I].second.Text;
        // Names are identifiers; one with an escape is not looked at.
        if (D.Fields[I].second.Raw != N) return;
      }
  Fresh<Dog> RD;
  Fresh<Do> RO;
  Fresh<Human> RH;
  Verdict W = !NameOk ? Reject : N == "Dog" ? V<Dog>::ref(D, RD.X) : N == "Do" ? V<Do>::ref(D, RO.X)
              : N == "Human" ? V<Human>::ref(D, RH.X) : Reject;
  if (O) {
    CHECK("mis-accepted", Well && D.K == Dom::Obj, << pbt::show(Text));
    CHECK("type", O->getName() == N, << pbt::show(Text) << " gives " << O->getName());
    CHECK("mis-accepted value", W != Reject, << pbt::show(Text));
    CHECK("no errors", !P.hasErrors(), << errs(P));
    if (W == Accept)
      CHECK("value", N == "Dog" ? V<Dog>::same(RD.X, O->as<Dog>()) : N == "Do" ? V<Do>::same(RO.X, O->as<Do>()) : V<Human>::same(RH.X, O->as<Human>()),
            << pbt::show(Text));
    g.label("accepted");
  } else {
    CHECK("rejected", W != Accept, << "no object for " << pbt::show(Text) << ": " << errs(P));
    // No error only for a name that no declared type has.
    if (!P.hasErrors()) {
      if (Well) CHECK("errors", NameOk && N != "Dog" && N != "Do" && N != "Human", << "no object and no error for " << pbt::show(Text));
      else CHECK("errors", Text.find("\"name\"") != std::string::npos, << "no object and no error for " << pbt::show(Text));
    }
  }
  if (Text.size() > 2) g.nontrivial();
}

// Choosing by name with too little memory: the same object or none.
PROPERTY(dispatchExhausted, 30000, 1000000) {
  std::string Name = g.pick({std::string("Dog"), std::string("Do"), std::string("Human")});
  std::string Body = Name == "Human" ? write(V<Human>::gen(g, 0)) : write(V<Small>::gen(g, 0));
  std::string Text = "{\"name\":\"" + Name + "\"," + Body.substr(1);
  if (g.chance(1, 4)) Text = mutate(g, Text);
  unsigned At = 1 + (unsigned)(g.chance(1, 3) ? g.below(60) : g.below(12));
  bool All = g.chance(1, 3);
  NOTE(pbt::show(Text) << ", allocation " << At << (All ? " and later ones fail" : " fails"));
  json::Parser<Dog, Do, Human> P(Text), Q(Text);
  auto text = [](const json::Object &O) { return json::Parser<Dog, Do, Human>::unparse(O); };
  auto X = P.parse();
  decltype(X) Y;
  bool Thrown = oom::run(At, [&] { Y = Q.parse(); }, All);
  if (oom::Failed) {
    g.label(Thrown ? "bad_alloc" : Y ? "accepted" : "rejected");
    g.nontrivial();
  }
  if (Y) CHECK("mis-accepted", X && text(*X) == text(*Y), << pbt::show(Text) << " is read as " << text(*Y));
  else CHECK("rejected", !X || oom::Failed, << pbt::show(Text) << ": " << errs(Q));
  auto Z = Q.parse();
  CHECK("parse again", !X == !Z && (!X || text(*X) == text(*Z)), << pbt::show(Text) << ": " << errs(Q));
  if (X) {
    std::string T, T0 = text(*X);
    Thrown = oom::run(At, [&] { T = text(*X); }, All);
    CHECK("written", Thrown || T == T0, << pbt::show(T) << " instead of " << pbt::show(T0));
  }
}
