// C03: strings of a JSON text keep their bytes and their boundaries.
#include "jsonx.h"
using namespace jx;

/// The inside of a quoted string: plain bytes and escapes of any byte.
static std::string rawBody(Gen &g, size_t Max, bool &Esc) {
  std::string R;
  for (size_t N = g.chance(1, 80) ? g.range(Max, 400) : g.len(Max); N; --N) {
    unsigned K = g.weighted({4, 4, 2, 1});
    char C;
    if (K == 0) C = "abntvfrik09 _"[g.below(13)];
    else if (K == 1) C = "\\\"nik/{}[]:,'\n\t."[g.below(16)];
    else C = (char)g.below(256);
    if (C == '"' || C == '\\' || g.chance(1, 5)) { R += '\\'; Esc = true; }
    R += C;
  }
  return R;
}
static std::string quoted(const std::string &Raw) { return '"' + Raw + '"'; }

// A list of raw strings and other values read as texts.
PROPERTY(elements, 60000, 1500000) {
  bool Esc = false;
  std::vector<std::string> Exp;
  std::string Text = "[";
  for (size_t N = g.len(6); N; --N) {
    if (Text.size() > 1) Text += ',' + randomSpace(g);
    if (g.chance(1, 6)) {
      std::string W = g.pick({std::string("12"), std::string("-1.5"), std::string("true"), std::string("null")});
      Text += W;
      Exp.push_back(W);
    } else {
      std::string Raw = rawBody(g, 10, Esc);
      Text += quoted(Raw);
      Exp.push_back(decode(Raw));
    }
    Text += randomSpace(g);
  }
  Text += "]";
  NOTE(pbt::show(Text));
  std::vector<std::string> X;
  json::Parser<> P(Text);
  CHECK("accepted", P.parse(X), << pbt::show(Text) << ": " << errs(P));
  CHECK("no errors", !P.hasErrors(), << errs(P));
  CHECK("count", X.size() == Exp.size(), << pbt::show(Text) << " gives " << X.size() << " strings");
  for (size_t I = 0; I < X.size(); ++I)
    CHECK("bytes", X[I] == Exp[I], << pbt::show(Text) << " element " << I << " is " << pbt::show(X[I]) << ", expected " << pbt::show(Exp[I]));
  if (Esc && X.size() > 1) g.nontrivial();
}

// Keys and values of an object.
PROPERTY(keys, 60000, 1500000) {
  bool Esc = false;
  std::map<std::string, std::string> Exp;
  std::string Text = "{";
  for (size_t N = g.len(5); N; --N) {
    std::string K = rawBody(g, 8, Esc), Val = rawBody(g, 8, Esc);
    if (!Exp.emplace(decode(K), decode(Val)).second) continue;
    if (Text.size() > 1) Text += ',' + randomSpace(g);
    Text += quoted(K) + randomSpace(g) + ':' + randomSpace(g) + quoted(Val) + randomSpace(g);
  }
  Text += "}";
  NOTE(pbt::show(Text));
  {
    std::map<std::string, std::string> X;
    json::Parser<> P(Text);
    CHECK("accepted", P.parse(X), << pbt::show(Text) << ": " << errs(P));
    CHECK("content", X == Exp, << pbt::show(Text) << " read as " << pbt::show(write(X)));
  }
  {
    std::multimap<std::string, std::string> X, E(Exp.begin(), Exp.end());
    json::Parser<> P(Text);
    CHECK("multimap", P.parse(X) && X == E, << pbt::show(Text) << " read as " << pbt::show(write(X)));
  }
  if (Esc && Exp.size() > 1) g.nontrivial();
}

// A whole text that is one string, in every destination that holds text.
PROPERTY(destinations, 60000, 1500000) {
  bool Esc = false;
  std::string Raw = rawBody(g, 12, Esc);
  std::string Exp = decode(Raw);
  std::string Text = randomSpace(g) + quoted(Raw) + randomSpace(g);
  NOTE(pbt::show(Text));
  json::Parser<> P(Text);
  if (Esc) g.nontrivial();
  switch (g.below(5)) {
  case 0: {
    std::string X;
    CHECK("string", P.parse(X) && X == Exp, << pbt::show(Text) << " is " << pbt::show(X));
    break;
  }
  case 1: {
    char *X = nullptr;
    CHECK("char *", P.parse(X) && X && !memcmp(X, Exp.c_str(), Exp.size() + 1), << pbt::show(Text));
    delete[] X;
    break;
  }
  case 2: {
    char X = 0;
    bool Ok = P.parse(X);
    CHECK("char", Ok == (Exp.size() == 1) && (!Ok || X == Exp[0]), << pbt::show(Text) << " accepted: " << Ok);
    break;
  }
  case 3: {
    std::optional<std::string> X;
    CHECK("optional", P.parse(X) && (Exp == "null" ? !X : X && *X == Exp), << pbt::show(Text));
    break;
  }
  default: {
    std::string *X = nullptr;
    CHECK("string *", P.parse(X) && X && *X == Exp, << pbt::show(Text));
    delete X;
  }
  }
}

// Fields of a record: the strings of both fields, in both orders.
PROPERTY(fields, 40000, 800000) {
  bool Esc = false;
  std::string A = rawBody(g, 8, Esc), B = rawBody(g, 8, Esc);
  bool First = g.coin();
  std::string FA = "\"Text\":" + quoted(A), FB = quoted("Un" + B) + ":" + quoted(B);
  std::string Text = "{" + (First ? FA + "," + FB : FB + "," + FA) + ",\"A\":7}";
  NOTE(pbt::show(Text));
  if (decode("Un" + B) == "Text") return;
  Fresh<Small> X;
  json::Parser<> P(Text);
  CHECK("record", P.parse(X.X), << pbt::show(Text) << ": " << errs(P));
  CHECK("record text", X.X[Small::Text] == decode(A), << pbt::show(Text) << " gives " << pbt::show(X.X[Small::Text]));
  CHECK("record number", X.X[Small::A] == 7, << pbt::show(Text));
  if (Esc) g.nontrivial();
}

// escape() of any bytes, embedded by the writer, is one token that decodes
// back; unescape() agrees with the reference on arbitrary bytes.
PROPERTY(escape, 60000, 1500000) {
  std::string S = anyText(g, 16);
  std::string J = "[1,";
  json::Traits<std::string>::unparse(J, S);
  CHECK("prefix", J.compare(0, 3, "[1,") == 0, << pbt::show(J));
  std::string T = J.substr(3);
  NOTE(pbt::show(T));
  Reader R(T);
  std::string Raw;
  CHECK("one token", R.str(Raw) && R.P == T.size(), << pbt::show(S) << " is written as " << pbt::show(T));
  CHECK("decodes", decode(Raw) == S, << pbt::show(S) << " is written as " << pbt::show(T));
  CHECK("unescape", json::Traits<std::string>::unescape(Raw) == S, << pbt::show(Raw));
  std::string Any = anyText(g, 12);
  CHECK("unescape any", json::Traits<std::string>::unescape(Any) == decode(Any),
        << pbt::show(Any) << " gives " << pbt::show(json::Traits<std::string>::unescape(Any)));
  if (Raw != S) g.nontrivial();
}

// Token stream of the lexer against the reference tokeniser.
static void randomDoc(Gen &g, std::string &T, int Depth) {
  bool Esc = false;
  switch (g.weighted({3, 2, 2, Depth < 4 ? 3u : 0u, Depth < 4 ? 3u : 0u})) {
  case 0: T += quoted(rawBody(g, 6, Esc)); break;
  case 1: T += std::to_string(g.integral<int>()); break;
  case 2: T += g.pick({std::string("true"), std::string("false"), std::string("null"), std::string("1.25"), std::string("-0.5")}); break;
  case 3:
    T += '[';
    for (size_t N = g.len(4), I = 0; I < N; ++I) {
      if (I) T += ',' + randomSpace(g);
      randomDoc(g, T, Depth + 1);
    }
    T += ']';
    break;
  default:
    T += '{';
    for (size_t N = g.len(4), I = 0; I < N; ++I) {
      if (I) T += ',' + randomSpace(g);
      T += quoted(rawBody(g, 6, Esc)) + randomSpace(g) + ':';
      randomDoc(g, T, Depth + 1);
    }
    T += '}';
  }
}
PROPERTY(tokens, 60000, 1500000) {
  std::string T;
  randomDoc(g, T, 0);
  T = randomSpace(g) + T + randomSpace(g);
  NOTE(pbt::show(T));
  json::Lexer L(T);
  auto Exp = tokens(T);
  for (size_t I = 0; I < Exp.size(); ++I) {
    CHECK("token", L.goToNext(), << pbt::show(T) << " token " << I);
    std::string Got = T.substr(L.start(), L.end() - L.start() + 1);
    CHECK("token text", Got == Exp[I] && L.next() == L.end() + 1, << pbt::show(T) << " token " << I << " is " << pbt::show(Got));
    char C = Exp[I][0];
    json::Token K = C == '"' ? json::Token::IDENTIFIER
                    : digit(C) || C == '-' || C == '+' ? json::Token::NUMBER
                    : isalpha(C) ? json::Token::KEYWORD : static_cast<json::Token>(C);
    CHECK("token kind", L.is(K), << pbt::show(T) << " token " << I);
    if (K == json::Token::IDENTIFIER) {
      auto Q = L.discardQuote();
      CHECK("quotes", T.substr(Q.first, Q.second + 1 - Q.first) == Exp[I].substr(1, Exp[I].size() - 2), << pbt::show(T));
    }
  }
  CHECK("end", !L.hasErrors() && !L.goToNext() && L.hasErrors(), << pbt::show(T));
  if (Exp.size() > 3) g.nontrivial();
}
