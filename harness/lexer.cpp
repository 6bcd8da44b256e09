// C32: the lexer and the traversal that extensions of the JSON converter use.
#include "jsonx.h"
using namespace jx;

// ------------------------------------------------- a custom type: whole texts
namespace json {
template <> struct Traits<jx::Dom> {
  static bool parse(jx::Dom &D, Lexer &L) {
    if (L.is(Token::LEFT_BRACE) || L.is(Token::LEFT_BRACKET)) {
      D.K = L.is(Token::LEFT_BRACE) ? jx::Dom::Obj : jx::Dom::Arr;
      return Parser<>::traverse<Traits<jx::Dom>>(D, L);
    }
    auto P = L.discardQuote();
    D.Raw = D.Text = L.json().substr(P.first, P.second + 1 - P.first);
    if (L.is(Token::IDENTIFIER)) {
      D.K = jx::Dom::Str;
      return Traits<std::string>::parse(D.Text, L);
    }
    D.K = L.is(Token::NUMBER) ? jx::Dom::Num : jx::Dom::Word;
    return L.checkValue();
  }
  static bool parse(jx::Dom &D, Lexer &L, std::pair<Position, Position> Key) {
    jx::Dom *To;
    if (D.K == jx::Dom::Obj) {
      D.RawKeys.push_back(L.json().substr(Key.first + 1, Key.second - Key.first - 1));
      D.Fields.emplace_back();
      std::string &K = D.Fields.back().first;
      L.storePosition();
      L.setPosition(Key.first);
      bool Ok = Traits<std::string>::parse(K, L);
      L.restorePosition();
      if (!Ok) return false;
      To = &D.Fields.back().second;
    } else {
      CHECK("number of an element", Key == std::make_pair(Position(0), D.Elems.size()), << Key.first << "," << Key.second << " for element " << D.Elems.size());
      D.Elems.emplace_back();
      To = &D.Elems.back();
    }
    return Traits<jx::Dom>::parse(*To, L);
  }
};
} // namespace json

static bool same(const Dom &A, const Dom &B) {
  if (A.K != B.K || A.Elems.size() != B.Elems.size() || A.Fields.size() != B.Fields.size()) return false;
  if (scalar(A)) return A.Text == B.Text && (A.K != Dom::Str || A.Raw == B.Raw);
  for (size_t I = 0; I < A.Elems.size(); ++I) if (!same(A.Elems[I], B.Elems[I])) return false;
  for (size_t I = 0; I < A.Fields.size(); ++I)
    if (A.Fields[I].first != B.Fields[I].first || A.RawKeys[I] != B.RawKeys[I] || !same(A.Fields[I].second, B.Fields[I].second)) return false;
  return true;
}

// ------------------------------------------------------------------ generators
static std::string anyString(Gen &g) {
  std::string R = "\"";
  for (size_t N = g.len(6); N; --N) {
    char C = g.chance(1, 3) ? "{}[],:\\\" n\n"[g.below(11)] : (char)g.below(256);
    if (C == '"' || C == '\\' || g.chance(1, 6)) R += '\\';
    R += C;
  }
  return R + "\"";
}
static std::string anyScalar(Gen &g) {
  switch (g.below(4)) {
  case 0: return anyString(g);
  case 1: return g.pick({std::string("true"), std::string("false"), std::string("null")});
  case 2: return std::to_string(g.integral<long long>());
  default: return g.pick({std::string("1.5"), std::string("-"), std::string("+7."), std::string("-0.25"), std::string("007"), std::string("9")});
  }
}
static std::string anyJson(Gen &g, unsigned Depth, bool Keys = false) {
  unsigned K = Depth ? g.weighted({3, 3, 3}) : 0;
  if (!K) return anyScalar(g);
  std::string R = K == 1 ? "[" : "{";
  for (size_t N = g.len(5), I = 0; I < N; ++I) {
    R += (I ? "," : "") + randomSpace(g);
    if (K == 2) {
      R += Keys ? "\"" + std::to_string(g.chance(1, 6) ? g.integral<unsigned>() : I) + "\"" : anyString(g);
      R += randomSpace(g) + ":" + randomSpace(g);
    }
    R += anyJson(g, Depth - 1, Keys) + randomSpace(g);
  }
  return R + (K == 1 ? "]" : "}");
}
static std::string damage(Gen &g, std::string T) {
  static const char C[] = "{}[],:\"\\ \n01-+.truefalsn\x80\xff";
  for (size_t N = 1 + g.len(3); N; --N) {
    size_t P = g.below(T.size() + 1);
    switch (g.below(4)) {
    case 0: if (P < T.size()) T.erase(P, 1 + g.below(3)); break;
    case 1: T.insert(P, 1, C[g.below(sizeof C)]); break;
    case 2: if (P < T.size()) T[P] = C[g.below(sizeof C)]; break;
    default: T.resize(P);
    }
  }
  return T;
}
static std::string anyPieces(Gen &g) {
  static const char *Tok[] = {"{", "}", "[", "]", ",", ":", "\"", "\"A\"", "\"\"", "\"\\\"\"", "1", "-7", "2.5", "1.2.3", "+", "true",
    "false", "null", "nul", "truefalse", "nullx", " ", "\\", "n", "i", "k", ".", "\n\t", "[1,", "{\"0\":", "\x80", "/", "5true"};
  std::string R;
  for (size_t N = g.len(24); N; --N)
    if (g.chance(1, 12)) R += (char)g.below(256);
    else R += Tok[g.below(sizeof Tok / sizeof *Tok)];
  return R;
}

// Structure: a text is accepted exactly if it is well formed, with its content.
PROPERTY(custom, 60000, 2000000) {
  std::string T;
  switch (g.weighted({3, 3, 1})) {
  case 0: T = randomSpace(g) + anyJson(g, 4) + randomSpace(g); break;
  case 1: T = damage(g, randomSpace(g) + anyJson(g, 3) + randomSpace(g)); break;
  default: T = anyPieces(g);
  }
  NOTE(pbt::show(T));
  Dom Exp, D;
  bool Ok = read(T, Exp);
  json::Parser<> P(T);
  bool R = P.parse(D);
  CHECK("accepts well-formed texts only", R == Ok, << pbt::show(T) << (Ok ? " is well formed: " : " is not well formed") << errs(P));
  CHECK("errors", P.hasErrors() == !Ok, << pbt::show(T) << ": " << errs(P));
  if (Ok) CHECK("content", same(D, Exp), << pbt::show(T));
  for (auto *E : P.errors()) {
    size_t Code, Pos;
    CHECK("form of an error", sscanf(E, "json error C%zu(%zu): ", &Code, &Pos) == 2 && Code >= 1 && Code <= 10 && Pos <= T.size(), << pbt::show(T) << ": " << E);
  }
  Dom Again;
  CHECK("parses again", P.parse(Again) == Ok && P.hasErrors() == !Ok && (!Ok || same(Again, Exp)), << pbt::show(T));
  if (!scalar(Exp)) g.nontrivial();
}

// ------------------------------------------------------------- model of a lexer
namespace {
struct Place {
  size_t Start = 0, End = 0, Next = 0;
  char Kind = 0; // a character, or i (identifier), n (number), k (keyword), 0
  bool Integral = false;
  int Word = -1;
};
struct Model {
  std::string S;
  Place P;
  std::vector<Place> Stack;
  size_t Errors = 0;
  long Code = 0, Pos = 0; // of the last error
  void error(long C, size_t At) { ++Errors; Code = C; Pos = (long)At; }
  bool next() {
    size_t I = P.Next;
    while (I < S.size() && space(S[I])) ++I;
    P = Place();
    if (I >= S.size()) {
      error(1, I);
      P.Start = P.End = P.Next = S.size();
      return false;
    }
    P.Start = I;
    char C = S[I];
    if (C == '"') {
      Reader R(S);
      R.P = I;
      std::string Raw;
      if (!R.str(Raw)) {
        error(1, I);
        P.Start = P.End = P.Next = S.size();
        return false;
      }
      P.Kind = 'i';
      P.Next = R.P;
    } else if (digit(C) || C == '+' || C == '-') {
      size_t E = I + 1, Dots = 0;
      while (E < S.size() && (digit(S[E]) || (S[E] == '.' && ++Dots == 1))) ++E;
      P.Kind = 'n';
      P.Integral = Dots == 0;
      P.Next = E;
    } else {
      const char *W[] = {"true", "false", "null"};
      for (int K = 0; K < 3; ++K)
        if (S.compare(I, strlen(W[K]), W[K]) == 0) { P.Kind = 'k'; P.Word = K; P.Next = I + strlen(W[K]); }
      if (!P.Kind) {
        P.Next = I + 1;
        if (!((C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z'))) P.Kind = C;
      }
    }
    P.End = P.Next - 1;
    return true;
  }
};
} // namespace

PROPERTY(walk, 80000, 2500000) {
  std::string T = g.coin() ? anyPieces(g) : g.coin() ? anyJson(g, 3, true) : damage(g, anyJson(g, 3, true));
  NOTE(pbt::show(T));
  json::Lexer L(T);
  Model M;
  M.S = T;
  unsigned Moves = 0;
  size_t Deep = 0;
  auto Same = [&](const char *Op) {
    using json::Token;
    auto &P = M.P;
    CHECK("place", L.start() == P.Start && L.end() == P.End && L.next() == P.Next, << Op << ": [" << L.start() << ", " << L.end() << "], " << L.next() << ", expected [" << P.Start << ", " << P.End << "], " << P.Next << " of " << pbt::show(T));
    CHECK("token", L.is(static_cast<Token>(P.Kind)), << Op << ": at " << P.Start << " of " << pbt::show(T) << " expected " << pbt::show(std::string(1, P.Kind)));
    for (Token K : {Token::LEFT_BRACE, Token::RIGHT_BRACE, Token::LEFT_BRACKET, Token::RIGHT_BRACKET, Token::COMMA, Token::COLON, Token::NUMBER, Token::IDENTIFIER, Token::KEYWORD, Token::INVALID})
      CHECK("other token", L.is(K) == (static_cast<char>(K) == P.Kind), << Op << ": at " << P.Start << " of " << pbt::show(T) << " token " << static_cast<char>(K));
    CHECK("number", L.isIntegral() == (P.Kind == 'n' && P.Integral) && L.isFloatingPoint() == (P.Kind == 'n' && !P.Integral), << Op << ": at " << P.Start << " of " << pbt::show(T));
    CHECK("keyword", L.isKeyword(json::Keyword::TRUE) == (P.Word == 0) && L.isKeyword(json::Keyword::FALSE) == (P.Word == 1) && L.isKeyword(json::Keyword::NO_VALUE) == (P.Word == 2), << Op << ": at " << P.Start << " of " << pbt::show(T));
    CHECK("value", L.isValue() == (P.Kind == 'n' || P.Kind == 'i' || P.Kind == 'k'), << Op << ": at " << P.Start << " of " << pbt::show(T));
    auto Q = L.discardQuote();
    size_t In = P.Kind == 'i';
    CHECK("quotes", Q.first == P.Start + In && Q.second + In == P.End, << Op << ": at " << P.Start << " of " << pbt::show(T));
    size_t I = P.Next;
    while (I < T.size() && space(T[I])) ++I;
    CHECK("at end", L.atEnd() == (I >= T.size()), << Op << ": at " << P.Start << " of " << pbt::show(T));
    CHECK("text", L.json() == T);
    CHECK("errors", L.errors().size() == M.Errors && L.hasErrors() == (M.Errors != 0), << Op << ": " << errs(L) << ", expected " << M.Errors);
    if (M.Errors) {
      std::string E = *--L.errors().end(), X = " C" + std::to_string(M.Code) + "(" + std::to_string(M.Pos) + "):";
      CHECK("last error", E.find(X) != std::string::npos, << Op << ": " << E << " is not" << X);
    }
  };
  auto Resync = [&](size_t To) {
    M.Errors = L.errors().size();
    L.setPosition(To);
    M.P.Next = To;
    if (M.next()) {
      // The last error is of an operation the model does not follow.
      L.errors().clear();
      M.Errors = 0;
    }
  };
  Same("new");
  for (size_t N = 1 + g.len(30); N; --N) {
    unsigned Op = g.weighted({12, 3, 1, 4, 5, 3, 3, 2, 1});
    switch (Op) {
    case 0: {
      NOTE("next");
      bool A = L.goToNext(), B = M.next();
      CHECK("next", A == B, << "at " << M.P.Start << " of " << pbt::show(T));
      Moves += B;
      Same("next");
      break;
    }
    case 1: {
      size_t To = g.below(T.size() + 3);
      NOTE("go to " << To);
      L.setPosition(To);
      M.P.Next = To;
      M.next();
      Same("go to");
      break;
    }
    case 2:
      NOTE("reset");
      L.resetPosition();
      M.P = Place();
      Same("reset");
      break;
    case 3:
      NOTE("store");
      L.storePosition();
      M.Stack.push_back(M.P);
      Deep = std::max(Deep, M.Stack.size());
      Same("store");
      break;
    case 4:
      NOTE("restore");
      L.restorePosition();
      if (!M.Stack.empty()) {
        M.P = M.Stack.back();
        M.Stack.pop_back();
      }
      Same("restore");
      break;
    case 5: {
      char C = "{}[],:in"[g.below(8)];
      NOTE("check " << C);
      bool Ok;
      if (C == 'i') { Ok = M.P.Kind == 'i'; CHECK("is identifier", L.checkIdentifier() == Ok); if (!Ok) M.error(4, M.P.Start); }
      else if (C == 'n') { Ok = M.P.Kind && strchr("ink", M.P.Kind); CHECK("is value", L.checkValue() == Ok); if (!Ok) M.error(5, M.P.Start); }
      else { Ok = M.P.Kind == C; CHECK("is character", L.checkSpecial(static_cast<json::Token>(C)) == Ok); if (!Ok) M.error(2, M.P.Start); }
      Same("check");
      break;
    }
    case 6: {
      NOTE("skip");
      char Open = M.P.Kind;
      Reader R(T);
      R.P = M.P.Start;
      Dom D;
      bool Well = (Open == '[' || Open == '{') && R.value(D);
      bool Ok = L.skipInternal();
      if (Well) {
        CHECK("skips", Ok && L.start() == R.P - 1, << "from " << M.P.Start << " of " << pbt::show(T) << " to " << L.start() << ", expected " << R.P - 1);
        M.P.Next = R.P - 1;
        M.next();
        Same("skip");
        ++Moves;
      } else {
        CHECK("error of skip", Ok || L.errors().size() > M.Errors, << pbt::show(T));
        CHECK("skips nothing", !Ok || Open == '[' || Open == '{', << pbt::show(T));
        if (Ok) CHECK("skips to its bracket", L.is(Open == '[' ? json::Token::RIGHT_BRACKET : json::Token::RIGHT_BRACE) && L.start() > M.P.Start, << pbt::show(T));
        Resync(L.start());
        Same("skip of another text");
      }
      break;
    }
    case 7: {
      NOTE("number of keys");
      Reader R(T);
      R.P = M.P.Start;
      Dom D;
      bool Open = M.P.Kind == '[' || M.P.Kind == '{';
      bool Well = Open && R.value(D), Known = Well;
      size_t Max = D.Elems.size() - 1, Count = D.Elems.size();
      std::set<unsigned long long> Seen;
      if (Well && D.K == Dom::Obj) {
        Count = D.Fields.size();
        Max = 0;
        for (auto &F : D.Fields) {
          if (F.first.empty() || F.first.size() > 18 || F.first.find_first_not_of("0123456789") != std::string::npos) { Known = false; continue; }
          if (!Seen.insert(std::stoull(F.first)).second) Well = false;
          Max = std::max<size_t>(Max, std::stoull(F.first));
        }
      }
      size_t C, X;
      bool Ok;
      std::tie(C, X, Ok) = json::Parser<>::numberOfKeys(L);
      if (Known) CHECK("keys are right", Ok == Well, << "at " << M.P.Start << " of " << pbt::show(T) << errs(L));
      CHECK("keys of something else", Open || !Ok, << "at " << M.P.Start << " of " << pbt::show(T));
      if (Ok) {
        if (Known) CHECK("number of keys", C == Count && (!C || X == Max), << "at " << M.P.Start << " of " << pbt::show(T) << ": " << C << " up to " << X << ", expected " << Count << " up to " << Max);
        Same("number of keys");
      } else {
        Resync(M.P.Start);
        Same("no keys");
      }
      break;
    }
    default:
      NOTE("clear errors");
      L.errors().clear();
      M.Errors = 0;
      Same("clear");
    }
  }
  if (Moves > 2) g.nontrivial();
  if (Deep > 1) g.label("nested store");
}

// Walking a text from its start visits the tokens, whatever is between them.
PROPERTY(tokens, 40000, 1200000) {
  std::string T = anyJson(g, 4), W = respace(g, T);
  NOTE(pbt::show(W));
  auto Tk = tokens(T);
  json::Lexer L(W);
  for (auto &K : Tk) {
    CHECK("next", L.goToNext(), << pbt::show(W) << " before " << pbt::show(K));
    CHECK("bytes", W.substr(L.start(), L.end() + 1 - L.start()) == K && L.next() == L.end() + 1, << pbt::show(W) << " before " << pbt::show(K));
  }
  CHECK("end", L.atEnd() && !L.goToNext() && L.errors().size() == 1 && !L.goToNext() && L.errors().size() == 2, << pbt::show(W));
  if (Tk.size() > 4) g.nontrivial();
}
