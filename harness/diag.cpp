// C07: collections of diagnostics against a list of strings, and their JSON.
#include "jsonx.h"
#include "oom.h"
#include <bcl/Diagnostic.h>
using namespace jx;
using bcl::Diagnostic;

struct Model { std::vector<std::string> M; size_t Internal = 0; };

static void agree(const Diagnostic &D, const Model &M, const char *Kind) {
  CHECK("size", D.size() == M.M.size() && D.empty() == M.M.empty(), << D.size() << " of " << M.M.size());
  CHECK("internal", D.internal_size() == M.Internal, << D.internal_size() << " of " << M.Internal);
  CHECK("kind", !strcmp(D.getKind(), Kind), << D.getKind());
  size_t I = 0;
  for (const char *S : D) {
    CHECK("order", I < M.M.size() && M.M[I] == S, << "message " << I << " is " << pbt::show(S) << (I < M.M.size() ? ", expected " + pbt::show(M.M[I]) : ""));
    ++I;
  }
  CHECK("all visited", I == M.M.size());
  for (auto R = D.rbegin(), E = D.rend(); R != E; ++R) {
    --I;
    CHECK("reverse", M.M[I] == *R, << "message " << I << " is " << pbt::show(*R));
  }
  CHECK("all visited backwards", I == 0);
}

// Walk with all four increment and decrement operators.
static void walk(pbt::Gen &g, const Diagnostic &D, const Model &M) {
  auto It = D.cbegin();
  auto Rt = D.crbegin();
  size_t P = 0, N = M.M.size();
  for (unsigned S = 0; S < 12; ++S) {
    CHECK("ends", (It == D.cend()) == (P == N) && (It != D.cend()) == (P != N) && (Rt == D.crend()) == (P == N));
    if (P < N) {
      CHECK("walk", M.M[P] == *It, << "at " << P);
      CHECK("reverse walk", M.M[N - 1 - P] == *Rt, << "at " << P);
    }
    unsigned K = (unsigned)g.below(4);
    if (K < 2 && P < N) {
      auto Old = It;
      auto Res = K ? It++ : ++It;
      if (K) Rt++; else ++Rt;
      CHECK("increment", Res == (K ? Old : It) && !(Old == It));
      ++P;
    } else if (K >= 2 && P > 0) {
      auto Old = It;
      auto Res = K == 3 ? It-- : --It;
      if (K == 3) Rt--; else --Rt;
      CHECK("decrement", Res == (K == 3 ? Old : It) && !(Old == It));
      --P;
    }
  }
}

static std::string text(Gen &g) {
  if (g.chance(1, 30)) return std::string(g.range(1000, 70000), "ab% "[g.below(4)]);
  return anyText(g, 20, false);
}
static const char *const Kinds[] = {"error", "json error", "e", "err", "", "warning: C1(2): x", "%s", "C"};

static void insert(Gen &g, Diagnostic &D, Model &M, const std::string &Kind) {
  size_t Code = g.coin() ? g.below(100) : g.integral<size_t>();
  uintmax_t Pos = g.coin() ? g.below(100) : g.integral<uintmax_t>();
  std::string T = text(g), Exp = Kind + " C" + std::to_string(Code) + "(" + std::to_string(Pos) + "): ";
  bool Ok, Bad = false;
  switch (g.weighted({4, 2, 2, 2, 1, 1, 1})) {
  case 0:
    Ok = D.insert(Code, "%s", Pos, T.c_str());
    Exp += T;
    break;
  case 1: {
    int A = g.integral<int>();
    char C = (char)g.range(1, 127);
    Ok = D.insert(Code, "unexpected %d '%c' %s", Pos, A, C, T.c_str());
    Exp += "unexpected " + std::to_string(A) + " '" + C + "' " + T;
    break;
  }
  case 2: { // the text is the format itself, percent signs doubled
    std::string F;
    for (char C : T) F += C == '%' ? std::string("%%") : std::string(1, C);
    Ok = D.insert(Code, F.c_str(), Pos);
    Exp += T;
    break;
  }
  case 3: {
    unsigned long long L = g.integral<unsigned long long>();
    Ok = D.insert(Code, "%llu|%5s|%-4d|", Pos, L, "ab", 7);
    Exp += std::to_string(L) + "|   ab|7   |";
    break;
  }
  case 4:
    Ok = D.insert(Code, "", Pos);
    break;
  case 5: // a wide character that cannot be converted: the C library refuses
    Ok = D.insert(Code, "%lc", Pos, (wint_t)0x7ffffffe);
    Bad = true;
    break;
  default: {
    wchar_t W[2] = {(wchar_t)0x7ffffff0, 0};
    Ok = D.insert(Code, "x%ls", Pos, W);
    Bad = true;
  }
  }
  NOTE("insert " << pbt::show(Bad ? "<refused>" : Exp));
  if (Bad) {
    CHECK("refused", !Ok);
    ++M.Internal;
    g.label("refused format");
  } else {
    CHECK("inserted", Ok);
    M.M.push_back(Exp);
  }
}

PROPERTY(history, 60000, 1500000) {
  std::string Kind = g.pick({Kinds[0], Kinds[1], Kinds[2], Kinds[4], Kinds[5], Kinds[6]});
  Diagnostic D[2] = {Diagnostic(Kind.c_str()), Diagnostic(Kind.c_str())};
  Model M[2];
  NOTE("kind " << pbt::show(Kind));
  unsigned Ins = 0;
  bool Swapped = false;
  bool Long = g.chance(1, 60);
  for (size_t N = Long ? g.range(15, 300) : 1 + g.len(14); N; --N) {
    unsigned X = (unsigned)g.below(2);
    switch (Long ? g.weighted({80, 0, 1, 1}) : g.weighted({8, 1, 2, 2})) {
    case 0: insert(g, D[X], M[X], Kind); ++Ins; break;
    case 1:
      NOTE("clear " << X);
      D[X].clear();
      M[X] = Model();
      break;
    case 2:
      NOTE("swap");
      if (g.coin()) D[0].swap(D[1]); else std::swap(D[0], D[1]);
      std::swap(M[0], M[1]);
      Swapped |= !M[0].M.empty() || !M[1].M.empty();
      break;
    default: walk(g, D[X], M[X]);
    }
    agree(D[0], M[0], Kind.c_str());
    agree(D[1], M[1], Kind.c_str());
  }
  if (Ins > 2 && Swapped) g.nontrivial();
}

// An insertion without enough memory changes nothing and throws; reading a
// collection without enough memory fails, and the object can be used on.
PROPERTY(exhausted, 30000, 800000) {
  std::string Kind = Kinds[g.below(6)];
  Diagnostic D(Kind.c_str());
  Model M;
  NOTE("kind " << pbt::show(Kind));
  for (size_t N = 1 + g.len(8); N; --N) {
    unsigned At = g.chance(1, 3) ? 1 + (unsigned)g.below(4) : 0;
    bool All = g.coin(), Ok = false;
    std::string T = text(g);
    if (g.chance(1, 30)) T = std::string(1 << 16, 'x') + T;
    size_t Code = g.below(1000);
    NOTE("insert " << pbt::show(T) << (At ? ", allocation " + std::to_string(At) + " fails" : ""));
    bool Thrown = oom::run(At, [&] { Ok = D.insert(Code, "%s", 7, T.c_str()); }, All);
    CHECK("inserted", Ok || Thrown);
    if (Thrown) { g.label("not inserted"); if (!M.M.empty()) g.nontrivial(); }
    else M.M.push_back(Kind + " C" + std::to_string(Code) + "(7): " + T);
    agree(D, M, Kind.c_str());
  }
  std::string Text = json::Parser<>::unparse(D);
  unsigned At = 1 + (unsigned)(g.chance(1, 3) ? g.below(60) : g.below(12));
  bool All = g.coin(), Ok = false;
  NOTE("read, allocation " << At << " fails");
  Diagnostic E(Kind.c_str());
  json::Parser<> P(Text);
  bool Thrown = oom::run(At, [&] { Ok = P.parse(E); }, All);
  CHECK("refused", Ok || oom::Failed, << errs(P));
  if (Ok) agree(E, M, Kind.c_str());
  else g.label(Thrown ? "bad_alloc" : "refused");
  if (g.coin()) E.clear();
  else { Diagnostic F(Kind.c_str()); E.swap(F); }
  CHECK("read again", P.parse(E), << errs(P));
  agree(E, M, Kind.c_str());
  Ok = true;
  At = 1 + (unsigned)g.below(2);
  NOTE("construct, allocation " << At << " fails");
  Thrown = oom::run(At, [&] { Diagnostic F(Kind.c_str()); Ok = !strcmp(F.getKind(), Kind.c_str()); }, All);
  CHECK("constructed", Ok && Thrown == oom::Failed);
}

// JSON: the same messages come back, another kind is rejected.
PROPERTY(json, 60000, 1500000) {
  std::string Kind = Kinds[g.below(8)];
  Diagnostic D(Kind.c_str());
  Model M;
  for (size_t N = g.len(4); N; --N) insert(g, D, M, Kind);
  std::string Text = json::Parser<>::unparse(D);
  NOTE(pbt::show(Text));
  std::vector<std::string> L;
  json::Parser<> PL(Text);
  CHECK("written", PL.parse(L) && L == M.M, << pbt::show(Text));
  if (g.coin()) Text = respace(g, Text);
  M.Internal = 0;
  {
    Diagnostic E(Kind.c_str());
    json::Parser<> P(Text);
    CHECK("accepted", P.parse(E), << pbt::show(Text) << ": " << errs(P));
    CHECK("no errors", !P.hasErrors(), << errs(P));
    agree(E, M, Kind.c_str());
  }
  std::string Other = g.pick({"error", "json error", "e", "err", "", "errors", "warning", "Error", "note C1(1): error"});
  if (!M.M.empty()) {
    // What a kind renders may only be read by a kind that renders the same.
    bool Same = true;
    for (auto &S : M.M) Same &= S.compare(0, Other.size() + 2, Other + " C") == 0;
    if (!Same) {
      Diagnostic E(Other.c_str());
      json::Parser<> P(Text);
      CHECK("other kind", !P.parse(E), << pbt::show(Text) << " read as " << pbt::show(Other));
      CHECK("other kind error", P.hasErrors());
      g.label("other kind");
    }
    g.nontrivial();
  }
}

// Texts that are not diagnostics: rejected with an error, or a fixed point.
PROPERTY(foreign, 60000, 1500000) {
  std::string Kind = g.pick({"error", "json error", "e"});
  std::string Text = "[";
  for (size_t N = 1 + g.len(2); N; --N) {
    if (Text.size() > 1) Text += ",";
    std::string Msg;
    switch (g.below(5)) {
    case 0: Msg = anyText(g, 10); break;
    case 1: Msg = Kind + anyText(g, 10); break;
    case 2: Msg = Kind + " C" + std::to_string(g.below(10)) + g.pick({"", "(", "(5", "(5)", "(5):", "5):", "(x): a", "(): a", " (5): a", "[5]: a"}); break;
    case 3: Msg = Kind + " C" + g.pick({"", "x", "99999999999999999999999", "-"}) + "(5): text"; break;
    default: Msg = Kind + " C3(4): " + anyText(g, 8, false);
    }
    if (g.chance(1, 6)) Text += g.pick({std::string("[\"a\",\"b\"]"), std::string("1"), std::string("null"), std::string("{}"), std::string("[]"), std::string("{\"0\":\"e\"}"), std::string("[\"error C1(2): a\"]")});
    else Text += write(Msg);
  }
  Text += "]";
  if (g.chance(1, 4) && Text.size() > 2) Text.erase(1 + g.below(Text.size() - 1), 1);
  NOTE(Kind << ": " << pbt::show(Text));
  Dom D;
  bool Well = read(Text, D);
  Diagnostic E(Kind.c_str());
  json::Parser<> P(Text);
  if (P.parse(E)) {
    CHECK("mis-accepted", Well, << pbt::show(Text));
    size_t N = D.K == Dom::Arr ? D.Elems.size() : D.Fields.size();
    CHECK("count", E.size() == N, << pbt::show(Text));
    std::string T2 = json::Parser<>::unparse(E);
    Diagnostic F(Kind.c_str());
    json::Parser<> P2(T2);
    CHECK("fixed point", P2.parse(F) && json::Parser<>::unparse(F) == T2, << pbt::show(Text) << " as " << pbt::show(T2));
    g.label("accepted");
  } else {
    CHECK("errors", P.hasErrors(), << pbt::show(Text));
    // Every element is a complete message: must be accepted.
    bool All = Well && D.K == Dom::Arr;
    if (All)
      for (auto &X : D.Elems) {
        std::string Pre = Kind + " C3(4): ";
        All &= X.K == Dom::Str && X.Text.compare(0, Pre.size(), Pre) == 0 && X.Text.find('\0') == std::string::npos;
      }
    CHECK("rejected", !All, << pbt::show(Text) << ": " << errs(P));
  }
  g.nontrivial();
}
