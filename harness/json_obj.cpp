// C05: records (every field by its name) and dispatch by object name.
#include "jsonx.h"
using namespace jx;

JSON_OBJECT_BEGIN(Note_)
JSON_OBJECT_ROOT_PAIR_2(Note_, Msg, const char *, Num, int *)
  Note_() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Note_)
JSON_DEFAULT_TRAITS(::, Note_)

using Rows = std::vector<std::vector<int>>;
using Tree = std::map<std::string, std::map<std::string, Rows>>;
using Smalls = std::vector<Small>;
JSON_OBJECT_BEGIN(Deep)
JSON_OBJECT_ROOT_PAIR_4(Deep, M, Rows, T, Tree, Subs, Smalls, X, int)
  Deep() : JSON_INIT_ROOT { (*this)[X] = 0; }
JSON_OBJECT_END(Deep)
JSON_DEFAULT_TRAITS(::, Deep)
namespace jx {
template <> struct V<Deep> {
  static Deep gen(Gen &g, int) {
    Deep D;
    D[Deep::M] = V<Rows>::gen(g, 0);
    D[Deep::T] = V<Tree>::gen(g, 0);
    D[Deep::Subs] = V<Smalls>::gen(g, 0);
    D[Deep::X] = g.integral<int>();
    return D;
  }
  static bool same(const Deep &A, const Deep &B) {
    return A[Deep::M] == B[Deep::M] && A[Deep::T] == B[Deep::T] && V<Smalls>::same(A[Deep::Subs], B[Deep::Subs]) &&
           A[Deep::X] == B[Deep::X];
  }
};
}

// Field names with characters that are escaped in JSON, declared by hand.
namespace odd_ {
#define ODD(NAME, TEXT, TYPE) struct NAME { static const std::string &name() { static const std::string N(TEXT, sizeof(TEXT) - 1); return N; } using ValueType = TYPE; };
ODD(Quote, "a\"b", int) ODD(Slash, "c\\", std::string) ODD(Line, "\n", int) ODD(Plain, "a", int) ODD(Empty, "", int) ODD(Brace, "{x}", int)
using Base = bcl::StaticMap<Quote, Slash, Line, Plain, Empty, Brace>;
}
struct Odd : public odd_::Base {};
namespace json { template <> struct Traits<Odd> : public Traits<odd_::Base> {}; }

static std::string plainKey(Gen &g) { // a key no record declares
  static const char *K[] = {"a", "Tex", "Textx", "text", "", "n", "Numb", "List2", "name", "Name ", "A ", "AA", "Su"};
  return K[g.below(13)];
}
static std::string anyScalar(Gen &g) {
  switch (g.below(4)) {
  case 0: return write(anyText(g, 8));
  case 1: return std::to_string(g.integral<int>());
  case 2: return g.pick({std::string("true"), std::string("false"), std::string("null")});
  default: return "-12.5";
  }
}
// Any well-formed value.
static std::string anyValue(Gen &g, unsigned Depth = 0) {
  if (!Depth && g.chance(1, 40)) { // deeply nested
    std::string L, R;
    for (size_t N = g.pick<size_t>({8, 16, 33, 64, 130, 300}); N--;) {
      bool Arr = g.coin();
      L += Arr ? "[" : "{\"k\":";
      R += Arr ? ']' : '}';
    }
    std::reverse(R.begin(), R.end());
    return L + "1" + R;
  }
  unsigned K = Depth > 3 ? 0 : g.below(3);
  if (K == 0) return anyScalar(g);
  std::string R = K == 1 ? "[" : "{";
  for (size_t N = g.len(3), I = 0; I < N; ++I)
    R += (I ? "," : "") + randomSpace(g) + (K == 1 ? "" : write(anyText(g, 5)) + ":") + anyValue(g, Depth + 1) + randomSpace(g);
  return R + (K == 1 ? "]" : "}");
}
using Fields = std::vector<std::pair<std::string, std::string>>;
static std::string object(Gen &g, Fields F, bool &Perm) {
  for (size_t I = F.size(); I > 1; --I) {
    size_t J = g.below(I);
    Perm |= J != I - 1;
    std::swap(F[I - 1], F[J]);
  }
  std::string R = "{" + randomSpace(g);
  for (size_t I = 0; I < F.size(); ++I)
    R += (I ? "," + randomSpace(g) : "") + write(F[I].first) + randomSpace(g) + ":" + randomSpace(g) + F[I].second + randomSpace(g);
  return R + "}";
}

// Fields in any order, some of them absent, unknown scalar fields between.
PROPERTY(fields, 80000, 2500000) {
  Big Old = V<Big>::gen(g, 0), X = V<Big>::gen(g, 0), E = Old;
  Fields F;
  unsigned Absent = 0;
#define FIELD(NAME)                                                            \
  if (g.chance(3, 4)) { F.emplace_back(#NAME, write(X[Big::NAME])); E[Big::NAME] = X[Big::NAME]; } else ++Absent;
  FIELD(Num) FIELD(Flag) FIELD(Opt) FIELD(List) FIELD(Names)
  bool Sub = g.coin(), Perm = false;
  if (Sub) {
    Fields S;
    if (g.coin()) { S.emplace_back("Text", write(X[Big::Sub][Small::Text])); E[Big::Sub][Small::Text] = X[Big::Sub][Small::Text]; }
    if (g.coin()) { S.emplace_back("A", write(X[Big::Sub][Small::A])); E[Big::Sub][Small::A] = X[Big::Sub][Small::A]; }
    if (g.chance(1, 3)) S.emplace_back(plainKey(g), anyScalar(g));
    F.emplace_back("Sub", object(g, S, Perm));
  } else ++Absent;
  for (size_t N = g.len(2); N; --N) F.emplace_back(plainKey(g), anyScalar(g));
  std::string Text = object(g, F, Perm);
  NOTE(pbt::show(Text));
  NOTE("into " << pbt::show(write(Old)));
  json::Parser<> P(Text);
  CHECK("accepted", P.parse(Old), << pbt::show(Text) << ": " << errs(P));
  CHECK("no errors", !P.hasErrors(), << errs(P));
  CHECK("fields", V<Big>::same(Old, E), << pbt::show(Text) << " gives " << pbt::show(write(Old)) << ", expected " << pbt::show(write(E)));
  if (Perm && F.size() > 2) g.nontrivial();
  if (Absent) g.label("absent fields");
}

PROPERTY(oddNames, 30000, 600000) {
  Odd X, Y;
  X[odd_::Quote()] = g.integral<int>();
  X[odd_::Slash()] = anyText(g, 6);
  X[odd_::Line()] = g.integral<int>();
  X[odd_::Plain()] = g.integral<int>();
  X[odd_::Empty()] = g.integral<int>();
  X[odd_::Brace()] = g.integral<int>();
  Y[odd_::Quote()] = Y[odd_::Line()] = Y[odd_::Plain()] = Y[odd_::Empty()] = Y[odd_::Brace()] = 0;
  std::string Text = write(X);
  if (g.coin()) Text = respace(g, Text);
  NOTE(pbt::show(Text));
  json::Parser<> P(Text);
  CHECK("accepted", P.parse(Y), << pbt::show(Text) << ": " << errs(P));
#define SAME(NAME) CHECK(#NAME, X[odd_::NAME()] == Y[odd_::NAME()], << pbt::show(Text) << " gives " << pbt::show(write(Y)));
  SAME(Quote) SAME(Slash) SAME(Line) SAME(Plain) SAME(Empty) SAME(Brace)
  g.nontrivial();
}

// ------------------------------------------------------------------ dispatch
struct Made { std::string Name, Text; std::function<void(const json::Object &)> Same; };
template <class T> Fields fieldsOf(const T &);
template <> Fields fieldsOf(const Dog &X) { return {{"A", write(X[Dog::A])}, {"Text", write(X[Dog::Text])}}; }
template <> Fields fieldsOf(const Do &X) { return {{"A", write(X[Do::A])}, {"Text", write(X[Do::Text])}}; }
template <> Fields fieldsOf(const Human &X) {
  return {{"Name", write(X[Human::Name])}, {"Age", write(X[Human::Age])}, {"Scores", write(X[Human::Scores])}, {"Pet", write(X[Human::Pet])}};
}
template <> Fields fieldsOf(const Deep &X) {
  return {{"M", write(X[Deep::M])}, {"T", write(X[Deep::T])}, {"Subs", write(X[Deep::Subs])}, {"X", write(X[Deep::X])}};
}
template <class P, class T> void dispatched(Gen &g, bool InList) {
  T X = V<T>::gen(g, 0);
  bool Hand = g.coin();
  const char *Key = g.pick({"name", "name", "kind", "Typ"});
  std::string Text;
  bool Perm = false;
  if (Hand) {
    Fields F = fieldsOf(X);
    F.emplace_back(Key, write(T::name()));
    if (g.chance(1, 3)) F.emplace_back("unknown", anyScalar(g));
    Text = object(g, F, Perm);
    g.label("name anywhere");
  } else {
    bool Ref = g.coin();
    const json::Object &O = X;
    if (!InList) { // the writer does not know the type either
      Text = Ref ? P::unparse(O, Key) : P::unparseAsObject(X, Key);
      CHECK("unknown type is not written", Text.empty(), << pbt::show(Text));
      return;
    }
    Text = Ref ? P::unparse(O, Key) : P::unparseAsObject(X, Key);
    Dom D;
    CHECK("well-formed", read(Text, D) && D.K == Dom::Obj, << pbt::show(Text));
    CHECK("name first", !D.Fields.empty() && D.Fields[0].first == Key && D.Fields[0].second.Text == T::name(), << pbt::show(Text));
    g.label("written object");
  }
  NOTE("name key " << Key << ": " << pbt::show(Text));
  P Parse(Text, Key);
  for (int Round = 0; Round < 2; ++Round) {
    auto O = Parse.parse();
    if (!InList) {
      CHECK("undeclared type", !O, << pbt::show(Text) << " gives " << O->getName());
      g.label("undeclared type");
      continue;
    }
    CHECK("object", O != nullptr, << pbt::show(Text) << ": " << errs(Parse));
    CHECK("no errors", !Parse.hasErrors(), << errs(Parse));
    CHECK("type", O->getName() == T::name() && O->template is<T>() && dynamic_cast<T *>(O.get()),
          << pbt::show(Text) << " gives " << O->getName());
    CHECK("content", V<T>::same(X, O->template as<T>()), << pbt::show(Text) << " gives " << pbt::show(write(O->template as<T>())));
  }
  g.nontrivial();
}
template <class P> void forParser(Gen &g, bool HasDog, bool HasDo, bool HasHuman, bool HasDeep = false) {
  switch (g.below(6)) {
  case 4: case 5: return dispatched<P, Deep>(g, HasDeep);
  case 0: return dispatched<P, Dog>(g, HasDog);
  case 1: return dispatched<P, Do>(g, HasDo);
  default: return dispatched<P, Human>(g, HasHuman);
  }
}
PROPERTY(dispatch, 90000, 2500000) {
  switch (g.below(8)) {
  case 6: return forParser<json::Parser<Deep, Dog>>(g, true, false, false, true);
  case 7: return forParser<json::Parser<Human, Do, Deep>>(g, false, true, true, true);
  case 0: return forParser<json::Parser<Dog, Do, Human>>(g, true, true, true);
  case 1: return forParser<json::Parser<Do, Dog>>(g, true, true, false);
  case 2: return forParser<json::Parser<Human, Dog>>(g, true, false, true);
  case 3: return forParser<json::Parser<Human, Do, Dog>>(g, true, true, true);
  case 4: return forParser<json::Parser<Do>>(g, false, true, false);
  default: return forParser<json::Parser<>>(g, false, false, false);
  }
}

// Names that no declared type has, names that are not strings, no name.
PROPERTY(undeclared, 40000, 1000000) {
  Fields F = g.coin() ? fieldsOf(V<Human>::gen(g, 0)) : fieldsOf(V<Deep>::gen(g, 0));
  for (size_t N = g.len(2); N; --N) F.emplace_back("other" + std::to_string(N), anyValue(g));
  bool NoName = false, BadName = false, Perm = false;
  switch (g.below(3)) {
  case 0: F.emplace_back("name", write(g.pick({std::string("Huma"), std::string("HumanX"), std::string(""), std::string("human"), std::string("D"), std::string("Dogs"), std::string("Human "), std::string("name"), std::string("null")}))); break;
  case 1: F.emplace_back("name", g.pick({std::string("1"), std::string("null"), std::string("[]"), std::string("{}"), std::string("true"), std::string("{\"name\":\"Human\"}")})); BadName = true; break;
  default: NoName = true;
  }
  std::string Text = object(g, F, Perm);
  NOTE(pbt::show(Text));
  std::string Key = g.pick({std::string("name"), std::string("name"), std::string("name"), std::string("name"), std::string("Kind"), std::string("nam")});
  if (Key != "name") { NoName = true; BadName = false; }
  json::Parser<Dog, Do, Human> P(Text, Key.c_str());
  CHECK("name key", P.getNameKey() == Key);
  auto O = P.parse();
  CHECK("none", !O, << pbt::show(Text) << " gives " << O->getName());
  if (!NoName && !BadName) CHECK("no error", !P.hasErrors(), << pbt::show(Text) << ": " << errs(P));
  if (NoName || BadName) CHECK("error", P.hasErrors(), << pbt::show(Text));
  if (NoName) CHECK("missing name is told", errs(P).find("identifier '" + Key + "' is not found") != std::string::npos, << pbt::show(Text) << ": " << errs(P));
  g.label(NoName ? "no name" : BadName ? "name is not a string" : "other name");
  g.nontrivial();
}

// Objects whose fields may be absent when they are written (null pointers).
PROPERTY(optionalFields, 30000, 600000) {
  std::string S = anyText(g, 8, false);
  int N = g.integral<int>();
  Note_ X;
  X[Note_::Msg] = g.coin() ? S.c_str() : nullptr;
  X[Note_::Num] = g.coin() ? &N : nullptr;
  std::string Text = json::Parser<Note_, Dog>::unparseAsObject(X);
  NOTE(pbt::show(Text));
  Dom D;
  CHECK("well-formed", read(Text, D), << pbt::show(Text));
  CHECK("fields written", D.Fields.size() == 1u + (X[Note_::Msg] != nullptr) + (X[Note_::Num] != nullptr), << pbt::show(Text));
  Note_ Y;
  Y[Note_::Msg] = nullptr;
  Y[Note_::Num] = nullptr;
  json::Parser<> P(Text);
  CHECK("accepted", P.parse(Y), << pbt::show(Text) << ": " << errs(P));
  CHECK("text", (X[Note_::Msg] == nullptr) == (Y[Note_::Msg] == nullptr) && (!X[Note_::Msg] || S == Y[Note_::Msg]), << pbt::show(Text));
  CHECK("number", (X[Note_::Num] == nullptr) == (Y[Note_::Num] == nullptr) && (!X[Note_::Num] || N == *Y[Note_::Num]), << pbt::show(Text));
  delete[] Y[Note_::Msg];
  delete Y[Note_::Num];
  g.nontrivial();
}
