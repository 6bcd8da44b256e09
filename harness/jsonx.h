// Common parts of the JSON harnesses: a reference reader of bcl's JSON
// dialect (DOM), a reference decoder from the DOM to C++ values, generators
// and equality for the supported types, a reference tokeniser for white-space
// metamorphic changes. Nothing here calls the library except the macros that
// declare the records.
#ifndef JSONX_H
#define JSONX_H
#include "pbt.h"
#include <cassert>
#include <cmath>
#include <cstring>
#include <climits>
#include <bcl/Json.h>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

// ------------------------------------------------------------------ records
JSON_OBJECT_BEGIN(Small)
JSON_OBJECT_PAIR_2(Small, A, int, Text, std::string)
JSON_OBJECT_END(Small)
JSON_DEFAULT_TRAITS(::, Small)

JSON_OBJECT_BEGIN(Big)
JSON_OBJECT_PAIR_6(Big, Num, long long, Flag, bool, List, std::vector<int>,
  Sub, Small, Opt, std::optional<int>, Names, std::vector<std::string>)
JSON_OBJECT_END(Big)
JSON_DEFAULT_TRAITS(::, Big)

using MapStrInt = std::map<std::string, int>;
JSON_OBJECT_BEGIN(Dog)
JSON_OBJECT_ROOT_PAIR_2(Dog, A, int, Text, std::string)
  Dog() : JSON_INIT_ROOT { (*this)[A] = 0; }
JSON_OBJECT_END(Dog)
JSON_DEFAULT_TRAITS(::, Dog)

JSON_OBJECT_BEGIN(Do)
JSON_OBJECT_ROOT_PAIR_2(Do, Text, std::string, A, int)
  Do() : JSON_INIT_ROOT { (*this)[A] = 0; }
JSON_OBJECT_END(Do)
JSON_DEFAULT_TRAITS(::, Do)

JSON_OBJECT_BEGIN(Human)
JSON_OBJECT_ROOT_PAIR_4(Human, Name, std::string, Age, unsigned,
  Scores, MapStrInt, Pet, Small)
  Human() : JSON_INIT_ROOT { (*this)[Age] = 0; (*this)[Pet][Small::A] = 0; }
JSON_OBJECT_END(Human)
JSON_DEFAULT_TRAITS(::, Human)

namespace jx {
using pbt::Gen;

// ---------------------------------------------------------------------- DOM
struct Dom {
  enum Kind { Str, Num, Word, Arr, Obj } K = Num;
  std::string Raw; // inside of a string as written
  std::string Text; // decoded text of a string, raw text of a number or word
  std::vector<Dom> Elems;
  std::vector<std::pair<std::string, Dom>> Fields; // decoded keys
  std::vector<std::string> RawKeys;
};

inline bool space(char C) {
  return C == ' ' || C == '\t' || C == '\n' || C == '\v' || C == '\f' || C == '\r';
}
inline bool digit(char C) { return C >= '0' && C <= '9'; }

/// Decodes the inside of a quoted string.
inline std::string decode(const std::string &S) {
  std::string R;
  for (size_t I = 0; I < S.size(); ++I) {
    if (S[I] != '\\' || I + 1 == S.size()) { R += S[I]; continue; }
    switch (S[++I]) {
    case 'n': R += '\n'; break;
    case 't': R += '\t'; break;
    case 'v': R += '\v'; break;
    case 'f': R += '\f'; break;
    case 'r': R += '\r'; break;
    default: R += S[I];
    }
  }
  return R;
}

struct Reader {
  const std::string &S;
  size_t P = 0;
  explicit Reader(const std::string &S) : S(S) {}
  void ws() { while (P < S.size() && space(S[P])) ++P; }
  bool lit(const char *W) {
    if (S.compare(P, strlen(W), W) == 0) { P += strlen(W); return true; }
    return false;
  }
  bool str(std::string &Raw) {
    if (P >= S.size() || S[P] != '"') return false;
    size_t B = ++P;
    while (P < S.size() && S[P] != '"') P += S[P] == '\\' ? 2 : 1;
    if (P >= S.size()) return false;
    Raw = S.substr(B, P - B);
    ++P;
    return true;
  }
  bool value(Dom &D) {
    ws();
    if (P >= S.size()) return false;
    char C = S[P];
    if (C == '"') {
      std::string Raw;
      if (!str(Raw)) return false;
      D.K = Dom::Str;
      D.Text = decode(Raw);
      D.Raw = Raw;
      return true;
    }
    if (digit(C) || C == '+' || C == '-') {
      size_t B = P++;
      bool Dot = false;
      while (P < S.size() && (digit(S[P]) || (S[P] == '.' && !Dot))) {
        Dot |= S[P] == '.';
        ++P;
      }
      D.K = Dom::Num;
      D.Text = S.substr(B, P - B);
      return true;
    }
    for (const char *W : {"true", "false", "null"})
      if (lit(W)) { D.K = Dom::Word; D.Text = W; return true; }
    if (C != '[' && C != '{') return false;
    char E = C == '[' ? ']' : '}';
    D.K = C == '[' ? Dom::Arr : Dom::Obj;
    ++P;
    ws();
    if (P < S.size() && S[P] == E) { ++P; return true; }
    for (;;) {
      std::string Raw;
      if (C == '{') {
        ws();
        if (!str(Raw)) return false;
        ws();
        if (P >= S.size() || S[P++] != ':') return false;
        D.RawKeys.push_back(Raw);
      }
      Dom V;
      if (!value(V)) return false;
      if (C == '{') D.Fields.emplace_back(decode(Raw), std::move(V));
      else D.Elems.push_back(std::move(V));
      ws();
      if (P >= S.size()) return false;
      char T = S[P++];
      if (T == E) return true;
      if (T != ',') return false;
    }
  }
};

/// Whole text -> DOM; false when the text is not well formed.
inline bool read(const std::string &S, Dom &D) {
  Reader R(S);
  if (!R.value(D)) return false;
  R.ws();
  return R.P == S.size();
}

/// Splits a well formed text into tokens (in order, white space dropped).
inline std::vector<std::string> tokens(const std::string &S) {
  std::vector<std::string> R;
  Reader L(S);
  for (L.ws(); L.P < S.size(); L.ws()) {
    size_t B = L.P;
    std::string Raw;
    Dom D;
    if (S[B] == '"') { if (!L.str(Raw)) break; }
    else if (digit(S[B]) || S[B] == '+' || S[B] == '-' || isalpha((unsigned char)S[B])) {
      if (!L.value(D)) ++L.P;
    } else
      ++L.P;
    R.push_back(S.substr(B, L.P - B));
  }
  return R;
}

inline std::string randomSpace(Gen &g) {
  std::string R;
  for (size_t N = g.weighted({4, 4, 1, 1}); N; --N) R += " \t\n\r\v\f"[g.below(6)];
  return R;
}
/// The same tokens with other white space between them.
inline std::string respace(Gen &g, const std::string &S) {
  std::string R = randomSpace(g);
  for (auto &T : tokens(S)) R += T + randomSpace(g);
  return R;
}

// ---------------------------------------------------- reference decoder
enum Verdict { Accept, Reject, Free }; // Free: the reference does not say
inline Verdict both(Verdict A, Verdict B) {
  if (A == Reject || B == Reject) return Reject;
  return A == Free || B == Free ? Free : Accept;
}

template <class T, class = void> struct V; // gen, same, ref

inline bool scalar(const Dom &D) { return D.K != Dom::Arr && D.K != Dom::Obj; }

/// Decimal integer at the start of Text (as strtoll sees it).
struct IntText { bool Any = false, Whole = false, Neg = false, Over = false; unsigned __int128 Mag = 0; };
inline IntText intText(const std::string &T) {
  IntText R;
  size_t P = 0;
  bool Lead = false;
  while (P < T.size() && space(T[P])) { ++P; Lead = true; }
  if (P < T.size() && (T[P] == '+' || T[P] == '-')) R.Neg = T[P++] == '-';
  while (P < T.size() && digit(T[P])) {
    R.Any = true;
    if (R.Mag < ((unsigned __int128)1 << 100)) R.Mag = R.Mag * 10 + (T[P] - '0');
    else R.Over = true;
    ++P;
  }
  R.Whole = R.Any && P == T.size() && !Lead;
  return R;
}

template <class T> struct V<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>> {
  static T gen(Gen &g, int) { return g.integral<T>(); }
  static bool same(const T &A, const T &B) { return A == B; }
  static Verdict ref(const Dom &D, T &R) {
    if (!scalar(D)) return Reject;
    IntText I = intText(D.Text);
    if (!I.Any) return Reject;
    __int128 Val = I.Neg ? -(__int128)I.Mag : (__int128)I.Mag;
    if (std::is_unsigned<T>::value && I.Neg) return Free; // strtoul semantics
    if (I.Over || Val < (__int128)std::numeric_limits<T>::min() ||
        Val > (__int128)std::numeric_limits<T>::max())
      return Reject;
    R = (T)Val;
    return I.Whole ? Accept : Free;
  }
};

template <class T> struct V<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static T gen(Gen &g, int) {
    switch (g.weighted({3, 3, 2, 1, 1})) {
    case 0: return (T)g.range(-1000, 1000);
    case 1: return (T)g.range(-2000000, 2000000) / 1000000;
    case 2: return (T)g.range(-1000000, 1000000) / 64;
    case 3: {
      T R = std::ldexp((T)g.range(-1000000, 1000000), (int)g.range(-40, sizeof(T) == 4 ? 100 : 900));
      return R;
    }
    default:
      return g.pick({std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(),
                     std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), (T)0, (T)-0.0,
                     (T)0.5e-6, (T)0.999999, (T)0.9999995});
    }
  }
  // The library writes six decimals: the text is within half a unit of the
  // sixth decimal, and the value read is the nearest one to that text.
  static bool same(const T &A, const T &B) {
    return A == B || std::fabs((long double)A - (long double)B) <= 1.0e-6L;
  }
  static Verdict ref(const Dom &D, T &R) {
    if (!scalar(D)) return Reject;
    const std::string &T_ = D.Text;
    size_t P = 0;
    if (P < T_.size() && (T_[P] == '+' || T_[P] == '-')) ++P;
    size_t Digits = 0;
    while (P < T_.size() && digit(T_[P])) { ++P; ++Digits; }
    if (P < T_.size() && T_[P] == '.') { ++P; while (P < T_.size() && digit(T_[P])) { ++P; ++Digits; } }
    if (D.K != Dom::Num || P != T_.size() || Digits == 0 || Digits > 30)
      return D.K == Dom::Word ? (D.Text == "null" ? Reject : Reject) : (T_.empty() ? Reject : Free);
    R = sizeof(T) == 4 ? (T)strtof(T_.c_str(), nullptr) : (T)strtod(T_.c_str(), nullptr);
    if (R != 0 && std::fabs(R) < std::numeric_limits<T>::min()) return Free;
    return Accept;
  }
};

template <> struct V<bool> {
  static bool gen(Gen &g, int) { return g.coin(); }
  static bool same(bool A, bool B) { return A == B; }
  static Verdict ref(const Dom &D, bool &R) {
    if (!scalar(D)) return Reject;
    if (D.Text == "true") { R = true; return Accept; }
    if (D.Text == "false") { R = false; return Accept; }
    return Reject;
  }
};

/// A number of elements, seldom a large one (only of the outermost values).
inline size_t many(Gen &g, size_t Max, int D) {
  if (!D && g.chance(1, 60)) return g.pick<size_t>({9, 10, 11, 12, 17, 33, 65, 101, 129, 257});
  return g.len(Max);
}
inline std::string anyText(Gen &g, size_t Max, bool Nul = true) {
  std::string R;
  if (Max > 5 && g.chance(1, 80)) { // a long one
    std::string P = g.bytes(12);
    size_t N = g.pick<size_t>({31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 4096, 5000});
    for (size_t I = 0; I < N; ++I) R += P.empty() ? 'x' : P[I % P.size()];
    for (unsigned K = 0; K < 3; ++K) R[g.below(N)] = g.pick({'"', '\\', '\n', '\0', 'z', '\xff'});
    if (!Nul) for (auto &C : R) if (!C) C = '0';
    return R;
  }
  switch (g.weighted({4, 4, 2, 1})) {
  case 0: R = g.bytes(Max, "abAZ019 _"); break;
  case 1: R = g.bytes(Max, "\\\"\\\"/nik\n\t\r\v\f{}[]:,. a'%"); break;
  case 2: R = g.bytes(Max); break;
  default: R = g.pick({std::string("null"), std::string("true"), std::string("\\"), std::string("\""),
                       std::string("\\\""), std::string("n"), std::string("name"), std::string("\\\\n"),
                       std::string("a\\"), std::string("/"), std::string("1"), std::string("\"\"")});
  }
  if (!Nul)
    for (auto &C : R) if (!C) C = '0';
  return R;
}

template <> struct V<char> {
  static char gen(Gen &g, int) { return g.coin() ? g.pick({'a', '"', '\\', '\n', '\0', '/', '{', ',', '\t', 'n'}) : (char)g.below(256); }
  static bool same(char A, char B) { return A == B; }
  static Verdict ref(const Dom &D, char &R) {
    if (!scalar(D) || D.Text.size() != 1) return Reject;
    R = D.Text[0];
    return Accept;
  }
};

template <> struct V<std::string> {
  static std::string gen(Gen &g, int) { return anyText(g, 12); }
  static bool same(const std::string &A, const std::string &B) { return A == B; }
  static Verdict ref(const Dom &D, std::string &R) {
    if (!scalar(D)) return Reject;
    R = D.Text;
    return Accept;
  }
};

template <class T> struct V<std::vector<T>> {
  using S = std::vector<T>;
  static S gen(Gen &g, int D) {
    S R;
    for (size_t N = many(g, D > 0 ? 4 : 8, D); N; --N) R.push_back(V<T>::gen(g, D + 1));
    return R;
  }
  static bool same(const S &A, const S &B) {
    if (A.size() != B.size()) return false;
    for (size_t I = 0; I < A.size(); ++I) if (!V<T>::same(A[I], B[I])) return false;
    return true;
  }
  static Verdict ref(const Dom &D, S &R) {
    if (scalar(D)) return Reject;
    Verdict W = Accept;
    if (D.K == Dom::Arr) {
      R.resize(D.Elems.size());
      for (size_t I = 0; I < D.Elems.size(); ++I) W = both(W, V<T>::ref(D.Elems[I], R[I]));
      return W;
    }
    size_t N = D.Fields.size();
    R.resize(N);
    std::vector<bool> Seen(N, false);
    for (auto &F : D.Fields) {
      IntText I = intText(F.first);
      if (!I.Any) return Reject;
      if (!I.Whole || I.Neg) { // leniently converted keys: not specified
        T Tmp;
        W = both(W, both(Free, V<T>::ref(F.second, Tmp)));
        continue;
      }
      if (I.Over || I.Mag >= N || Seen[(size_t)I.Mag]) return Reject;
      Seen[(size_t)I.Mag] = true;
      W = both(W, V<T>::ref(F.second, R[(size_t)I.Mag]));
    }
    return W;
  }
};

template <class T> struct V<std::set<T>> {
  using S = std::set<T>;
  static S gen(Gen &g, int D) {
    S R;
    for (size_t N = many(g, D > 0 ? 4 : 6, D); N; --N) R.insert(V<T>::gen(g, D + 1));
    return R;
  }
  static bool same(const S &A, const S &B) {
    if (A.size() != B.size()) return false;
    auto J = B.begin();
    for (auto &X : A) if (!V<T>::same(X, *J++)) return false;
    return true;
  }
  static Verdict ref(const Dom &D, S &R) {
    if (D.K != Dom::Arr) return Reject;
    Verdict W = Accept;
    for (auto &E : D.Elems) {
      T X{};
      Verdict U = V<T>::ref(E, X);
      W = both(W, U);
      if (U == Accept && !R.insert(X).second && W != Free) return Reject;
    }
    return W;
  }
};

template <class K> Verdict refKey(const std::string &T, K &R) {
  Dom D;
  D.K = Dom::Str;
  D.Text = T;
  return V<K>::ref(D, R);
}

// Keys are compared after writing, so numeric keys of the generators must
// have distinct six-decimal texts; integers and strings always do.
template <class K, class T> struct V<std::map<K, T>> {
  using S = std::map<K, T>;
  static S gen(Gen &g, int D) {
    S R;
    for (size_t N = many(g, D > 0 ? 3 : 6, D); N; --N) { K Key = V<K>::gen(g, D + 1); R[Key] = V<T>::gen(g, D + 1); }
    return R;
  }
  static bool same(const S &A, const S &B) {
    if (A.size() != B.size()) return false;
    auto J = B.begin();
    for (auto &X : A) {
      if (!V<K>::same(X.first, J->first) || !V<T>::same(X.second, J->second)) return false;
      ++J;
    }
    return true;
  }
  static Verdict ref(const Dom &D, S &R) {
    if (D.K == Dom::Arr) return D.Elems.empty() ? Accept : Free; // list form is only for sequences
    if (D.K != Dom::Obj) return Reject;
    Verdict W = Accept;
    for (auto &F : D.Fields) {
      K Key{};
      T X{};
      Verdict U = refKey(F.first, Key);
      Verdict Z = V<T>::ref(F.second, X);
      W = both(W, both(U, Z));
      if (U == Accept && !R.emplace(Key, X).second && W != Free) return Reject;
    }
    return W;
  }
};

template <class K, class T> struct V<std::multimap<K, T>> {
  using S = std::multimap<K, T>;
  static S gen(Gen &g, int D) {
    S R;
    std::vector<K> Ks;
    for (size_t N = many(g, D > 0 ? 3 : 6, D); N; --N) {
      K Key = !Ks.empty() && g.coin() ? g.pick(Ks) : V<K>::gen(g, D + 1);
      Ks.push_back(Key);
      R.emplace(Key, V<T>::gen(g, D + 1));
    }
    return R;
  }
  static bool same(const S &A, const S &B) {
    if (A.size() != B.size()) return false;
    auto J = B.begin();
    for (auto &X : A) {
      if (!V<K>::same(X.first, J->first) || !V<T>::same(X.second, J->second)) return false;
      ++J;
    }
    return true;
  }
  static Verdict ref(const Dom &D, S &R) {
    if (D.K == Dom::Arr) return D.Elems.empty() ? Accept : Free;
    if (D.K != Dom::Obj) return Reject;
    Verdict W = Accept;
    for (auto &F : D.Fields) {
      K Key{};
      T X{};
      W = both(W, both(refKey(F.first, Key), V<T>::ref(F.second, X)));
      R.emplace(Key, X);
    }
    return W;
  }
};

template <class T> struct V<std::optional<T>> {
  using S = std::optional<T>;
  static S gen(Gen &g, int D) {
    if (g.chance(1, 3)) return {};
    S R(V<T>::gen(g, D + 1));
    fix(R);
    return R;
  }
  // A quoted "null" is read as no value by design, see DESIGN.md.
  template <class U> static void fix(std::optional<U> &) {}
  static void fix(std::optional<std::string> &R) { if (*R == "null") R = "NULL"; }
  static bool same(const S &A, const S &B) {
    return A.has_value() == B.has_value() && (!A || V<T>::same(*A, *B));
  }
  static Verdict ref(const Dom &D, S &R) {
    if (scalar(D) && D.Text == "null") {
      R.reset();
      return Accept;
    }
    T X{};
    Verdict W = V<T>::ref(D, X);
    R = X;
    return W;
  }
};

// Records: fields of the DOM by name; unknown scalar fields are ignored.
struct FieldRef { const char *Name; };
template <class R, class Key> Verdict refField(const Dom &D, R &Obj, Key K, const char *Name) {
  Verdict W = Accept;
  for (auto &F : D.Fields)
    if (F.first == Name) {
      auto X = Obj[K]; // parsing into the old content
      using T = decltype(X);
      T Y{};
      Verdict U = V<T>::ref(F.second, Y);
      Obj[K] = Y;
      W = both(W, U);
    }
  return W;
}
inline Verdict refUnknown(const Dom &D, std::initializer_list<const char *> Known) {
  for (auto &F : D.Fields) {
    bool Is = false;
    for (auto *N : Known) Is |= F.first == N;
    if (!Is && !scalar(F.second)) return Reject;
  }
  return Accept;
}
// A field given twice: the second value is added to or replaces the first.
inline Verdict refTwice(const Dom &D) {
  std::set<std::string> S;
  for (auto &F : D.Fields) if (!S.insert(F.first).second) return Free;
  return Accept;
}

template <class R> struct RecordPairAT {
  static R gen(Gen &g, int D) {
    R X;
    X[R::A] = V<int>::gen(g, D);
    X[R::Text] = V<std::string>::gen(g, D);
    return X;
  }
  static bool same(const R &A, const R &B) { return A[R::A] == B[R::A] && A[R::Text] == B[R::Text]; }
  static Verdict ref(const Dom &D, R &X) {
    if (D.K != Dom::Obj) return Reject;
    return both(both(refTwice(D), refUnknown(D, {"A", "Text"})),
                both(refField(D, X, R::A, "A"), refField(D, X, R::Text, "Text")));
  }
};
template <> struct V<Small> : RecordPairAT<Small> {};
template <> struct V<Dog> : RecordPairAT<Dog> {};
template <> struct V<Do> : RecordPairAT<Do> {};
template <> struct V<Big> {
  static Big gen(Gen &g, int D) {
    Big X;
    X[Big::Num] = V<long long>::gen(g, D);
    X[Big::Flag] = g.coin();
    X[Big::List] = V<std::vector<int>>::gen(g, D + 1);
    X[Big::Sub] = V<Small>::gen(g, D + 1);
    X[Big::Opt] = V<std::optional<int>>::gen(g, D + 1);
    X[Big::Names] = V<std::vector<std::string>>::gen(g, D + 1);
    return X;
  }
  static bool same(const Big &A, const Big &B) {
    return A[Big::Num] == B[Big::Num] && A[Big::Flag] == B[Big::Flag] && A[Big::List] == B[Big::List] &&
           V<Small>::same(A[Big::Sub], B[Big::Sub]) && A[Big::Opt] == B[Big::Opt] && A[Big::Names] == B[Big::Names];
  }
  static Verdict ref(const Dom &D, Big &X) {
    if (D.K != Dom::Obj) return Reject;
    Verdict W = both(refTwice(D), refUnknown(D, {"Num", "Flag", "List", "Sub", "Opt", "Names"}));
    W = both(W, refField(D, X, Big::Num, "Num"));
    W = both(W, refField(D, X, Big::Flag, "Flag"));
    W = both(W, refField(D, X, Big::List, "List"));
    W = both(W, refField(D, X, Big::Sub, "Sub"));
    W = both(W, refField(D, X, Big::Opt, "Opt"));
    return both(W, refField(D, X, Big::Names, "Names"));
  }
};
template <> struct V<Human> {
  static Human gen(Gen &g, int D) {
    Human X;
    X[Human::Name] = V<std::string>::gen(g, D);
    X[Human::Age] = V<unsigned>::gen(g, D);
    X[Human::Scores] = V<MapStrInt>::gen(g, D + 1);
    X[Human::Pet] = V<Small>::gen(g, D + 1);
    return X;
  }
  static bool same(const Human &A, const Human &B) {
    return A[Human::Name] == B[Human::Name] && A[Human::Age] == B[Human::Age] &&
           A[Human::Scores] == B[Human::Scores] && V<Small>::same(A[Human::Pet], B[Human::Pet]);
  }
  static Verdict ref(const Dom &D, Human &X) {
    if (D.K != Dom::Obj) return Reject;
    Verdict W = both(refTwice(D), refUnknown(D, {"Name", "Age", "Scores", "Pet"}));
    W = both(W, refField(D, X, Human::Name, "Name"));
    W = both(W, refField(D, X, Human::Age, "Age"));
    W = both(W, refField(D, X, Human::Scores, "Scores"));
    return both(W, refField(D, X, Human::Pet, "Pet"));
  }
};

/// A fresh destination with defined contents.
template <class T> void clear(T &X) { X = T{}; }
inline void zero(Small &X) { X[Small::A] = 0; }
inline void zero(Dog &X) { X[Dog::A] = 0; }
inline void zero(Do &X) { X[Do::A] = 0; }
inline void zero(Human &X) { X[Human::Age] = 0; X[Human::Pet][Small::A] = 0; }
inline void zero(Big &X) { X[Big::Num] = 0; X[Big::Flag] = false; X[Big::Sub][Small::A] = 0; }
template <class T> struct Fresh { T X{}; };
#define JX_FRESH(R) template <> struct Fresh<R> { R X; Fresh() { zero(X); } };
JX_FRESH(Small) JX_FRESH(Big) JX_FRESH(Dog) JX_FRESH(Do) JX_FRESH(Human)
#undef JX_FRESH

template <class T> std::string write(const T &X) { return json::Parser<>::unparse(X); }
template <class P> std::string errs(const P &X) {
  std::string R;
  for (auto *E : X.errors()) R += std::string(E) + "; ";
  return R + std::to_string(X.errors().internal_size()) + " internal";
}
} // namespace jx
#endif
