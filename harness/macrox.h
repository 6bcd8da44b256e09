// C25: common parts of the programs written by gen_macro.py.
#ifndef MACROX_H
#define MACROX_H
#include "pbt.h"
#include <algorithm>
#include <bcl/Json.h>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
namespace mx {
using pbt::Gen;
template <class T> T zero() { return T(); }
template <class T, class = void> struct M; // gen: a value, text: its JSON without white space
template <class T> struct M<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static T gen(Gen &g) { return std::is_same<T, int>::value || std::is_same<T, unsigned>::value ? (T)g.below(1000000) : (T)g.below(1ull << 60); }
  static std::string text(const T &X) { return std::to_string(X); }
};
template <> struct M<bool> {
  static bool gen(Gen &g) { return g.coin(); }
  static std::string text(bool X) { return X ? "true" : "false"; }
};
template <> struct M<std::string> {
  static std::string gen(Gen &g) { return g.bytes(8, "abcXYZ019_"); }
  static std::string text(const std::string &X) { return '"' + X + '"'; }
};
template <class T, class A> struct M<std::vector<T, A>> {
  static std::vector<T, A> gen(Gen &g) {
    std::vector<T, A> R;
    for (size_t N = g.below(4); N--;) R.push_back(M<T>::gen(g));
    return R;
  }
  static std::string text(const std::vector<T, A> &X) {
    std::string S;
    for (auto &Y : X) S += (S.empty() ? "" : ",") + M<T>::text(Y);
    return "[" + S + "]";
  }
};
template <class T, class C> struct M<std::set<T, C>> {
  static std::set<T, C> gen(Gen &g) {
    std::set<T, C> R;
    for (size_t N = g.below(4); N--;) R.insert(M<T>::gen(g));
    return R;
  }
  static std::string text(const std::set<T, C> &X) {
    std::string S;
    for (auto &Y : X) S += (S.empty() ? "" : ",") + M<T>::text(Y);
    return "[" + S + "]";
  }
};
template <class K, class T> struct M<std::map<K, T>> {
  static std::map<K, T> gen(Gen &g) {
    std::map<K, T> R;
    for (size_t N = g.below(4); N--;) R[M<K>::gen(g)] = M<T>::gen(g);
    return R;
  }
  static std::string text(const std::map<K, T> &X) {
    std::string S;
    for (auto &Y : X) {
      std::string Key = M<K>::text(Y.first);
      if (Key[0] != '"') Key = '"' + Key + '"';
      S += (S.empty() ? "" : ",") + Key + ":" + M<T>::text(Y.second);
    }
    return "{" + S + "}";
  }
};

inline std::string strip(const std::string &S) {
  std::string R;
  for (char C : S) if (!strchr(" \t\n\r", C)) R += C;
  return R;
}
struct Field {
  const char *Name;
  std::string Want;    // the JSON of the value
  const void *Addr;
  size_t Size;
  bool Scalar;
};
struct Visit {
  std::vector<std::string> *Names;
  std::vector<const void *> *Addrs;
  template <class C> void operator()(C *Cell) const {
    Names->push_back(C::CellKey::name());
    Addrs->push_back(&Cell->template value<typename C::CellKey>());
  }
};
/// The storage and the order of the fields of an object.
template <class O> void layout(const char *Who, const O &X, const std::vector<Field> &Fs) {
  std::vector<std::string> Names;
  std::vector<const void *> Addrs;
  X.for_each(Visit{&Names, &Addrs});
  std::string Got;
  for (auto &N : Names) Got += " " + N;
  CHECK("count", Names.size() == Fs.size(), << Who << " has " << Names.size() << " fields, " << Fs.size() << " are declared:" << Got);
  std::vector<std::pair<const char *, const char *>> Range;
  for (size_t I = 0; I < Fs.size(); ++I) {
    CHECK("name", Names[I] == Fs[I].Name, << Who << ": field " << I << " is " << Names[I] << ", declared as " << Fs[I].Name);
    CHECK("own", Addrs[I] == Fs[I].Addr, << Who << ": field " << Fs[I].Name << " is another object");
    const char *P = (const char *)Fs[I].Addr;
    CHECK("inside", P >= (const char *)&X && P + Fs[I].Size <= (const char *)(&X + 1), << Who << ": " << Fs[I].Name);
    Range.push_back({P, P + Fs[I].Size});
  }
  std::sort(Range.begin(), Range.end());
  for (size_t I = 1; I < Range.size(); ++I) CHECK("overlap", Range[I - 1].second <= Range[I].first, << Who);
}
inline std::string wanted(const std::vector<Field> &Fs, const char *Name = nullptr) {
  std::string S;
  if (Name) S = std::string("\"name\":\"") + Name + "\"";
  for (auto &F : Fs) S += (S.empty() ? "\"" : ",\"") + std::string(F.Name) + "\":" + F.Want;
  return "{" + S + "}";
}
/// A text with the fields in another order; field Skip (if any) has another name.
inline std::string shuffled(Gen &g, std::vector<Field> Fs, int Skip, const std::string &Other, const char *Name = nullptr) {
  std::vector<std::string> P;
  for (size_t I = 0; I < Fs.size(); ++I)
    P.push_back("\"" + ((int)I == Skip ? Other : std::string(Fs[I].Name)) + "\"" + (g.chance(1, 4) ? " :\t" : ":") + Fs[I].Want);
  for (size_t I = P.size(); I > 1; --I) std::swap(P[I - 1], P[g.below(I)]);
  if (Name) P.insert(P.begin(), std::string("\"name\":\"") + Name + "\"");
  std::string S;
  for (auto &X : P) S += (S.empty() ? "" : g.chance(1, 4) ? " ,\n" : ",") + X;
  return "{" + S + "}";
}
/// A name that is not declared, but resembles a declared one.
inline std::string resembling(Gen &g, const std::vector<Field> &Fs, size_t I) {
  std::string N = Fs[I].Name;
  for (int T = 0;; ++T) {
    std::string R = N;
    switch (g.below(4)) {
    case 0: R += g.pick({'s', '_', '1', 'A'}); break;
    case 1: if (R.size() > 1) R.pop_back(); break;
    case 2: for (char &C : R) C = (char)(isupper(C) ? tolower(C) : toupper(C)); break;
    default: R = "q" + R;
    }
    if (T > 20) R = "not_declared_" + N;
    bool Bad = R.empty() || R == "name";
    for (auto &F : Fs) Bad |= R == F.Name;
    if (!Bad) return R;
  }
}
template <class P> std::string errs(const P &X) {
  std::string S;
  for (const char *E : X.errors()) S += std::string(" ") + E;
  return S;
}
} // namespace mx
#endif
