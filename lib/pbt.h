//===- pbt.h - property-based testing engine (choice-tape) ------*- C++ -*-===//
// A property is a function over a stream of choices (Gen). A case is random,
// or a mutation of an earlier case that reached new code; a failing case
// (oracle failure, sanitizer report, signal, CPU/memory runaway, leak,
// deadlock) is shrunk by editing its tape of choices and replayed 3 times.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {
struct Fail { std::string Tag, Msg; };

class Gen {
public:
  /// Uniform value in [0, N); N == 0 means the whole 64-bit range.
  /// 0 is the simplest choice for the shrinker.
  uint64_t draw(uint64_t N);
  uint64_t below(uint64_t N) { return N <= 1 ? 0 : draw(N); }
  /// Uniform in [Lo, Hi], both inclusive.
  int64_t range(int64_t Lo, int64_t Hi) {
    return (int64_t)((uint64_t)Lo + draw((uint64_t)Hi - (uint64_t)Lo + 1));
  }
  bool coin() { return draw(2) != 0; }
  /// True with probability about Num/Den (the shrinker moves towards false).
  bool chance(unsigned Num, unsigned Den) { return draw(Den) >= Den - Num; }
  /// A size in [0, Max], biased to small values and growing with the run.
  size_t len(size_t Max);
  template <class T> const T &pick(const std::vector<T> &V) {
    return V[below(V.size())];
  }
  template <class T> T pick(std::initializer_list<T> V) {
    return *(V.begin() + below(V.size()));
  }
  /// Index by weight.
  unsigned weighted(std::initializer_list<unsigned> W) {
    unsigned S = 0;
    for (unsigned X : W) S += X;
    unsigned R = (unsigned)draw(S), I = 0;
    for (unsigned X : W) {
      if (R < X) return I;
      R -= X;
      ++I;
    }
    return 0;
  }
  /// Any value of an integral type, biased to boundaries.
  template <class T> T integral();
  std::string bytes(size_t Max, const char *Alphabet = nullptr);

  /// Declares that this case exercises what the property is about.
  void nontrivial();
  /// Counts a class of cases in the evidence (Name: string literal).
  void label(const char *Name);
  bool tracing() const { return mTracing; }
  void noteStr(const std::string &S);
  size_t consumed() const { return mPos; }

private:
  friend struct Engine;
  bool mTracing = false;
  bool mReplay = false;
  uint64_t mState = 0;
  size_t mPos = 0;
  size_t mSize = 100;
};

template <class T> T Gen::integral() {
  using U = std::make_unsigned_t<T>;
  constexpr unsigned Bits = sizeof(T) * 8;
  switch (weighted({4, 4, 2, 3})) {
  case 0:
    return (T)draw(16);
  case 1: {
    U V = (U)((U)1 << draw(Bits)); // power of two +-1
    V = (U)(V + (U)draw(3) - 1);
    return (T)(std::is_signed<T>::value && coin() ? (U)(0 - V) : V);
  }
  case 2: {
    U M = std::is_signed<T>::value ? (U)((U)1 << (Bits - 1)) : (U)0;
    return (T)(U)(M + (U)draw(5) - 2); // extremes
  }
  default:
    return (T)(U)draw(0);
  }
}

[[noreturn]] void fail(const char *Tag, const std::string &Msg);

/// Printable form of arbitrary bytes.
std::string show(const std::string &S);
template <class T> std::string str(const T &V) {
  std::ostringstream O;
  O.precision(17);
  O << V;
  return O.str();
}

struct Options {
  const char *Name;
  void (*Fn)(Gen &);
  unsigned long Quick;    // number of cases
  unsigned long Thorough; // number of cases
  bool LeakCheck = true;  // heap in use after the case == before the case
  bool Guided = true;     // mix in coverage-guided mutation
  double CpuLimit = 20;   // seconds of CPU per case
  double WallLimit = 120; // seconds without progress
  unsigned Workers = 0;   // 0: all
  bool NeedRepro = true;  // report only what reproduces in 3 of 3 replays
};
struct Register { Register(const Options &O); };

/// Hook run in every worker before the first case (may be null).
extern void (*gWorkerInit)();
/// Seed and tier of this run.
uint64_t seed();
bool thorough();
/// Scratch directory of this run (removed afterwards).
const std::string &tmp();
} // namespace pbt

#define PBT_CAT2(A, B) A##B
#define PBT_CAT(A, B) PBT_CAT2(A, B)
/// PROPERTY(name, quick, thorough, options...) { body uses g }
#define PROPERTY(NAME, QUICK, THOROUGH, ...)                                   \
  static void PBT_CAT(prop_, NAME)(pbt::Gen & g);                              \
  static pbt::Register PBT_CAT(reg_, NAME)([] {                                \
    pbt::Options O{#NAME, PBT_CAT(prop_, NAME), QUICK, THOROUGH};              \
    __VA_ARGS__;                                                               \
    return O;                                                                  \
  }());                                                                        \
  static void PBT_CAT(prop_, NAME)(pbt::Gen & g)

#define PBT_S(X) #X
#define PBT_S2(X) PBT_S(X)
/// Oracle check; TAG is a stable literal that names the violated clause.
#define CHECK(TAG, COND, ...)                                                  \
  do {                                                                         \
    if (!(COND)) {                                                             \
      std::ostringstream PbtOs;                                                \
      PbtOs << "`" #COND "` is false. " __VA_ARGS__;                           \
      pbt::fail(TAG, PbtOs.str());                                             \
    }                                                                          \
  } while (0)
#define NOTE(...)                                                              \
  do {                                                                         \
    if (g.tracing()) {                                                         \
      std::ostringstream PbtOs;                                                \
      PbtOs << __VA_ARGS__;                                                    \
      g.noteStr(PbtOs.str());                                                  \
    }                                                                          \
  } while (0)
#endif
