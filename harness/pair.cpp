// C22: pairs of integers packed into one word.
#include "pbt.h"
#include <bcl/utility.h>
#include <memory>
#include <vector>
using pbt::Gen;

namespace {
using U128 = unsigned __int128;

template <std::size_t N> struct Wide;
template <> struct Wide<1> { using type = uint8_t; };
template <> struct Wide<2> { using type = uint16_t; };
template <> struct Wide<4> { using type = uint32_t; };
template <> struct Wide<8> { using type = uint64_t; };

template <class T> uint64_t bits(T V) { return (uint64_t)(std::make_unsigned_t<T>)V; }
/// What happened with one pair.
struct Result {
  uint64_t A, B; // given values
  bool Did, ArgsKept, WordKept;
  uint64_t C, D; // restored values
};

template <class F, class S, class T> void run(uint64_t VA, uint64_t VB, bool Pair, unsigned Fill, Result &R) {
  constexpr std::size_t Half = sizeof(T) / 2;
  using RF = std::conditional_t<(sizeof(F) >= Half), F, typename Wide<Half>::type>;
  using RS = std::conditional_t<(sizeof(S) >= Half), S, typename Wide<Half>::type>;
  // Objects of exact size on the heap: accesses beyond them are reported.
  std::unique_ptr<F> A(new F((F)VA));
  std::unique_ptr<S> B(new S((S)VB));
  std::unique_ptr<T> Out(new T());
  std::memset(Out.get(), Fill & 1 ? 0xA5 : 0, sizeof(T));
  const F A0 = *A;
  const S B0 = *B;
  R.A = bits(A0);
  R.B = bits(B0);
  R.Did = Pair ? bcl::shrinkPair(std::pair<F, S>(*A, *B), *Out) : bcl::shrinkPair(*A, *B, *Out);
  R.ArgsKept = *A == A0 && *B == B0;
  if (!R.Did) {
    T Before;
    std::memset(&Before, Fill & 1 ? 0xA5 : 0, sizeof(T));
    R.WordKept = !std::memcmp(&Before, Out.get(), sizeof(T));
    return;
  }
  std::unique_ptr<RF> C(new RF());
  std::unique_ptr<RS> D(new RS());
  std::memset(C.get(), Fill & 2 ? 0x5A : 0, sizeof(RF));
  std::memset(D.get(), Fill & 4 ? 0x5A : 0, sizeof(RS));
  T Copy;
  std::memcpy(&Copy, Out.get(), sizeof(T));
  bcl::restoreShrinkedPair(*Out, *C, *D);
  R.C = bits(*C);
  R.D = bits(*D);
  R.WordKept = !std::memcmp(&Copy, Out.get(), sizeof(T));
}

using Fn = void (*)(uint64_t, uint64_t, bool, unsigned, Result &);
struct Combo { Fn Run; unsigned F, S, T; }; // sizes in bytes
} // namespace
/// All combinations, filled by the parts this file is compiled in.
std::vector<void *> &combos();
namespace {
template <class F, class S, class... T> void words() {
  static Combo C[] = {{run<F, S, T>, sizeof(F), sizeof(S), sizeof(T)}...};
  for (auto &X : C) combos().push_back(&X);
}
template <class F, class... S> void parts() {
  (words<F, S, uint64_t, int64_t, uint32_t, int32_t, uint16_t, int16_t, void *, U128>(), ...);
}
using Types = std::tuple<int32_t, uint32_t, int8_t, uint8_t, int16_t, uint16_t, int64_t, uint64_t>;
struct Add {
  Add() { parts<std::tuple_element_t<PART, Types>, int32_t, uint32_t, int8_t, uint8_t, int16_t, uint16_t, int64_t, uint64_t>(); }
} gAdd;
} // namespace

#if PART == 0
std::vector<void *> &combos() {
  static std::vector<void *> V;
  return V;
}
namespace {
/// A value that is often close to the limit of the half.
uint64_t value(Gen &g, unsigned Size, unsigned Half) {
  uint64_t Mask = Size == 8 ? ~0ull : (1ull << 8 * Size) - 1;
  if (Half < Size && g.chance(2, 3)) {
    uint64_t Lim = 1ull << (8 * Half);
    switch (g.below(4)) {
    case 0: return (Lim - 1 - g.below(3)) & Mask;
    case 1: return (Lim + g.below(3)) & Mask;
    case 2: return (Lim << g.below(8 * (Size - Half))) & Mask;
    default: return g.below(Lim);
    }
  }
  return g.integral<uint64_t>() >> g.pick({0, 0, 8 * (8 - (int)Size)}) & Mask;
}
bool fits(uint64_t V, unsigned Half) { return Half >= 8 || V >> (8 * Half) == 0; }
} // namespace

PROPERTY(pack, 1500000, 60000000) {
  const Combo &X = *(Combo *)g.pick(combos());
  unsigned Half = X.T / 2;
  uint64_t A = value(g, X.F, Half), B = value(g, X.S, Half);
  NOTE("shrink 0x" << std::hex << A << " (" << X.F << " bytes) and 0x" << B << " (" << X.S << " bytes) to "
       << X.T << " bytes");
  Result R;
  bool Can = fits(A, Half) && fits(B, Half), Pair = g.coin();
  X.Run(A, B, Pair, (unsigned)g.below(8), R);
  CHECK("harness", R.A == A && R.B == B);
  CHECK("args", R.ArgsKept, "the packed values are changed");
  CHECK("result", R.Did == Can, "shrinkPair returns " << R.Did << ", both values fit: " << Can);
  if (!Can) {
    g.label("does not fit");
    CHECK("failure", R.WordKept, "an unsuccessful packing changes the word");
    return;
  }
  if (A != B) g.nontrivial();
  if (X.F < Half || X.S < Half) g.label("part narrower than half");
  CHECK("first", R.C == A, "first value is restored as 0x" << std::hex << R.C);
  CHECK("second", R.D == B, "second value is restored as 0x" << std::hex << R.D);
  CHECK("word", R.WordKept, "restoring changes the packed word");
}
#endif
