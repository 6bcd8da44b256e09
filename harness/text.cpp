// C27: legacy text helpers.
#include "pbt.h"
#include <bcl/legacy/text.h>
#include <memory>
using pbt::Gen;

namespace {
template <class Ch, class Copy> void copying(Gen &g, Copy Do) {
  using Str = std::basic_string<Ch>;
  std::size_t N = g.chance(1, 40) ? g.range(60, 5000) : g.len(60), Size;
  Str From;
  for (std::size_t I = 0; I < N; ++I) From += (Ch)(1 + g.below(sizeof(Ch) == 1 ? 255 : 0x10ffff));
  switch (g.below(4)) {
  case 0: Size = N + 1; break;
  case 1: Size = N; break;
  case 2: Size = g.below(N + 1); break;
  default: Size = N + 1 + g.below(20);
  }
  NOTE("copy " << N << " characters to a buffer of " << Size);
  // Buffers of exact size on the heap: accesses beyond them are reported.
  std::unique_ptr<Ch[]> Src(new Ch[N + 1]), To(new Ch[Size]);
  std::copy(From.c_str(), From.c_str() + N + 1, Src.get());
  for (std::size_t I = 0; I < Size; ++I) To[I] = (Ch)'#';
  bool Thrown = false;
  try {
    Do(To.get(), Size, Src.get());
  } catch (const Base::BCLException::Error<CELL_COLL_1(Base::ErrorList::CopyString)> &) {
    Thrown = true;
  }
  CHECK("error", Thrown == (N >= Size), "an error is " << (Thrown ? "" : "not ") << "reported");
  CHECK("source", Str(Src.get()) == From);
  if (!Thrown) CHECK("copy", Str(To.get()) == From && To[N] == 0, "the copy differs");
  if (N && (Size == N || Size == N + 1)) g.nontrivial();
}
} // namespace

PROPERTY(numbers, 100000, 3000000) {
  int V = g.integral<int>();
  if (g.coin()) { // around powers of ten
    long P = 1;
    for (unsigned E = (unsigned)g.below(10); E--;) P *= 10;
    P += g.range(-2, 2);
    V = (int)(g.coin() ? -P : P);
  }
  NOTE("text of " << V);
  std::string Want = std::to_string(V);
  CHECK("ansi", Base::ToTextAnsi(V) == Want, << Base::ToTextAnsi(V));
  CHECK("text", Base::ToText(V) == Want, << Base::ToText(V));
  CHECK("unicode", Base::ToTextUnicode(V) == std::to_wstring(V), << std::string(Want.begin(), Want.end()));
  if (V < -9 || V > 9) g.nontrivial();
}
PROPERTY(copies, 100000, 2000000) {
  switch (g.below(3)) {
  case 0: return copying<char>(g, Base::CopyAnsi);
  case 1: return copying<char>(g, Base::CopyString);
  default: return copying<wchar_t>(g, Base::CopyUnicode);
  }
}
