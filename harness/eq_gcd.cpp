// C10: extended Euclid.
#include "eq.h"
using namespace eq;
using pbt::Gen;

namespace {
template <class T> void run(Gen &g) {
  constexpr T Min = (T)((Big)1 << (sizeof(T) * 8 - 1)), Max = (T)~Min;
  T L, R;
  auto bound = [](Big X) { return (T)(X > Max ? (Big)Max : X < -(Big)Max ? -(Big)Max : X); };
  switch (g.below(5)) {
  case 0: L = g.integral<T>(); R = g.integral<T>(); break;
  case 1: { // common factor
    Big K = g.range(1, 100);
    L = bound(K * g.range(-100, 100)); R = bound(K * g.range(-100, 100));
    break;
  }
  case 2: { // consecutive Fibonacci numbers: the longest computation
    Big A = g.range(0, 2), B = 1;
    for (size_t N = g.below(90); N-- && A + B <= Max;) { Big C = A + B; A = B; B = C; }
    L = bound(g.coin() ? -A : A); R = bound(B);
    if (g.coin()) std::swap(L, R);
    break;
  }
  case 3: L = g.integral<T>(); R = g.pick<T>({0, 1, (T)-1, L, bound(-(Big)L), (T)(L / 2)}); break;
  default: L = g.integral<T>(); R = bound((Big)L * g.range(-3, 3)); break;
  }
  if (L == Min) ++L;
  if (R == Min) ++R;
  if (g.coin()) std::swap(L, R);
  auto Res = milp::euclidGCD(L, R);
  T G = std::get<0>(Res), A = std::get<1>(Res), B = std::get<2>(Res);
  NOTE("euclidGCD(" << (long long)L << ", " << (long long)R << ") = (" << (long long)G << ", " << (long long)A << ", " << (long long)B << ")");
  CHECK("gcd", (Big)G == gcd(L, R), << "gcd is " << (long long)G << " instead of " << s(gcd(L, R)));
  CHECK("bezout", (Big)A * L + (Big)B * R == (Big)G, << "A * L + B * R is " << s((Big)A * L + (Big)B * R) << " instead of " << (long long)G);
  if (L != 0 && R != 0 && L % R != 0 && R % L != 0) g.nontrivial();
}
} // namespace

PROPERTY(gcdInt, 120000, 4000000) { run<int>(g); }
PROPERTY(gcdLong, 120000, 4000000) { run<long>(g); }
PROPERTY(gcdLongLong, 120000, 4000000) { run<long long>(g); }
PROPERTY(gcdShort, 120000, 4000000) { run<short>(g); }
PROPERTY(gcdChar, 120000, 4000000) { run<signed char>(g); }
