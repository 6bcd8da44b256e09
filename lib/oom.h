// Memory that runs out: the allocation number At since arm() throws.
// To be included in one source of a harness, it replaces operator new.
#ifndef OOM_H
#define OOM_H
#include <dlfcn.h>
#include <new>
#include "pbt.h"

namespace oom {
/// Allocations up to the one that fails, 0: none fails.
inline unsigned Left = 0;
inline bool Failed = false;
/// All later allocations of the operation fail as well.
inline bool Forever = false;
inline bool now() {
  if (!Left || (Left > 1 && --Left > 1)) return false;
  if (!Forever) Left = 0;
  Failed = true;
  return true;
}
/// Among the allocations of an operation the one number At fails.
struct Arm {
  explicit Arm(unsigned At, bool All = false) { Failed = false; Forever = All; Left = At ? At + 1 : 0; }
  ~Arm() { Left = 0; }
};
/// Return true if the operation has thrown std::bad_alloc.
template <class F> bool run(unsigned At, F &&Op, bool All = false) {
  Arm A(At, All);
  try {
    Op();
  } catch (const std::bad_alloc &) {
    Left = 0;
    CHECK("bad_alloc", Failed, "std::bad_alloc is thrown though there is enough memory");
    return true;
  }
  return false;
}
} // namespace oom

#define OOM_NEW(Name, Symbol)                                                  \
  __attribute__((noinline)) void *operator Name(std::size_t N) {               \
    static auto *Real = (void *(*)(std::size_t))dlsym(RTLD_NEXT, Symbol);      \
    if (oom::now()) throw std::bad_alloc();                                    \
    return Real(N);                                                            \
  }
OOM_NEW(new, "_Znwm")
OOM_NEW(new[], "_Znam")
#undef OOM_NEW
#endif
