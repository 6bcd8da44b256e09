#!/usr/bin/env python3
"""Writes a program with compile-time helpers (C23): binary literals, indexes
of types, attribute identifiers, bases that forbid copies."""
import argparse, random

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
A = P.parse_args()
R = random.Random(f"util-{A.seed}")
quick = A.tier == "quick"
out = []
E = out.append
E('''#include "pbt.h"
#include <bcl/utility.h>
#include <string>
#include <set>
#include <map>
#include <vector>
using bcl::operator"" _b;
template <int N> struct T {};
struct Lit { unsigned long long V, Want; const char *Text; };
static const Lit gLits[] = {''')
lits = ["0", "1", "1" * 64, "1" + "0" * 63, "1" + "0" * 31, "1" + "0" * 32, "1" * 32, "1" * 33]
for _ in range(60 if quick else 400):
    n = R.choice([R.randint(1, 8), R.randint(9, 32), R.randint(30, 36), R.randint(33, 64), 64])
    lits.append("".join(R.choice("01") for _ in range(n)))
for l in lits:
    E(f'  {{{l}_b, {int(l, 2)}ull, "{l}"}},')
E('''};
PROPERTY(literal, 1000, 3000) {
  const Lit &L = gLits[g.below(sizeof(gLits) / sizeof(*gLits))];
  NOTE("literal " << L.Text);
  CHECK("literal", L.V == L.Want, << L.Text << "_b is " << L.V << ", expected " << L.Want);
  if (L.Want > 1) g.nontrivial();
}''')
E('''struct Idx { std::size_t V, Want; const char *Text; };
static const Idx gIdx[] = {''')
POOL = ["T<0>", "T<1>", "T<2>", "int", "const int", "int &", "const int &", "int *", "unsigned", "std::string", "char", "signed char", "T<0> *", "void"]
for _ in range(60 if quick else 400):
    n = R.choice([R.randint(1, 4), R.randint(1, 4), R.randint(5, 30)])
    l = [R.choice(POOL) for _ in range(n)]
    x = R.choice(l)
    y = R.choice(POOL)
    s = ", ".join(l)
    E(f'  {{bcl::index_of<{x}, {s}>(), {l.index(x)}, "index of {x} in {s}"}},')
    E(f'  {{bcl::size_of<{s}>(), {len(l)}, "size of {s}"}},')
    E(f'  {{(std::size_t)bcl::is_contained<{y}, {s}>::value, {int(y in l)}, "{y} is contained in {s}"}},')
E('''  {bcl::size_of<>(), 0, "size of nothing"},
  {(std::size_t)bcl::is_contained<int>::value, 0, "int is contained in nothing"}};
PROPERTY(index, 1000, 3000) {
  const Idx &I = gIdx[g.below(sizeof(gIdx) / sizeof(*gIdx))];
  NOTE(I.Text);
  CHECK("index", I.V == I.Want, << I.Text << ": " << I.V << ", expected " << I.Want);
  if (I.Want) g.nontrivial();
}''')
n = 12 if quick else 60
for i in range(n):
    E(f"BASE_ATTR_DEF(Attr{i}, BCL_JOIN(std::map<int, T<{i}>>))")
E("static void other(std::vector<bcl::AttributeId> &V) {")
for i in range(n):
    E(f"  V.push_back(Attr{i}::id());")
sizes = [R.randint(1, 50) for _ in range(6)]
E('}\nPROPERTY(attributes, 200, 1000) {\n  std::vector<bcl::AttributeId> A, B;\n  other(A);\n  if (g.coin()) other(B); else other(B);')
for i in range(n):
    E(f'  CHECK("attribute", Attr{i}::id() == A[{i}] && (std::is_same<Attr{i}::Value, std::map<int, T<{i}>>>::value));')
E(f'''  CHECK("attribute-distinct", std::set<bcl::AttributeId>(A.begin(), A.end()).size() == {n} && A == B);
  g.nontrivial();
  NOTE("{n} attributes");''')
for i, s in enumerate(sizes):
    E(f'  static T<{i}> Arr{i}[{s}];\n  CHECK("array", bcl::array_sizeof(Arr{i}) == {s});')
E('''}
template <class B> struct Der : B { int X; explicit Der(int X) : X(X) {} };
PROPERTY(bases, 200, 1000) {
  using U = Der<bcl::Uncopyable>;
  using A = Der<bcl::Unassignable>;
  CHECK("uncopyable", !std::is_copy_constructible<U>::value && !std::is_copy_assignable<U>::value);
  CHECK("uncopyable-moves", std::is_move_constructible<U>::value && std::is_move_assignable<U>::value);
  CHECK("unassignable", !std::is_copy_assignable<A>::value && std::is_copy_constructible<A>::value);
  int V = g.integral<int>(), W = g.integral<int>();
  NOTE(V << " " << W);
  U M(V), N(std::move(M)), K(W);
  CHECK("move", N.X == V);
  K = std::move(N);
  CHECK("move", K.X == V);
  A C(W), D(C);
  CHECK("copy", D.X == W && C.X == W);
  g.nontrivial();
}''')
open(A.out, "w").write("\n".join(out) + "\n")
