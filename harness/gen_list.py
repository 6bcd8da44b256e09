#!/usr/bin/env python3
"""Writes a program with lists of types (C19)."""
import argparse, random

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
A = P.parse_args()
R = random.Random(f"list-{A.seed}")
quick = A.tier == "quick"
NP = 7
lists = [[], [0], [0, 0], [0, 1], [1, 0], [0, 1, 0], [0, 0, 1, 1], [2, 1, 0],
         [0, 1, 2, 3, 4, 5, 6], [3, 3, 3], [R.randrange(7) for _ in range(20)], [R.randrange(3) for _ in range(33)]]
while len(lists) < (28 if quick else 60):
    n = R.choice([1, 2, 3, 4, 5, 6, 8, 12])
    k = R.randint(1, NP)
    lists.append([R.randrange(k) for _ in range(n)])
out = []
E = out.append
E('#include "listx.h"')


def ty(l):
    return ", ".join(f"P<{x}>" for x in l)


def br(l):
    return "{" + ", ".join(map(str, l)) + "}"


for i, l in enumerate(lists):
    E(f"using L{i} = bcl::TypeList<{ty(l)}>;")
prs = [(a, b) for a in range(len(lists)) for b in range(len(lists))]
if not quick:
    prs = R.sample(prs, 1500)
PARTS = 8
for k in range(PARTS):
    E(f"#if PART == {k}")
    E(f"static const std::vector<Unary> U{k} = {{")
    for i, l in enumerate(lists):
        if i % PARTS == k:
            E(f"  unary<{ty(l)}>({br(l)}),")
    E("};")
    E(f"static const std::vector<Binary> B{k} = {{")
    for j, (a, b) in enumerate(prs):
        if j % PARTS == k:
            E(f"  binary<L{a}, L{b}>({br(lists[a])}, {br(lists[b])}),")
    E("};")
    E(f"PROPERTY(unary{k}, 3000, 30000) {{ runUnary(g, g.pick(U{k})); }}")
    E(f"PROPERTY(binary{k}, 6000, 60000) {{ runBinary(g, g.pick(B{k})); }}")
    E("#endif")
open(A.out, "w").write("\n".join(out) + "\n")
