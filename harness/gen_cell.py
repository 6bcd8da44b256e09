#!/usr/bin/env python3
"""Writes a program with static maps, type maps and trait maps (C18)."""
import argparse, random

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
A = P.parse_args()
R = random.Random(f"cell-{A.seed}")
TYPES = ["int", "std::string", "std::vector<int>", "std::unique_ptr<int>",
         "double", "long", "Box<0>", "Box<1>", "short", "Box<2>"]
MOVEONLY = {"std::unique_ptr<int>"}
NK = 20
out = []
E = out.append
E('#include "cellx.h"')
kt = [TYPES[i % len(TYPES)] if i < 7 else R.choice(TYPES) for i in range(NK)]
for i, t in enumerate(kt):
    E(f"struct K{i} {{ typedef {t} ValueType; static constexpr int Id = {i}; }};")
quick = A.tier == "quick"
Q, T = 30000, 500000


def names(l, p):
    return ", ".join(f"{p}{x}" if isinstance(x, int) else x for x in l)


def br(l):
    return "{" + ", ".join(map(str, l)) + "}"


maps = [[0], [1, 0], [0, 1, 2, 3], [6, 5, 4, 2, 1], [3, 7], [9, 8, 7, 6, 5, 4, 3, 2, 1, 0], R.sample(range(NK), NK)]
for _ in range(3 if quick else 8):
    maps.append(R.sample(range(NK), R.randint(1, NK)))
cp = [not any(kt[k] in MOVEONLY for k in m) for m in maps]
for i, m in enumerate(maps):
    E(f"using M{i} = bcl::StaticMap<{names(m, 'K')}>;")
    E(f"static const MapOps<M{i}> &om{i}() {{ static const auto O = mkMap<M{i}, {str(cp[i]).lower()}, true, {names(m, 'K')}>({br(m)}); return O; }}")
    E(f"PROPERTY(map{i}, {Q}, {T}) {{ runMap<M{i}>(g, om{i}()); }}")
pairs = [(a, b) for a in range(len(maps)) for b in range(len(maps)) if set(maps[a]) & set(maps[b])]
for a, b in R.sample(pairs, 8 if quick else 20) + [(2, 3), (5, 2)]:
    c = not any(kt[k] in MOVEONLY for k in set(maps[a]) & set(maps[b]))
    E(f"PROPERTY(transfer{a}_{b}, {Q}, {T}) {{ runTransfer<M{a}, M{b}, {str(c).lower()}>(g, om{a}(), om{b}()); }}")
    pairs = [p for p in pairs if p != (a, b)]
# Maps of types
tm = [["int"], ["int", "double"], ["std::string", "int", "std::vector<int>", "double"],
      ["std::unique_ptr<int>", "Box<0>", "std::string"], TYPES]
for _ in range(2 if quick else 6):
    tm.append(R.sample(TYPES, R.randint(1, len(TYPES))))
for i, m in enumerate(tm):
    c = not set(m) & MOVEONLY
    E(f"using Y{i} = bcl::StaticTypeMap<{', '.join(m)}>;")
    E(f"static const MapOps<Y{i}> &oy{i}() {{ static const auto O = mkMap<Y{i}, {str(c).lower()}, true, {', '.join(m)}>({br(range(len(m)))}); return O; }}")
    E(f"PROPERTY(types{i}, {Q}, {T}) {{ runMap<Y{i}>(g, oy{i}()); }}")
# Maps of traits
for i in range(8):
    E(f'struct T{i} : bcl::TraitBase<{i}> {{ static constexpr int Id = {i}; static std::string name() {{ return "trait{i}"; }} }};')
DESC = [("T0", [0]), ("T2, T0, T1", [2, 0, 1]),
        ("T5, bcl::TraitAlternative<T1, bcl::TraitUnion<T2, T3>, bcl::TraitUnion<T6, T2>>, T7", None)]
tr = R.sample(range(8), 6)
DESC.append((f"T{tr[0]}, bcl::TraitAlternative<T{tr[1]}, T{tr[2]}>, T{tr[3]}, bcl::TraitAlternative<bcl::TraitUnion<T{tr[4]}, T{tr[5]}>>", tr))
for i, (d, order) in enumerate(DESC):
    ty = R.choice(["int", "std::string", "Box<5>"])
    E(f"using D{i} = bcl::TraitDescriptor<{d}>;")
    E(f"using U{i} = bcl::StaticTraitMap<{ty}, D{i}>;")
    if order is None:  # a trait stands in several unions: its place is open
        ks = [5, 1, 2, 3, 6, 7]
        E(f"static const MapOps<U{i}> &ou{i}() {{ static const auto O = mkMap<U{i}, true, false, {names(ks, 'T')}>({br(ks)}); return O; }}")
        E(f"PROPERTY(traits{i}, {Q}, {T}) {{ runTraitMap<U{i}, D{i}>(g, ou{i}()); }}")
    else:
        E(f"static const MapOps<U{i}> &ou{i}() {{ static const auto O = mkMap<U{i}, true, true, {names(order, 'T')}>({br(order)}); return O; }}")
        E(f"PROPERTY(traits{i}, {Q}, {T}) {{ runMap<U{i}>(g, ou{i}()); }}")
    ks = order or [5, 1, 2, 3, 6, 7]
    E(f"PROPERTY(distribute{i}, {Q}, {T}) {{ runDistribute<D{i}, {names(ks, 'T')}>(g, {br(ks)}); }}")
    E(f"PROPERTY(json{i}, {Q // 4}, {T // 4}) {{ runTraitJson<D{i}, {names(ks, 'T')}>(g, {br(ks)}); }}")
# Order of keys
E("PROPERTY(collections, 1, 1) {")
ms = [[]] + maps


def sm(m):
    return f"bcl::StaticMap<{names(m, 'K')}>"


for m in ms:
    E(f'  CHECK("reverse", (std::is_same<bcl::ReverseCell<{sm(m)}>::Result, {sm(m[::-1])}>::value), << "{m}");')
    E(f'  CHECK("empty", ({sm(m)}::empty() == {str(not m).lower()}), << "{m}");')
    for k in range(NK):
        E(f'  CHECK("exist", (bcl::IsCellExist<{sm(m)}, K{k}>::value) == {str(k in m).lower()}, << "{m} {k}");')
        tail = m[m.index(k):] if k in m else []
        E(f'  CHECK("exist-cell", (std::is_same<bcl::IsCellExist<{sm(m)}, K{k}>::Cell, {sm(tail)}>::value), << "{m} {k}");')
for a in ms:
    for b in ms:
        E(f'  CHECK("merge", (std::is_same<bcl::MergeCell<{sm(a)}, {sm(b)}>::Result, {sm(a + b)}>::value), << "{a} {b}");')
E("  g.nontrivial();\n}")
E('#include "cell_extra.h"')
# the helpers go before the properties that use them
out.remove('#include "cell_extra.h"')
out.insert(1, '#include "cell_extra.h"')
PARTS, res, k = 8, [], 0
for line in out:
    if line.startswith("PROPERTY"):
        res.append(f"#if PART == {k % PARTS}")
        k += 1
    res.append(line)
    if line.startswith("PROPERTY") and line.endswith("}") or line.endswith("\n}"):
        res.append("#endif")
open(A.out, "w").write("\n".join(res) + "\n")
