#!/usr/bin/env python3
"""Writes a program with tagged tuples and pairs (C20)."""
import argparse, random

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
A = P.parse_args()
R = random.Random(f"tag-{A.seed}")
quick = A.tier == "quick"
TYPES = ["int", "std::string", "std::vector<int>", "std::unique_ptr<int>",
         "double", "long", "Box<0>", "Box<1>", "short"]
MOVEONLY = {"std::unique_ptr<int>"}
Q, T = 10000, 150000
out = []
E = out.append
E('#include "tagx.h"')
B = lambda x: str(bool(x)).lower()


def elem(t, tags):
    return f"bcl::tagged<{t}, " + ", ".join(f"Tag<{x}>" for x in tags) + ">"


def decl(n, types=TYPES):
    ids = R.sample(range(40), 40)
    r = []
    for _ in range(n):
        k = R.choice([1, 1, 2, 3])
        r.append((R.choice(types), [ids.pop() for _ in range(k)]))
    return r


fixed = [
    [("int", [0])],
    [("int", [0]), ("int", [1])],
    [("std::string", [0]), ("int", [1, 2]), ("std::string", [3, 4, 5])],
    [("std::unique_ptr<int>", [3]), ("Box<0>", [1]), ("double", [2, 0])],
    [("int", [5, 4, 3]), ("int", [2, 1, 0]), ("int", [6]), ("long", [7, 8])],
]
for n in range(3 if quick else 9):
    fixed.append(decl(10 if n == 0 else R.randint(1, 8)))
for i, d in enumerate(fixed):
    es = ", ".join(elem(*e) for e in d)
    c = not any(t in MOVEONLY for t, _ in d)
    E(f"PROPERTY(tuple{i}, {Q}, {T}) {{ runTuple<bcl::tagged_tuple<{es}>, {B(c)}, {es}>(g); }}")
    # membership
    E(f"PROPERTY(member{i}, 1, 1) {{")
    own = [x for _, ts in d for x in ts]
    for x in range(42):
        E(f'  CHECK("member", (std::is_void<bcl::get_tagged<Tag<{x}>, {es}>>::value) == {B(x not in own)}, << "tag {x}");')
        for j, e in enumerate(d):
            E(f'  CHECK("is-alias", (bcl::tags::is_alias<Tag<{x}>, {elem(*e)}>::value) == {B(x in e[1])}, << "tag {x} element {j}");')
        if x not in own:
            E(f'  CHECK("absent", (std::is_void<bcl::get_tagged_t<Tag<{x}>, {es}>>::value && std::is_void<bcl::get_tagged_tag<Tag<{x}>, {es}>>::value && std::is_void<bcl::get_tagged_alias<Tag<{x}>, {es}>>::value), << "tag {x}");')
    # aliases
    for j, (t, ts) in enumerate(d):
        more = [50 + R.randint(0, 9), 60 + R.randint(0, 9)]
        for k in (1, 2):
            m = ", ".join(f"Tag<{x}>" for x in more[:k])
            E(f'  CHECK("add-alias", (std::is_same<bcl::add_alias_tagged<{elem(t, ts)}, {m}>, {elem(t, ts + more[:k])}>::value), << "element {j}");')
            E(f'  CHECK("add-alias-list", (std::is_same<bcl::add_alias_list_tagged<{elem(t, ts)}, bcl::TypeList<{m}>>, {elem(t, ts + more[:k])}>::value), << "element {j}");')
            E(f'  CHECK("add-alias-tag", (std::is_same<bcl::add_alias_tagged_tag<{elem(t, ts)}, {m}>, Tag<{ts[0]}>>::value && std::is_same<bcl::add_alias_tagged_t<{elem(t, ts)}, {m}>, {t}>::value), << "element {j}");')
        a = ", ".join(f"Tag<{x}>" for x in ts)
        E(f'  CHECK("alias-of-type", (std::is_same<bcl::add_alias_tagged<{t}, {a}>, {elem(t, ts)}>::value), << "element {j}");')
        E(f'  CHECK("tagged-types", (std::is_same<bcl::tagged_t<{t}, {a}>, {t}>::value && std::is_same<bcl::tagged_tag<{t}, {a}>, Tag<{ts[0]}>>::value && std::is_same<bcl::tagged_alias<{t}, {a}>, bcl::TypeList<{a}>>::value), << "element {j}");')
    E("  g.nontrivial();\n}")
# tuples built from a list of tags
for i in range(3 if quick else 8):
    t = R.choice(TYPES)
    ts = R.sample(range(30), R.randint(1, 7))
    a = ", ".join(f"Tag<{x}>" for x in ts)
    es = ", ".join(elem(t, [x]) for x in ts)
    E(f"PROPERTY(built{i}, {Q}, {T}) {{")
    E(f'  CHECK("built", (std::is_same<bcl::tags::get_tagged_tuple_t<{t}, {a}>, bcl::tagged_tuple<{es}>>::value), << "");')
    E(f'  CHECK("built-list", (std::is_same<bcl::tags::get_tagged_tuple_t<{t}, bcl::TypeList<{a}>>, bcl::tagged_tuple<{es}>>::value), << "");')
    E(f"  runTuple<bcl::tags::get_tagged_tuple_t<{t}, {a}>, {B(t not in MOVEONLY)}, {es}>(g);\n}}")
pairs = [[("int", [0]), ("std::string", [1])], [("int", [0, 1]), ("int", [2])],
         [("std::unique_ptr<int>", [4]), ("Box<1>", [1, 2])]]
for n in range(2 if quick else 6):
    pairs.append(decl(2))
for i, d in enumerate(pairs):
    c = not any(t in MOVEONLY for t, _ in d)
    E(f"PROPERTY(pair{i}, {Q}, {T}) {{ runPair<{elem(*d[0])}, {elem(*d[1])}, {B(c)}>(g); }}")
for i in range(3 if quick else 8):
    a, b = R.sample(TYPES, 2)
    E(f"PROPERTY(conv{i}, {Q}, {T}) {{ runConv<{a}, {b}, {B(a not in MOVEONLY and b not in MOVEONLY)}>(g); }}")
E(f"PROPERTY(plain, {Q}, {T}) {{ runPlain<>(g); }}")
for i in range(3 if quick else 8):
    ts = [R.choice(TYPES) for _ in range(R.randint(1, 7))]
    E(f"PROPERTY(plain{i}, {Q}, {T}) {{ runPlain<{', '.join(ts)}>(g); }}")
PARTS, res, k = 8, [], 0
for line in out:
    if line.startswith("PROPERTY"):
        res.append(f"#if PART == {k % PARTS}")
        k += 1
    res.append(line)
    if line.startswith("PROPERTY") and line.endswith("}") or line.endswith("\n}"):
        res.append("#endif")
open(A.out, "w").write("\n".join(res) + "\n")
