#!/usr/bin/env python3
"""Writes a program with descriptors of many shapes (C16) or sets (C17)."""
import argparse, random

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
P.add_argument("--what", default="desc")
A = P.parse_args()
R = random.Random(f"{A.seed}-{A.what}")
POOL = 12

# A shape is a list of groups; a group is an int (single trait) or a list of
# alternatives, an alternative being an int or a tuple (union).
FIXED = [
    [0, 1, 2],
    [0, [(1, 2), (1, 3)], 4],
    [[0, 1, 2]],
    [[(0, 1), (1, 2), (2, 3)], [4, 5]],
    [[0, (1, 2), (0, 3)], 6, [(7, 8, 9), (9, 10), 11]],
    [5],
    [[(0,), 1, (2, 3, 4)], [(5, 6), 5]],
    [[1, (1, 2), (2, 3), (3, 1)]],
]


def rshape():
    ts = R.sample(range(POOL), R.randint(2, 9))
    sh = []
    while ts:
        if R.random() < 0.35 or len(ts) == 1:
            sh.append(ts.pop())
            continue
        k = R.randint(2, min(len(ts), 6))
        g, ts = ts[:k], ts[k:]
        alts, need = [], list(g)
        while need or len(alts) < 2:
            m = R.choice([1, 1, 2, 2, 3])
            pick = need[:1] if need else []
            pick += [t for t in R.sample(g, len(g)) if t not in pick]
            pick = pick[:m]
            for t in pick:
                if t in need:
                    need.remove(t)
            if m == 1 and R.random() < 0.7:
                alts.append(pick[0])
            else:
                alts.append(tuple(pick))
        R.shuffle(alts)
        sh.append(alts)
    R.shuffle(sh)
    return sh


def alts(g):
    if isinstance(g, int):
        return [{g}]
    return [{a} if isinstance(a, int) else set(a) for a in g]


def traits(sh):
    """Traits of a shape by number, with their groups and conflicts."""
    gs = {}
    for i, g in enumerate(sh):
        for a in alts(g):
            for t in a:
                gs[t] = i
    ts = sorted(gs)
    conf = []
    for a in ts:
        c = []
        for j, b in enumerate(ts):
            if a != b and gs[a] == gs[b] and \
                    not any(a in u and b in u for u in alts(sh[gs[a]])):
                c.append(j)
        conf.append(c)
    return ts, [gs[t] for t in ts], conf


def cxx(sh):
    def alt(a):
        return f"T{a}" if isinstance(a, int) else \
            "bcl::TraitUnion<" + ", ".join(f"T{t}" for t in a) + ">"

    def grp(g):
        return f"T{g}" if isinstance(g, int) else \
            "bcl::TraitAlternative<" + ", ".join(map(alt, g)) + ">"
    return "bcl::TraitDescriptor<" + ", ".join(map(grp, sh)) + ">"


def br(x):
    return "{" + ", ".join(map(str, x)) + "}"


out = []
E = out.append
nsh = 4 if A.tier == "quick" else 10
shapes = FIXED + [rshape() for _ in range(nsh)]
if A.what == "set":
    shapes = [FIXED[i] for i in (1, 3, 4, 6)] + shapes[len(FIXED):][:nsh - 1]
E('#include "traitset.h"')
for t in range(POOL):
    E(f"struct T{t} : bcl::TraitBase<{R.randint(0, 10**6)}ull>, Data<{t}> {{ static constexpr int Id = {t}; }};")
info = [traits(s) for s in shapes]
many = []
for s, sh in enumerate(shapes):
    ts, gr, conf = info[s]
    E(f"// {sh}")
    E(f"using D{s} = {cxx(sh)};")
    E(f"static const Info I{s}{{{len(ts)}, {br(ts)}, {br(gr)}, {br(map(br, conf))}}};")
    mm = []
    if len(ts) > 1:
        for _ in range(8):
            k = R.choice([2, 2, 2, 3, 4])
            mm.append(R.sample(range(len(ts)), min(k, len(ts))))
        # lists free of conflicts, the largest that a shuffle gives
        for _ in range(3):
            fr = []
            for x in R.sample(range(len(ts)), len(ts)):
                if all(x not in conf[y] for y in fr):
                    fr.append(x)
            if len(fr) > 1:
                mm.append(fr)
    many.append(mm)


def ops(ty, s, ctor):
    ts = info[s][0]
    ms = ", ".join(f"mk<{ty}, " + ", ".join(f"T{ts[i]}" for i in m) + f">({br(m)})"
                   for m in many[s])
    return f"{ctor}<{ty}, " + ", ".join(f"T{t}" for t in ts) + ">({" + ms + "})"


Q, T = (10000, 200000)
for s, sh in enumerate(shapes):
    E(f"static const Ops<D{s}> &ops{s}() {{ static const auto O = {ops(f'D{s}', s, 'mkOps')}; return O; }}")
    if A.what == "desc":
        E(f"PROPERTY(desc{s}, {Q}, {T}) {{ runDesc<D{s}>(g, I{s}, ops{s}()); }}")
    else:
        ts = info[s][0]
        tg = [t for t in ts if R.random() < 0.5]
        lst = []
        while tg:
            k = R.choice([1, 1, 2])
            lst.append(f"bcl::tagged<Data<{50 + R.randint(0, 40)}>, " +
                       ", ".join(f"T{t}" for t in tg[:k]) + ">")
            tg = tg[k:]
        mp = R.choice(["std::map", "std::unordered_map"])
        E(f"using S{s} = bcl::TraitSet<D{s}, {mp}<bcl::TraitKey, void *>"
          + (", bcl::TypeList<" + ", ".join(lst) + ">" if lst else "") + ">;")
        E(f"static const SetOps<S{s}> &sops{s}() {{ static const auto O = {ops(f'S{s}', s, 'mkSetOps')}; return O; }}")
        E(f"PROPERTY(set{s}, {Q*2}, {T}) {{ runSet<S{s}, D{s}>(g, I{s}, sops{s}(), ops{s}()); }}")

if A.what == "desc":
    pairs = []
    for a in range(len(shapes)):
        for b in range(len(shapes)):
            if len(set(info[a][0]) & set(info[b][0])) > 2:
                pairs.append((a, b))
    for a, b in R.sample(pairs, min(len(pairs), 6 if A.tier == "quick" else 16)):
        E(f"PROPERTY(cross{a}_{b}, {Q}, {T}) {{ runCross<D{a}, D{b}>(g, I{a}, ops{a}(), I{b}, ops{b}()); }}")
    subs = [(a, b) for a, b in pairs if set(info[a][0]) <= set(info[b][0])]
    for a, b in R.sample(subs, min(len(subs), 4 if A.tier == "quick" else 8)):
        E(f"PROPERTY(whole{a}_{b}, {Q}, {T}) {{ runWhole<D{a}, D{b}>(g, I{a}, I{b}, ops{b}()); }}")
    # is_conflict, is_contained, find_group and the size of each group
    E("PROPERTY(queries, 1, 1) {")
    for s, sh in enumerate(shapes):
        ts, gr, conf = info[s]
        for i, a in enumerate(ts):
            for j, b in enumerate(ts):
                c = "true" if j in conf[i] else "false"
                E(f'  CHECK("is-conflict", (bcl::trait::is_conflict<T{a}, T{b}, D{s}>::value) == {c}, << "traits {a} {b} of shape {s}");')
                c = "true" if gr[i] == gr[j] else "false"
                E(f'  CHECK("find-group", (std::is_same<bcl::trait::find_group_t<T{a}, D{s}>, bcl::trait::find_group_t<T{b}, D{s}>>::value) == {c}, << "traits {a} {b} of shape {s}");')
            n = gr.count(gr[i])
            E(f'  CHECK("bit-size", (bcl::trait::bitSize<bcl::trait::find_group_t<T{a}, D{s}>>()) == {n}, << "trait {a} of shape {s}");')
        for a in range(POOL):
            c = "true" if a in ts else "false"
            E(f'  CHECK("is-contained", (bcl::trait::is_contained<T{a}, D{s}>::value) == {c}, << "trait {a} of shape {s}");')
    E("  g.nontrivial();\n}")
    # the whole width of a key
    n = R.randint(61, 64) if int(A.seed) % 3 else 64
    groups, left, k = [], list(range(100, 100 + n)), 0
    while left:
        k = min(len(left), R.choice([1, 1, 3, 7, 12]))
        groups.append(left[0] if k == 1 else list(left[:k]))
        left = left[k:]
    R.shuffle(groups)
    for t in range(100, 100 + n):
        E(f"struct T{t} : bcl::TraitBase<{t}> {{ static constexpr int Id = {t}; }};")
    ts, gr, conf = traits(groups)
    E(f"using DW = {cxx(groups)};")
    E(f"static const Info IW{{{len(ts)}, {br(ts)}, {br(gr)}, {br(map(br, conf))}}};")
    E("static const Ops<DW> &opsW() { static const auto O = mkOps<DW, " +
      ", ".join(f"T{t}" for t in ts) + ">({}); return O; }")
    E(f"PROPERTY(wide, {Q // 8}, {T // 8}) {{ runDesc<DW>(g, IW, opsW()); }}")
# Every property goes to one of the parts.
PARTS, res, k = 8, [], 0
for line in out:
    if line.startswith("PROPERTY"):
        res.append(f"#if PART == {k % PARTS}")
        k += 1
    res.append(line)
    if line.startswith("PROPERTY") and line.endswith("}") or line.endswith("\n}"):
        res.append("#endif")
out = res
open(A.out, "w").write("\n".join(out) + "\n")
