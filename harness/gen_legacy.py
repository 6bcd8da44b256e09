#!/usr/bin/env python3
"""Writes a program with legacy cells, trees and compile-time logic (C29)."""
import argparse, random

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
A = P.parse_args()
R = random.Random(f"legacy-{A.seed}")
quick = A.tier == "quick"
out = []
E = out.append
E('#include "legacyx.h"\nusing namespace lx;')
TYPES = ["int", "std::string", "double", "Obj *", "long", "Box<0>", "short", "Obj *", "Box<1>", "long long"]
NK = 12
kt = [TYPES[i % len(TYPES)] if i < 8 else R.choice(TYPES) for i in range(NK)]
for i, t in enumerate(kt):
    E(f"struct K{i} {{ typedef {t} ValueType; static constexpr int Id = {i}; }};")
Q, T = 20000, 300000


def coll(l):
    """The type of a collection, by a macro or by hand."""
    if l and R.random() < .6:
        return f"CELL_COLL_{len(l)}( {', '.join('K%d' % x for x in l)})"
    s = "Utility::Null"
    for x in reversed(l):
        s = f"Base::Cell<K{x}, {s}>" if s != "Utility::Null" or R.random() < .5 else f"Base::Cell<K{x}>"
    return s


def keys(l):
    return ", ".join(f"K{x}" for x in l)


cs = [[0], [1, 0], [3, 1, 7], [0, 1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1, 0]]
for _ in range(3 if quick else 10):
    cs.append(R.sample(range(NK), R.randint(1, NK)))
props = []
for i, c in enumerate(cs):
    E(f"typedef {coll(c)} C{i};")
    E(f"static const Ops<C{i}> &oc{i}() {{ return ops<C{i}, {keys(c)}>(); }}")
    props.append(f"PROPERTY(cells{i}, {Q}, {T}) {{ runCells<C{i}>(g, oc{i}()); }}")
    if any(kt[k] == "Obj *" for k in c):
        props.append(f"PROPERTY(pointers{i}, {Q // 4}, {T // 4}) {{ runPointers<C{i}, {keys(c)}>(g, oc{i}()); }}")
pairs = [(a, b) for a in range(len(cs)) for b in range(len(cs)) if a != b]
for a, b in R.sample(pairs, 8 if quick else 24):
    props.append(f"PROPERTY(copy{a}_{b}, {Q // 2}, {T // 2}) {{ runTransfer<C{a}, C{b}>(g, oc{a}(), oc{b}()); }}")


def tree(ids):
    """(type, ids in the order of visiting, names of the twin) of a random shape."""
    if not ids:
        return "Utility::Null", [], "Utility::Null"
    k, rest = ids[0], ids[1:]
    n = R.choice([0, len(rest), R.randint(0, len(rest))])
    l, r = tree(rest[:n]), tree(rest[n:])

    def ty(name, a, b):
        if b == "Utility::Null":
            return f"Base::Node<{name}>" if a == b else f"Base::Node<{name}, {a}>"
        return f"Base::Node<{name}, {a}, {b}>"
    return ty(f"K{k}", l[0], r[0]), l[1] + r[1] + [k], ty(f"W{k}", l[2], r[2])


WIDE = {"int": "long", "short": "int", "long": "double"}
for i, t in enumerate(kt):
    E(f"struct W{i} {{ typedef {WIDE.get(t, t)} ValueType; static constexpr int Id = {100 + i}; }};")
ts = []
for i in range(7 if quick else 20):
    ids = R.sample(range(NK), [1, 2, 3, 5, 8, 12][i] if i < 6 else R.randint(1, NK))
    t, order, twin = tree(ids)
    ts.append((t, order))
    E(f"typedef {t} T{i};\ntypedef {twin} V{i};")
    E(f"static const Ops<T{i}> &ot{i}() {{ return ops<T{i}, {keys(order)}>(); }}")
    E(f"static const Ops<V{i}> &ov{i}() {{ return ops<V{i}, {keys(order).replace('K', 'W')}>(); }}")
    props.append(f"PROPERTY(tree{i}, {Q}, {T}) {{ runTree<T{i}>(g, ot{i}()); }}")
    props.append(f"PROPERTY(make{i}, {Q // 2}, {T // 2}) {{ runTreeMake<T{i}, V{i}>(g, ot{i}(), ov{i}()); }}")
out += props

# Compile-time answers
E("PROPERTY(keys, 1, 1) {")
ms = [[]] + cs
ty = {}


def plain(l):
    s = "Utility::Null"
    for x in reversed(l):
        s = f"Base::Cell<K{x}, {s}>"
    return s


for m in ms:
    E(f'  CHECK("reverse", (std::is_same<Base::ReverseCell<{plain(m)}>::Result, {plain(m[::-1])}>::value), << "{m}");')
    for k in range(NK):
        tail = m[m.index(k):] if k in m else []
        E(f'  CHECK("exist", (Base::IsCellExist<{plain(m)}, K{k}>::Value()) == {str(k in m).lower()}, << "{m} {k}");')
        E(f'  CHECK("exist-cell", (std::is_same<Base::IsCellExist<{plain(m)}, K{k}>::Cell, {plain(tail)}>::value), << "{m} {k}");')
for a in ms:
    for b in ms:
        if not a and not b:
            continue
        E(f'  CHECK("merge", (std::is_same<Base::MergeCell<{plain(a)}, {plain(b)}>::Result, {plain(a + b)}>::value), << "{a} {b}");')
for i, (t, order) in enumerate(ts):
    for k in range(NK):
        E(f'  CHECK("node", (Base::IsNodeExist<T{i}, K{k}>::Value()) == {str(k in order).lower()}, << "{t} {k}");')
        if k in order:
            E(f'  CHECK("node", (std::is_same<Base::IsNodeExist<T{i}, K{k}>::Result::Id, K{k}>::value), << "{t} {k}");')
        else:
            E(f'  CHECK("node", (std::is_same<Base::IsNodeExist<T{i}, K{k}>::Result, Utility::Null>::value), << "{t} {k}");')
E("  g.nontrivial();\n}")

# The macros of all lengths, also the longest one
for n in sorted({100, 99} | set(R.sample(range(1, 99), 3 if quick else 12))):
    E(f"namespace macro{n} {{")
    for i in range(n):
        E(f"struct M{i} {{ typedef int ValueType; static constexpr int Id = {i}; }};")
    E(f"typedef CELL_COLL_{n}( {', '.join('M%d' % i for i in range(n))}) C;\n}}")
    E(f"PROPERTY(macro{n}, 300, 3000) {{")
    E(f"  macro{n}::C X; Writer W; std::vector<int> Ids;")
    E(f"  for (int I = 0; I < {n}; ++I) {{ Ids.push_back(I); W.Vals.push_back((int)g.below(1000)); }}")
    E("  X.Foreach(W); Reader R; X.Foreach(R);")
    E('  CHECK("macro", R.Ids == Ids && R.Vals == W.Vals, << show(R.Ids));')
    k = R.randrange(n)
    E(f'  CHECK("macro", X.Value<macro{n}::M{k}>() == W.Vals[{k}] && X[macro{n}::M{n - 1}()] == W.Vals[{n - 1}]);\n  g.nontrivial();\n}}')

# A value kept by reference
E("""struct RefId { typedef int &ValueType; static constexpr int Id = 500; };
PROPERTY(reference, 2000, 20000) {
  int X = (int)g.below(100), Y = (int)g.below(100);
  Utility::Null N;
  Base::Node<RefId> A(X, N, N);
  CHECK("reference", &A.Value<RefId>() == &X && &A[RefId()] == &X);
  Base::Node<K0> L;
  L.Value<K0>() = Y;
  Base::Node<RefId, Base::Node<K0>> B(X, L, N), C(B);
  B.Value<RefId>() = Y;
  CHECK("reference", X == Y && C.Value<RefId>() == Y && C.Value<K0>() == Y);
  CHECK("assignable", !std::is_copy_assignable<Base::Node<RefId>>::value);
  TreeReader R;
  Base::Visit(C, R);
  CHECK("visit", (R.Ids == std::vector<int>{0, 500}) && R.Vals == std::vector<int>(2, Y));
  g.nontrivial();
}""")


# Logic
def logic(d):
    if d == 0 or R.random() < .15:
        k = R.randrange(6)
        v = R.random() < .5
        if k < 3:
            return ("Utility::True" if v else "Utility::False"), v
        if k == 3:
            return (f"Utility::IsIdentical<K0, {'K0' if v else 'K1'}>"), v
        if k == 4:
            c, x = R.choice(cs), R.randrange(NK)
            return f"Base::IsCellExist<{plain(c)}, K{x}>", x in c
        i = R.randrange(len(ts))
        x = R.randrange(NK)
        return f"Base::IsNodeExist<T{i}, K{x}>", x in ts[i][1]
    op = R.choice(["Not", "And", "Or", "If"])
    a = logic(d - 1)
    if op == "Not":
        return f"Utility::Not<{a[0]}>", not a[1]
    b = logic(d - 1)
    if op == "And":
        return f"Utility::And<{a[0]}, {b[0]}>", a[1] and b[1]
    if op == "Or":
        return f"Utility::Or<{a[0]}, {b[0]}>", a[1] or b[1]
    c = logic(d - 1)
    return f"Utility::If<{c[0]}, {a[0]}, {b[0]}>::Result", (a if c[1] else b)[1]


E("PROPERTY(logic, 1, 1) {\n  int X = 0;")
basic = [("Utility::True", True), ("Utility::False", False)]
ex = [(f"Utility::{o}<{a[0]}, {b[0]}>", (a[1] and b[1]) if o == "And" else (a[1] or b[1])) for o in ("And", "Or") for a in basic for b in basic]
ex += [(f"Utility::Not<{a[0]}>", not a[1]) for a in basic] + basic
ex += [(f"Utility::If<{c[0]}, {a[0]}, {b[0]}>::Result", (a if c[1] else b)[1]) for a in basic for b in basic for c in basic]
ex += [logic(R.randint(1, 4)) for _ in range(60 if quick else 300)]
for t, v in ex:
    E(f'  CHECK("logic", ({t}::Value()) == {str(v).lower()}, << "{t}");')
    E(f'  CHECK("logic", (std::is_same<{t}::Definition, Utility::{v}>::value), << "{t}");')
    E(f'  X = 5; {{ typedef {t} L; Utility::AddToObjectIf<int>(L::Definition(), X, 3); }} CHECK("add", X == {8 if v else 5}, << "{t}");')
sc = ["short", "int", "long", "long long", "unsigned short", "unsigned int", "unsigned long", "unsigned long long",
      "float", "double", "long double", "char", "wchar_t", "Utility::Null"]
for t in sc + ["std::string", "K0", "int *", "int &", "K0 *", "K0 &", "int **", "const int *", "const int &", "std::vector<int>"]:
    for n, v in (("IsScalar", t in sc), ("IsPointer", t.endswith("*")), ("IsReference", t.endswith("&"))):
        E(f'  CHECK("type", Utility::{n}<{t}>::Value() == {str(v).lower()}, << "{n}<{t}>");')
    for u in ["int", "int *", "int &", "K0", t]:
        E(f'  CHECK("identical", (Utility::IsIdentical<{t}, {u}>::Value()) == {str(t == u).lower()}, << "{t} {u}");')
    if not t.endswith("&"):
        b = t[:-1].rstrip() if t.endswith("*") else t
        cb = f"std::add_const<{b}>::type"
        E(f'  CHECK("traits", (std::is_same<Utility::TypeTraits<{t}>::Type, {t}>::value && std::is_same<Utility::TypeTraits<{t}>::Reference, {b} &>::value && std::is_same<Utility::TypeTraits<{t}>::ReferenceC, {cb} &>::value && std::is_same<Utility::TypeTraits<{t}>::Pointer, {b} *>::value && std::is_same<Utility::TypeTraits<{t}>::PointerC, {cb} *>::value), << "{t}");')
        E(f'  CHECK("pointer", (std::is_same<Utility::Pointer<{t}>::Declaration, {t} *>::value), << "{t}");')
E('  CHECK("constant", (Utility::Constant<int, 17>::Value() == 17 && Utility::Constant<char, \'x\'>::Value() == \'x\'));')
E("  g.nontrivial();\n}")
PARTS, res, k, depth = 8, [], 0, False
for line in "\n".join(out).split("\n"):
    if line.startswith("PROPERTY"):
        res.append(f"#if PART == {k % PARTS}")
        k += 1
    res.append(line)
    if line.startswith("PROPERTY") and line.endswith("}"):
        res.append("#endif")
    elif line == "}" and not res[-2].startswith("typedef CELL_COLL_"):
        res.append("#endif")
open(A.out, "w").write("\n".join(res) + "\n")
