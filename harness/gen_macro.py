#!/usr/bin/env python3
"""Writes a program with records declared by the macros (C25): every arity of
the sub-object and the top-level macros, random names and types.
With --script, the macros come from the generator script of the repository."""
import argparse, os, random, shutil, subprocess

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
P.add_argument("--script", action="store_true")
A = P.parse_args()
R = random.Random(f"macro-{A.seed}")
quick = A.tier == "quick"
if A.script:  # the headers with the output of the script
    d = os.path.join(os.path.dirname(A.out), "macros", "bcl")
    shutil.copytree(f"{A.repo}/include/bcl", d, dirs_exist_ok=True)
    with open(f"{d}/JsonObjectMacros.h", "w") as f:
        subprocess.run(["perl", "./json_object_macro_gen.pl"], cwd=f"{A.repo}/scripts", stdout=f, check=True)
PARTS = 8
SIMPLE = ["int", "unsigned", "long long", "bool", "std::string", "unsigned long", "std::vector<int>", "std::vector<std::string>", "std::set<int>"]
COMMA = ["std::map<std::string, int>", "std::map<int, std::string>", "std::vector<int, std::allocator<int>>",
         "std::set<int, std::greater<int>>", "std::map<std::string, std::vector<int>>", "std::map<std::string, std::map<int, bool>>"]
SCALAR = {"int", "unsigned", "long long", "bool", "std::string", "unsigned long"}
NAMES = ["A", "a", "AA", "Name", "Type", "Object", "Value", "X", "x", "ab", "abc", "abcd", "Ab", "Key", "Text", "First", "Second",
         "Names", "_x", "x_", "x1", "x10", "x11", "x2", "Impl", "Field", "Fields", "Map", "Age", "age", "Size", "String", "Int", "T", "U", "Traits", "Parser", "Cell"]
objs = []  # (namespace path, name, root, part, fields)


def declare(k, n, root, how):
    part = k % PARTS
    ns = R.choice([[], [], ["space"], ["outer", "inner"]])
    name = f"Obj{k}" + R.choice(["", "x", "_"])
    names = R.sample(NAMES + [f"f{j}" for j in range(8)], n)
    types = []
    subs = [o for o in objs if o[3] == part and not o[2] and len(o[4]) < 6]
    for _ in range(n):
        c = R.random()
        if c < .25:
            t = R.choice(COMMA)
        elif c < .35 and subs:
            s = R.choice(subs)
            t = "::" + "::".join(s[0] + [s[1]])
        else:
            t = R.choice(SIMPLE)
        types.append(t)
    if n == 1 and k % 3:
        types = [R.choice(COMMA)]
    arg = [t if "," not in t and R.random() < .7 else f"BCL_JOIN({t})" for t in types]
    L = []
    L.append("".join(f"namespace {x} {{ " for x in ns))
    L.append(f"JSON_OBJECT_BEGIN({name})")
    rt = "_ROOT" if root else ""
    if how == "pair":
        sfx = f"_{n}" if n > 1 else ""
        L.append(f"JSON_OBJECT{rt}_PAIR{sfx}({name}, " + ", ".join(f"{a}, {b}" for a, b in zip(names, arg)) + ")")
    else:  # the parts by hand
        j = 0
        while j < n:
            m = min(n - j, R.choice([1, 1, 2, 3, 7]))
            pr = ", ".join(f"{names[i]}, {arg[i]}" for i in range(j, j + m))
            L.append(f"JSON_VALUE{'_%d' % m if m > 1 else ''}({pr})")
            j += m
        L.append(f"JSON_OBJECT{rt}({name}, " + ", ".join(names) + ")")
        j = 0
        while j < n:
            m = min(n - j, R.choice([1, 1, 2, 3, 7]))
            L.append(f"JSON_ACCESS{'_%d' % m if m > 1 else ''}({name}, " + ", ".join(names[j:j + m]) + ")")
            j += m
    init = [", JSON_INIT_ROOT", " : JSON_INIT_ROOT"] if root else ["", ""]
    L.append(f"  {name}(){init[1]} {{ " + " ".join(f"(*this)[{x}] = ::mx::zero<{t}>();" for x, t in zip(names, types)) + " }")
    ps = ", ".join(f"const {t} &A{i}" for i, t in enumerate(types))
    L.append(f"  {name}(int, {ps}) : JSON_INIT({name}, " + ", ".join(f"A{i}" for i in range(n)) + f"){init[0]} {{}}")
    for i, x in enumerate(names):
        L.append(f"  using Ty{i} = JSON_VALUE_TYPE({name}, {x});")
    L.append(f"JSON_OBJECT_END({name})")
    L.append("} " * len(ns))
    q = "::".join(ns) + "::" if ns else "::"
    L.append(f"JSON_DEFAULT_TRAITS({q}, {name})")
    full = "::" + "::".join(ns + [name])
    # values of this type
    L.append(f"template <> struct mx::M<{full}> {{")
    L.append(f"  static {full} gen(Gen &g) {{ {full} X; " + " ".join(f"X[{full}::{x}] = M<{t}>::gen(g);" for x, t in zip(names, types)) + " return X; }")
    L.append(f"  static std::string text(const {full} &X) {{ return " + " + ".join(f"std::string(\"{'{' if not i else ','}\\\"{x}\\\":\") + M<{t}>::text(X[{full}::{x}])" for i, (x, t) in enumerate(zip(names, types))) + " + \"}\"; }")
    L.append("};")
    L.append(f"static void test{k}(pbt::Gen &g) {{")
    L.append(f"  using O = {full};")
    L.append(f"  const char *Who = \"{full}\";")
    for i, (x, t) in enumerate(zip(names, types)):
        L.append(f"  static_assert(std::is_same<O::Ty{i}, {t}>::value && std::is_same<std::decay_t<decltype(std::declval<O &>()[O::{x}])>, {t}>::value, \"type of {x}\");")
    for i, t in enumerate(types):
        L.append(f"  {t} V{i} = mx::M<{t}>::gen(g);")
    order = list(range(n))
    R.shuffle(order)
    L.append("  NOTE(\"object \" << Who);")
    L.append("  O X;\n  if (g.coin()) {")
    L.append("    " + " ".join(f"X[O::{names[i]}] = V{i};" for i in order))
    L.append("  } else {\n    X = O(0, " + ", ".join(f"V{i}" for i in range(n)) + ");\n  }")
    L.append("  std::vector<mx::Field> Fs{")
    for i, (x, t) in enumerate(zip(names, types)):
        L.append(f"    {{\"{x}\", mx::M<{t}>::text(V{i}), &X[O::{x}], sizeof V{i}, {'true' if t in SCALAR else 'false'}}},")
    L.append("  };")
    L.append("  mx::layout(Who, X, Fs);")
    def same(obj, tag, skip=None):
        for i, (x, t) in enumerate(zip(names, types)):
            c = f"Skip == {i} || " if skip else ""
            L.append(f"  CHECK(\"{tag}\", {c}(mx::M<{t}>::text({obj}[O::{x}]) == Fs[{i}].Want), << Who << \": {x} is \" << mx::M<{t}>::text({obj}[O::{x}]) << \", expected \" << Fs[{i}].Want);")
    same("X", "value")
    L.append("  if (g.coin()) {\n  O C(X);\n  const O &D = C;")
    same("D", "copy")
    L.append("  }")
    prs = f"json::Parser<{full}>"
    L.append("  std::string T = json::Parser<>::unparse(X), W = mx::wanted(Fs);")
    L.append("  CHECK(\"text\", mx::strip(T) == W, << Who << \" is written as \" << T << \", expected \" << W);")
    if root:
        L.append(f"  T = {prs}::unparseAsObject(X); W = mx::wanted(Fs, \"{name}\");")
        L.append("  CHECK(\"object-text\", mx::strip(T) == W, << Who << \" is written as \" << T << \", expected \" << W);")
        L.append(f"  CHECK(\"object-name\", O::name() == \"{name}\" && X.getName() == \"{name}\");")
    L.append("  int Skip = -1; std::string Other;")
    L.append("  if (g.chance(1, 3)) { Skip = (int)g.below(Fs.size()); if (!Fs[Skip].Scalar) Skip = -1; else Other = mx::resembling(g, Fs, Skip); }")
    L.append("  {\n  std::string In = mx::shuffled(g, Fs, Skip, Other);\n  json::Parser<> P(In);")
    L.append("  O Y;\n  " + " ".join(f"Y[O::{x}] = mx::zero<{t}>();" for x, t in zip(names, types)))
    L.append("  NOTE(In);\n  bool Ok = P.parse(Y);")
    L.append("  CHECK(\"read\", Ok, << Who << \" is not read from \" << In << mx::errs(P));")
    same("Y", "read-value", True)
    for i, (x, t) in enumerate(zip(names, types)):
        if t in SCALAR:
            L.append(f"  CHECK(\"read-unknown\", (Skip != {i} || Y[O::{x}] == mx::zero<{t}>()), << Who << \": {x} is read from \" << Other);")
    L.append("  }")
    if root:
        L.append(f"  {{\n  std::string In = mx::shuffled(g, Fs, -1, Other, \"{name}\");\n  {prs} P(In);\n  auto Y = P.parse();")
        L.append("  CHECK(\"read-object\", Y && Y->is<O>(), << Who << \" is not read from \" << In << mx::errs(P));")
        same("Y->as<O>()", "read-object-value")
        L.append("  }")
    L.append("  if (Fs.size() > 2) g.nontrivial();")
    L.append("}")
    objs.append((ns, name, root, part, names))
    return part, k, "\n".join(L)


todo = []
# Small sub-objects first: they are types of other fields.
for _ in range(PARTS):
    todo.append((R.randint(1, 4), False, "pair"))
ar = [(n, root, "pair") for n in range(1, 31) for root in (False, True)]
if A.script:
    ar = [x for x in ar if x[0] in (1, 2, 3, 15, 30) or R.random() < .15]
R.shuffle(ar)
todo += ar
for _ in range(PARTS if quick else 4 * PARTS):
    todo.append((R.choice([1, 2, 3, R.randint(4, 30)]), R.random() < .5, R.choice(["parts", "parts", "pair"])))
parts = [[] for _ in range(PARTS)]
for k, (n, root, how) in enumerate(todo):
    p, i, text = declare(k, n, root, how)
    parts[p].append((i, text))
out = ['#include "macrox.h"']
for p, l in enumerate(parts):
    out.append(f"#if PART == {p}")
    for _, t in l:
        out.append(t)
    out.append(f"static void (*const gTests[])(pbt::Gen &) = {{" + ", ".join(f"test{i}" for i, _ in l) + "};")
    out.append(f"PROPERTY(records{p}, 2000, 40000, O.Guided = false) {{ gTests[g.below(sizeof gTests / sizeof *gTests)](g); }}")
    out.append("#endif")
open(A.out, "w").write("\n".join(out) + "\n")
