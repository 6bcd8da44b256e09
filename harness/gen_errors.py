#!/usr/bin/env python3
"""Writes applications with declared errors and what is expected of them (C30)."""
import argparse, random

P = argparse.ArgumentParser()
for o in ("seed", "tier", "repo", "out"):
    P.add_argument("--" + o)
A = P.parse_args()
R = random.Random(f"errors-{A.seed}")
quick = A.tier == "quick"
out = []
E = out.append
E('#include "errorx.h"\nusing namespace ex;')
STD = [("Base::ErrorList::Warning", "warning"), ("Base::ErrorList::Error", "error"), ("Base::ErrorList::Fatal", "fatal error")]
E('struct Note { TO_TEXT(Brief, "note") typedef Utility::Null ValueType; };')
E('struct Crash { TO_TEXT(Brief, "crash") typedef Utility::Null ValueType; };')
NOTE, CRASH = ("Note", "note"), ("Crash", "crash")
PRIOS = [("Base::ErrorList::Priority", STD),
         ("CELL_COLL_2( Base::ErrorList::Error, Base::ErrorList::Warning)", [STD[1], STD[0]]),
         ("CELL_COLL_4( Note, Base::ErrorList::Warning, Base::ErrorList::Error, Crash)", [NOTE, STD[0], STD[1], CRASH]),
         ("CELL_COLL_1( Base::ErrorList::Error)", [STD[1]])]
ALL = STD + [NOTE, CRASH, ("Utility::Null", None)]
BRIEFS = ["cannot open", "cannot read", "type", "", "no such thing", "a", "100%", "limit: reached", "a \\\"quote\\\""]
count = 0


class Err:
    def __init__(self, depth, prio):
        global count
        self.name = f"E{count}"
        count += 1
        self.brief = R.choice(BRIEFS) + f" {count}"
        self.type = R.choice(prio if R.random() < 0.7 else ALL)
        self.subs = [Err(depth - 1, prio) for _ in range(R.choice([0, 0, 1, 2, 3]))] if depth else []
        s = ", ".join(x.name for x in self.subs)
        s = f"CELL_COLL_{len(self.subs)}( {s})" if s else "Utility::Null"
        E(f'ERROR_DECL( {self.name}, TEXT( "{self.brief}"), {s}, {self.type[0]})')

    def size(self):
        return 1 + sum(x.size() for x in self.subs)


class App:
    def __init__(self, i, used):
        self.name, self.used = f"App{i}", used
        self.prio = PRIOS[(i + 1) % 4] if i < 4 else R.choice(PRIOS)
        self.errors = [Err(R.choice([0, 1, 2, 3]), self.prio[1]) for _ in range(R.randint(1, 5))]
        self.acr = R.choice(["DB", "X", "", "A b"]) + str(i)
        E(f"struct {self.name} {{")
        E(f'  DESCRIPTION_FIELD( Acronym, TEXT( "Acronym"), TEXT( "{self.acr}"))')
        E(f"  typedef CELL_COLL_{len(self.errors)}( {', '.join(e.name for e in self.errors)}) Errors;")
        E(f"  typedef {self.prio[0]} ErrorPriority;")
        u = f"CELL_COLL_{len(used)}( {', '.join(a.name for a in used)})" if used else "Utility::Null"
        E(f"  typedef {u} Applications;\n  typedef Utility::Null ValueType;\n}};")

    def total(self):
        return sum(e.size() for e in self.errors)

    def order(self):
        """Applications in the order in which their errors are numbered."""
        r = [self]
        for a in self.used:
            r += a.order()
        return r


class Bcl(App):
    def __init__(self):
        self.name, self.used, self.acr, self.prio = "Base::BCL", [], "BCL", PRIOS[0]
        self.errors = []
        for n, b, t in (("Assign", "can't assign undefined value to a strong value object", 1), ("TypeCast", "type cast is not valid", 1),
                        ("NullDereference", "null pointer dereference", 2), ("Unclassified", "unclassified error", 1),
                        ("Unsupported", "functionality is unsupported yet", 1), ("CopyString", "can't copy string", 1), ("ConvertString", "can't convert string", 1)):
            e = Err.__new__(Err)
            e.name, e.brief, e.type, e.subs = "Base::ErrorList::" + n, b, STD[t], []
            self.errors.append(e)


apps, free = [Bcl()], []
free = [apps[0]]
SHAPES = [1, 0, 2, 0, 2, 0, 0, 3]  # how many of the last free applications are used by the first ones
for i in range(11 if quick else 27):
    n = min(len(free), SHAPES[i] if i < len(SHAPES) else R.choice([0, 0, 1, 2, 3]))
    used = free[-n:] if n and i < len(SHAPES) else R.sample(free, n)  # every application is used at most once
    if i == 7:
        used.reverse()
    a = App(i, used)
    free = [x for x in free if x not in used] + [a]
    apps.append(a)
rows, k = [], 0
E("static const std::vector<Row> Rows = {")
for ai, a in enumerate(apps):
    code = 0

    def walk(path):
        global k
        nonlocal_code[0] += 1
        c = nonlocal_code[0]
        p = a.prio[1]
        for e in path:
            if e.type in p:
                p = p[p.index(e.type):]
        idt = f"CELL_COLL_{len(path)}( {', '.join(e.name for e in path)})"
        br = ": ".join(e.brief for e in path)
        par = ": ".join(e.brief for e in path[:-1])
        n = a.name
        ids = f"{n}, {idt}"
        E(f'  {{"{n} {"/".join(e.name for e in path)}", {ai}, rowCode<{ids}>, rowType<{ids}>, rowBrief<{idt}>, rowText<{ids}>, rowCaught<{ids}>, rowThrow<{ids}>, rowCast<{ids}>,'
          f' {c}, "{p[0][1]}", "{br}", "{par}", "{a.acr}: {p[0][1]} {c}: {br}", {len(path)}}},')
        k += 1
        for e in path[-1].subs:
            walk(path + [e])
    nonlocal_code = [0]
    for e in a.errors:
        walk([e])
E("};")
E("static const std::vector<View> Views = {")
for a in apps:
    off, o = {}, 0
    for x in a.order():
        off[x.name] = o
        o += x.total()
    E(f'  {{"{a.acr}", viewCode<{a.name}>, viewText<{a.name}>, viewOwn<{a.name}>, {{{", ".join(str(off.get(b.name, -1)) for b in apps)}}}}},')
E("};")
E("PROPERTY(errors, 60000, 600000) { runErrors(g, Rows, Views); }")
E("PROPERTY(unique, 1, 1) { runUnique(g, Rows, Views); }")
E("PROPERTY(count, 1, 1) {")
for a in apps:
    for top in a.errors:
        st = [top]
        while st:
            e = st.pop()
            st += e.subs
            E(f'  CHECK("count", Base::CountOfErrors<{e.name}>() == {e.size() - 1}, << "{e.name}: " << Base::CountOfErrors<{e.name}>());')
E("  g.nontrivial();\n}")
E("PROPERTY(parent, 1, 1) {")
for a in apps:
    def par(path):
        t = lambda p: "Utility::Null" if not p else f"CELL_COLL_{len(p)}( {', '.join(e.name for e in p)})"
        E(f'  CHECK("parent", (std::is_same<Base::ErrorTraits<{t(path)}>::ParentId, {t(path[:-1])}>::value && std::is_same<Base::ErrorTraits<{t(path)}>::ErrorId, {t(path)}>::value), << "{"/".join(e.name for e in path)}");')
        for e in path[-1].subs:
            par(path + [e])
    for e in a.errors:
        par([e])
E("  g.nontrivial();\n}")
open(A.out, "w").write("\n".join(out) + "\n")
