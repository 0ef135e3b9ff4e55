"""Checks of lrp's own properties."""
from concurrent.futures import ThreadPoolExecutor
from common import *


def c01(run):
    mc_sets(run)
    gs, rng = grammars(run, run.pick(700, 6000), run.pick(600, 6000), nstruct=run.pick(40, 300))
    # every arrangement of cycles through three or four rules, at either end
    for k in (3, 4):
        N = "ABCD"[:k]
        for perm in itertools.permutations(N[1:]):
            order = (N[0],) + perm
            for side in "lr":
                for t in (0, 1):
                    prods = [("S", ["A"])]
                    for i, a in enumerate(order):
                        b = order[(i + 1) % k]
                        x = "xyzw"[i]
                        prods.append((a, ([b, x] if side == "l" else [x, b]) if t else [b]))
                        if i % 2 == 0:
                            prods.append((a, ["abcd"[i]]))
                    gs.append(("cyc%d%s%s%d" % (k, "".join(order), side, t), dict(start="S", eof="$", nts=["S"] + list(N), prods=prods)))
    cases = []
    for i, (name, g) in enumerate(gs):
        c = Case(name, g, TYPES[i % 3], i)
        c.op("sets")
        cases.append(c)
    run_cases(harness(), cases)
    recs = [{"id": c.id, "g": spec_grammar(c.g), "sets": c.out[0]} for c in cases if c.out[0]]
    run.conf("ConfSets", ["Terminates", "FirstExact", "FollowExact", "OnlyRules", "FirstOfSets"], recs)
    run.notes["corpus"] = dist(gs)
    large(run, ["Answers", "First", "Follow"], (), sets=True)



def automata(run, kinds, compacts, gs, inv, big=lambda g: False, module="ConfAutomaton"):
    """Tables of every grammar for the given constructions against the specification's automata."""
    cases = []
    for i, (name, g) in enumerate(gs):
        c = Case(name, g, TYPES[i % 3], i)
        c.want = []
        for k in kinds:
            for m in compacts:
                c.want.append((k, m, c.op("tab", k, m)))
        cases.append(c)
    run_cases(harness(), cases)
    recs = []
    for c in cases:
        tabs = []
        for k, m, o in c.want:
            if c.out[o]:
                t = {x: y for x, y in c.out[o].items() if x not in ("case", "op", "name")}
                t.update(kind=k, compact=m)
                tabs.append(t)
        if tabs:
            recs.append({"id": c.id, "g": spec_grammar(c.g), "big": big(c.g), "tabs": tabs})
    run.conf(module, inv, recs, weight=lambda r: sum(len(t.get("rows", [])) for t in r["tabs"]) + 3)
    run.notes["corpus"] = dist(gs)
    run.notes["tables"] = sum(len(r["tabs"]) for r in recs)
    run.notes["tables_with_conflicts"] = sum(1 for r in recs for t in r["tabs"] if t.get("conf"))
    return recs


TABLES = ["Terminates", "InTable", "TransitionsExact", "ReductionsExact", "NoEmptyCell", "ItemsExact", "CountExact"]


def c02(run):
    mc_theory(run, [], True)
    gs, _ = grammars(run, run.pick(500, 5000), run.pick(300, 4000), nstruct=run.pick(60, 600))
    automata(run, ["clr"], [0], gs, TABLES)
    large(run, ["Counts"], ("clr",))


def c03(run):
    mc_lalr(run)
    mc_theory(run, ["LalrAlike"], False)
    gs, _ = grammars(run, run.pick(700, 7000), run.pick(300, 4000), nstruct=run.pick(60, 600))
    automata(run, ["lalr"], [0], gs, TABLES)
    large(run, ["Counts"], ("lalr",))


def c04(run):
    gs, _ = grammars(run, run.pick(700, 7000), run.pick(300, 4000), nstruct=run.pick(60, 600))
    automata(run, ["slr"], [0], gs, TABLES)
    large(run, ["Counts"], ("slr",))


def c05(run):
    gs, _ = grammars(run, run.pick(300, 3000), run.pick(200, 2000), nstruct=run.pick(40, 400))
    automata(run, ["clr", "lalr", "slr"], [0, 1], gs, ["Terminates", "ConflictsExact", "ConflictCountExact"])
    # what a parse does about them
    gs, rng = pick_gs(run, (90, 90, 10), (900, 900, 100))
    runs(run, ["Halts", "ConflictsStop"], gs, rng, run.pick(5, 10))



def runs(run, inv, gs, rng, ninp, kinds=("clr", "lalr", "slr"), compacts=(0,), budget=10, odd=True, rotate=True, extra=None, per_kind_inputs=None):
    """Records runs of the real driver, step by step, and validates them against the specification's driver."""
    cases = []
    for i, (name, g) in enumerate(gs):
        c = Case(name, g, TYPES[i % 3], i)
        c.tabs = [(k, m, c.op("tab", k, m)) for k in kinds for m in compacts]
        ins = corpus.inputs(g, rng, ninp * (2 if name in corpus.FIXED else 1), budget=budget, odd=odd)
        if extra:
            ins += [w for w in extra(name, g) if w not in ins]
        c.runs = []
        for w in ins:
            for t, (k, m, _) in enumerate(c.tabs):
                c.runs.append((t + 1, w, c.op("run", k, m, *w)))
        cases.append(c)
    run_cases(harness(), cases)
    recs, nruns = [], 0
    verdicts = {}
    for c in cases:
        if any(c.out[o] is None for _, _, o in c.tabs):
            continue
        tabs = []
        for k, m, o in c.tabs:
            t = {x: y for x, y in c.out[o].items() if x in ("rows", "conf", "before", "bad")}
            t.update(kind=k, compact=m)
            tabs.append(t)
        rr = []
        for t, w, o in c.runs:
            if c.out[o] is None:
                continue
            x = {a: b for a, b in c.out[o].items() if a not in ("case", "op", "name")}
            x.update(tab=t, toks=w)
            rr.append(x)
            e = x.get("res", {}).get("e", "none")
            verdicts[e] = verdicts.get(e, 0) + 1
        nruns += len(rr)
        recs.append({"id": c.id, "g": spec_grammar(c.g), "tabs": tabs, "runs": rr})
    run.conf("ConfRun", inv, recs, weight=lambda r: sum(len(x.get("ev", [])) for x in r["runs"]) + 3, traces=nruns)
    run.notes["corpus"] = dist(gs)
    run.notes["runs_by_outcome"] = verdicts
    run.notes["steps_followed"] = sum(len(x.get("ev", [])) for r in recs for x in r["runs"])
    return recs


def deep(name, g):
    """Long inputs for a few grammars."""
    L = {
        "expr": [["("] * 30 + ["id"] + [")"] * 30, ["id"] + ["+", "id", "*", "id"] * 20, ["("] * 90 + ["id"] + [")"] * 90, ["id"] + ["+", "id"] * 300],
        "exprR": [["id"] + ["+", "id"] * 40],
        "nested": [["("] * 55 + ["x"] + [")"] * 55, ["("] * 55 + ["x"] + [")"] * 54, ["("] * 300 + ["x"] + [")"] * 300, ["("] * 140 + ["x"] + [")"] * 139],
        "anbn": [["a"] * 40 + ["b"] * 40, ["a"] * 40 + ["b"] * 41, ["a"] * 270 + ["b"] * 270],
        "startlong2": [["b"] * 70 + ["a"] * 3, ["a"] + ["b"] * 270 + ["a", "a"]],
        "dragon": [["c"] * 60 + ["d"] + ["c"] * 5 + ["d"]],
        "long": [list("abcdefghijk") * 3 + ["z"], (list("abcdefghijk")) * 3 + ["z"] + ["l"] * 3],
        "chain": [["d", "d"]],
        "many": [["t44"], ["t45"], ["t7"]],
    }
    return L.get(name, [])


def pick_gs(run, quick, thorough, **kw):
    a, b, c = run.pick(quick, thorough)
    return grammars(run, a, b, nstruct=c, **kw)


# the grammars of spec/Families.tla, and the words of the input of parameters i, j, k
FAMS = {
    "nest": ([("S1", ["S"]), ("S", ["a", "S", "b"]), ("S", ["c"])], lambda i, j, k: ["a*%d" % i, "c*%d" % j, "b*%d" % k]),
    "right": ([("S1", ["L"]), ("L", ["X", "L"]), ("L", ["X"]), ("X", ["a"])], lambda i, j, k: ["a*%d" % i, "z*%d" % j]),
    "left": ([("S1", ["L"]), ("L", ["L", "X"]), ("L", ["X"]), ("X", ["a"])], lambda i, j, k: ["a*%d" % i, "z*%d" % j]),
    "list": ([("S1", ["E"]), ("E", ["E", "+", "T"]), ("E", ["T"]), ("T", ["n"]), ("T", ["(", "E", ")"])],
             lambda i, j, k: ["(*%d" % i, "n*1", "+,n*%d" % j, ")*%d" % k]),
}


def t_(i):
    return "t%d" % i


# grammars of any size n, and the words of the input of parameters i, j
SIZED = {
    "wide": (lambda n: [("S1", ["X"])] + [("X", [t_(q)]) for q in range(1, n + 1)],
             lambda n, i, j: ["%s*1" % t_(i)] * (i > 0) + ["z*%d" % j]),
    "body": (lambda n: [("S1", ["X"]), ("X", [t_(q) for q in range(1, n + 1)])],
             lambda n, i, j: ["%s*1" % t_(q) for q in range(1, i + 1)] + ["z*%d" % j]),
    "chain": (lambda n: [("S1", ["A1"])] + [("A%d" % q, ["A%d" % (q + 1) if q < n else "t1"]) for q in range(1, n + 1)],
              lambda n, i, j: ["t1*%d" % i, "z*%d" % j]),
    "rules": (lambda n: [("S1", ["A1"])] + [("A%d" % q, [t_(q)] + ["A%d" % (q + 1)] * (q < n)) for q in range(1, n + 1)],
              lambda n, i, j: ["%s*1" % t_(q) for q in range(1, i + 1)] + ["z*%d" % j]),
    "peel": (lambda n: [("S1", ["A1"])] + [("A%d" % q, ["A%d" % (q + 1), t_(q)] if q < n else [t_(q)]) for q in range(1, n + 1)],
             lambda n, i, j: ["%s*1" % t_(n + 1 - q) for q in range(1, i + 1)] + ["z*%d" % j]),
}


def family(f, n=0):
    prods = SIZED[f][0](n) if n else FAMS[f][0]
    return {"start": "S1", "eof": "$", "nts": list(dict.fromkeys(l for l, _ in prods)), "prods": prods}


def sizes(run):
    rng = rng_of(run)
    ns = [17, 33, 65, 101, 129] + [rng.randrange(20, 120)] + ([257, 258, 300, 513] if run.thorough else [])
    return [(f, n) for f in SIZED for n in ns + ([257, 300] if f in ("wide", "body") and not run.thorough else [])]


def mc_long(run, inv, fams, most):
    p = os.path.join(run.work, "families.ndjson")
    with open(p, "w") as f:
        for x in fams:
            for n in ((1, 2, 4) if x in SIZED else (0,)):
                f.write(json.dumps({"fam": x, "n": n, "g": spec_grammar(family(x, n))}) + "\n")
    run.design("MCLong", inv, [], {"Most": most}, data=p)


def large(run, inv, kinds=("clr", "lalr", "slr"), sets=False):
    """Grammars of hundreds of rules, alternatives or symbols."""
    mc_long(run, ["Described"], list(SIZED), 0)
    cases = []
    for q, (f, n) in enumerate(sizes(run)):
        c = Case("%s%d" % (f, n), family(f, n), TYPES[q % 3], q)
        c.fam, c.n = f, n
        c.tabs = [(k, m, c.op("size", k, m)) for k in kinds for m in (0, 1)]
        c.sets = c.op("sets") if sets else None
        cases.append(c)
    run_cases(harness(), cases)
    cut = lambda o, *keys: {x: y for x, y in o.items() if x in keys + ("bad",)}
    recs = [{"id": c.id, "fam": c.fam, "n": c.n,
             "tabs": [dict(cut(c.out[o], "size"), kind=k, compact=m) for k, m, o in c.tabs if c.out[o] is not None],
             "sets": cut(c.out[c.sets], "first", "follow") if sets and c.out[c.sets] is not None else {"bad": "not asked"}} for c in cases]
    run.conf("ConfSizes", inv, recs, traces=len(recs))
    run.notes["large_grammars"] = {"grammars": len(recs), "largest": max(c.n for c in cases)}


def lengths(rng, f, quick):
    """Parameters around the sizes where counters and buffers of one byte, of a thousand and of several thousand end."""
    big = [9, 16, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1026, 2047, 2048, 2049,
           rng.randint(60, 3000), rng.randint(60, 3000)] + ([] if quick else [4095, 4096, 4097, 5000, 8191, 8193, 10000] + [rng.randint(60, 9000) for _ in range(20)])
    ps = []
    for i in [0, 1, 2, 3] + big:
        if f == "nest":
            ps += [(i, 1, i)]
            ps += [rng.choice([(i, 1, i + 1), (i, 1, max(0, i - 1)), (i, 0, i), (i, 2, i), (i, 1, 0), (i, 0, 0), (i, 1, 2 * i), (i, 1, i // 2)])]
        elif f == "list":
            j = rng.choice([0, 0, 1, 2, rng.randrange(300)])
            d = rng.choice([0, 0, 1, 2])
            ps += [(i, j, i), (d, i, d)]
            ps += [rng.choice([(i, j, i + 1), (i, j, max(0, i - 1)), (i, j, 0), (0, i, 1), (1, i, 0)])]
        else:
            ps += [(i, 0, 0), (i, rng.choice([1, 2, 300]), 0)]
    return ps


def far(run, inv):
    """Inputs of thousands of tokens, and grammars of hundreds of rules."""
    rng = rng_of(run)
    mc_long(run, ["NoConflicts", "Told", "Described", "AllowedNext"], list(FAMS) + list(SIZED), run.pick(3, 6))
    cases = []
    for f in FAMS:
        for q, kind in enumerate(("clr", "lalr", "slr")):
            for m in (0, 1):
                c = Case("%s%s%d" % (f, kind, m), family(f), TYPES[(q + m) % 3], q)
                c.fam, c.kind, c.m, c.n = f, kind, m, 0
                c.ps = lengths(rng, f, not run.thorough)
                for t in c.ps:
                    c.op("long", kind, m, *FAMS[f][1](*t))
                cases.append(c)
    for q, (f, n) in enumerate(sizes(run)):
        kind, m = ("clr", "lalr", "slr")[q % 3], q // 3 % 2
        c = Case("%s%d%s%d" % (f, n, kind, m), family(f, n), TYPES[q // 2 % 3], q)
        c.fam, c.kind, c.m, c.n = f, kind, m, n
        some = [0, 1, n, n, n - 1, n // 2] + [rng.randrange(1, n + 1) for _ in range(4)]
        c.ps = [(i, rng.choice([0, 0, 1, 3]), 0) for i in some] + [(i, 0, 0) for i in sorted({1, n, rng.randrange(1, n + 1)})]
        if f == "chain":
            c.ps = [(i, j, 0) for i in (0, 1, 2, 3) for j in (0, 2)]
        for t in c.ps:
            c.op("long", kind, m, *SIZED[f][1](n, *t[:2]))
        cases.append(c)
    run_cases(harness(), cases)
    recs = [{"id": c.id, "fam": c.fam, "n": c.n, "runs": [dict({x: y for x, y in o.items() if x not in ("case", "op", "name")}, kind=c.kind, compact=c.m, p=list(t))
                                                          for t, o in zip(c.ps, c.out) if o is not None]} for c in cases]
    n = sum(len(r["runs"]) for r in recs)
    run.conf("ConfLong", inv, recs, weight=lambda r: len(r["runs"]) * (1 + r["n"] // 20), traces=n)
    run.notes["long_inputs"] = {"runs": n, "longest": max(sum(t) for c in cases for t in c.ps)}


def probes(run, inv, gs, most, compacts=(0,), skip=("many", "many2", "wop")):
    """Every state of every table with every token."""
    cases = []
    for i, (name, g) in enumerate(gs):
        if name in skip:
            continue
        c = Case("P" + name, g, TYPES[i % 3], i)
        c.tabs = [(k, m, c.op("tab", k, m), c.op("probe", k, m, most)) for k in ("clr", "lalr", "slr") for m in compacts]
        cases.append(c)
    run_cases(harness(), cases)
    recs, n = [], 0
    for c in cases:
        if any(c.out[o] is None or c.out[q] is None for _, _, o, q in c.tabs):
            continue
        tabs, prs = [], []
        for k, m, o, q in c.tabs:
            t = {x: y for x, y in c.out[o].items() if x in ("rows", "conf", "bad")}
            t.update(kind=k, compact=m)
            tabs.append(t)
            prs.append({x: y for x, y in c.out[q].items() if x in ("probes", "bad")})
            n += sum(len(p[1]) for p in prs[-1].get("probes", []))
        recs.append({"id": c.id, "g": spec_grammar(c.g), "tabs": tabs, "probes": prs})
    run.conf("ConfProbe", inv, recs, weight=lambda r: sum(len(p[1]) * (len(p[0]) + 3) for x in r["probes"] for p in x.get("probes", [])) + 3, traces=n)
    run.notes["probes"] = run.notes.get("probes", 0) + n
    return recs


def c06(run):
    mc_driver(run, ["Outcomes", "Accepts", "Complete", "NoConflict"])
    gs, rng = pick_gs(run, (80, 60, 50), (900, 600, 500))
    runs(run, ["Halts", "Verdict", "VerdictLong"], gs, rng, run.pick(7, 12), extra=deep)
    lang(run, rng)
    gs, _ = pick_gs(run, (80, 60, 40), (900, 600, 500))
    probes(run, ["Answers", "SameOutcome", "Derivability"], gs, run.pick(40, 400))
    far(run, ["Answers", "Verdict", "Validated"])


def lang(run, rng):
    """All strings up to a length over the whole alphabet."""
    cases = []
    gs, _ = pick_gs(run, (40, 40, 0), (500, 400, 0))
    for i, (name, g) in enumerate(gs):
        T = corpus.terminals(g)
        n = next(k for k in (7, 6, 5, 4, 3, 2, 1, 0) if sum(max(1, len(T)) ** q for q in range(k + 1)) <= run.pick(130, 1500))
        if len(T) > 12 or n < 2:
            continue
        c = Case("L" + name, g, TYPES[i % 3], i)
        c.n = n
        c.k = [(k, c.op("lang", k, n)) for k in ("clr", "lalr", "slr")]
        cases.append(c)
    run_cases(harness(), cases)
    recs = []
    for c in cases:
        ls = []
        for k, o in c.k:
            if c.out[o]:
                x = {a: b for a, b in c.out[o].items() if a in ("conf", "alpha", "total", "acc", "bad")}
                x.update(kind=k)
                ls.append(x)
        recs.append({"id": c.id, "g": spec_grammar(c.g), "n": c.n, "langs": ls})
    run.conf("ConfLang", ["Answers", "Counted", "LanguageExact"], recs, weight=lambda r: r["langs"][0].get("total", 1) if r["langs"] else 1,
             traces=sum(x.get("total", 0) for r in recs for x in r["langs"]))


def c07(run):
    mc_driver(run, ["Trees"])
    gs, rng = pick_gs(run, (120, 60, 60), (1200, 600, 600))
    runs(run, ["Halts", "NoEarlyCalls", "SawCalls", "Replays", "Values", "Result"], gs, rng, run.pick(7, 12), budget=14, odd=False, extra=deep)
    far(run, ["Answers", "Called"])


def c08(run):
    mc_driver(run, ["Viable", "Refused", "Lists"])
    gs, rng = pick_gs(run, (160, 60, 80), (1500, 600, 800))
    runs(run, ["Halts", "TokenNamed", "Earliest", "Unconsumed", "SameError"], gs, rng, run.pick(8, 14), extra=deep)
    gs, _ = pick_gs(run, (120, 60, 60), (1500, 600, 800))
    probes(run, ["Answers", "SameOutcome", "SameNamed", "SamePlace", "SameCalls", "Derivability", "Precise"], gs, run.pick(60, 400))
    far(run, ["Answers", "Where"])


def c09(run):
    mc_driver(run, ["Outcomes", "Bounded", "Shape"])
    gs, rng = pick_gs(run, (130, 60, 40), (1500, 600, 400))
    runs(run, ["Halts", "StackShape", "StackPath", "SameLength", "Orderly", "SameEnd"], gs, rng, run.pick(8, 14), compacts=(0, 1), extra=deep)
    gs, _ = pick_gs(run, (100, 60, 40), (1500, 600, 400))
    probes(run, ["Answers", "SameOutcome", "SamePlace", "SameCalls"], gs, run.pick(40, 400), compacts=(0, 1))
    far(run, ["Answers", "Stack"])


def c11(run):
    mc_driver(run, ["Same"])
    gs, rng = pick_gs(run, (90, 60, 60), (1000, 600, 600))
    recs = runs(run, ["CompactSame", "CompactSize"], gs, rng, run.pick(5, 10), compacts=(0, 1, 2), extra=deep)
    prs = []
    for r in recs:
        by = {}
        for t in r["tabs"]:
            by.setdefault(t["kind"], {})[t["compact"]] = t
        prs.append({"id": r["id"], "pairs": [dict(what=k + str(m), one=d[0], two=d[m], back=[], items=False, counts=False)
                                             for k, d in by.items() for m in (1, 2)]})
    run.conf("ConfPair", ["BothAnswer", "InTables", "SameRows", "SameCounts"], prs)
    squashed(run, gs, rng)
    far(run, ["Answers", "Verdict", "Where", "Called"])


def squashed(run, gs, rng):
    """Tables changed by hand, compacted."""
    cases = []
    for i, (name, g) in enumerate(gs):
        if sum(len(r) + 1 for _, r in g["prods"]) > 60 or any("/" in x for x in corpus.symbols(g)):
            continue
        c = Case("Q" + name, g, TYPES[i % 3], i)
        syms = corpus.symbols(g)
        c.tabs = []

        def act(deep=0):
            k = rng.random()
            if k < .35 and deep < 3:
                return "c,%s,%s" % (act(deep + 1), act(deep + 1))
            return "a" if k > .9 else rng.choice("sg") + str(rng.randrange(9)) if k > .5 else "r%d" % rng.randint(1, len(g["prods"]))
        for kind in ("clr", "lalr", "slr"):
            for q in range(3):
                ed = []
                for _ in range(rng.choice([0, 1, 3, 8, 20])):
                    s = rng.randrange(rng.choice([3, 12]))
                    ed.append(rng.choice(["%d/%s/%s" % (s, rng.choice(syms), act()), "%d/%s/-" % (s, rng.choice(syms)), "%d//-" % s, "%d//%d" % (s, rng.randrange(12)), "%d//%d" % (s, rng.randrange(12))]))
                c.tabs.append((kind, c.op("squash", kind, *ed)))
        cases.append(c)
    run_cases(harness(), cases)
    recs = [{"id": c.id, "tabs": [dict(c.out[o], kind=k) for k, o in c.tabs if c.out[o] is not None]} for c in cases]
    run.conf("ConfCompact", ["Answers", "Sets", "Travel", "Compacted"], recs, weight=lambda r: sum(len(x.get("rounds", [{"rows": []}])[0]["rows"]) ** 2 + 9 for x in r["tabs"]),
             traces=sum(len(r["tabs"]) for r in recs))


def c12(run):
    mc_theory(run, ["HierarchyHolds", "NoNewShiftReduce"], False)
    mc_driver(run, ["Agree"])
    gs, rng = pick_gs(run, (200, 100, 100), (2000, 1000, 1000))
    runs(run, ["Hierarchy", "Agreement"], gs, rng, run.pick(8, 14), extra=deep)


def c15(run):
    gs, rng = pick_gs(run, (130, 60, 60), (1500, 600, 600))
    runs(run, ["Halts", "Reading", "Untouched", "LeftOver", "InOrder"], gs, rng, run.pick(8, 14), extra=deep)
    far(run, ["Answers", "Reading"])


def c17(run):
    gs, rng = grammars(run, run.pick(330, 3000), run.pick(200, 2000), nstruct=run.pick(60, 600))
    kinds = ("clr", "lalr", "slr")
    cases = []
    keys = ("rows", "items", "nstates", "conf", "bad")
    for i, (name, g) in enumerate(gs):
        syms = corpus.symbols(g)
        variants = [("str", g, [])]
        for q, ty in enumerate(rng.sample(["rev", "num", "num"], 2)):
            variants.append((ty, g, []))
        for q in range(2):
            new = ["x%02d" % k for k in range(len(syms))]
            rng.shuffle(new)
            f = dict(zip(syms, new))
            h = corpus.rename(g, f)
            if rng.random() < .5:
                # the rules in another order too (alternatives keep theirs)
                o = h["nts"][:]
                rng.shuffle(o)
                h = dict(h, nts=o)
            variants.append((rng.choice(["str", "rev"]), h, [[b, a] for a, b in f.items()]))
        for v, (ty, h, back) in enumerate(variants):
            c = Case("%s#%d" % (name, v), h, ty, rng.randrange(10 ** 6))
            c.base, c.back = i, back
            for k in kinds:
                c.op("tab", k, 0)
            cases.append(c)
    run_cases(harness(), cases)
    recs = []
    by = {}
    for c in cases:
        by.setdefault(c.base, []).append(c)
    for i, cs in by.items():
        pairs = []
        for c in cs[1:]:
            for q, k in enumerate(kinds):
                if cs[0].out[q] and c.out[q]:
                    cut = lambda o: {x: y for x, y in o.items() if x in keys}
                    pairs.append(dict(what="%s/%s/%s" % (k, c.ty, c.id.split("#")[1]), one=cut(cs[0].out[q]), two=cut(c.out[q]), back=c.back,
                                      items=True, counts=k != "clr"))
        recs.append({"id": gs[i][0], "pairs": pairs})
    run.conf("ConfPair", ["BothAnswer", "InTables", "SameRows", "SameItems", "SameCounts"], recs, traces=sum(len(r["pairs"]) for r in recs))
    run.notes["corpus"] = dist(gs)


def histories(g, rng, count, steps):
    """Sequences of driver operations; single steps only where no rule's name is among the tokens."""
    ins = corpus.inputs(g, rng, 10, budget=8)
    plain = [w for w in ins if not set(w) & set(g["nts"])]
    out = []
    for q in range(count):
        h = []
        stepping = steps and q % 2 == 0
        pool = plain if stepping else ins
        for _ in range(rng.randint(3, 9)):
            k = rng.random()
            w = rng.choice(pool)
            if stepping:
                if k < .3:
                    h.append(["new"] + w)
                elif k < .62:
                    h.append(["step", str(rng.choice([1, 1, 2, 3, 5, 9]))])
                elif k < .74:
                    h.append(["clone"])
                elif k < .86:
                    h.append(["swap"])
                elif k < .89:
                    h.append(["reset"])
                elif k < .92:
                    h.append(["start"])
                elif k < .94:
                    h.append(["take"])
                elif k < .97:
                    h.append(["feed"] + w)
                else:
                    h.append(["parse"] + w)
            elif k < .45:
                h.append(["parse"] + w)
            elif k < .53:
                h.append(["new"] + w)
            elif k < .6:
                h.append(["feed"] + w)
            elif k < .74:
                h.append(["start"])
            elif k < .8:
                h.append(["take"])
            elif k < .87:
                h.append(["reset"])
            elif k < .94:
                h.append(["clone"])
            else:
                h.append(["swap"])
        if stepping and h[0][0] != "new":
            h = [["new"] + rng.choice(plain)] + h
        out.append(h)
    return out


def c10(run):
    gs, rng = pick_gs(run, (110, 60, 60), (1200, 600, 600))
    cases = []
    nops = {}
    for i, (name, g) in enumerate(gs):
        c = Case(name, g, TYPES[i % 3], i)
        ks = ["clr", "lalr", "slr"]
        ks = [(ks[i % 3], 0), (ks[(i + 1) % 3], i % 2)]
        c.tabs = [(k, m, c.op("tab", k, m)) for k, m in ks]
        c.hists = []
        # a derivation A => A makes single steps go round for ever
        loops = cyclic(g)
        for h in histories(g, rng, run.pick(6, 10), not loops):
            for o in h:
                nops[o[0]] = nops.get(o[0], 0) + 1
            for t, (k, m, _) in enumerate(c.tabs):
                words = []
                for o in h:
                    words += o + ["|"]
                c.hists.append((t + 1, h, c.op("hist", k, m, *words[:-1])))
        cases.append(c)
    # those of the specification, in pieces
    for (name, kind, m, _), hs in spec_histories(run):
        for q in range(0, len(hs), 150):
            c = Case("ops-%s-%d" % (name, q), corpus.FIXED[name], TYPES[q // 150 % 3], q)
            c.tabs = [(kind, m, c.op("tab", kind, m))]
            c.hists = [(1, h, c.op("hist", kind, m, *" | ".join(" ".join(o) for o in h).split())) for h in hs[q:q + 150]]
            cases.append(c)
    run_cases(harness(), cases)
    recs = []
    for c in cases:
        if any(c.out[o] is None for _, _, o in c.tabs):
            continue
        tabs = [dict(kind=k + ("+" if m else ""), rows=c.out[o].get("rows", []), **({"bad": c.out[o]["bad"]} if "bad" in c.out[o] else {})) for k, m, o in c.tabs]
        hh = []
        for t, h, o in c.hists:
            if c.out[o] is None:
                continue
            x = {"tab": t}
            if "bad" in c.out[o]:
                x.update(bad=c.out[o]["bad"], hist=[dict(o=z[0], a=z[1:]) for z in h])
            else:
                x["hist"] = c.out[o]["hist"]
                for z in x["hist"]:
                    if z["o"] == "step":
                        z["n"] = int(z["a"][0])
            hh.append(x)
        recs.append({"id": c.id, "g": spec_grammar(c.g), "tabs": tabs, "hists": hh})
    run.conf("ConfHist", ["Answers", "Verdicts", "ValuesMatch", "Errors", "ConfErrors", "Holds", "NoResurrection"], recs,
             weight=lambda r: sum(len(x["hist"]) for x in r["hists"]) + 3, traces=sum(len(r["hists"]) for r in recs))
    run.notes["corpus"] = dist(gs)
    run.notes["operations"] = nops


def cyclic(g):
    """Does some A derive itself through single-symbol alternatives?"""
    e = {}
    for l, r in g["prods"]:
        if len(r) == 1 and r[0] in g["nts"]:
            e.setdefault(l, set()).add(r[0])
    for a in e:
        seen, todo = set(), list(e[a])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += e.get(x, ())
        if a in seen:
            return True
    return False


def c13(run):
    gs, _ = grammars(run, run.pick(300, 3000), run.pick(200, 2000), nstruct=run.pick(60, 600))
    cases = []
    for i, (name, g) in enumerate(gs):
        c = Case(name, g, TYPES[i % 3], i)
        c.k = [(k, c.op("kern", k)) for k in ("clr", "lalr", "slr")]
        cases.append(c)
    run_cases(harness(), cases)
    recs = []
    for c in cases:
        ks = []
        for k, o in c.k:
            if c.out[o]:
                x = {a: b for a, b in c.out[o].items() if a not in ("case", "op", "name")}
                x["kind"] = k
                ks.append(x)
        recs.append({"id": c.id, "g": spec_grammar(c.g), "kerns": ks})
    run.conf("ConfKern", ["Answers", "AllSymbols", "Agrees", "Included", "Final", "Covered", "Missing", "OneEach"], recs,
             weight=lambda r: sum(len(k.get("look", [])) for k in r["kerns"]) + 3, traces=sum(len(r["kerns"]) for r in recs))
    run.notes["corpus"] = dist(gs)
    run.notes["lookups"] = sum(len(k.get("look", [])) + len(k.get("miss", [])) for r in recs for k in r["kerns"])


MACRO_MAIN = """use lrp::{grammar::Rule, Grammar, RuleMap};
use std::fmt::Debug;
fn js(s: &str) -> String { format!("{:?}", s) }
fn arr(i: impl Iterator<Item = String>) -> String { format!("[{}]", i.collect::<Vec<_>>().join(",")) }
pub fn show<T: Clone + Ord + Debug>(id: &str, start: T, rules: RuleMap<T>, eof: T, nm: fn(&T) -> String) {
    let g = Grammar::new(start, rules, eof);
    let n = |s: &T| js(&nm(s));
    let isterm: Vec<T> = g.symbols().filter(|s| g.is_terminal(s)).collect();
    let b = g.basis();
    println!("{{\\"id\\":{},\\"terminals\\":{},\\"symbols\\":{},\\"isterm\\":{},\\"probe\\":{},\\"rules\\":{},\\"keys\\":{},\\"rnames\\":{},\\"basis\\":[{},{},{},{},{}]}}",
        js(id), arr(g.terminals.iter().map(n)), arr(g.symbols().map(|s| n(&s))), arr(isterm.iter().map(n)), arr(g.symbols().map(|s| n(&s))),
        arr(g.rules().flat_map(|r: &Rule<T>| r.prods().map(|p| format!("[{},{},{}]", n(&r.name), p.1, arr(p.0.iter().map(n)))).collect::<Vec<_>>())),
        arr(g.rules.keys().map(n)), arr(g.rules().map(|r| n(&r.name))),
        n(&b.rule), b.seq.1, arr(b.seq.0.iter().map(n)), b.point, arr(b.look.iter().map(n)));
}
"""


def macro_grammars(run, gs, rng):
    """The grammars written with grammar_map!, compiled and looked at: {name: (grammar, what it is)}."""
    from wlib import artifacts
    lib = artifacts()["lrp_repo"]
    d = os.path.join(run.work, "macro")
    os.makedirs(d, exist_ok=True)
    ways, by = {}, {}
    for i, (name, g) in enumerate(gs):
        m = "m%d" % i
        by[m] = (name, g)
        syms = corpus.symbols(g) + [g["eof"]]
        nts = [a for a in g["nts"] if any(p[0] == a for p in g["prods"])]
        way = ("literal", "const", "enum")[i % 3]
        nm = {x: json.dumps(x) if way == "literal" else "S%d" % k for k, x in enumerate(dict.fromkeys(nts + syms))}
        order = nts[:]
        rng.shuffle(order)
        text = ",\n".join("  %s -> %s" % (nm[a], " | ".join(" ".join(nm[x] for x in r) for l, r in g["prods"] if l == a)) for a in order)
        if way == "enum":
            ways[m] = ("#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\npub enum T { %s }\nuse T::*;\n" % ", ".join(rng.sample(list(nm.values()), len(nm)))
                       + "fn nm(t: &T) -> String { match t { %s }.to_string() }\n" % ", ".join("%s => %s" % (v, json.dumps(x)) for x, v in nm.items()))
        else:
            ways[m] = "fn nm(t: &&'static str) -> String { t.to_string() }\n" + ("".join("const %s: &str = %s;\n" % (v, json.dumps(x)) for x, v in nm.items()) if way == "const" else "")
        ways[m] += "pub fn go() { crate::show(\"%s\", %s, lrp::grammar_map! {\n%s\n}, %s, nm) }\n" % (m, nm[g["start"]], text, nm[g["eof"]])
        with open(os.path.join(d, m + ".rs"), "w") as f:
            f.write(ways[m])
    out = {}
    left = list(ways)
    prog = os.path.join(d, "prog")
    while left:
        with open(os.path.join(d, "main.rs"), "w") as f:
            f.write(MACRO_MAIN + "".join("mod %s;\n" % m for m in left))
            f.write("fn main() {\n    std::panic::set_hook(Box::new(|_| ()));\n%s}\n" % "".join("    if std::panic::catch_unwind(%s::go).is_err() { println!(\"{{\\\"id\\\":\\\"%s\\\",\\\"bad\\\":\\\"panic\\\"}}\") }\n" % (m, m) for m in left))
        p = subprocess.run(["rustc", "--edition=2021", "-Cdebuginfo=0", "-Awarnings", "--crate-name=prog", "--extern", "lrp=" + lib, "-L", "dependency=" + os.path.dirname(lib),
                            "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), "-o", prog, os.path.join(d, "main.rs")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        bad = set(re.findall(r"--> (?:.*/)?(m\d+)\.rs:\d+", p.stdout)) & set(left)
        if not bad:
            raise ToolError("grammar_map! program: " + p.stdout[:3000])
        for m in bad:
            out[m] = {"id": m, "bad": "does not compile: " + p.stdout[:600]}
        left = [m for m in left if m not in bad]
    if left:
        try:
            for l in subprocess.run([prog], stdout=subprocess.PIPE, text=True, timeout=120).stdout.splitlines():
                o = json.loads(l)
                out[o["id"]] = o
        except subprocess.TimeoutExpired:
            pass
    return [(by[m][0], by[m][1], out.get(m, {"bad": "no answer"})) for m in by]


def c14(run):
    gs, rng = grammars(run, run.pick(1200, 9000), run.pick(600, 6000), nstruct=run.pick(60, 600))
    mal = []
    for name, g in gs[:run.pick(700, 5000)]:
        h = dict(g, nts=g["nts"][:], prods=[(l, r[:]) for l, r in g["prods"]])
        k = rng.random()
        if k < .5:
            # an empty alternative somewhere: in place of one, or added at any place of any rule
            i = rng.randrange(len(h["prods"]))
            if rng.random() < .5:
                h["prods"][i] = (h["prods"][i][0], [])
            else:
                h["prods"].insert(i, (rng.choice(h["nts"]), []))
                # a further alternative of the start is malformed on its own account
        elif k < .65:
            h["start"] = rng.choice(["nowhere", corpus.terminals(g)[0] if corpus.terminals(g) else "q", g["eof"]])
        elif k < .8:
            h["prods"] = [p for p in h["prods"] if p[0] != h["start"]]
        elif k < .9:
            h["prods"] = [p for p in h["prods"] if p[0] != h["start"]]
            h["nts"] = [a for a in h["nts"] if a != h["start"]]
            if not h["nts"]:
                continue
        else:
            # an unreachable rule with an empty alternative
            h["nts"].append("Unr")
            h["prods"] += [("Unr", ["Unr", "x"]), ("Unr", [])]
        mal.append(("m_" + name, h))
    cases = []
    for i, (name, g) in enumerate(gs + mal):
        c = Case(name, g, TYPES[i % 3], i)
        c.gram = c.op("gram")
        c.b = [c.op("build", k) for k in ("clr", "lalr", "slr")]
        cases.append(c)
    run_cases(harness(), cases)
    recs = []
    # those written with the macro: rules of one alternative or more, the start of one
    able = [(n, g) for n, g in gs if all(any(p[0] == a for p in g["prods"]) for a in g["nts"]) and sum(p[0] == g["start"] for p in g["prods"]) == 1]
    mac = []
    for name, g, o in macro_grammars(run, rng.sample(able, min(len(able), run.pick(150, 600))), rng):
        if "basis" in o:
            l, q, body, point, look = o["basis"]
            ps = [k for k, p in enumerate(g["prods"]) if p[0] == l]
            at = ps[q] + 1 if q < len(ps) and g["prods"][ps[q]][1] == body else 0
            o["basis"] = [at, point, look]
        mac.append(("macro-" + name, g, o))
    for name, g, gram, builds in [(c.id, c.g, c.out[c.gram], [c.out[b] for b in c.b]) for c in cases] + [(n, g, o, []) for n, g, o in mac]:
        def cut(o):
            o = {a: b for a, b in o.items() if a not in ("case", "op", "name")}
            if "bad" in o:
                o["how"] = o["bad"].split(":")[0]
            return o
        o = gram
        if o is None:
            continue
        o = cut(o)
        if "rules" in o:
            by, order = {}, []
            for nm in o["rnames"]:
                if nm not in by:
                    by[nm] = []
                    order.append(nm)
            for nm, q, body in o["rules"]:
                if nm not in by:
                    by[nm] = []
                    order.append(nm)
                by[nm].append([q, body])
            o["rules"] = [[nm, by[nm]] for nm in order]
        recs.append({"id": name, "g": spec_grammar(g), "gram": o, "builds": [cut(b) for b in builds if b]})
    run.notes["macro"] = len(mac)
    run.conf("ConfGram", ["Refused", "Politely", "Answers", "Terminals", "Symbols", "IsTerminal", "RuleNames", "Alternatives", "AllRules", "Basis"], recs,
             traces=sum(1 + len(r["builds"]) for r in recs))
    run.notes["corpus"] = dist(gs)
    run.notes["malformed"] = len(mal)
    run.notes["refused"] = sum(1 for r in recs for b in r["builds"] if "bad" in b)


def c16(run):
    gs, rng = grammars(run, run.pick(260, 3000), run.pick(120, 1500), nstruct=run.pick(40, 400))
    cases = []
    for i, (name, g) in enumerate(gs):
        c = Case(name, g, TYPES[i % 3], i)
        c.sets = []
        look = corpus.symbols(g) + ["zz", "aa"]
        for q in range(run.pick(5, 8)):
            its = []
            few = rng.random() < .6
            ps = [rng.randrange(len(g["prods"])) for _ in range(rng.choice([1, 2, 3]))] if few else list(range(len(g["prods"])))
            for _ in range(rng.choice([0, 1, 2, 4, 8, 14])):
                p = rng.choice(ps)
                n = len(g["prods"][p][1])
                d = rng.choice([0, rng.randint(0, n), rng.randint(0, n), rng.randint(0, n), n, n + 1 if rng.random() < .2 else 0])
                a = rng.sample(look, min(len(look), rng.choice([0, 1, 1, 2, 3])))
                its.append((p + 1, d, a))
                # the same body again with other lookaheads
                if rng.random() < .5:
                    its.append((p + 1, d, rng.sample(look, min(len(look), rng.choice([0, 1, 2])))))
            words = ["%d:%d:%s" % (p, d, "+".join(a)) for p, d, a in its if not any("+" in x or ":" in x for x in a)]
            given = [[p, d, a] for p, d, a in its if not any("+" in x or ":" in x for x in a)]
            c.sets.append((given, c.op("items", *words)))
        cases.append(c)
    run_cases(harness(), cases)
    recs = []
    for c in cases:
        ss = []
        for given, o in c.sets:
            if c.out[o]:
                x = {a: b for a, b in c.out[o].items() if a not in ("case", "op", "name")}
                x["given"] = given
                ss.append(x)
        recs.append({"id": c.id, "g": spec_grammar(c.g), "sets": ss})
    run.conf("ConfItems", ["Answers", "ReadBack", "Merged", "Filtered", "CoresExact", "Facts", "Prints", "AllFacts", "SameBody"], recs,
             weight=lambda r: sum(len(s.get("in", [])) ** 2 for s in r["sets"]) + 3, traces=sum(len(r["sets"]) for r in recs))
    run.notes["corpus"] = dist(gs)
    run.notes["items"] = sum(len(s.get("in", [])) for r in recs for s in r["sets"])


# ------------------------------------------------------------------ the specification by itself

def small(family, alts, alts2, length=2, **kw):
    return dict({"Family": '"%s"' % family, "MaxLen": length, "MaxAlts": alts, "MaxAlts2": alts2}, **kw)


def mc_sets(run):
    for n, c in [("cyc", small("cyc", 1, 1)), *run.pick([], [("cyc2", small("cyc", 1, 2)), ("two", small("two", 2, 2)), ("long", small("one", 2, 1, 3))])]:
        run.design("MCSets", ["NeverTooMuch", "AtOnce"], ["Ends"] if n == "cyc" else [], c, name="MCSets-" + n)
    run.design("MCSets", ["OnceEnded"], [], small("cyc", 1, 1), name="MCSets-once", expect="OnceEnded")


def mc_theory(run, inv, deriv):
    if deriv:
        run.design("MCTheory", inv + ["ItemsSound", "ItemsComplete"], [], small("one", run.pick(2, 3), 1, Deriv=7, Short=2), name="MCTheory-one")
        run.design("MCTheory", inv + ["ItemsSound"], [], small("two", 2, 1, Deriv=run.pick(5, 7), Short=0), name="MCTheory-two")
    else:
        run.design("MCTheory", inv, [], small("two", 2, run.pick(1, 2), Deriv=0, Short=0), name="MCTheory-two")
        if run.thorough:
            run.design("MCTheory", inv, [], small("one", 2, 1, 3, Deriv=0, Short=0), name="MCTheory-long")
            run.design("MCTheory", inv, [], small("one", 3, 1, Deriv=0, Short=0), name="MCTheory-one")


def mc_lalr(run):
    run.design("MCLalr", ["Exact", "OneEach"], [], small("two", 2, 1, Requeue="TRUE"), name="MCLalr-two")
    if run.thorough:
        run.design("MCLalr", ["Exact", "OneEach", "Within"], ["Ends"], small("one", 2, 1, Requeue="TRUE"), name="MCLalr-one")
        run.design("MCLalr", ["Exact", "OneEach"], [], small("two", 2, 2, Requeue="TRUE"), name="MCLalr-two2")
    run.design("MCLalr", ["Exact"], [], small("two", 2, 1, Requeue="FALSE"), name="MCLalr-once", expect="Exact")


def mc_driver(run, inv):
    run.design("MCDriver", inv, [], small("one", 2, 1, MaxIn=run.pick(4, 6)), name="MCDriver-one")
    if run.thorough:
        run.design("MCDriver", inv, [], small("two", 2, 1, MaxIn=4), name="MCDriver-two")
        run.design("MCDriver", inv, [], small("one", 3, 1, MaxIn=3), name="MCDriver-three")


# grammar, construction, compacted, inputs: read, refused, refused late or early, in conflict
OPS = [("expr", "slr", 0, ["id + id", "id + )", "( id * id"]),
       ("anbn", "clr", 0, ["a a b b", "a b b", "a"]),
       ("dangling", "lalr", 0, ["if e then o", "if e then o else o", "o o"]),
       ("unary", "lalr", 1, ["- n", "n - (", ""]),
       ("lr2", "clr", 1, ["a b c", "a", "b"]),
       ("eofmid", "slr", 0, ["a $ b", "c $", "a $ b d $"]),
       ("wiki", "clr", 1, ["0 + 1", "0 0", "1 *"]),
       ("palin", "slr", 1, ["a c a", "a c b", "c c"])]


def spec_histories(run):
    """Histories of driver operations generated from the specification: (grammar, construction, compacted) -> histories."""
    p = os.path.join(run.work, "ops.ndjson")
    with open(p, "w") as f:
        for name, kind, _, ins in OPS:
            f.write(json.dumps({"g": spec_grammar(corpus.FIXED[name]), "kind": kind, "ins": [w.split() for w in ins], "steps": [1, 2]}) + "\n")
    res = run.design("GenHist", ["Stays"], [], {"MaxOps": run.pick(4, 6)}, more="VIEW View", data=p, workers=1)
    out = {}
    for line in res.prints:
        n, h = line.split("|", 1)
        out.setdefault(int(n) - 1, []).append([o.split() for o in h.split(" | ")])
    run.notes["generated_histories"] = sum(len(h) for h in out.values())
    return [(OPS[n], h) for n, h in sorted(out.items())]


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17}


# ------------------------------------------------------------------ single operations over any table

MACH = dict(start="A", eof="$", nts=["A", "B"], prods=[("A", ["a"]), ("A", ["a", "b"]), ("B", ["A"]), ("A", ["A", "a"]), ("B", ["b", "A", "b"])])


def rng_of(run):
    return random.Random(7000 * run.seed + sum(map(ord, run.pid)))


def random_act(rng, states, x, deep=0):
    if x in MACH["nts"]:
        return "g%d" % rng.choice(states)
    r = rng.random()
    if r < .4:
        return "s%d" % rng.choice(states)
    if r < .75:
        return "r%d" % rng.randint(1, len(MACH["prods"]))
    if r < .88 and deep < 2:
        return "c,%s,%s" % (random_act(rng, states, x, deep + 1), random_act(rng, states, x, deep + 1))
    return "a"


def random_table(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    states = list(range(n)) * 4 + [n, 9]
    full = rng.choice([.4, .7, .9])
    more = ["t%d" % k for k in range(rng.choice([12, 20, 40]))] if rng.random() < .12 else []
    return n, [(i, x, random_act(rng, states, x)) for i in range(n) for x in ["a", "b", "$", "A", "B"] + more if rng.random() < full]


def small_tables(rng, most):
    """Tables of two states over one terminal and one rule."""
    cells = [("a", ["", "s0", "s1", "r1", "r3", "c,s1,r1"]), ("$", ["", "a", "r1", "r3"]), ("B", ["", "g0", "g1", "g5"]), ("A", ["", "g1"])]
    rows = list(itertools.product(*[c[1] for c in cells]))
    pairs = list(itertools.product(rows, rows))
    for r in (pairs if most >= len(pairs) else rng.sample(pairs, most)):
        yield 2, [(i, cells[k][0], r[i][k]) for i in range(2) for k in range(4) if r[i][k]]


def spec_act(a):
    f = a.split(",")

    def rd():
        x = f.pop(0)
        if x[0] == "c":
            p = rd()
            return {"k": "c", "a": p, "b": rd()}
        if x == "a":
            return {"k": "a"}
        return {"k": x[0], "p" if x[0] == "r" else "n": int(x[1:])}
    return rd()


def spec_machine(t, w):
    n, cells = t
    g = spec_grammar(MACH)
    return {"R": [p["r"] for p in g["prods"]], "L": [p["l"] for p in g["prods"]], "I": [p["i"] for p in g["prods"]], "eof": "$", "w": w,
            "rows": [[[x, spec_act(a)] for j, x, a in cells if j == i] for i in range(n)]}


def some_ops(rng, n):
    out, outside = [], rng.random() < .5
    for _ in range(rng.choice([1, 2, 3, 5, 8, 14])):
        out.append(rng.choice([["shift", str(rng.choice([0, n - 1, n, 9]))], ["goto", str(rng.choice([0, n - 1, n, 9]))], ["accept"], ["reset"], ["start"], ["start"],
                               ["reduce", str(rng.randint(1, len(MACH["prods"])))]] + [["travel", x] for x in ("a", "b", "$", "A", "B", "??")]
                              + 2 * outside * [["give", rng.choice("abAB?")], ["take"], ["leave"], ["copy"], ["parse"] + some_word(rng), ["parse"] + some_word(rng), some_edit(rng, n)]))
    return out


def some_word(rng):
    return [rng.choice("aabbab$A?") for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 14]))]


def some_edit(rng, n):
    x = rng.choice(["a", "b", "$", "A", "B"])
    return ["edit", str(rng.randrange(n)), x, rng.choice(["-", random_act(rng, list(range(n)) * 3 + [n], x)])]


def operations(run):
    """Recorded histories of single operations, for C18 and C19."""
    rng = rng_of(run)
    jobs = []       # table, [(input, operations)]
    for t in [random_table(rng) for _ in range(run.pick(900, 9000))]:
        hs = [(some_word(rng), rng.choice([[["start"]], some_ops(rng, t[0]), some_ops(rng, t[0])])) for _ in range(6)]
        jobs.append((t, hs))
    for t in small_tables(rng, run.pick(1500, 40000)):
        jobs.append((t, [(w, [["start"]]) for w in ([], ["a"], ["a", "a"], ["a"] * 5)]))
    # tall stacks, and many more states than symbols or the other way round
    up = (3, [(0, "a", "s1"), (1, "a", "s2"), (2, "a", "s0"), (0, "b", "r1"), (1, "b", "r2"), (2, "b", "r4"), (0, "A", "g1"), (1, "A", "g2"), (2, "B", "g0"), (1, "$", "r4")])
    for k in [5, 9, 12, 13, 17, 25, 33, 40, 65, 70, 101, 130] + ([200, 257, 300] if run.thorough else []):
        add = [["give", "a"], ["goto", "1"], ["goto", "9"]]
        jobs.append((up, [(["a"] * k, [["start"], ["travel", "b"]]),
                          (["a"] * (k // 2) + ["b"] + ["a"] * k, [["start"], ["give", "B"], ["goto", "0"], ["take"]]),
                          ([], [["goto", "2"]] * k + [["travel", "a"]]),
                          (["a"], [["give", "B"]] * k + [["start"]]),
                          (["a", "b"], [rng.choice(add) for _ in range(k)] + [["leave"], ["shift", "1"]]),
                          (["a"] * k, [["start"]] + [rng.choice(add + [["take"], ["leave"]]) for _ in range(9)])]))
    # those of the specification
    tabs = [random_table(rng) for _ in range(run.pick(10, 30))]
    tabs[0] = (4, [(0, "a", "s1"), (0, "A", "g2"), (0, "B", "g3"), (1, "b", "s1"), (1, "$", "r1"), (1, "a", "r2"), (2, "$", "r3"), (2, "a", "s2"), (3, "$", "a")])
    p = os.path.join(run.work, "tables.ndjson")
    ins = [[rng.choice("ab") for _ in range(3)] for _ in tabs]
    with open(p, "w") as f:
        for t, w in zip(tabs, ins):
            f.write(json.dumps({**spec_machine(t, w), "to": [0, 1, 9], "on": ["a", "$", "A", "??"]}) + "\n")
    res = run.design("GenOps", ["Sane"], [], {"MaxOps": run.pick(4, 5)}, more="VIEW View", data=p, workers=1)
    by = {}
    for line in res.prints:
        n, h = line.split("|", 1)
        by.setdefault(int(n) - 1, []).append([o.split() for o in h.split(" | ")])
    run.notes["generated_histories"] = sum(map(len, by.values()))
    for n, hs in sorted(by.items()):
        for q in range(0, len(hs), 200):
            jobs.append((tabs[n], [(ins[n], h) for h in hs[q:q + 200]]))
    cases = []
    for i, (t, hs) in enumerate(jobs):
        c = Case("t%d" % i, MACH, TYPES[i % 3], i)
        c.job = (t, hs)
        for w, h in hs:
            c.op("ops", "T", t[0], *["%d/%s/%s" % x for x in t[1]], "W", *w, "O", *" | ".join(" ".join(o) for o in h).split())
        cases.append(c)
    run_cases(harness(), cases)
    recs = []
    for c in cases:
        hh = []
        for (w, h), o in zip(c.job[1], c.out):
            if o:
                for z, r in zip(h, o.get("ops", [])):
                    if z[0] == "edit":
                        r["act"] = [] if z[3] == "-" else [spec_act(z[3])]
                hh.append({"w": w, **({"bad": o["bad"], "ops": [dict(o=z[0], a=z[1:]) for z in h]} if "bad" in o else {"ops": o["ops"]})})
        recs.append({"id": c.id, "m": spec_machine(c.job[0], []), "hists": hh})
    run.notes["tables"] = len(jobs)
    run.notes["operations"] = sum(len(h["ops"]) for r in recs for h in r["hists"])
    return recs


def ops_conf(run, inv):
    recs = operations(run)
    run.conf("ConfOps", inv, recs, weight=lambda r: sum(len(x["ops"]) + sum(len(o.get("ev", [])) for o in x["ops"]) for x in r["hists"]) + 2,
             traces=sum(len(r["hists"]) for r in recs))


def c18(run):
    ops_conf(run, ["Answers", "Result", "Holds"])


def c19(run):
    ops_conf(run, ["Stack", "Debug_", "Text", "Each"])


CHECKS.update(C18=c18, C19=c19)


# ------------------------------------------------------------------ the tool

DEMO = dict(start="'S", eof="$", nts=["'S", "S"], prods=[("'S", ["S"])] + [("S", [o] + m + [c]) for o, c in ("()", "[]", "{}") for m in ([], ["S"])])


def tables_of(text):
    """The printed tables: lists of rows of cells, titles first."""
    out, last = [], ""
    for l in text.replace("input: ", "input: \n").splitlines():
        if l[:1] == "+" and last != "|":
            out.append([])
        elif l[:1] == "|":
            out[-1].append([x.strip() for x in l.strip()[1:-1].split("|")])
        last = l[:1]
    return out


def printed_items(text, num):
    """Items as printed: "S" = "(" . "S" ")"  {"$"} ..."""
    out = []
    for l, body, look in re.findall(r'("[^"]*") =((?: +(?:"[^"]*"|\.))*) +\{((?:"[^"]*"(?:, )?)*)\}', text):
        b = re.findall(r'"[^"]*"|\.', body)
        out.append([num[l, tuple(x for x in b if x != ".")], b.index("."), re.findall(r'"[^"]*"', look)])
    return out


def demo_record(cid, lines, out, status):
    """What a session printed, in the terms of ConfDemo, ConfAutomaton and ConfSets."""
    ps = [(l, tuple(r)) for l, r in DEMO["prods"]]
    q = json.dumps
    num = {(q(l), tuple(q(x) for x in r)): k + 1 for k, (l, r) in enumerate(ps)}
    idx = spec_grammar(DEMO)["prods"]
    acts = {}
    for k, p in enumerate(idx):
        acts["Reduce(%s, ([%s], %d))" % (q(p["l"]), ", ".join(map(q, p["r"])), p["i"])] = {"k": "r", "p": k + 1}
    acts["Acc"] = {"k": "a"}

    def act(x):
        for k, w in (("s", "Shift"), ("g", "Goto")):
            if re.fullmatch(w + r"\(\d+\)", x):
                return {"k": k, "n": int(x[len(w) + 1:-1])}
        return acts[x]
    strs = lambda x: re.findall(r'"([^"]*)"', x)
    t = tables_of(out)
    sets, states, table, traces = t[0][1:], t[1][1:], t[2], t[3:]
    head = table[0]
    col = head.index("state")
    rows = [[[head[x], act(r[x])] for x in range(len(head)) if x != col and r[x]] for r in table[1:]]
    gotos, items = [], {0: printed_items(states[0][3], num)}
    for g, kernel, to, closure in states[1:]:
        a, sym = re.fullmatch(r"goto\((\d+), (.*)\)", g).groups()
        gotos.append([int(a), q(sym), printed_items(kernel, num), int(to), printed_items(closure, num)])
        items[int(to)] = gotos[-1][-1]
    runs = []
    for w, tr in zip(lines, traces):
        runs.append({"w": [q(x) for x in w.strip()], "rows": tr[1:-1], "res": tr[-1][1] if tr[-1][0] == "state" else "?" + repr(tr[-1])})
    its = [items.get(x, []) for x in range(len(rows))]
    name = {q(x): x for x in corpus.symbols(DEMO) + DEMO["nts"] + ["$"]}
    plain = lambda xs: [[k, d, [name.get(a, a) for a in look]] for k, d, look in xs]
    cell = lambda a: [[a["k"], a["n"] + 1 if "n" in a else a.get("p", 0)]]
    demo = {"id": cid, "status": status, "lines": len(lines), "last": int(states[0][0].rsplit(" ", 1)[1]), "gotos": gotos, "items": its, "runs": runs, "order": sorted(name),
            "m": {"R": [[q(x) for x in p["r"]] for p in idx], "L": [q(p["l"]) for p in idx], "I": [p["i"] for p in idx], "eof": q("$"), "w": [], "rows": rows},
            "state_column": [[r[col] for r in table[1:]], [str(x) for x in range(len(rows))]]}
    tab = {"before": len(rows), "nstates": len(rows), "rows": [[[name.get(x, x), cell(a)] for x, a in r] for r in rows], "items": [plain(x) for x in its],
           "conf": 0, "confacts": [], "kind": "lalr", "compact": 0}
    fs = {"first": [[r[0], strs(r[1])] for r in sets], "follow": [[r[0], strs(r[2])] for r in sets], "first_of": []}
    return demo, {"id": cid, "g": spec_grammar(DEMO), "big": False, "tabs": [tab]}, {"id": cid, "g": spec_grammar(DEMO), "sets": fs}


def session(lines, end="\n"):
    """A session with the tool, in an empty directory; killed when it doesn't end with its input."""
    exe = os.path.join(TARGET, "debug", "lrp-demo")
    wd = tempfile.mkdtemp()
    try:
        with open(os.path.join(wd, "in"), "w") as f:
            f.write("\n".join(lines) + (end if lines else ""))
        with open(os.path.join(wd, "in")) as i, open(os.path.join(wd, "out"), "w") as o:
            p = subprocess.Popen([exe], cwd=wd, stdin=i, stdout=o, stderr=subprocess.DEVNULL, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 22, 1 << 22)))
            try:
                rc = p.wait(60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
        return rc, open(os.path.join(wd, "out"), errors="replace").read()
    finally:
        shutil.rmtree(wd)


def c20(run):
    rng = rng_of(run)
    harness()
    most = run.pick(3, 4)
    W = ["".join(w) for k in range(most + 1) for w in itertools.product("([{)]}cd", repeat=k)]

    def some():
        s, open_ = "", []
        for _ in range(rng.randint(1, 18)):
            if open_ and rng.random() < .45:
                s += {"(": ")", "[": "]", "{": "}"}[open_.pop()]
                if not open_:
                    break
            else:
                open_.append(rng.choice("([{"))
                s += open_[-1]
        if rng.random() < .6:
            s += "".join({"(": ")", "[": "]", "{": "}"}[x] for x in reversed(open_))
        if rng.random() < .4:
            k = rng.randint(0, len(s))
            s = s[:k] + rng.choice(["", rng.choice("()[]{}cd")]) + s[k + rng.randint(0, 1):]
        return rng.choice(["", "", " ", "\t"]) + s + rng.choice(["", "", "  "])
    W += [some() for _ in range(run.pick(800, 6000))]
    rng.shuffle(W)
    many = run.pick(24, 120)
    jobs = [("s%d" % k, W[k::many], "\n") for k in range(many)] + [("empty", [], ""), ("open", ["()" + some().strip()], ""), ("one", ["()"], "\n"), ("blank", ["", "", "()"], "\n")]
    demos, tabs, sets = [], [], []
    with ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(lambda j: session(j[1], j[2]), jobs))
    for (cid, lines, end), (rc, out) in zip(jobs, done):
        if rc is None or rc < 0:
            demos.append({"id": cid, "bad": "does not end with its input"})
            continue
        try:
            a, b, c = demo_record(cid, lines, out, rc)
        except (IndexError, ValueError, AttributeError, KeyError) as e:
            demos.append({"id": cid, "bad": "printed something else (%r), status %s: %s" % (e, rc, out[:300])})
            continue
        demos.append(a)
        if not tabs or tabs[0]["tabs"] != b["tabs"] or sets[0]["sets"] != c["sets"]:
            tabs.append(b)
            sets.append(c)
    run.conf("ConfDemo", ["Answers", "Ends", "Columns", "Gotos", "Trace", "Outcome"], demos, weight=lambda r: sum(len(x["rows"]) + 1 for x in r.get("runs", [])) + 2, traces=sum(len(r.get("runs", [])) for r in demos))
    if tabs:
        run.conf("ConfAutomaton", TABLES, tabs)
        run.conf("ConfSets", ["Terminates", "FirstExact", "FollowExact", "OnlyRules"], sets)


CHECKS.update(C20=c20)
