"""Checks of the wop front end's properties."""
import itertools, random
import corpus
from wlib import *

WH = None


def wharness():
    global WH
    if WH is None:
        WH = build("wharness", "wop-harness")
    return WH


def rng_of(run):
    return random.Random(7000 * run.seed + sum(map(ord, run.pid)))


def clean(o):
    return {k: v for k, v in o.items() if k not in ("case", "op", "name")}


def descriptions(rng, n):
    """Descriptions of all kinds, printed with all kinds of spacing."""
    out = []
    for i in range(n):
        g = Gen(rng, rules=rng.choice([1, 2, 3]), depth=rng.choice([0, 1, 2, 3]))
        out.append(("d%d" % i, show(g.description(), rng, plain=i % 5 == 0)))
    return out


def w01(run):
    rng = rng_of(run)
    T = repo_texts() + descriptions(rng, run.pick(40, 400))
    T += [("f%d" % i, t) for i, t in enumerate(frag_texts(rng, run.pick(6000, 60000)))]
    k = run.pick(0, 1)
    for name, alpha, n, pre in (("c", "/*a", 7 + k, ""), ("b", "}%a", 6 + k, "->"), ("q", "\"\\a\n", 5 + k, ""), ("l", "/\n\ra", 5 + k, "/"),
                                ("k", "alis", 5, ""), ("p", ":a*?", 4 + k, ""), ("m", "->}%", 6 + k, "")):
        T += [("%s%d" % (name, i), t) for i, t in enumerate(all_texts(alpha, n, pre))]
    T.append(("empty", ""))
    T += [("s%d" % i, t) for i, t in enumerate(sweep())]
    T += [("long%d" % i, t) for i, t in enumerate(long_texts(rng, run.pick(0, 3)))]
    cases = []
    for name, t in T:
        c = WCase(name, t)
        c.op("lex")
        cases.append(c)
    run_cases(wharness(), cases)
    recs = [{"id": c.id, "src": c.src if len(c.src) < 60 else c.src[:60], "text": chars(c.src), "lex": clean(c.out[0])} for c in cases if c.out[0]]
    run.conf("ConfLex", ["Answers", "AllThere", "Kinds_", "Values"], recs, weight=lambda r: len(r["text"]) + 3)
    run.notes["texts"] = len(recs)
    run.notes["tokens"] = sum(len(r["lex"].get("toks", [])) for r in recs)
    run.notes["error_tokens"] = sum(t[0] == "Error" for r in recs for t in r["lex"].get("toks", []))


def tokens(src, toks):
    b = src.encode()
    out = []
    for t in toks:
        x = b[t[1]:t[2]].decode(errors="replace")
        v = x
        if t[0] == "StrLit":
            v = re.sub(r"\\(.)", r"\1", x[1:-1])
        elif t[0] == "CodeBlock":
            m = re.search(r"crate::node\((\d+)", x)
            v = m.group(1) if m else ""
        out.append({"k": t[0], "s": t[1], "e": t[2], "x": x if t[0] != "CodeBlock" else "{}", "v": v})
    return out


def w02(run):
    rng = rng_of(run)
    mc_expand(run, ["RoundTrip"], True)
    T = repo_texts() + descriptions(rng, run.pick(150, 1500)) + small_files(rng, run.pick(250, 2500))
    # random token sequences, mostly ill-formed
    T += [("x%d" % i, " ".join(rng.choice(TOKENS) for _ in range(rng.randint(0, 9)))) for i in range(run.pick(300, 3000))]
    T += all_sequences(rng, run) + [("L%d" % i, t) for i, t in enumerate(long_files(rng))] + big_descriptions(rng)
    cases = []
    for name, t in T:
        c = WCase(name, t)
        c.op("read")
        if name[0] == "A":
            cases.append(c)
            continue
        n = rough_length(t)
        if name[0] == "s":      # every single token dropped, doubled, swapped with its neighbour
            for i in range(n):
                c.op("read", "-%d" % i)
                c.op("read", "+%d:%d" % (i, i))
                if i:
                    c.op("read", "^%d:%d" % (i, i - 1))
        for _ in range(run.pick(10, 30) if n > 1 and name[0] != "x" else 0):
            c.op("read", *[edits(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))])
        cases.append(c)
    run_cases(wharness(), cases)
    recs, some = [], []
    for c in cases:
        reads = []
        for o in c.out:
            if not o:
                continue
            r = clean(o)
            r["T"] = tokens(c.src, r.pop("toks", []))
            reads.append(r)
        if c.id[0] == "A":      # short sequences, many to a record
            some.extend(reads)
        else:
            recs.append({"id": c.id, "reads": reads})
    run.notes["all_short_sequences"] = len(some)
    recs += [{"id": "A%d" % i, "reads": some[i:i + 200]} for i in range(0, len(some), 200)]
    run.conf("ConfRead", ["Answers", "Verdict", "Faithful", "TwoViews"], recs, weight=lambda r: sum(len(x["T"]) for x in r["reads"]) + 3,
             traces=sum(len(r["reads"]) for r in recs))
    run.notes["files"] = len(recs)
    run.notes["token_sequences"] = sum(len(r["reads"]) for r in recs)
    run.notes["accepted"] = sum(bool(x.get("ok")) for r in recs for x in r["reads"])


TOKENS = ["alias", "use", "a", "B", "::", ":", "*", "=", "|", "(", ")", ";", "?", "&", '"s"', "-> {}%", "->}%", "a", ";", "a", "@"]


def all_sequences(rng, run):
    """Every short sequence of tokens: of declarations, and of the tokens inside a rule."""
    out = [" ".join(t) for k in range(run.pick(5, 6)) for t in itertools.product(["use", "alias", "a", '"s"', "::", "*", ";"], repeat=k)]
    inner = ["a", '"s"', "(", ")", "|", "?", ":", "&", "-> {}%"]
    more = run.pick(3, 5)
    out += ["r : t = " + " ".join(t) + " ;" for k in range(1, more + 1) for t in itertools.product(inner, repeat=k)]
    for _ in range(run.pick(4000, 20000)):      # longer ones, most of them near a rule
        n = rng.randint(more + 1, more + 5)
        t, up = [], 0
        for _ in range(n):
            t.append(rng.choice(inner if rng.random() < .3 else ["a", "a", "(", ")", "|", "? a", ": a", ": & a", '"s"']))
        out.append("r : t = " + " ".join(t) + " ;")
    out += ["r : t = a ; " + " ".join(t) for k in range(1, run.pick(4, 5)) for t in itertools.product(["use", "alias", "a", '"s"', "::", ":", "=", ";"], repeat=k)]
    return [("A%d" % i, t) for i, t in enumerate(dict.fromkeys(out))]


def long_files(rng):
    """Long everything: bodies, alternatives, groups, paths, files."""
    out = []
    blk = lambda: rng.choice(["", "->}%", "->{}%", "-> {}%", "->{ a }%", "-> {}}%"])
    it = lambda: rng.choice(["a", '"s"', "a?", "a:b", "a?:&b", "a::b", "(a|b)", "(a b)?:c"])
    for n in [5, 8, 9, 12, 13, 16, 17, 20, 32, 33, 64, 65, rng.randint(10, 100)]:
        out.append("r:t=" + " ".join(it() for _ in range(n)) + blk() + ";")
        out.append("r:t=" + "|".join(it() + blk() for _ in range(n)) + ";")
        d = min(n, 45)      # TLC reads no deeper JSON
        out.append("r:t=" + "(" * d + "a" + ")" * d + blk() + ";")
        out.append("r:t=" + "(a" * d + "|b)?" * d + blk() + ";")
        out.append("use " + "::".join(rng.choice(["a", "bcd", "long_name"]) for _ in range(n)) + rng.choice(["", "::*"]) + ";")
        out.append("r::" + "::".join("ab" for _ in range(n)) + ":" + "::".join("cde" for _ in range(n)) + "=" + "::".join("f" for _ in range(n)) + blk() + ";")
        out.append("".join(rng.choice(["use a;", "use a::*;", "alias a b;", 'alias "s" b::c;', "r:t=a->{}%;", "r:t=a->}%|b;"]) for _ in range(n)))
        out.append("r:t=a:" + "x" * n + " " + "y" * n + "?;" + "use " + "z" * n + ";")
    return out


def rough_length(t):
    return len(re.findall(r'"(?:[^"\\]|\\.)*"|->.*?\}%|\w+|::|[=|():;*?&]', t, re.S))


def small_files(rng, n):
    out = []
    for i in range(n):
        g = Gen(rng, rules=1, depth=rng.choice([0, 1, 1, 2]), opts=0.4, groups=0.4)
        d = [x for x in g.description()]
        rng.shuffle(d)
        d = d[: rng.choice([1, 1, 2, 3])]
        for x in d:
            if x["k"] == "rule":
                for a in x["alts"]:
                    a["code"] = rng.choice(["-> {}%", "->{ a }%", "->}%", "->{}%", None])
        out.append(("s%d" % i, show(d, rng, plain=i % 4 == 0)))
    return out


def bad_of(o):
    """A generated program's answer, a panic being the case's own."""
    if o is None:
        return {"bad": "no answer"}
    o = clean(o)
    for r in o.get("rules", []):
        for x in r["alts"]:
            if "panic" in x:
                x["bad"] = "panic: " + x.pop("panic")
            if "block" in x:
                x["block"] = str(x["block"])
    return o


def build_all(run, T, name="gen"):
    """Generates code for every text, compiles it, and asks it for its rules."""
    cases = []
    for name, t in T:
        c = WCase(name, t)
        c.op("lex")
        c.op("build")
        cases.append(c)
    run_cases(wharness(), cases)
    mods = [(c.id, c.out[1]["grammar"], c.out[1]["reductor"], words_of(c.src)) for c in cases if c.out[1] and c.out[1].get("ok")]
    t = time.time()
    where, errs = compile_programs(run, mods, name)
    log("  %d generated modules compiled, %d not, %.1fs" % (len(where), len(errs), time.time() - t))
    pcs = {}
    for m in mods:
        p = pcs[m[0]] = PCase(m[0], "")
        p.op("expand")
    return cases, where, errs, pcs


def expansions(run, T, inv):
    cases, where, errs, pcs = build_all(run, T)
    run_programs(where, list(pcs.values()))
    recs = []
    for c in cases:
        if not c.out[0] or not c.out[1]:
            continue
        b = clean(c.out[1])
        ok = "bad" not in b and b["ok"]
        exp = {"bad": "nothing generated"}
        if ok:
            exp = {"bad": errs[c.id]} if c.id in errs else bad_of(pcs[c.id].out[0])
        recs.append({"id": c.id, "src": c.src, "T": tokens(c.src, c.out[0].get("toks", [])),
                     "built": {"bad": b["bad"]} if "bad" in b else {"ok": b["ok"]}, "exp": exp})
    run.conf("ConfExpand", inv, recs, weight=lambda r: len(r["T"]) + sum(len(x["alts"]) * 3 for x in r["exp"].get("rules", [])))
    run.notes["files"] = len(recs)
    run.notes["refused"] = sum("bad" in r["built"] for r in recs)
    run.notes["alternatives_generated"] = sum(len(x["alts"]) for r in recs for x in r["exp"].get("rules", []))
    run.notes["labels_followed"] = sum(len(y.get("labels", [])) for r in recs for x in r["exp"].get("rules", []) for y in x["alts"])
    return recs


def tree_of(body, at, syms, rng):
    """The structure of a body the specification printed; symbols and labels are made distinct."""
    alts, items = [], []
    while at < len(body) and body[at] != ")":
        c = body[at]
        at += 1
        if c == "|":
            alts.append(dict(items=items, code=None))
            items = []
            continue
        if c == "a":
            k = len(syms)
            syms.append(k)
            it = item("id", "t%d" % k) if k % 3 else item("lit", '"t%d"' % k)
        else:
            sub, at = tree_of(body, at, syms, rng)
            it = item("grp", alts=sub)
            at += 1
        if at < len(body) and body[at] == "?":
            it["opt"] = True
            at += 1
        syms.append("l")
        it["label"], it["own"] = "lb%d" % len(syms), rng.random() < .5
        items.append(it)
    alts.append(dict(items=items, code=None))
    return alts, at


def maybe_empty(alts):
    return any(all(it["opt"] or it["k"] == "grp" and maybe_empty(it["alts"]) for it in a["items"]) for a in alts)


def all_bodies(run, rng, most, each=18):
    """Every structure of a rule's body up to a number of tokens, as the specification enumerates them, many to a file."""
    res = run.design("MCExpand", [], [], {"MaxToks": most, "Labels_": "FALSE", "Print_": "TRUE"}, workers=1, name="GenBodies")
    bodies = [(b, tree_of(b, 0, [], rng)[0]) for b in res.prints]
    bodies = [(b, t) for b, t in bodies if not maybe_empty(t)]
    run.notes["generated_bodies"] = len(bodies)
    out = []
    for i in range(0, len(bodies), each):
        d = []
        for k, (b, alts) in enumerate(bodies[i:i + each]):
            for j, a in enumerate(alts):
                a["code"] = code(10 * k + j, labels_of(a["items"]))
            d.append(dict(k="rule", name="R%d" % k, ty="Ast", alts=alts))
        out.append(("all%d" % i, "use crate::sym::*; use crate::Ast;\n" + show(d, rng, plain=True)))
    return out


def mc_expand(run, inv, labels=False):
    run.design("MCExpand", inv, [], {"MaxToks": run.pick(6, 8), "Labels_": "TRUE" if labels else "FALSE", "Print_": "FALSE"})


def w03(run):
    rng = rng_of(run)
    mc_expand(run, ["Denotes", "FirstIsFull"])
    expansions(run, all_bodies(run, rng, run.pick(7, 9)) + descriptions(rng, run.pick(200, 2000)) + big_descriptions(rng), ["Compiles", "Count", "Bodies", "Blocks"])


def w04(run):
    rng = rng_of(run)
    mc_expand(run, ["LabelsFit"], True)
    expansions(run, all_bodies(run, rng, run.pick(7, 9)) + descriptions(rng, run.pick(200, 2000)) + big_descriptions(rng), ["Compiles", "Bound"])


HAND = {
"calc": ("S", """use crate::sym::*; use crate::Ast;
alias "+" Plus; alias "-" Minus; alias "*" Times; alias "(" Open; alias ")" Close;
S: Ast = Sum:&x -> { crate::node(1, toks, vec![("x", crate::Show::show(&x))]) }%;
Sum: Ast = Sum:&left ("+":op | "-":op) Product:&x -> { crate::node(2, toks, vec![("left", crate::Show::show(&left)), ("op", crate::Show::show(&op)), ("x", crate::Show::show(&x))]) }%
  | Product -> { crate::node(3, toks, vec![]) }%;
Product: Ast = (Product:left "*":op)? Atom:x -> { crate::node(4, toks, vec![("left", crate::Show::show(&left)), ("op", crate::Show::show(&op)), ("x", crate::Show::show(&x))]) }%;
Atom: Ast = num:x -> { crate::node(5, toks, vec![("x", crate::Show::show(&x))]) }% | ("(" Sum ")"):&v -> { crate::node(6, toks, vec![("v", crate::Show::show(&v))]) }%;
"""),
"json": ("S", """use crate::sym::*; use crate::Ast;
alias "{" Ob; alias "}" Cb; alias "[" Os; alias "]" Cs; alias ":" Colon; alias "," Comma;
S: Ast = Value -> { crate::node(1, toks, vec![]) }%;
Value: Ast = str -> { crate::node(2, toks, vec![]) }% | num -> { crate::node(3, toks, vec![]) }%
  | "{" (Pairs:x)? "}" -> { crate::node(4, toks, vec![("x", crate::Show::show(&x))]) }%
  | "[" Values?:&v "]" -> { crate::node(5, toks, vec![("v", crate::Show::show(&v))]) }%;
Pairs: Ast = (Pairs ","):z? -> { crate::node(6, toks, vec![("z", crate::Show::show(&z))]) }%;
""".replace('(Pairs ","):z? ->', '(Pairs ",")?:z str:x ":" Value:y ->').replace('("z", crate::Show::show(&z))', '("z", crate::Show::show(&z)), ("x", crate::Show::show(&x)), ("y", crate::Show::show(&y))')
+ """Values: Ast = (Values:left ","?:op)? Value:x -> { crate::node(7, toks, vec![("left", crate::Show::show(&left)), ("op", crate::Show::show(&op)), ("x", crate::Show::show(&x))]) }%;
"""),
"stmt": ("S", """use crate::sym::*; use crate::Ast;
S: Ast = Stmts -> { crate::node(1, toks, vec![]) }%;
Stmts: Ast = Stmts?:left Stmt:x -> { crate::node(2, toks, vec![("left", crate::Show::show(&left)), ("x", crate::Show::show(&x))]) }%;
Stmt: Ast = "if" E:x "then" Stmts:y ("else" Stmts:&z)? "end" -> { crate::node(3, toks, vec![("x", crate::Show::show(&x)), ("y", crate::Show::show(&y)), ("z", crate::Show::show(&z))]) }%
  | id:x (":" (ty:&v | id:&v) ("=" E:w)?)? ";" -> { crate::node(4, toks, vec![("x", crate::Show::show(&x)), ("v", crate::Show::show(&v)), ("w", crate::Show::show(&w))]) }%
  | ("ret" | "yield"):op E?:x ";" -> { crate::node(5, toks, vec![("op", crate::Show::show(&op)), ("x", crate::Show::show(&x))]) }%;
E: Ast = id -> { crate::node(6, toks, vec![]) }% | num -> { crate::node(7, toks, vec![]) }% | "!" E:&x -> { crate::node(8, toks, vec![("x", crate::Show::show(&x))]) }%;
"""),
"paths": ("S", """use crate::sym; use crate::Ast; use std::fmt::*;
alias x2 sym::num; alias "k" sym :: key;
crate::sym::S : crate::Ast = sym::R -> { crate::node(5, toks, vec![]) }%;
sym::R : crate::Ast = sym::A (sym::B | x2):&v -> { crate::node(1, toks, vec![("v", crate::Show::show(&v))]) }%;
sym :: A : Ast = "k" sym::id?:w -> { crate::node(2, toks, vec![("w", crate::Show::show(&w))]) }% | (sym::A ","):z "k" -> { crate::node(3, toks, vec![("z", crate::Show::show(&z))]) }%;
sym::B : Ast = ("[" (sym::B?:x "]" | "!"))?:&y sym::end -> { crate::node(4, toks, vec![("x", crate::Show::show(&x)), ("y", crate::Show::show(&y))]) }%;
"""),
"clash": ("S", """use crate::sym::*; use crate::sym; use crate::Ast;
S: Ast = sym::R sym__R -> { crate::node(1, toks, vec![]) }%;
sym::R: Ast = a -> { crate::node(2, toks, vec![]) }% | b -> { crate::node(3, toks, vec![]) }%;
sym__R: Ast = a -> { crate::node(4, toks, vec![]) }% | sym::sym__R2 -> { crate::node(5, toks, vec![]) }%;
sym::sym__R2: Ast = c -> { crate::node(6, toks, vec![]) }% | sym_sym__R2 -> { crate::node(7, toks, vec![]) }%;
sym_sym__R2: Ast = d -> { crate::node(8, toks, vec![]) }%;
"""),
"wide": ("S", """use crate::sym::*; use crate::Ast;
S: Ast = X -> { crate::node(1, toks, vec![]) }%;
X: Ast = a?:x b?:y c?:z d:w -> { crate::node(2, toks, vec![("x", crate::Show::show(&x)), ("y", crate::Show::show(&y)), ("z", crate::Show::show(&z)), ("w", crate::Show::show(&w))]) }%
  | (e (f:x (g:y (h:z)?)?)?)? i:&w -> { crate::node(3, toks, vec![("x", crate::Show::show(&x)), ("y", crate::Show::show(&y)), ("z", crate::Show::show(&z)), ("w", crate::Show::show(&w))]) }%
  | ((j | l m):x | (n):y)?:v o -> { crate::node(4, toks, vec![("x", crate::Show::show(&x)), ("y", crate::Show::show(&y)), ("v", crate::Show::show(&v))]) }%;
"""),
}


def w05(run):
    rng = rng_of(run)
    T = [("h_" + k, v[1]) for k, v in HAND.items()]
    for i in range(run.pick(350, 3000)):
        g = Gen(rng, rules=rng.choice([1, 2, 2, 3]), depth=rng.choice([0, 1, 2]), groups=0.2, opts=0.2, terms=["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "l", "m"], blanks=False)
        start = dict(k="rule", name="S", ty="Ast", alts=[dict(items=[item("id", g.nts[0])], code=code(900, []))])
        d = g.description(start)
        T.append(("g%d" % i, show(d, rng, plain=i % 5 == 0)))
    # what was generated, and whether it is one to one
    cases, where, errs, pcs = build_all(run, T)
    run_programs(where, list(pcs.values()))
    recs, prs = [], []
    for c in cases:
        if not c.out[0] or not c.out[1]:
            continue
        b = clean(c.out[1])
        ok = "bad" not in b and b["ok"]
        exp = {"bad": "nothing generated"}
        if ok:
            exp = {"bad": errs[c.id]} if c.id in errs else bad_of(pcs[c.id].out[0])
        tk = tokens(c.src, c.out[0].get("toks", []))
        recs.append({"id": c.id, "src": c.src, "T": tk, "built": {"bad": b["bad"]} if "bad" in b else {"ok": b["ok"]}, "exp": exp})
        if "rules" not in exp:
            continue
        # sentences and near misses of the grammar as generated
        nts = [r["key"] for r in exp["rules"]]
        g = dict(start="S", eof="$", nts=nts, prods=[(r["key"], x["body"]) for r in exp["rules"] for x in r["alts"]])
        if "S" not in nts or any(not r for _, r in g["prods"]):
            continue
        size = sum(len(r) + 1 for _, r in g["prods"])
        if size > 120:
            continue
        p = PCase(c.id, "")
        p.T, p.runs = tk, []
        for w in corpus.inputs(g, rng, run.pick(8, 16) * (4 if c.id in ("h_" + k for k in HAND) else 1), odd=False):
            pos = rng.randrange(50)
            toks = []
            for x in w:
                e = pos + rng.choice([0, 1, 1, 3])
                toks.append({"k": x, "s": pos, "e": e})
                pos = e + rng.choice([0, 1, 2])
            for kind in ("clr", "lalr", "slr") if size <= 40 else ("lalr", "slr"):
                p.runs.append((kind, toks, p.op("parse", kind, "S", *["%s@%d@%d" % (t["k"], t["s"], t["e"]) for t in toks])))
        prs.append(p)
    run.conf("ConfExpand", ["Compiles", "RuleSet", "OneToOne", "Calls", "Given", "Spans"], recs, weight=lambda r: len(r["T"]) + sum(len(x["alts"]) * 3 for x in r["exp"].get("rules", [])))
    run_programs(where, prs)
    rr, n, free = [], 0, 0
    for p in prs:
        rs = []
        for kind, toks, o in p.runs:
            if p.out[o] is None:
                continue
            x = stringed(clean(p.out[o]))
            x.update(kind=kind, toks=toks)
            rs.append(x)
            free += x.get("conf") == 0
        n += len(rs)
        rr.append({"id": p.id, "start": "S", "T": p.T, "runs": rs})
    run.conf("ConfParse", ["Answers", "Sound", "Complete", "Tree"], rr, weight=lambda r: sum(len(x["toks"]) + 2 for x in r["runs"]), traces=n)
    run.notes["descriptions"] = len(recs)
    run.notes["runs"] = n
    run.notes["runs_without_conflicts"] = free
    run.notes["runs_accepted"] = sum(bool(x.get("ok")) for r in rr for x in r["runs"])


def stringed(x):
    """Block numbers as the specification has them."""
    if isinstance(x, dict):
        return {k: (str(v) if k == "block" else stringed(v)) for k, v in x.items()}
    return [stringed(y) for y in x] if isinstance(x, list) else x


def w06(run):
    rng = rng_of(run)
    with open(REPO + "/wop/src/wop.grammar") as f:
        own = f.read()
    # generated in several processes: whatever is hashed inside is hashed differently
    times = run.pick(3, 6)
    gens = []
    for k in range(times):
        c = WCase("own", own)
        c.op("lex")
        c.op("build")
        c.op("own")
        run_cases(wharness(), [c])
        gens.append(c)
    c = gens[0]
    ok = [x for x in gens if x.out[1] and x.out[1].get("ok")]
    d = os.path.join(run.work, "cli")
    os.makedirs(d)
    tool = subprocess.run([os.path.join(TARGET, "debug", "wop-cli"), REPO + "/wop/src/wop.grammar"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
    made = open(os.path.join(d, "out.rs")).read() if os.path.exists(os.path.join(d, "out.rs")) else ""
    bins, errs = compile_regen(run, [(x.out[1]["grammar"], x.out[1]["reductor"]) for x in ok] + ([(made, None)] if made else []))
    if not made:
        errs.append("wop.grammar is refused by the tool: %s" % tool.stderr.decode(errors="replace")[-300:])
    errs += ["wop.grammar is refused: %s" % x.out[1] for x in gens if x not in ok]
    recs = [{"id": "own", "what": "own", "T": tokens(c.src, c.out[0]["toks"]), "own": clean(c.out[2]), "regen": errs}]
    # files read by all of them
    T = repo_texts() + descriptions(rng, run.pick(120, 1200)) + small_files(rng, run.pick(200, 2000))
    T += [("x%d" % i, " ".join(rng.choice(TOKENS) for _ in range(rng.randint(0, 9)))) for i in range(run.pick(200, 2000))]
    T += all_sequences(rng, run) + [("L%d" % i, t) for i, t in enumerate(long_files(rng))] + big_descriptions(rng)
    cases = []
    for name, t in T:
        c = WCase(name, t)
        c.op("read")
        if name[0] == "A":
            cases.append(c)
            continue
        n = rough_length(t)
        for _ in range(run.pick(8, 20) if n > 1 else 0):
            c.op("read", *[edits(rng, n) for _ in range(rng.choice([1, 1, 2]))])
        cases.append(c)
    run_cases(wharness(), cases)
    answers = [[c.out for c in cases]]
    for b in bins:
        if b:
            for c in cases:
                c.out = [None] * len(c.ops)
            run_cases(b, cases)
            answers.append([c.out for c in cases])
    nreads = 0
    for i, c in enumerate(cases):
        reads = []
        for k in range(len(c.ops)):
            if all(a[i][k] for a in answers):
                reads.append([{x: y for x, y in clean(a[i][k]).items() if x not in ("toks", "why")} for a in answers])
                for x in reads[-1]:
                    if "bad" in x:
                        x["bad"] = x["bad"][:6]
        nreads += len(reads)
        recs.append({"id": c.id, "what": "file", "reads": reads})
    # descriptions generated twice
    D = descriptions(rng, run.pick(80, 600))
    twice = {}
    for k in range(2):
        cs, where, er, pcs = build_all(run, [(n + "_%d" % k, t) for n, t in D], "gen%d" % k)
        run_programs(where, list(pcs.values()))
        for c in cs:
            e = {"bad": er[c.id][:20]} if c.id in er else bad_of(pcs[c.id].out[0]) if c.id in pcs else {"bad": "refused"}
            twice.setdefault(c.id.rsplit("_", 1)[0], []).append(e)
    recs += [{"id": n, "what": "twice", "exps": e} for n, e in twice.items() if len(e) == 2]
    run.conf("ConfSelf", ["OwnRules", "OwnAlternatives", "Regenerates", "Reads", "Repeats"], recs, traces=nreads)
    run.notes["regenerated_front_ends"] = len([b for b in bins if b])
    run.notes["token_sequences_read_by_each"] = nreads
    run.notes["descriptions_generated_twice"] = len(twice)


def contradict(rng, d):
    """One contradiction more (or something that only looks like one)."""
    rules = [x for x in d if x["k"] == "rule"]
    aliases = [x for x in d if x["k"] == "alias"]
    k = rng.choice(["rule", "rulespace", "alias", "nocode", "inner", "innerdeep", "fine-alias", "fine-use", "fine-group", "fine-path"])
    if k in ("rule", "rulespace"):
        x = dict(rng.choice(rules))
        if k == "rulespace" and "::" in x["name"]:
            x["name"] = rng.choice([x["name"].replace("::", " :: "), x["name"].replace("::", "::/* c */"), x["name"].replace("::", "\n::")])
        if rng.random() < 0.5:
            x["alts"] = [rng.choice(x["alts"])]
        d.insert(rng.randint(0, len(d)), x)
    elif k == "alias":
        t = rng.choice([a["tk"] for a in aliases] or ["zz"])
        for _ in range(1 if aliases else 2):
            d.insert(rng.randint(0, len(d)), dict(k="alias", tk=t, to=rng.choice(["T_0", "T_1", "sym::T_2"])))
    elif k == "nocode":
        rng.choice(rng.choice(rules)["alts"])["code"] = None
    elif k in ("inner", "innerdeep"):
        a = rng.choice(rng.choice(rules)["alts"])
        part = lambda: rng.choice([item("id", "a"), item("lit", '"s"'), item("id", "b", opt=True), item("id", "c", label="inl%d" % rng.randrange(9)), item("grp", alts=[dict(items=[item("id", "d")], code=None)] * rng.choice([1, 2]))])
        alts = [dict(items=[item("id", "a")] + [part() for _ in range(rng.choice([0, 0, 1, 2, 3]))], code=None) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
        for x in alts:
            rng.shuffle(x["items"])
        rng.choice(alts)["code"] = "-> { }%"
        it = item("grp", alts=alts, opt=rng.random() < 0.3)
        for _ in range(rng.choice([1, 2]) if k == "innerdeep" else 0):
            more = [dict(items=[it], code=None), dict(items=[item("id", "b")], code=None)]
            rng.shuffle(more)
            it = item("grp", alts=more[:rng.choice([1, 2])] if more[0]["items"][0] is it else more)
        a["items"] = list(a["items"])
        a["items"].insert(rng.randint(0, len(a["items"])), it)
    elif k == "fine-alias":
        w = "zz%d" % rng.randrange(100)
        d.insert(0, dict(k="alias", tk=w, to="a"))
        d.insert(0, dict(k="alias", tk='"%s"' % w, to="b"))
        d.insert(0, dict(k="alias", tk='" %s"' % w, to="b"))
    elif k == "fine-use":
        d.insert(0, dict(k="use", t="x::y"))
        d.insert(0, dict(k="use", t="x::y"))
    elif k == "fine-group":
        a = rng.choice(rng.choice(rules)["alts"])
        a["items"] = a["items"] + [item("grp", alts=[dict(items=[item("id", "a")], code=None)] * 2)]
    elif k == "fine-path":
        d.append(dict(k="rule", name="other::" + rng.choice(rules)["name"], ty="Ast", alts=rng.choice(rules)["alts"]))


def w07(run):
    rng = rng_of(run)
    cases = []
    T = repo_texts()
    for i in range(run.pick(1500, 15000)):
        g = Gen(rng, rules=rng.choice([1, 2, 3, 4]), depth=rng.choice([0, 1, 2]))
        d = g.description()
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            contradict(rng, d)
        T.append(("c%d" % i, show(d, rng, plain=i % 5 == 0)))
    for name, t in T:
        c = WCase(name, t)
        c.op("lex")
        c.op("build")
        cases.append(c)
    run_cases(wharness(), cases)
    recs = []
    for c in cases:
        if c.out[0] and c.out[1]:
            b = clean(c.out[1])
            recs.append({"id": c.id, "src": c.src, "T": tokens(c.src, c.out[0].get("toks", [])), "exp": {"bad": "not looked at"},
                         "built": {"bad": b["bad"]} if "bad" in b else {"ok": b["ok"]}})
    run.conf("ConfExpand", ["Refusals"], recs, weight=lambda r: len(r["T"]))
    run.notes["descriptions"] = len(recs)
    run.notes["refused"] = sum("bad" in r["built"] for r in recs)


SENTINEL = "// what was here before\n" * 4000


def cli_file(rng, i, spoil):
    """A description for the command-line tool: all literals have aliases, and there is an entry point.
    A spoiled one has contradictions, is ill-formed, or only looks so."""
    g = Gen(rng, rules=rng.choice([1, 2, 3]), depth=rng.choice([0, 1, 2]))
    d = [x for x in g.description() if not (x["k"] == "alias" and x["tk"][0] == '"')]
    lits = sorted({u for x in d if x["k"] == "rule" for a in x["alts"] for u in atoms(a["items"]) if u[0] == '"'})
    for l in lits:
        d.insert(0, dict(k="alias", tk=l, to=rng.choice(["Sym::L_%d" % rng.randrange(5), "L_%d" % rng.randrange(5), "crate :: Sym::L_1"])))
    name = rng.choice(["Sym::EntryPoint", "EntryPoint"])
    d.insert(rng.randint(0, len(d)), dict(k="rule", name=name, ty=rng.choice(["Ast", "crate::Ast"]), alts=[dict(items=[item("id", g.nts[0])], code=code(990, []))]))
    for _ in range(rng.choice([0, 0, 1, 1, 2]) if spoil else 0):
        contradict(rng, d)
    t = show(d, rng, plain=i % 5 == 0)
    if spoil and rng.random() < .7:      # mostly ill-formed: a piece cut out, doubled or put elsewhere
        x, y = sorted(rng.randrange(len(t) + 1) for _ in range(2))
        y = min(y, x + rng.choice([1, 1, 2, 5, 40]))
        t = rng.choice([t[:x], t[:x] + t[y:], t[:y] + t[x:], t[:x] + rng.choice([";", "|", "(", "use a", "@", "\"", "->", ";;"]) + t[x:]])
    return t


NOTEXT = "\u2021"


def spoil(rng, t):
    """The text with a mark (for a byte that is no character) where no token is, or in the middle of one."""
    k = rng.choice(["before", "after", "comment", "string", "block"])
    if k == "string" and '" ' in t:
        return t.replace('" ', NOTEXT + '" ', 1)
    if k == "block" and "}%" in t:
        return t.replace("}%", "/*" + NOTEXT + "*/ }%", 1)
    if k == "comment" and "\n" in t:
        return t.replace("\n", " // " + NOTEXT + "\n", 1)
    return "/* %s */ " % NOTEXT + t if k == "before" else t + " // " + NOTEXT


def w08(run):
    rng = rng_of(run)
    wharness()
    cli = os.path.join(TARGET, "debug", "wop-cli")
    T = [("g%d" % i, cli_file(rng, i, False)) for i in range(run.pick(160, 1500))]
    T += [("f%d" % i, cli_file(rng, i, True)) for i in range(run.pick(400, 4000))]
    T += [("n%d" % i, t) for i, t in enumerate(["", " ", ";", "a", "use a", "use a;", "use a; b", "alias a b;", "// x", "use a; use b; r: t = x", "use a;; use b;", "@", "use a; \""])]
    T += [("k%d" % i, T[i][1]) for i in range(run.pick(25, 100))]      # nowhere to write to
    # files that are no text, only where nothing reads them: in comments, literals and blocks; or that are not there
    T += [("u%d" % i, spoil(rng, t)) for i, (_, t) in enumerate(T[:run.pick(40, 400)])]
    T += [("a%d" % i, "") for i in range(3)]
    cases = []
    for name, t in T:
        c = WCase(name, t)
        c.op("lex")
        cases.append(c)
    run_cases(wharness(), cases)
    did = {}
    env = dict(os.environ, RUST_BACKTRACE="0")

    def tool(c):
        d = os.path.join(run.work, "cli", c.id)
        os.makedirs(d)
        out, src = os.path.join(d, "out.rs"), os.path.join(d, "in.grammar")
        room = c.id[0] != "k"
        old = [None, "", SENTINEL, "}} this is no Rust )\n", "pub fn grammar() {}\npub fn reduct_map() {}\n"][sum(map(ord, c.id)) % 5]
        if not room:
            os.symlink("/dev/full", out)
        elif old is not None:
            with open(out, "w") as f:
                f.write(old)
        if c.id == "a1":
            os.mkdir(src)
        elif c.id[0] != "a":
            with open(src, "wb") as f:
                f.write(c.src.encode() if c.id[0] != "u" else c.src.encode().replace(NOTEXT.encode(), b"\xff" if len(c.src) % 2 else b"\xc3"))
        try:
            p = subprocess.run([cli, src][:1 if c.id == "a2" else 2], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=OP_TIMEOUT)
            st, err = p.returncode if p.returncode >= 0 else 256 - p.returncode, p.stderr.decode(errors="replace")[-200:]
        except subprocess.TimeoutExpired:
            st, err = 999, "hang"
        new = "" if not room else open(out, errors="replace").read() if os.path.exists(out) else None
        did[c.id] = dict(status=st, err=err, room=room, plain=c.id[0] not in "au", out="new" if room and new != old else "old", text=new)
        shutil.rmtree(d)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(tool, cases))
    mods = [(c.id, did[c.id]["text"], None, sorted(set(words_of(c.src)) | {"EntryPoint", "Eof"})) for c in cases if did[c.id]["status"] == 0 and did[c.id]["out"] == "new" and c.id[0] == "g"]
    where, errs = compile_programs(run, mods, "cliprog", whole=True)
    pcs = {}
    for m in mods:
        p = pcs[m[0]] = PCase(m[0], "")
        p.op("expand")
        p.op("basis")
    run_programs(where, list(pcs.values()))
    recs = []
    for c in cases:
        x = did[c.id]
        wrote = c.id in pcs
        exp, basis = {"bad": "nothing generated"}, {"bad": "nothing generated"}
        if wrote:
            exp = {"bad": errs[c.id]} if c.id in errs else bad_of(pcs[c.id].out[0])
            basis = {"bad": errs[c.id]} if c.id in errs else bad_of(pcs[c.id].out[1])
        recs.append({"id": c.id, "src": c.src, "T": tokens(c.src, c.out[0]["toks"]), "status": x["status"], "err": x["err"], "room": x["room"], "plain": x["plain"], "out": x["out"],
                     "built": {"ok": True} if wrote else {"bad": "not compiled"}, "exp": exp, "basis": basis})
    run.conf("ConfCli", ["Ends", "Status", "Output", "Based", "Basis", "RuleSet", "Compiles", "Count", "Bodies", "Blocks", "OneToOne", "Calls", "Given", "Bound"], recs,
             weight=lambda r: len(r["T"]) + sum(len(x["alts"]) * 3 for x in r["exp"].get("rules", [])))
    run.notes["files"] = len(recs)
    run.notes["accepted"] = sum(r["status"] == 0 for r in recs)
    run.notes["front_ends_compiled"] = len(where)


CHECKS = {"W08": w08, "W05": w05, "W06": w06, "W07": w07, "W01": w01, "W02": w02, "W03": w03, "W04": w04}
