"""Texts for the checks of the wop front end: descriptions, fragments, edits. Judges nothing."""
import glob, itertools, os, random, re
from lib import *

WORD = "éçλ日ñ"          # continue an identifier, never start one
OTHER = "€→😀\u00a0·"     # in no token


class WCase:
    """A text and the operations to run on it."""

    def __init__(self, cid, src):
        self.id, self.src = cid, src
        self.ops, self.out = [], []

    def op(self, *words):
        self.ops.append([str(w) for w in words])
        self.out.append(None)
        return len(self.ops) - 1

    def text(self, ops):
        return "case %s\nsrc %s\n%send\n" % (self.id, self.src.encode().hex(), "".join("op %s\n" % " ".join(o) for o in ops))


def chars(s):
    return [{"c": c, "n": len(c.encode()), "w": c.isalnum() or c == "_"} for c in s]


# ------------------------------------------------------------------ fragments for the lexer

FRAGS = ["alias", "use", "aliased", "used", "us", "_", "a", "Zz9_", "x1", "A", "1", "42x", "=", "|", "(", ")", ";", "::", ":", ":::", "*", "?", "&",
         '"', '""', '"a"', '"\\""', '"\\\\"', '"\\', '"a\nb"', '"//"', '"/*"', '"->"', "//", "// x\n", "//\n", "// a\r\n", "///", "//*\n", "// c",
         "/*", "*/", "/**/", "/***/", "/* a */", "/* * / ** */", "/* \n */", "/*/", "/*//*/", "->", "-> {}%", "->{a}}%", "->}%", "-> x} }%", "-> } % }%",
         "-> \"}%", "->%}%", "->{ /* }% */", "-", ">", "->}", "}%", "}", "%", "{", "/", "\\", "@", "#", "é", "aé", "日x", "λ", "€", "→", "😀", "a😀b", "\u00a0",
         " ", "  ", "\n", "\t", "\r\n", "\r", " \n\t", "+", ".", ",", "'a'", "0"]


def frag_texts(rng, n, most=9):
    return ["".join(rng.choice(FRAGS) for _ in range(rng.randint(1, most))) for _ in range(n)]


def all_texts(alphabet, n, extra=""):
    return [extra + "".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def sweep():
    """Every ASCII character and a few others alone, after and before a letter, and inside everything that has an inside."""
    out = []
    for c in [chr(k) for k in range(128)] + ["\x80", "\x85", "\u2028", "\ufeff", "\u200b", "\u3000", "é", "€", "😀"]:
        out += [c, "a" + c, c + "a", "a" + c + "a", c + c, '"%s"' % c, '"\\%s"' % c, "//%s\na" % c, "/%s/" % c, "/*%s*/a" % c, "/*%s/a" % c, "->%s}%%a" % c, "->}%s%%a}%%" % c, "-%s}%%" % c]
    return out


def long_texts(rng, most=0):
    """Lexemes of hundreds and thousands of characters, and very many lexemes."""
    out = []
    for n in [64, 65, 128, 256, 257, 1001, 1025, rng.randint(70, 1200), rng.randint(1500, 4500)] + [63, 127, 129, 255, 300, 999, 1000, 1024, 2047, 2048, 2049, 4095, 4096, 4097] * most:
        x = lambda a: "".join(rng.choice(a) for _ in range(n))
        out += [x("aB_9"), " " * n + "a", '"' + x("ab ") + '"', '"' + x("a\n") + '"', '"' + "\\n" * (n // 2) + '"', "//" + x("a *") + "\na", "/*" + x("a ") + "*/a",
                "/*" + x("*a") + "*/a", "->" + x("a{") + "}%a", "->" + "}" * n + "%a", "->" + "} " * (n // 2) + "}%a"]
        out += [x("?*&|();=") if n <= 1100 else x("ab"), " ".join("a" for _ in range(min(n, 700)))]
    return out + ['"' + "a" * 4094 + '"', " " * 4096 + "a", "a" * 4097, "->" + "a" * 4096 + "}%"]


# ------------------------------------------------------------------ descriptions

def noise(rng, must=False):
    if rng.random() < 0.75:
        return " " if must or rng.random() < 0.8 else ""
    return rng.choice(["  ", "\n", "\t", " /* c */ ", " /***/ ", "// x\n", "\r\n", "\n    ", "/**/", " // \"q ->\n", "/* ->{}% */", " /* } */\n"])


class Desc:
    """A description under construction: a syntax tree that can be printed."""

    def __init__(self, rng, alias_p=0.5, path_p=0.15, noise_p=True):
        self.rng = rng
        self.block = 0
        self.decls = []


def item(kind, text=None, alts=None, opt=False, label=None, own=False):
    return dict(k=kind, t=text, alts=alts, opt=opt, label=label, own=own)


def labels_of(items):
    out = []
    for it in items:
        if it["label"] and it["label"] not in out:
            out.append(it["label"])
        if it["k"] == "grp":
            for a in it["alts"]:
                for l in labels_of(a["items"]):
                    if l not in out:
                        out.append(l)
    return out


def code(n, labels, rng=None):
    show = ", ".join('("%s", crate::Show::show(&%s))' % (l, l) for l in labels)
    body = "crate::node(%d, toks, vec![%s])" % (n, show)
    r = rng.random() if rng else 1
    if r < 0.15:
        return "-> { let k = { 1 + 1 }; { %s } }%%" % body
    if r < 0.3:
        return "->{{ %s }}%%" % body
    if r < 0.4:
        return "->{let k = 7 %% {2}; { %s}}%%" % body
    if r < 0.5:
        return "-> {\n\t// a comment; with \"->\" in it\n\t%s\n}%%" % body
    if r < 0.55:
        return "-> { if toks.is_empty() { panic!(\"}}\") } else { %s }}%%" % body
    return "-> { %s }%%" % body


def show_items(items, rng, plain=False):
    ns = (lambda must=False: " ") if plain else (lambda must=False: noise(rng, must))
    out = ""
    for it in items:
        if it["k"] == "grp":
            out += "(" + ns() + ("|").join(ns() + show_items(a["items"], rng, plain) + (a.get("code") or "") + ns() for a in it["alts"]) + ")"
        else:
            out += it["t"]
        sp = (lambda: "") if plain else (lambda: ns() if rng.random() < 0.2 else "")
        if it["opt"]:
            out += sp() + "?"
        if it["label"]:
            out += sp() + ":" + sp() + ("&" + sp() if it["own"] else "") + it["label"]
        out += ns(True)
    return out


def show(decls, rng, plain=False):
    ns = (lambda must=False: " ") if plain else (lambda must=False: noise(rng, must))
    out = "" if plain else ns()
    for d in decls:
        if d["k"] == "use":
            out += "use" + ns(True) + d["t"]
        elif d["k"] == "alias":
            out += "alias" + ns(True) + d["tk"] + ns(True) + d["to"]
        else:
            out += d["name"] + ns() + ":" + ns() + d["ty"] + ns() + "=" + ns()
            out += "|".join(ns() + show_items(a["items"], rng, plain) + (a["code"] or "") + ns() for a in d["alts"])
        out += ";" + ("\n" if plain or rng.random() < 0.7 else ns())
    return out


LABELS = ["x", "y", "z", "w", "v", "left", "op", "k1"]
TERMS = ["a", "b", "c", "d"]


class Gen:
    """Random descriptions within the documented preconditions: no empty expansion, a label at most once
    on every way through an alternative, labels of one name of one kind."""

    def __init__(self, rng, rules=3, depth=2, lits=True, labels=True, alias_p=0.4, empties=False, terms=TERMS, paths=True, opts=0.25, groups=0.3, blanks=True):
        self.blanks = blanks
        self.rng, self.depth, self.lits, self.labels, self.empties = rng, depth, lits, labels, empties
        # names before and after EntryPoint and the terminals' names
        self.nts = ["%s%d" % (rng.choice(["N", "N", "N", "A", "Ent", "EntryPointer", "z_"]), i) for i in range(rules)]
        self.terms = list(terms)
        self.alias_p, self.paths, self.optp, self.groupp = alias_p, paths, opts, groups
        self.block = 0
        self.words = set(self.nts) | set(terms)

    def symbol(self):
        r = self.rng
        x = r.random()
        if x < 0.4:
            n = r.choice(self.nts)
            return item("id", n if not self.paths or r.random() < 0.85 else r.choice(["sym::" + n, "crate::sym::" + n, "sym :: " + n]))
        t = r.choice(self.terms)
        self.words.add(t)
        if x < 0.7 and self.lits:
            w = r.choice([t, t + t, "\\\"" + t, t + " " + t if self.blanks else t, "->" + t, "/*" + t, "//" + t])
            return item("lit", '"%s"' % w)
        return item("id", t if not self.paths or r.random() < 0.85 else "sym::" + t)

    def seq(self, depth, pool, n=None):
        """Items for one alternative, using labels of the pool (name -> kind) at most once."""
        r = self.rng
        out = []
        used = []
        for _ in range(n or r.choice([1, 1, 2, 2, 3, 4])):
            if depth > 0 and r.random() < self.groupp:
                # the labels of exclusive variants may be the same
                alts, most = [], []
                for _ in range(r.choice([1, 2, 2, 3])):
                    p = [x for x in pool if x not in used]
                    its, u = self.seq(depth - 1, p)
                    alts.append(dict(items=its, code=None))
                    most += [x for x in u if x not in most]
                used += most
                it = item("grp", alts=alts)
                run = True
            else:
                it = self.symbol()
                run = False
            if r.random() < self.optp:
                it["opt"] = True
            cand = [x for x in pool if x not in used and x["run"] == run and x["grp"] in (None, depth < self.top)]
            if self.labels and cand and r.random() < 0.5:
                x = r.choice(cand)
                it["label"], it["own"] = x["n"], x["own"]
                used.append(x)
                # a name keeps the way it is bound: option or not
                x["opt"] = it["opt"] or depth < self.top
            out.append(it)
        return out, used

    def fresh_pool(self):
        r = self.rng
        names = r.sample(LABELS, 6)
        return [dict(n=n, own=r.random() < 0.5, run=r.random() < 0.35, grp=None) for n in names]

    def alternative(self):
        self.top = self.depth
        for _ in range(60):
            its, _ = self.seq(self.depth, self.fresh_pool())
            n = count(its)
            if n <= 24 and (self.empties or not can_be_empty(its)):
                self.block += 1
                return dict(items=its, code=code(self.block, labels_of(its), self.rng))
        self.block += 1
        return dict(items=[item("id", self.terms[0])], code=code(self.block, [], self.rng))

    def description(self, first=None):
        r = self.rng
        decls = []
        for n in self.nts:
            alts = [self.alternative() for _ in range(r.choice([1, 1, 2, 3]))]
            decls.append(dict(k="rule", name=n if not self.paths or r.random() < 0.85 else "sym::" + n, ty=r.choice(["Ast", "crate::Ast"]), alts=alts))
        if first:
            decls.insert(0, first)
        # aliases somewhere among the rules
        used = []
        for d in decls:
            if d["k"] == "rule":
                for a in d["alts"]:
                    used += atoms(a["items"])
        used = sorted({u for u in used if "::" not in u})
        for u in used:
            if r.random() < self.alias_p:
                # a rule's own name, too, but seldom
                if u in self.nts and r.random() < 0.7:
                    continue
                to = r.choice(["T_" + str(r.randrange(4)), "sym::T_" + str(r.randrange(4)), r.choice(self.terms)])
                self.words.add(to.split("::")[-1])
                decls.insert(r.choice([0, 0, 0, r.randint(0, len(decls))]), dict(k="alias", tk=u, to=to))
        for t in r.sample(["std::fmt::Debug", "std::collections::*", "crate::sym::extra"], r.choice([0, 1, 2])):
            decls.insert(r.randint(0, len(decls)), dict(k="use", t=t))
        decls.insert(r.choice([0, 0, len(decls)]), dict(k="use", t="crate::sym::*"))
        decls.insert(r.choice([0, len(decls)]), dict(k="use", t="crate::sym"))
        decls.insert(r.choice([0, len(decls)]), dict(k="use", t="crate::Ast"))
        return decls


def big_descriptions(rng):
    """Rules with many alternatives, alternatives with many items, many labels, many rules, aliases and imports."""
    head = [dict(k="use", t="crate::sym::*"), dict(k="use", t="crate::Ast")]
    it = lambda: item("lit", '"%s"' % rng.choice("abcd")) if rng.random() < .3 else item("id", rng.choice("abcd"))
    sizes = lambda: rng.choice([17, 33, 40, 65, rng.randint(10, 70)])
    out, blk = [], [0]

    def rule(name, alts):
        for a in alts:
            blk[0] += 1
            a["code"] = code(blk[0], labels_of(a["items"]))
        return dict(k="rule", name=name, ty="Ast", alts=alts)

    def labelled(its, some):
        for k, x in enumerate(its):
            if rng.random() < some:
                x["label"], x["own"] = "lb%d" % k, rng.random() < .5
        return its
    # long alternatives, labelled all along
    out.append(head + [rule("L%d" % k, [dict(items=labelled([it() for _ in range(n)], .4))]) for k, n in enumerate([9, 16, 17, sizes(), sizes()])])
    # groups and options far to the right
    for _ in range(3):
        alts = []
        for _ in range(2):
            its = [it() for _ in range(sizes())]
            for k in sorted(rng.sample(range(len(its)), 3)):
                its[k] = item("grp", alts=[dict(items=labelled([it() for _ in range(rng.choice([1, 2, 9, 20]))], .2), code=None) for _ in range(rng.choice([1, 2]))], opt=rng.random() < .5)
            for k, x in enumerate(its):
                if rng.random() < .3 or x["k"] == "grp":
                    x["label"], x["own"] = "lb%d" % (100 + k), rng.random() < .5
            seen = []
            for x in its:       # a label once
                for a in (x["alts"] or []):
                    for y in a["items"]:
                        if y["label"]:
                            y["label"] = "lb%d" % (200 + len(seen))
                            seen.append(1)
            alts.append(dict(items=its))
        out.append(head + [rule("G", alts)])
    # many alternatives, all different
    words = [[a] if not b else [a, b] for a in "abcdefgh" for b in [""] + list("abcdefghij")]
    rng.shuffle(words)
    out.append(head + [rule("A", [dict(items=[item("id", x) for x in w]) for w in words])])
    out.append(head + [rule("A", [dict(items=labelled([item("grp", alts=[dict(items=[item("id", x) for x in w], code=None) for w in words[:70]])], 1))])])
    # options that multiply
    for n in (5, 6, 7):
        out.append(head + [rule("O", [dict(items=[item("id", "e")] + labelled([item("id", c, opt=True) for c in "abcdfgh"[:n]], .7))])])
    # groups within groups
    def nest(d):
        x = item("id", rng.choice("abcd"))
        return [x] if d == 0 else [item("id", "e")] + [item("grp", alts=[dict(items=nest(d - 1), code=None)] + ([dict(items=[it()], code=None)] if rng.random() < .3 else []), opt=rng.random() < .4, label="lb%d" % d, own=rng.random() < .5)]
    for d in (8, 15):
        out.append(head + [rule("D", [dict(items=nest(d))])])
    # many rules, with paths of many parts
    deep = "crate" + "::deep" * rng.choice([6, 12]) + "::sym"
    out.append([dict(k="use", t=rng.choice(["std::fmt::Debug", "std::collections::HashMap", "std::cell::Cell", "std::rc::Rc", "std::vec"])) for _ in range(1)] + head
               + [rule("N%d" % k, [dict(items=[it() for _ in range(rng.choice([1, 2]))])]) for k in range(60)])
    # many imports and aliases
    out.append([dict(k="use", t=t) for t in ["std::fmt::Debug", "std::collections::HashMap", "std::cell::Cell", "std::rc::Rc", "std::sync::Arc", "std::borrow::Cow", "std::ops::Range", "std::fmt::*"]]
               + [dict(k="alias", tk='"w%d"' % k, to=rng.choice(["a", "T_%d" % k])) for k in range(40)] + head
               + [rule("A", [dict(items=[item("lit", '"w%d"' % rng.randrange(40)) for _ in range(rng.randint(1, 12))]) for _ in range(12)])])
    return [("big%d" % i, show(d, rng, plain=i % 3 == 0)) for i, d in enumerate(out)]


def atoms(items):
    out = []
    for it in items:
        if it["k"] == "grp":
            for a in it["alts"]:
                out += atoms(a["items"])
        else:
            out.append(it["t"])
    return out


def can_be_empty(items):
    return all(it["opt"] or (it["k"] == "grp" and any(can_be_empty(a["items"]) for a in it["alts"])) for it in items)


def count(items):
    n = 1
    for it in items:
        k = sum(count(a["items"]) for a in it["alts"]) if it["k"] == "grp" else 1
        n *= k + (1 if it["opt"] else 0)
    return n


# ------------------------------------------------------------------ texts

def repo_texts():
    out = []
    for p in sorted(glob.glob(REPO + "/**/*.grammar", recursive=True)) + sorted(glob.glob(REPO + "/examples/**/*.wop", recursive=True)):
        with open(p, encoding="utf-8") as f:
            out.append((re.sub(r"\W", "_", os.path.relpath(p, REPO)), f.read()))
    return out


EDIT_KINDS = "-=+^"


def edits(rng, n):
    k = rng.choice(EDIT_KINDS)
    i, j = rng.randrange(n), rng.randrange(n)
    return "-%d" % i if k == "-" else "%s%d:%d" % (k, i, j)


# ------------------------------------------------------------------ generated programs

def artifacts():
    """Paths of the libraries the generated programs link against."""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=json", "--manifest-path",
                        os.path.join(VERIF, "wharness", "Cargo.toml")], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    out = {}
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d.get("reason") != "compiler-artifact":
            continue
        name = d["target"]["name"]
        lib = [f for f in d["filenames"] if f.endswith(".rlib")]
        if lib and name in ("lrp", "wop"):
            out[name + ("_repo" if name == "lrp" and "registry" not in d["package_id"] else "")] = lib[0]
    if not {"lrp", "lrp_repo", "wop"} <= set(out):
        raise ToolError("no libraries to link generated programs with: %r" % out)
    return out


PRELUDE = os.path.join(VERIF, "wharness", "gen", "prelude.rs")
RUSTC_ERR = re.compile(r"--> (?:.*/)?(m_\w+)\.rs:\d+")


def words_of(src):
    return sorted(w for w in set(re.findall(r"[A-Za-z_]\w*", src)) if w not in LABELS and not re.fullmatch(r"lb\d+", w))


PLAIN_SYM = """pub type Sym = &'static str;
fn mk(s: &'static str) -> Sym { s }
"""
OWN_SYM = """pub use lrp::Meta;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Sym(pub &'static str);
impl std::ops::Deref for Sym {
    type Target = str;
    fn deref(&self) -> &str { self.0 }
}
fn mk(s: &'static str) -> Sym { Sym(s) }
"""
BASIS = """
pub fn rules() -> lrp::RuleMap<crate::Sym> { grammar().rules }
pub fn reds() -> lrp::ReductMap<lrp::Meta<crate::Ast>, crate::Sym> { reduct_map() }
pub fn basis() -> (crate::Sym, Vec<crate::Sym>) { let b = grammar().basis(); (b.rule, b.look.into_iter().collect()) }
"""


def compile_programs(run, mods, name, lib="lrp_repo", prelude=PRELUDE, whole=False):
    """mods: (id, grammar expression, reductor expression, words), or (id, text of a file, None, words) for
    whole files. One program per processor, a module per description; a module that does not compile is
    left out. Returns {id: binary} and {id: error}."""
    pre = open(prelude).read()
    if whole:
        assert PLAIN_SYM in pre
        pre = pre.replace(PLAIN_SYM, OWN_SYM)
    libs = artifacts()
    wd = os.path.join(run.work, name)
    os.makedirs(wd, exist_ok=True)
    n = min(JOBS, max(1, len(mods)))
    where, errs, boom = {}, {}, []

    def work(k):
        try:
            mine = mods[k::n]
            d = os.path.join(wd, "p%d" % k)
            os.makedirs(d, exist_ok=True)
            for i, g, r, words in mine:
                with open(os.path.join(d, "m_%s.rs" % i), "w") as f:
                    f.write(g + BASIS if whole else "pub fn rules() -> lrp::RuleMap<crate::Sym> %s\npub fn reds() -> lrp::ReductMap<lrp::Meta<crate::Ast>, crate::Sym> %s\n" % (g, r))
            ws = sorted({w for m in mine for w in m[3]} - RUST_WORDS)
            left = list(mine)
            while left:
                with open(os.path.join(d, "main.rs"), "w") as f:
                    f.write(pre)
                    f.write("pub mod sym {\n%s}\n" % "".join(("pub const %s: crate::Sym = crate::Sym(\"%s\");\n" if whole else "pub const %s: &str = \"%s\";\n") % (w, w) for w in ws))
                    if whole:
                        f.write("impl Sym {\n%s}\n" % "".join("pub const %s: Sym = Sym(\"%s\");\n" % (w, w) for w in ws))
                    f.write("".join("mod m_%s;\n" % m[0] for m in left))
                    f.write("fn main() { serve(&[%s]) }\n" % ", ".join('Entry("%s", m_%s::rules, m_%s::reds, %s)' % (m[0], m[0], m[0], "Some(m_%s::basis)" % m[0] if whole else "None") for m in left))
                out = os.path.join(d, "prog")
                p = subprocess.run(["rustc", "--edition=2021", "-Copt-level=0", "-Cdebuginfo=0", "-Cincremental=%s/inc" % d, "-Awarnings", "--crate-name=prog", "--extern", "lrp=" + libs[lib],
                                    "-L", "dependency=" + os.path.dirname(libs[lib]), "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), "-o", out, os.path.join(d, "main.rs")],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 0:
                    for m in left:
                        where[m[0]] = out
                    break
                bad = set(RUSTC_ERR.findall(p.stdout))
                if not bad:
                    raise ToolError("generated program: " + p.stdout[:3000])
                for m in left:
                    if "m_" + m[0] in bad:
                        i = p.stdout.find("m_%s.rs" % m[0])
                        errs[m[0]] = "does not compile: " + p.stdout[max(0, i - 200): i + 400]
                left = [m for m in left if "m_" + m[0] not in bad]
        except Exception as e:      # noqa
            boom.append(e)
    ths = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if boom:
        raise boom[0] if isinstance(boom[0], ToolError) else ToolError(repr(boom[0]))
    return where, errs


RUST_WORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try _ k toks vec panic std Ast Show node show sym is_empty fmt Debug collections".split())


class PCase(WCase):
    """Operations on a generated module."""

    def text(self, ops):
        return "case %s %s\n%send\n" % (self.id, self.id, "".join("op %s\n" % " ".join(o) for o in ops))


def run_programs(where, cases):
    by = {}
    for c in cases:
        if c.id in where:
            by.setdefault(where[c.id], []).append(c)
    ths = []
    errs = []

    def work(b, cs):
        try:
            run_cases_one(b, cs)
        except Exception as e:      # noqa
            errs.append(e)
    for b, cs in by.items():
        t = threading.Thread(target=work, args=(b, cs))
        t.start()
        ths.append(t)
    [t.join() for t in ths]
    if errs:
        raise errs[0] if isinstance(errs[0], ToolError) else ToolError(repr(errs[0]))


def run_cases_one(binary, cases):
    from lib import _drive
    _drive(binary, cases, OP_TIMEOUT, 3, [])


def compile_regen(run, gens):
    """Front ends generated from wop's own description: (grammar, reductor), or (file, None) -> binaries and errors."""
    libs = artifacts()
    wd = os.path.join(run.work, "regen")
    os.makedirs(wd, exist_ok=True)
    src = open(os.path.join(VERIF, "wharness", "gen", "regen.rs")).read()
    bins, errs = [None] * len(gens), [""] * len(gens)

    def work(k):
        g, r = gens[k]
        f = os.path.join(wd, "regen%d.rs" % k)
        with open(f, "w") as h:
            view = src.replace("VIEW", os.path.join(VERIF, "wharness", "src", "view.rs"))
            if r is None:       # a whole file
                i, j = view.index("mod out {") + 9, view.index("}\n\nfn main")
                h.write(view[:i] + g + view[j:])
            else:
                h.write(view.replace("GRAMMAR,", g + ",").replace("REDUCTOR", r))
        out = os.path.join(wd, "regen%d" % k)
        p = subprocess.run(["rustc", "--edition=2021", "-Copt-level=0", "-Cdebuginfo=0", "-Awarnings", "--crate-name=regen%d" % k, "--extern", "lrp=" + libs["lrp"],
                            "--extern", "wop=" + libs["wop"], "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), "-o", out, f],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            bins[k] = out
        else:
            errs[k] = "does not compile: " + p.stdout[:800]
    ths = [threading.Thread(target=work, args=(k,)) for k in range(len(gens))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    return bins, errs
