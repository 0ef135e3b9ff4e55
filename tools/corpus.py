"""Grammars and inputs: fixed, enumerated and random. Nothing here knows what the answers should be."""
import itertools, random


def G(text, eof="$", extra=()):
    """'S -> A b | c ; A -> a' ; the first rule is the start. A rule with nothing after -> has no alternatives."""
    nts, prods = [], []
    for part in text.split(";"):
        w = part.split()
        if not w:
            continue
        assert w[1] == "->", part
        l = w[0]
        if l not in nts:
            nts.append(l)
        alt = []
        for x in w[2:] + ["|"]:
            if x == "|":
                if alt:
                    prods.append((l, alt))
                alt = []
            else:
                alt.append(x)
    return dict(start=nts[0], eof=eof, nts=nts, prods=prods)


FIXED = {
    # the repository's own test grammars
    "dragon": G("S1 -> S ; S -> C C ; C -> c C | d"),
    "wiki": G("S -> E ; E -> E * B | E + B | B ; B -> 0 | 1"),
    "ucalgary": G("E -> S ; S -> D b A | e b B ; A -> E | a ; B -> C | a ; D -> d"),
    "sero": G("E1 -> E ; E -> T | E + T ; T -> num | T * num"),
    "puncs": G("S -> P ; P -> A | V ; A -> Com B | A B ; B -> Dot Dot ; V -> Com Dot"),
    # expression grammars
    "expr": G("S -> E ; E -> E + T | T ; T -> T * F | F ; F -> ( E ) | id"),
    "exprR": G("S -> E ; E -> T + E | T ; T -> F * T | F ; F -> ( E ) | id"),
    "ambexpr": G("S -> E ; E -> E + E | E * E | ( E ) | n"),
    "unary": G("S -> E ; E -> - E | E - T | T ; T -> n | ( E )"),
    # the classic separations
    "lr1notlalr": G("S -> X ; X -> a A d | b B d | a B e | b A e ; A -> c ; B -> c"),
    "lalrnotslr": G("S -> X ; X -> L = R | R ; L -> * R | id ; R -> L"),
    "slrnotlr0": G("S -> E ; E -> T + E | T ; T -> i"),
    "lr2": G("S -> X ; X -> A b c | B b d ; A -> a ; B -> a"),
    "nonlr": G("S -> P ; P -> a P a | a"),
    "palin": G("S -> P ; P -> a P a | b P b | c"),
    "dangling": G("S -> X ; X -> if e then X | if e then X else X | o"),
    "matched": G("S -> X ; X -> M | U ; M -> i M e M | o ; U -> i X | i M e U"),
    "rr": G("S -> X ; X -> A | B ; A -> a ; B -> a"),
    "rr3": G("S -> X ; X -> A | B | C ; A -> a ; B -> a ; C -> a"),
    "srr": G("S -> X ; X -> A a | B a | a a ; A -> a ; B -> a"),
    "accconf": G("S -> A ; A -> A A | a | B ; B -> A"),
    "cycle1": G("S -> A ; A -> A | a"),
    "cycle2": G("S -> A ; A -> B | a ; B -> A | b"),
    "dup": G("S -> A ; A -> a | a | b"),
    "dup2": G("S -> X ; X -> A c | A c | d ; A -> a | a"),
    # cycles between rules at either end
    "lcyc3": G("S -> A ; A -> B x | a ; B -> C y | b ; C -> A z | c"),
    "rcyc3": G("S -> A ; A -> x B | a ; B -> y C | b ; C -> z A | c"),
    "lcyc4": G("S -> A ; A -> B p ; B -> C q ; C -> D r ; D -> A s | d"),
    "rcyc4": G("S -> A ; A -> p B ; B -> q C ; C -> r D ; D -> s A | d"),
    "lrcyc": G("S -> A t ; A -> B | B u ; B -> C | v C ; C -> A | w A | c"),
    "purecyc3": G("S -> A ; A -> B ; B -> C ; C -> A | a"),
    "deadcyc3": G("S -> a ; A -> B ; B -> C ; C -> A"),
    "deadcyc3t": G("S -> a ; A -> x B ; B -> y C ; C -> z A"),
    "unreach": G("S -> A ; A -> a ; B -> b C ; C -> c B | A"),
    "unreachl": G("S -> A ; A -> a b ; D -> A d ; E -> D A"),
    "unprod": G("S -> A ; A -> a | B b ; B -> B c"),
    "unprod2": G("S -> A ; A -> a C | B ; B -> b B ; C -> c | B"),
    "norule": G("S -> A ; A -> a | N b ; N ->"),
    "norule2": G("S -> A ; A -> N | a A ; N ->"),
    "emptylang": G("S -> A ; A -> a A"),
    # lookahead propagation
    "prop1": G("S -> A ; A -> a | C B ; B -> a ; C -> b A a"),
    "prop2": G("S -> X ; X -> a Y | b Y x ; Y -> c Z ; Z -> d | e Y"),
    "prop3": G("S -> A ; A -> B a | c A d ; B -> c B | c A | e"),
    "prop4": G("S -> L ; L -> L , I | I ; I -> n : T | n ; T -> n T | n | [ L ]"),
    "prop5": G("S -> A ; A -> B | A x B ; B -> C | C y B ; C -> z | w A w | v B v"),
    "prop6": G("S -> P ; P -> a Q a | b Q b | a R b | b R a ; Q -> q ; R -> q r"),
    # statements
    "stmts": G("S -> B ; B -> X | B sc X ; X -> id := E | { B } | wh E do X ; E -> id | E < id"),
    "json": G("S -> V ; V -> { } | { M } | [ ] | [ L ] | s | n ; M -> P | P , M ; P -> s : V ; L -> V | V , L"),
    "decl": G("S -> D ; D -> T V sc | D T V sc ; T -> int | T * ; V -> id | V [ n ] | ( V )"),
    "lists": G("S -> L ; L -> ( ) | ( I ) ; I -> a | L | I a | I L"),
    "long": G("S -> X ; X -> a b c d e f g h i j k l | a b c d e f g h i j k X l | z"),
    "ladder": G("S -> A1 ; A1 -> A2 | A1 o1 A2 ; A2 -> A3 | A2 o2 A3 ; A3 -> A4 | A3 o3 A4 ; A4 -> A5 | A4 o4 A5 ; A5 -> n | ( A1 )"),
    "many": G("S -> X ; X -> " + " | ".join("t%d" % i for i in range(45))),
    "many2": G("S -> X ; X -> X A | A ; A -> " + " | ".join("t%d u" % i for i in range(12)) + " | " + " | ".join("t%d v w" % i for i in range(12))),
    "eofmid": G("S -> A ; A -> a $ b | c | A d"),
    "eofboth": G("S -> A ; A -> $ B | B ; B -> x $ y | x y"),
    "block": G("S -> X ; X -> if E th X el X fi | wh E do X od | id := E | be L en ; L -> X | L sc X ; E -> id | id le id | not E"),
    "record": G("S -> R ; R -> rec id lc F rc | enum id lc I rc ; F -> id co T sc | F id co T sc ; I -> id | I cm id ; T -> id | R | arr T of n"),
    "four": G("S -> X ; X -> l Y r | m Y s | l Z s | m Z r ; Y -> a b c d ; Z -> a b c d e"),
    "sixes": G("S -> X ; X -> a b c d e f | a b c d X f | A b c d e A ; A -> x a x b x c | y"),
    "chain20": G("S -> R0 ; " + " ; ".join("R%d -> R%d" % (i, i + 1) for i in range(20)) + " ; R20 -> x | ( R0 )"),
    "chain40": G("S -> R0 ; " + " ; ".join("R%d -> R%d" % (i, i + 1) for i in range(40)) + " ; R40 -> x"),
    "lchain24": G("S -> R0 ; " + " ; ".join("R%d -> R%d t%d" % (i, i + 1, i % 3) for i in range(24)) + " ; R24 -> x"),
    "rchain24": G("S -> R0 ; " + " ; ".join("R%d -> t%d R%d" % (i, i % 3, i + 1) for i in range(24)) + " ; R24 -> x"),
    "upchain30": G("S -> Z9 ; Z9 -> Z8 ; " + " ; ".join("Z%d -> Z%d | k%d" % (i, i - 1, i) for i in range(8, 0, -1)) + " ; Z0 -> " + "A9 q ; A9 -> B9 ; " + " ; ".join("B%d -> B%d" % (i, i - 1) for i in range(9, 0, -1)) + " ; B0 -> w | w B9 v"),
    "single": G("S -> a"),
    "two": G("S -> a b"),
    "chain": G("S -> A ; A -> B ; B -> C ; C -> D ; D -> d"),
    "startlong": G("S -> a A b A c ; A -> x | x A"),
    "startlong2": G("S -> A A A ; A -> a | b A"),
    "eofin": G("S -> A ; A -> a $ b | a"),
    "eofend": G("S -> A $ ; A -> a | A a"),
    "eofname": G("S -> A ; A -> a A | b", eof="END"),
    "eofsort": G("S -> A ; A -> a A | b", eof="zz"),
    "eofsort0": G("S -> A ; A -> c A d | b", eof="0"),
    # same symbols in other orders of names
    "sortA": G("Z -> Y ; Y -> Y + X | X ; X -> X * W | W ; W -> ( Y ) | id"),
    "sortB": G("m -> a ; a -> a + z | z ; z -> z * B | B ; B -> ( a ) | x"),
    "sortC": G("b -> z ; z -> y A c | y q d ; A -> q ; y -> y q | r"),
    "nested": G("S -> B ; B -> ( B ) | [ B ] | B ( B ) | x"),
    "anbn": G("S -> X ; X -> a X b | a b"),
    "anbmc": G("S -> X ; X -> A B ; A -> a A c | d ; B -> b B | b"),
    "pascal": G("S -> P ; P -> begin L end ; L -> C | L sc C ; C -> id := E | if E then C | if E then C else C | P ; E -> E + id | id"),
    "lvalue": G("S -> X ; X -> id | id ( L ) | X . id | X [ E ] ; L -> E | L , E ; E -> X | n | E + X"),
    "types": G("S -> T ; T -> F | F -> T ; F -> id | ( T ) | F *"),
    "wop": G("EntryPoint -> Grammar ; Grammar -> Decl | Decl Grammar ; Decl -> Use | Alias | RuleD ; Use -> use code ; Alias -> alias lit = id ; RuleD -> id : id Alts ; Alts -> Alt | Alt bar Alts ; Alt -> Items | Items code ; Items -> Item | Item Items ; Item -> Atom | Atom q | Atom lab | Atom q lab ; lab -> col id | col amp id ; Atom -> id | lit | lp Alts rp"),
}

CONFLICTED = ("ambexpr", "lr2", "nonlr", "dangling", "rr", "rr3", "srr", "accconf", "cycle1", "cycle2", "dup", "dup2", "purecyc3")
BIG = ("wop", "ladder", "pascal", "many2", "lvalue", "json")


# ------------------------------------------------------------------ enumeration

def enum_grammars(nts, terms, maxlen, nprods, start="S"):
    """Every grammar S -> A plus nprods alternatives (a multiset, so duplicates too) over the symbols."""
    syms = list(nts) + list(terms)
    bodies = [b for n in range(1, maxlen + 1) for b in itertools.product(syms, repeat=n)]
    alts = [(l, list(b)) for l in nts for b in bodies]
    for c in itertools.combinations_with_replacement(range(len(alts)), nprods):
        yield dict(start=start, eof="$", nts=[start] + list(nts), prods=[(start, [nts[0]])] + [alts[i] for i in c])


def reduced(g):
    nts = set(g["nts"])
    prod = set()
    ch = True
    while ch:
        ch = False
        for l, r in g["prods"]:
            if l not in prod and all(x in prod or x not in nts for x in r):
                prod.add(l)
                ch = True
    reach = {g["start"]}
    ch = True
    while ch:
        ch = False
        for l, r in g["prods"]:
            if l in reach:
                for x in r:
                    if x in nts and x not in reach:
                        reach.add(x)
                        ch = True
    return nts <= prod and nts <= reach


def rand_grammar(rng, nts=None, nterm=None, alts=None, maxlen=None, reduced_only=False):
    for _ in range(200):
        n = nts or rng.randint(1, 5)
        wide = rng.random() < .25
        m = nterm or rng.randint(1, 4)
        letters = rng.choice(["ABCDEFG", "GFEDCBA", "NAZBYCX", "abcdefg"])
        tl = rng.choice(["abcde", "edcba", "xaybz", "+*()n"]) if letters != "abcdefg" else "ABCDE"
        N = [letters[i] for i in range(n)]
        T = [tl[i] for i in range(m)]
        start = rng.choice(["S", "0S", "zS"])
        prods = [(start, [rng.choice(N + ([T[0]] if rng.random() < .1 else [])) if rng.random() < .85 else N[0]])]
        if rng.random() < .15:
            prods = [(start, [rng.choice(N + T) for _ in range(rng.randint(1, 3))])]
        for a in N:
            for _ in range(rng.randint(1, alts or (3 if rng.random() < .9 else 7))):
                k = rng.choice([1, 1, 2, 2, 2, 3, 3, 4] + ([5, 6, 7, 10] if wide else []))
                if maxlen:
                    k = min(k, maxlen)
                prods.append((a, [rng.choice(N) if rng.random() < .5 else rng.choice(T) for _ in range(k)]))
        if rng.random() < .5:
            rest = prods[1:]
            # rules declared in any order; alternatives keep theirs
            order = N[:]
            rng.shuffle(order)
            prods = [prods[0]] + [p for a in order for p in rest if p[0] == a]
            N = order
        g = dict(start=start, eof=rng.choice(["$", "$", "$", "!", "~e"]), nts=[start] + N, prods=prods)
        if rng.random() < .3:
            i = rng.randrange(len(g["nts"]))
            g["nts"] = g["nts"][i:] + g["nts"][:i]
        if reduced_only and not reduced(g):
            continue
        return g
    return g


def rand_reduced(rng, **kw):
    return rand_grammar(rng, reduced_only=True, **kw)


def structured(rng):
    """Language-like grammars, mostly LR: operator ladders, lists, brackets, keywords, optional parts."""
    nts, prods = ["S"], [("S", ["E0"])]
    lv = rng.randint(1, 3)
    for i in range(lv):
        a, b = "E%d" % i, "E%d" % (i + 1)
        nts.append(a)
        k = rng.random()
        op = "op%d" % i
        if k < .4:
            prods += [(a, [b]), (a, [a, op, b])]
        elif k < .7:
            prods += [(a, [b, op, a]), (a, [b])]
        elif k < .85:
            prods += [(a, [op, a]), (a, [b])]
        else:
            prods += [(a, [b]), (a, [a, op]), (a, [a, "pr", b])]
    a = "E%d" % lv
    nts.append(a)
    prods.append((a, ["id"]))
    if rng.random() < .8:
        prods.append((a, ["lp", "E0", "rp"]))
    if rng.random() < .5:
        nts.append("L")
        prods.append((a, ["lb", "L", "rb"]))
        prods += rng.choice([[("L", ["E0"]), ("L", ["L", "co", "E0"])], [("L", ["E0", "co", "L"]), ("L", ["E0"])],
                             [("L", ["E0"]), ("L", ["E0", "co"]), ("L", ["L", "se", "E0"])]])
    if rng.random() < .4:
        nts.append("K")
        prods += [(a, ["K", "end"]), ("K", ["kw", "E0"]), ("K", ["K", "el", "E0"])]
    if rng.random() < .3:
        prods.append((a, [a, "lp", "rp"]))
    if rng.random() < .35:
        prods.append((a, rng.choice([["if", "E0", "th", "E0", "el", "E0", "fi"], ["for", "id", "in", "E0", "do", "E0", "od"],
                                     ["let", "id", "eq", "E0", "in", "E0", "ni"], ["fn", "id", "lp", "id", "rp", "lc", "E0", "rc"]])))
        if rng.random() < .5:
            nts.append("B")
            prods += [(a, ["B", "x1"]), (a, ["q", "B", "x2"]), ("B", ["b1", "b2", "b3", "b4"]), ("B", ["b1", "b2", "E0", "b4", "b5"])]
    if rng.random() < .2:
        prods.append(rng.choice(prods[1:]))
    return dict(start="S", eof="$", nts=nts, prods=prods)


def rename(g, f):
    return dict(start=f[g["start"]], eof=f[g["eof"]], nts=[f[x] for x in g["nts"]], prods=[(f[l], [f[x] for x in r]) for l, r in g["prods"]])


def symbols(g):
    s = list(g["nts"])
    for _, r in g["prods"]:
        for x in r:
            if x not in s:
                s.append(x)
    if g["eof"] not in s:
        s.append(g["eof"])
    return s


def terminals(g):
    return [x for x in symbols(g) if x not in g["nts"] and x != g["eof"]]


# ------------------------------------------------------------------ inputs

def min_len(g):
    INF = 10 ** 6
    ml = {a: INF for a in g["nts"]}
    ch = True
    while ch:
        ch = False
        for l, r in g["prods"]:
            v = sum(ml.get(x, 1) for x in r)
            if v < ml[l]:
                ml[l] = v
                ch = True
    return ml


def sentence(g, rng, budget=12, ml=None):
    """A random sentence (None when the grammar has none), aiming at no more than budget tokens."""
    ml = ml or min_len(g)
    INF = 10 ** 6
    if ml[g["start"]] >= INF:
        return None
    by = {}
    for l, r in g["prods"]:
        if sum(ml.get(x, 1) for x in r) < INF:
            by.setdefault(l, []).append(r)
    form = [g["start"]]
    out = []
    steps = 0
    while form:
        x = form.pop(0)
        if x not in ml:
            out.append(x)
            continue
        steps += 1
        rest = len(out) + sum(ml.get(y, 1) for y in form)
        ok = [r for r in by[x] if rest + sum(ml.get(y, 1) for y in r) <= budget]
        if not ok or steps > 400:
            m = min(sum(ml.get(y, 1) for y in r) for r in by[x])
            ok = [r for r in by[x] if sum(ml.get(y, 1) for y in r) == m]
            if steps > 500:
                ok = ok[:1] if steps % 2 else ok[-1:]
            if steps > 4000:
                return None
        form = list(rng.choice(ok)) + form
    return out


def mutate(w, alpha, rng):
    w = list(w)
    k = rng.random()
    if k < .25 and w:
        del w[rng.randrange(len(w))]
    elif k < .5:
        w.insert(rng.randint(0, len(w)), rng.choice(alpha))
    elif k < .7 and w:
        w[rng.randrange(len(w))] = rng.choice(alpha)
    elif k < .8 and w:
        w = w[: rng.randrange(len(w))]
    elif k < .9 and len(w) > 1:
        i = rng.randrange(len(w) - 1)
        w[i], w[i + 1] = w[i + 1], w[i]
    else:
        w = w + [rng.choice(alpha)]
    return w


def inputs(g, rng, n, budget=10, odd=True):
    """Sentences, near misses and odd sequences (nonterminal names, end markers, unknown symbols)."""
    T = terminals(g) or ["x"]
    ml = min_len(g)
    out = [[]]
    # a sentence cut off at every place, and one with every terminal after it
    s = sentence(g, rng, budget=6, ml=ml)
    if s is not None:
        cut = [s[:q] for q in range(len(s) + 1)]
        rng.shuffle(cut)
        out += cut[:max(2, n // 3)]
        out.append(s + [rng.choice(T)])
    while len(out) < n:
        k = rng.random()
        s = sentence(g, rng, budget=rng.choice([2, 4, budget, budget]), ml=ml)
        if s is None:
            s = [rng.choice(T) for _ in range(rng.randint(1, 4))]
        if k < .45:
            out.append(s)
        elif k < .8:
            w = mutate(s, T, rng)
            if rng.random() < .2:
                w = mutate(w, T, rng)
            out.append(w)
        elif odd:
            out.append(mutate(s, g["nts"] + [g["eof"], "??"] + T[:1], rng))
        else:
            out.append([rng.choice(T) for _ in range(rng.randint(1, 5))])
    uniq = []
    for w in out:
        if w not in uniq and len(w) <= 2000:
            uniq.append(w)
    return uniq
