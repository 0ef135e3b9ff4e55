"""Shared by the checks of lrp's own properties (C01..C17)."""
import itertools, random
import corpus
from lib import *

HARNESS = None


def harness():
    global HARNESS
    if HARNESS is None:
        HARNESS = build("harness", "lrp-harness")
    return HARNESS


def grammars(run, nrand, nenum=0, fixed=True, reduced_only=False, nstruct=0, skip=(), rot=3):
    """(name, grammar) pairs: fixed, sampled from an enumeration, random, structured."""
    rng = random.Random(1000 * run.seed + sum(map(ord, run.pid)))
    out = []
    if fixed:
        out += [(k, g) for k, g in corpus.FIXED.items() if k not in skip and (not reduced_only or corpus.reduced(g))]
    if nenum:
        fam = [(("A",), ("a",), 2, 2), (("A", "B"), ("a",), 2, 3), (("A", "B"), ("a", "b"), 2, 3), (("A", "B", "C"), ("a",), 2, 4)]
        for fi, (n, t, ml, k) in enumerate(fam):
            want = nenum // len(fam)
            syms = len(n) + len(t)
            alts = len(n) * (syms + syms * syms)
            for j in range(want):
                ch = [rng.randrange(alts) for _ in range(k)]
                prods = []
                for c in sorted(ch):
                    l = n[c // (syms + syms * syms)]
                    b = c % (syms + syms * syms)
                    S = list(n) + list(t)
                    body = [S[b]] if b < syms else [S[(b - syms) // syms], S[(b - syms) % syms]]
                    prods.append((l, body))
                g = dict(start="S", eof="$", nts=["S"] + list(n), prods=[("S", [n[0]])] + prods)
                if reduced_only and not corpus.reduced(g):
                    continue
                out.append(("e%d_%d" % (fi, j), g))
    for j in range(nrand):
        g = corpus.rand_grammar(rng, reduced_only=reduced_only or j % 3 == 0)
        out.append(("r%d" % j, g))
    for j in range(nstruct):
        out.append(("s%d" % j, corpus.structured(rng)))
    return out, rng


TYPES = ["str", "rev", "num"]


def size(g):
    return sum(len(r) + 1 for _, r in g["prods"])


def dist(gs):
    """What the corpus looks like, for the evidence file."""
    return {"grammars": len(gs), "alternatives": sum(len(g["prods"]) for _, g in gs),
            "max_alternatives": max(len(g["prods"]) for _, g in gs), "reduced": sum(corpus.reduced(g) for _, g in gs)}
