----------------------------- MODULE ConfParse -----------------------------
(***************************************************************************)
(* W05: the parser compiled from a generated description, run.             *)
(*   n: description   P: what the specification reads in it   G: the plain *)
(* grammar and its alternatives                                            *)
(*   k: the run looked at: [kind, toks: [k, s, e], conf, ok, top]          *)
(***************************************************************************)
EXTENDS WopExpand, Impl

VARIABLES n, G, alts, k
vars == <<n, G, alts, k>>

D == Data[n]
R == D.runs[k]
C(clause, cond, detail) == Claim(D.id \o "/" \o ToString(k), clause, cond, detail)

RECURSIVE Flat(_, _, _)
Flat(T, P, d) ==
  IF d > Len(P) THEN <<>>
  ELSE IF P[d].k # "rule" THEN Flat(T, P, d + 1)
  ELSE LET x == Expanded(T, P, d)
       IN [i \in 1..Len(x) |-> [l |-> Name(T, P[d].name), r |-> x[i].b, i |-> i - 1, a |-> x[i]]] \o Flat(T, P, d + 1)
AltsOf(m) == LET P == TLCEval(Read(Data[m].T).v) IN TLCEval(Flat(Data[m].T, P, 1))

Init == /\ n \in 1..Len(Data)
        /\ alts = AltsOf(n)
        /\ G = TLCEval(LET names == {alts[i].l : i \in 1..Len(alts)} IN
                       Grammar([start |-> Data[n].start, eof |-> "$", nts |-> SetToSeqR(names), prods |-> alts]))
        /\ k = 0
Next == k < Len(D.runs) /\ k' = k + 1 /\ UNCHANGED <<n, G, alts>>
Spec == Init /\ [][Next]_vars

On == k > 0
Ok == On /\ Answered(R)
In == [x \in 1..Len(R.toks) |-> R.toks[x].k]
Derivable == InLanguage(G, In)

Answers == On => C("answered", Answered(R), <<R.kind, In, Bad(R)>>)
Sound == (Ok /\ R.ok) => C("accepts-too-much", Derivable, <<R.kind, In>>)
Complete == (Ok /\ R.conf = 0 /\ ~R.ok) => C("rejects", ~Derivable, <<R.kind, In, R.why>>)

\* --- what the blocks made of it: every node is an alternative of its rule, run by its own block
Leaf(t) == "leaf" \in DOMAIN t
Binds(t, a) ==
  LET at(l) == LET m == CHOOSE m \in a.L : m.n = l.n IN [x \in 1..(m.hi - m.lo + 1) |-> LET c == t.kids[m.lo + x - 1] IN <<c.s, c.e, c.ty>>]
  IN /\ {t.labels[x].n : x \in 1..Len(t.labels)} = {l.n : l \in a.labels}
     /\ \A l \in a.labels : \A x \in {y \in 1..Len(t.labels) : t.labels[y].n = l.n} :
          IF \E m \in a.L : m.n = l.n THEN t.labels[x].some /\ t.labels[x].at = at(l) ELSE ~t.labels[x].some /\ t.labels[x].at = <<>>
Runs(t, a) == alts[a].l = t.ty /\ alts[a].r = [x \in 1..Len(t.kids) |-> t.kids[x].ty] /\ alts[a].a.block = t.block

RECURSIVE Yield(_)
Yield(ts) == IF ts = <<>> THEN <<>> ELSE (IF Leaf(ts[1]) THEN <<ts[1].leaf>> ELSE Yield(ts[1].kids)) \o Yield(Tail(ts))
RECURSIVE Nodes(_)
Nodes(ts) == IF ts = <<>> THEN <<>> ELSE <<ts[1]>> \o (IF Leaf(ts[1]) THEN <<>> ELSE Nodes(ts[1].kids)) \o Nodes(Tail(ts))

Tree == (Ok /\ R.ok) =>
  LET all == TLCEval(Nodes(R.top)) IN
  /\ C("tree-top", \E a \in 1..Len(alts) : alts[a].l = G.start /\ alts[a].r = [x \in 1..Len(R.top) |-> R.top[x].ty], R.top)
  /\ C("tree-tokens", Yield(R.top) = [x \in 1..Len(In) |-> x], <<In, Yield(R.top)>>)
  /\ \A x \in 1..Len(all) : LET t == all[x] IN
       IF Leaf(t)
       THEN C("tree-leaf", t.ty = R.toks[t.leaf].k /\ t.s = R.toks[t.leaf].s /\ t.e = R.toks[t.leaf].e, t)
       ELSE /\ C("tree-block", \E a \in 1..Len(alts) : Runs(t, a), <<R.kind, In, t.ty, t.block, [y \in 1..Len(t.kids) |-> t.kids[y].ty]>>)
            /\ C("tree-labels", (\E a \in 1..Len(alts) : Runs(t, a)) => (\E a \in 1..Len(alts) : Runs(t, a) /\ (Puzzling(alts[a].a) \/ Binds(t, alts[a].a))), <<R.kind, In, t>>)
            /\ C("tree-span", t.s = t.kids[1].s /\ t.e = t.kids[Len(t.kids)].e, <<R.kind, In, t>>)
=============================================================================
