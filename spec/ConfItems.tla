------------------------------ MODULE ConfItems ------------------------------
(***************************************************************************)
(* C16: operations on item sets.  An item is <<p, d, L>> with a set L of   *)
(* lookaheads here, since sets may hold the same body several times.       *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, k
vars == <<n, k>>
G == TLCGet(1)
O == Data[n].sets[k]
C(clause, cond, detail) == Claim(Data[n].id \o "/" \o ToString(k), clause, cond, detail)
Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> Grammar(Data[x].g)]))
        /\ n \in 1..Len(Data) /\ k = 0
Next == k < Len(Data[n].sets) /\ k' = k + 1 /\ n' = n
Spec == Init /\ [][Next]_vars

It(x) == <<x[1], x[2], RangeOf(x[3])>>
Set(s) == {It(s[q]) : q \in 1..Len(s)}
In == Set(Data[n].sets[k].given)
g == G[n]
Body(x) == g.R[x[1]]
Cor(S) == {<<x[1], x[2]>> : x \in S}
\* which production a body belongs to cannot be told apart for equal bodies of one rule with the
\* same number; here numbers differ, so the production number identifies it
MergeOf(S) == {<<c[1], c[2], UNION {x[3] : x \in {y \in S : y[1] = c[1] /\ y[2] = c[2]}}>> : c \in Cor(S)}

Ok == k > 0 /\ Answered(O)
Answers == k > 0 => C("answered", Answered(O), Bad(O))
ReadBack == Ok => C("in", Set(O.in) = In, <<O.in, In>>)
Merged == Ok => /\ C("merged", Set(O.merged) = MergeOf(In) /\ Len(O.merged) = Cardinality(Cor(In)), <<O.merged, MergeOf(In)>>)
                /\ C("merged2", Set(O.merged2) = MergeOf(In) /\ Len(O.merged2) = Cardinality(Cor(In)), <<O.merged2, MergeOf(In)>>)
Waits(x, X) == x[2] < Len(Body(x)) /\ Body(x)[x[2] + 1] = X
Filtered == Ok => /\ C("symbols", {O.filt[q][1] : q \in 1..Len(O.filt)} = g.syms, O.filt)
                  /\ \A q \in 1..Len(O.filt) :
                       LET X == O.filt[q][1]
                           want == {<<x[1], x[2] + 1, x[3]>> : x \in {y \in In : Waits(y, X)}}
                       IN C("filter", Set(O.filt[q][2]) = want /\ Len(O.filt[q][2]) = Cardinality(want), <<X, O.filt[q][2], want>>)
CoresExact == Ok => C("cores", Set(O.cores) = {<<c[1], c[2], {}>> : c \in Cor(In)} /\ Len(O.cores) = Cardinality(Cor(In)), O.cores)

At(x, q) == IF q >= 1 /\ q <= Len(Body(x)) THEN Body(x)[q] ELSE ""
Facts == Ok => \A q \in 1..Len(O.facts) :
  LET f == O.facts[q]
      x == It(f.item)
      len == Len(Body(x))
  IN /\ C("top", f.top = At(x, x[2] + 1), f)
     /\ C("next", f.next = At(x, x[2] + 2), f)
     /\ C("peeks", Len(f.peeks) = len + 2 /\ \A m \in 1..Len(f.peeks) : f.peeks[m] = At(x, x[2] + m), f)
     /\ C("abs", Len(f.abs) = len + 2 /\ \A m \in 1..Len(f.abs) : f.abs[m] = At(x, m), f)
     /\ C("finished", f.fin = (x[2] >= len), f)
     /\ C("adv", It(f.adv) = <<x[1], x[2] + 1, x[3]>>, f)
     /\ C("clonenext", IF x[2] < len THEN f.cn # <<>> /\ It(f.cn) = <<x[1], x[2] + 1, x[3]>> ELSE f.cn = <<>>, f)
     /\ C("nolook", It(f.nolook) = <<x[1], x[2], {}>>, f)
     /\ C("with", It(f.with) = <<x[1], x[2], {"zz", "aa"}>>, f)
\* the printed form: rule, symbols with a dot before the next one, lookaheads
RECURSIVE Symbols_(_, _, _)
Symbols_(b, d, q) ==
  IF q > Len(b) + 1 /\ q > d + 1 THEN ""
  ELSE " " \o (IF q = d + 1 THEN ". " ELSE "") \o (IF q <= Len(b) THEN b[q] ELSE "") \o Symbols_(b, d, q + 1)
Shown(x) == g.L[x[1]] \o " =" \o Symbols_(Body(x), x[2], 1)
RECURSIVE Commas(_, _)
Commas(o, m) == IF m > Len(o) THEN "" ELSE (IF m > 1 THEN ", " ELSE "") \o o[m] \o Commas(o, m + 1)
\* the lookaheads come in the order of their type
Orders(L) == {o \in [1..Cardinality(L) -> L] : RangeOf(o) = L}
Prints == Ok => \A q \in 1..Len(O.facts) :
  LET f == O.facts[q] x == It(f.item) IN
  C("shown", \E o \in Orders(x[3]) : f.show = Shown(x) \o " {" \o Commas(o, 1) \o "}", <<f.show, Shown(x)>>)
AllFacts == Ok => C("allfacts", {It(O.facts[q].item) : q \in 1..Len(O.facts)} = In, "items")
\* same body: same rule, alternative and dot, whatever the lookaheads
SameBody == Ok => \A q \in 1..Len(O.facts), m \in 1..Len(O.facts) :
  LET x == It(O.facts[q].item) y == It(O.facts[m].item) IN
  C("bodyeq", O.facts[q].same[m] = (x[1] = y[1] /\ x[2] = y[2]), <<x, y>>)
=============================================================================
