----------------------------- MODULE WopExpand -----------------------------
(***************************************************************************)
(* What a grammar file means: the plain rules it describes, the block that *)
(* runs for each alternative, and what every label is bound to there.      *)
(*   T: the tokens of the file    P: what Read(T) made of them             *)
(* A symbol is named by the last identifier of its path, or by what a      *)
(* string literal contains.                                                *)
(***************************************************************************)
EXTENDS WopRead

Covered(T, at) == {x \in 1..Len(T) : T[x].s >= at[1] /\ T[x].e <= at[2]}
First_(T, at) == CHOOSE x \in Covered(T, at) : \A y \in Covered(T, at) : x <= y
Name(T, at) == LET I == {x \in Covered(T, at) : T[x].k = "Ident"} IN T[CHOOSE x \in I : \A y \in I : y <= x].x
\* a path, without what is between its parts
RECURSIVE Joined(_, _, _)
Joined(T, x, e) == IF x > Len(T) \/ T[x].e > e THEN "" ELSE T[x].x \o Joined(T, x + 1, e)
PathText(T, at) == Joined(T, First_(T, at), at[2])

\* the aliases declared before declaration d: text of a token -> symbol
AliasesBefore(T, P, d) ==
  LET As == {x \in 1..(d - 1) : P[x].k = "alias"} IN
  [t \in {T[First_(T, P[x].tk)].x : x \in As} |->
     Name(T, P[CHOOSE x \in As : T[First_(T, P[x].tk)].x = t].to)]

Symbol(T, A, it) ==
  LET f == First_(T, it.at) IN
  IF Cardinality(Covered(T, it.at)) = 1 /\ T[f].x \in DOMAIN A THEN A[T[f].x]
  ELSE IF it.k = "lit" THEN T[f].v ELSE Name(T, it.at)

Shift(L, by) == {[n |-> l.n, lo |-> l.lo + by, hi |-> l.hi + by] : l \in L}
RECURSIVE Cross(_, _, _, _)
\* every choice of the left with every choice of the right, left first
Cross(X, Y, x, y) ==
  IF x > Len(X) THEN <<>>
  ELSE IF y > Len(Y) THEN Cross(X, Y, x + 1, 1)
  ELSE <<[b |-> X[x].b \o Y[y].b, L |-> X[x].L \cup Shift(Y[y].L, Len(X[x].b))]>> \o Cross(X, Y, x, y + 1)

RECURSIVE ItemChoices(_, _, _)
RECURSIVE SeqChoices(_, _, _, _)
RECURSIVE AltChoices(_, _, _, _)
\* choices [b: symbols, L: labels with what they cover], in order
ItemChoices(T, A, it) ==
  LET base == IF it.k = "grp" THEN AltChoices(T, A, it.alts, 1) ELSE <<[b |-> <<Symbol(T, A, it)>>, L |-> {}]>>
      here(c) == IF it.label = <<>> THEN c
                 ELSE [b |-> c.b, L |-> c.L \cup {[n |-> Name(T, it.label), lo |-> 1, hi |-> Len(c.b)]}]
      present == [x \in 1..Len(base) |-> here(base[x])]
  IN IF it.opt THEN Append(present, [b |-> <<>>, L |-> {}]) ELSE present
SeqChoices(T, A, items, i) ==
  IF i > Len(items) THEN <<[b |-> <<>>, L |-> {}]>>
  ELSE Cross(TLCEval(ItemChoices(T, A, items[i])), TLCEval(SeqChoices(T, A, items, i + 1)), 1, 1)
AltChoices(T, A, alts, i) ==
  IF i > Len(alts) THEN <<>> ELSE SeqChoices(T, A, alts[i].items, 1) \o AltChoices(T, A, alts, i + 1)

\* the labels of an alternative, and how each is bound wherever its block runs
RECURSIVE Labels(_, _, _)
Labels(T, items, inside) ==
  UNION {LET it == items[i] IN
         (IF it.label = <<>> THEN {}
          ELSE {[n |-> Name(T, it.label), opt |-> it.opt \/ inside, own |-> it.cl, run |-> it.k = "grp"]})
         \cup UNION {Labels(T, it.alts[a].items, TRUE) : a \in 1..Len(it.alts)} : i \in 1..Len(items)}

\* the plain alternatives of rule declaration d: [b, L, block, labels]
RECURSIVE RuleAlts(_, _, _, _)
RuleAlts(T, A, alts, i) ==
  IF i > Len(alts) THEN <<>>
  ELSE LET cs == SeqChoices(T, A, alts[i].items, 1)
           bl == T[First_(T, alts[i].code)].v
           ls == Labels(T, alts[i].items, FALSE)
       IN [x \in 1..Len(cs) |-> [b |-> cs[x].b, L |-> cs[x].L, block |-> bl, labels |-> ls]] \o RuleAlts(T, A, alts, i + 1)
Rules(T, P) == {d \in 1..Len(P) : P[d].k = "rule"}
Expanded(T, P, d) == RuleAlts(T, AliasesBefore(T, P, d), P[d].alts, 1)

\* labels the description leaves without one meaning
Puzzling(alt) ==
  \/ \E l, m \in alt.labels : l.n = m.n /\ l # m
  \/ \E l, m \in alt.L : l.n = m.n /\ l # m

-----------------------------------------------------------------------------
(* Contradictions *)
RECURSIVE CodeInside(_)
CodeInside(items) ==
  \E i \in 1..Len(items) : \E a \in 1..Len(items[i].alts) :
     items[i].alts[a].code # <<0, 0>> \/ CodeInside(items[i].alts[a].items)
Contradictions(T, P) ==
  (IF \E x, y \in Rules(T, P) : x < y /\ PathText(T, P[x].name) = PathText(T, P[y].name) THEN {"rule defined twice"} ELSE {})
  \cup (IF \E x, y \in 1..Len(P) : x < y /\ P[x].k = "alias" /\ P[y].k = "alias"
           /\ T[First_(T, P[x].tk)].x = T[First_(T, P[y].tk)].x THEN {"text aliased twice"} ELSE {})
  \cup (IF \E d \in Rules(T, P) : \E a \in 1..Len(P[d].alts) : P[d].alts[a].code = <<0, 0>> THEN {"no code block"} ELSE {})
  \cup (IF \E d \in Rules(T, P) : \E a \in 1..Len(P[d].alts) : CodeInside(P[d].alts[a].items) THEN {"code block in a group"} ELSE {})
=============================================================================
