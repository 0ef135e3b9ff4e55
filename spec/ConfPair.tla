------------------------------ MODULE ConfPair ------------------------------
(***************************************************************************)
(* C11, C17: two tables the code built (a second one after compaction, or  *)
(* of the renamed grammar, or with another symbol type), walked side by    *)
(* side.  They must be the same up to the numbering of states; names of    *)
(* the second are translated back by the record's renaming.                *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, t, a, b         \* case, pair, state of the first table, state of the second (0: not entered)
vars == <<n, t, a, b>>

P(x, y) == Data[x].pairs[y]
One(x, y) == P(x, y).one
Two(x, y) == P(x, y).two
Both == Answered(One(n, t)) /\ Answered(Two(n, t))

\* back: the renaming's inverse, as a list of pairs; a symbol that is not in it stands for itself
Back(x, y) == LET l == P(x, y).back IN [s \in {l[k][1] : k \in 1..Len(l)} |-> l[CHOOSE k \in 1..Len(l) : l[k][1] = s][2]]
Rn(f, s) == IF s \in DOMAIN f THEN f[s] ELSE s
RowBack(f, row) == [X \in {Rn(f, row[k][1]) : k \in 1..Len(row)} |->
                      RangeOf(row[CHOOSE k \in 1..Len(row) : Rn(f, row[k][1]) = X][2])]
Mk == TLCEval([x \in 1..Len(Data) |-> TLCEval([y \in 1..Len(Data[x].pairs) |->
         IF Answered(One(x, y)) /\ Answered(Two(x, y))
         THEN LET f == TLCEval(Back(x, y)) IN
              <<ImplRows(One(x, y).rows), TLCEval([i \in 1..Len(Two(x, y).rows) |-> TLCEval(RowBack(f, Two(x, y).rows[i]))]), f>>
         ELSE <<>>])])
T == TLCGet(1)
RowA == T[n][t][1][a]
RowB == T[n][t][2][b]
F == T[n][t][3]
Id == Data[n].id \o "/" \o P(n, t).what
C(clause, cond, detail) == Claim(Id, clause, cond, detail)

Init == TLCSet(1, Mk) /\ n \in 1..Len(Data) /\ t \in 1..Len(Data[n].pairs) /\ a = 0 /\ b = 0
Targets(cell) == {x[2] : x \in {y \in cell : y[1] \in {"s", "g"}}}
InA == a \in 1..Len(T[n][t][1])
InB == b \in 1..Len(T[n][t][2])
Next == \/ a = 0 /\ Both /\ a' = 1 /\ b' = 1 /\ UNCHANGED <<n, t>>
        \/ /\ a # 0 /\ InA /\ InB
           /\ \E X \in DOMAIN RowA \cap DOMAIN RowB :
                \E p \in Targets(RowA[X]), q \in Targets(RowB[X]) : a' = p /\ b' = q
           /\ UNCHANGED <<n, t>>
Spec == Init /\ [][Next]_vars

Strip(cell) == {IF x[1] \in {"s", "g"} THEN <<x[1], 0>> ELSE x : x \in cell}
BothAnswer == a = 0 => C("answered", Answered(One(n, t)) <=> Answered(Two(n, t)), <<Bad(One(n, t)), Bad(Two(n, t))>>)
InTables == (a # 0 /\ Both) => C("intable", InA /\ InB, <<a, b>>)
SameRows == (a # 0 /\ InA /\ InB) =>
  /\ C("columns", DOMAIN RowA = DOMAIN RowB, <<a, b, DOMAIN RowA, DOMAIN RowB>>)
  /\ \A X \in DOMAIN RowA \cap DOMAIN RowB : C("cell", Strip(RowA[X]) = Strip(RowB[X]), <<a, b, X, RowA[X], RowB[X]>>)
\* lookaheads of SLR items mean nothing and are compared all the same: nothing in them depends on names
SameItems == (a # 0 /\ InA /\ InB /\ P(n, t).items) =>
  LET A == ImplItems(One(n, t).items[a])
      B == {<<x[1], x[2], Rn(F, x[3])>> : x \in ImplItems(Two(n, t).items[b])}
  IN /\ C("items", A = B, <<a, b, A \ B, B \ A>>)
     /\ C("itemcores", ImplCores(One(n, t).items[a]) = ImplCores(Two(n, t).items[b]), <<a, b>>)
SameCounts == (a = 0 /\ Both) =>
  /\ P(n, t).counts => C("nstates", One(n, t).nstates = Two(n, t).nstates, <<One(n, t).nstates, Two(n, t).nstates>>)
  /\ P(n, t).counts => C("nconflicts", One(n, t).conf = Two(n, t).conf, <<One(n, t).conf, Two(n, t).conf>>)
  /\ C("conflictfree", (One(n, t).conf = 0) <=> (Two(n, t).conf = 0), <<One(n, t).conf, Two(n, t).conf>>)
=============================================================================
