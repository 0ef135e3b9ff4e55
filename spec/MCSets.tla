------------------------------- MODULE MCSets -------------------------------
(***************************************************************************)
(* FIRST and FOLLOW by growing sets, one alternative at a time and in any  *)
(* order: it always ends, and always with the same sets.  Beside it, the   *)
(* way tabler.rs goes about it (all sets at once, rules' names standing    *)
(* for their sets until the end), and the way it once did (a name replaced *)
(* by its rule's set as it is so far), which need not end.                 *)
(***************************************************************************)
EXTENDS MCGrammars

VARIABLES g, F, O, ph
vars == <<g, F, O, ph>>

NT == RawNT(g)
P == 1..Len(g.prods)
L(p) == g.prods[p].l
R(p) == g.prods[p].r
Set1(X) == IF X \in NT THEN F[X] ELSE {X}

Init == /\ g \in AllGrammars
        /\ F = [A \in RawNT(g) |-> {}]
        /\ O = [A \in RawNT(g) |-> IF A = g.start THEN {g.eof} ELSE {}]
        /\ ph = "first"

GrowsFirst(p) == ~(Set1(R(p)[1]) \subseteq F[L(p)])
GrowFirst == /\ ph = "first"
             /\ \E p \in P : GrowsFirst(p) /\ F' = [F EXCEPT ![L(p)] = @ \cup Set1(R(p)[1])]
             /\ UNCHANGED <<g, O, ph>>
FirstDone == ph = "first" /\ (\A p \in P : ~GrowsFirst(p)) /\ ph' = "follow" /\ UNCHANGED <<g, F, O>>

Places == {<<p, k>> \in P \X (1..MaxLen) : k <= Len(R(p)) /\ R(p)[k] \in NT}
Behind(x) == IF x[2] < Len(R(x[1])) THEN Set1(R(x[1])[x[2] + 1]) ELSE O[L(x[1])]
GrowsFollow(x) == ~(Behind(x) \subseteq O[R(x[1])[x[2]]])
GrowFollow == /\ ph = "follow"
              /\ \E x \in Places : GrowsFollow(x) /\ O' = [O EXCEPT ![R(x[1])[x[2]]] = @ \cup Behind(x)]
              /\ UNCHANGED <<g, F, ph>>
FollowDone == ph = "follow" /\ (\A x \in Places : ~GrowsFollow(x)) /\ ph' = "done" /\ UNCHANGED <<g, F, O>>
Next == GrowFirst \/ FirstDone \/ GrowFollow \/ FollowDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* as tabler.rs does: names are kept among the members until nothing changes
RECURSIVE Names(_, _)
Names(T, k) ==
  LET T2 == TLCEval([A \in DOMAIN T |-> T[A] \cup UNION {T[X] : X \in T[A] \cap DOMAIN T}])
  IN IF T2 = T THEN [ok |-> TRUE, t |-> T] ELSE IF k = 0 THEN [ok |-> FALSE, t |-> T] ELSE Names(T2, k - 1)
Heads == [A \in NT |-> {R(p)[1] : p \in {q \in P : L(q) = A}}]
Tails == [B \in NT |-> (IF B = g.start THEN {g.eof} ELSE {})
            \cup UNION {IF x[2] < Len(R(x[1])) THEN (IF R(x[1])[x[2] + 1] \in NT THEN RawFirst(g)[R(x[1])[x[2] + 1]] ELSE {R(x[1])[x[2] + 1]})
                        ELSE {L(x[1])} : x \in {y \in Places : R(y[1])[y[2]] = B}}]
Plain(T) == [A \in DOMAIN T |-> T[A] \ NT]
\* as it once did: a name gives way to the set
RECURSIVE Replaced(_, _)
Replaced(T, k) ==
  LET T2 == TLCEval([A \in DOMAIN T |-> (T[A] \ DOMAIN T) \cup UNION {T[X] : X \in T[A] \cap DOMAIN T}])
  IN IF T2 = T THEN TRUE ELSE IF k = 0 THEN FALSE ELSE Replaced(T2, k - 1)

Bound == 4 * Cardinality(NT) + 4
-----------------------------------------------------------------------------
NeverTooMuch == /\ \A A \in NT : F[A] \subseteq RawFirst(g)[A]
                /\ ph # "first" => F = RawFirst(g)
                /\ \A A \in NT : O[A] \subseteq RawFollow(g, RawFirst(g))[A]
                /\ ph = "done" => O = RawFollow(g, RawFirst(g))
AtOnce == ph = "done" =>
  /\ Names(Heads, Bound).ok /\ Plain(Names(Heads, Bound).t) = F
  /\ Names(Tails, Bound).ok /\ Plain(Names(Tails, Bound).t) = O
\* false for cycles of three and more rules; checked to fail (a test of this model)
OnceEnded == ph = "done" => Replaced(Heads, 40) /\ Replaced(Tails, 40)
Ends == <>(ph = "done")
=============================================================================
