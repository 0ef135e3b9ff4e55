------------------------------ MODULE ConfSets ------------------------------
(***************************************************************************)
(* C01: FIRST and FOLLOW as computed by the code against the least         *)
(* fixpoints of LRTheory.  One state per (grammar, nonterminal).           *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, k        \* grammar, index of the symbol looked at (0: the grammar as a whole)
vars == <<n, k>>

G == TLCGet(1)        \* the grammars, worked out once in Init
Out(i) == Data[i].sets

Tab(t) == [A \in {t[j][1] : j \in 1..Len(t)} |-> RangeOf(t[CHOOSE j \in 1..Len(t) : t[j][1] = A][2])]
Get(t, A) == LET f == Tab(t) IN IF A \in DOMAIN f THEN f[A] ELSE {}

Init == /\ TLCSet(1, TLCEval([i \in 1..Len(Data) |-> Grammar(Data[i].g)]))
        /\ n \in 1..Len(Data)
        /\ k = 0
Next == /\ Answered(Out(n))
        /\ k < Len(Data[n].g.nts)
        /\ k' = k + 1
        /\ n' = n
Spec == Init /\ [][Next]_vars

A == Data[n].g.nts[k]

Terminates == k = 0 => Claim(Data[n].id, "answered", Answered(Out(n)), Bad(Out(n)))
FirstExact == k > 0 => Claim(Data[n].id, "first", Get(Out(n).first, A) = G[n].first[A],
                             <<A, "impl", Get(Out(n).first, A), "spec", G[n].first[A]>>)
FollowExact == k > 0 => Claim(Data[n].id, "follow", Get(Out(n).follow, A) = G[n].follow[A],
                              <<A, "impl", Get(Out(n).follow, A), "spec", G[n].follow[A]>>)
\* no table entry for anything but a rule
OnlyRules == (k = 0 /\ Answered(Out(n))) =>
  Claim(Data[n].id, "keys", DOMAIN Tab(Out(n).first) \cup DOMAIN Tab(Out(n).follow) \subseteq G[n].nts,
        <<DOMAIN Tab(Out(n).first), DOMAIN Tab(Out(n).follow)>>)
\* FIRST of a set of symbols, as the closures use it
FirstOfSets == (k = 0 /\ Answered(Out(n))) =>
  \A j \in 1..Len(Out(n).first_of) :
    LET q == RangeOf(Out(n).first_of[j][1])
        r == RangeOf(Out(n).first_of[j][2])
    IN Claim(Data[n].id, "firstof", r = UNION {G[n].first[X] : X \in q}, <<q, r>>)
=============================================================================
