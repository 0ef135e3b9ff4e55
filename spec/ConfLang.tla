------------------------------ MODULE ConfLang ------------------------------
(***************************************************************************)
(* C06: every string up to a length, accepted by the code exactly if it is *)
(* in the language; the language is built by plain derivation, sharing     *)
(* nothing with LR theory.                                                 *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, k
vars == <<n, k>>
Lang == TLCGet(1)
L == Data[n].langs[k]
C(clause, cond, detail) == Claim(Data[n].id \o "/" \o L.kind, clause, cond, detail)

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> Language(Grammar(Data[x].g), Data[x].n)]))
        /\ n \in 1..Len(Data)
        /\ k = 0
Next == k < Len(Data[n].langs) /\ k' = k + 1 /\ n' = n
Spec == Init /\ [][Next]_vars

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Total(_, _)
Total(b, e) == IF e = 0 THEN 1 ELSE Pow(b, e) + Total(b, e - 1)

Answers == k > 0 => C("answered", Answered(L), Bad(L))
Counted == (k > 0 /\ Answered(L)) => C("all", L.total = Total(Len(L.alpha), Data[n].n), <<L.total, L.alpha>>)
\* sentences with the end marker inside are not among the strings tried
Tried == {s \in Lang[n] : RangeOf(s) \subseteq RangeOf(L.alpha)}
LanguageExact == (k > 0 /\ Answered(L) /\ L.conf = 0) =>
  C("exact", RangeOf(L.acc) = Tried, <<"wrongly accepted", RangeOf(L.acc) \ Tried, "wrongly refused", Tried \ RangeOf(L.acc)>>)
=============================================================================
