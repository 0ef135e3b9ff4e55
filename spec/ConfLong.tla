------------------------------ MODULE ConfLong ------------------------------
(***************************************************************************)
(* C06-C11: very long inputs, whose parses Families tells in advance.      *)
(*   n: record, k: run                                                     *)
(***************************************************************************)
EXTENDS Families, FiniteSets, TLC, Json, IOUtils
Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
RangeOf(s) == {s[x] : x \in DOMAIN s}
Claim(case, clause, cond, detail) == cond \/ ~PrintT("FAIL|" \o case \o "|" \o clause \o "|" \o ToString(detail))

VARIABLES n, k
vars == <<n, k>>
Init == n \in 1..Len(Data) /\ k = 0
Next == k < Len(Data[n].runs) /\ k' = k + 1 /\ n' = n
Spec == Init /\ [][Next]_vars

X == Data[n].runs[k]
Fam == Data[n].fam
Size == Data[n].n
O == Outcome(Fam, Size, X.p)
Ok == k > 0 /\ "bad" \notin DOMAIN X
C(clause, cond, detail) == Claim(Data[n].id, clause, cond, <<X.kind, X.compact, X.p, detail>>)
Answers == k > 0 => C("answered", "bad" \notin DOMAIN X, IF "bad" \in DOMAIN X THEN X.bad ELSE "")
Verdict == Ok => \A v \in {X.res, X.parse, X.simple} : C("verdict", (v.e = "ok") <=> (O[2] = ""), <<v, O>>)
Validated == Ok => C("validated", X.valid <=> (O[2] = ""), <<X.valid, O>>)
Where == (Ok /\ O[2] # "") =>
  /\ \A v \in {X.res, X.parse, X.simple} : C("token", v.e = "tok" /\ v.t = O[2], <<v, O>>)
  /\ C("shifted", X.shifted = O[1], <<X.shifted, O>>)
  /\ Fam \in Sized => \A v \in {X.res, X.parse, X.simple} : v.e = "tok" =>
       C("expected", RangeOf(v.exp) = Next_(Fam, Size, X.p) /\ Len(v.exp) = Cardinality(RangeOf(v.exp)), <<v.exp, Next_(Fam, Size, X.p)>>)
\* the run: a state more than symbols, the topmost current, and no more of them than there have to be
Stack == Ok => /\ C("heights", X.uneven = 0, X.uneven)
               /\ C("top", X.offtop = 0, X.offtop)
               /\ O[2] = "" => C("tallest", X.high = Tallest(Fam, Size, X.p), X.high)
\* what it calls, and the value: every token once and in order
Called == (Ok /\ O[2] = "") =>
  /\ C("calls", X.calls = Calls(Fam, Size, X.p), X.calls)
  /\ C("leaves", X.leaves = <<<<1, Length(Fam, Size, X.p)>>>>, X.leaves)
\* the lookahead is all that is taken beforehand, and nothing is asked for twice at the end
Reading == Ok => C("ahead", X.ahead <= 1 /\ X.late = 0, <<X.ahead, X.late>>)
=============================================================================
