------------------------------ MODULE ConfSizes ------------------------------
(***************************************************************************)
(* C01-C04: grammars of hundreds of rules, alternatives, symbols in a body *)
(* and unit steps, whose tables Families tells in advance.                 *)
(*   Data[n]: [id, fam, n, tabs: Seq([kind, compact, size]), sets]         *)
(***************************************************************************)
EXTENDS Families, FiniteSets, Json, IOUtils
Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
RangeOf(s) == {s[x] : x \in DOMAIN s}
Claim(case, clause, cond, detail) == cond \/ ~PrintT("FAIL|" \o case \o "|" \o clause \o "|" \o ToString(detail))

VARIABLES n
vars == <<n>>
Init == n \in 1..Len(Data)
Next == FALSE /\ n' = n
Spec == Init /\ [][Next]_vars

D == Data[n]
C(clause, cond, detail) == Claim(D.id, clause, cond, detail)
Answers == C("sets-built", "bad" \notin DOMAIN D.sets, D.sets)
Counts == \A t \in RangeOf(D.tabs) :
  /\ C("built", "bad" \notin DOMAIN t, t)
  /\ "bad" \notin DOMAIN t => C("sizes", t.size = Sizes(D.fam, D.n), <<t.kind, t.compact, "impl", t.size, "spec", Sizes(D.fam, D.n)>>)
Sets(what, Of(_)) == "bad" \in DOMAIN D.sets \/
  LET all == D.sets[what]
      wrong == {x \in DOMAIN all : RangeOf(all[x][2]) # Of(all[x][1])} IN
  /\ C(what, wrong = {}, {<<all[x][1], "impl", all[x][2], "spec", Of(all[x][1])>> : x \in {y \in wrong : \A z \in wrong : y <= z}})
  /\ C(what \o "-of-all", Len(all) = Cardinality({Grow(D.fam, D.n)[x].l : x \in DOMAIN Grow(D.fam, D.n)}), Len(all))
First == LET Of(x) == FirstOf(D.fam, D.n, x) IN Sets("first", Of)
Follow == LET Of(x) == FollowOf(D.fam, D.n, x) IN Sets("follow", Of)
=============================================================================
