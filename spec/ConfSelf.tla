----------------------------- MODULE ConfSelf -----------------------------
(***************************************************************************)
(* W06: the front end against its own description, and against front ends  *)
(* generated from it.  Two kinds of record:                                *)
(*   what = "own":  T: the tokens of wop.grammar, own: the rules compiled  *)
(*                  in, regen: whether each generated front end compiles   *)
(*   what = "file": a file's token sequences, each read by every front end *)
(*   what = "twice": what one description's code gave when generated in    *)
(*                  several processes                                      *)
(***************************************************************************)
EXTENDS WopExpand, Impl

VARIABLES n, k
vars == <<n, k>>
D == Data[n]
C(clause, cond, detail) == Claim(D.id \o "/" \o ToString(k), clause, cond, detail)

Steps == CASE D.what = "own" -> Len(Read(D.T).v) [] D.what = "file" -> Len(D.reads) [] OTHER -> Len(D.exps) - 1
Init == n \in 1..Len(Data) /\ k = 0
Next == k < Steps /\ k' = k + 1 /\ n' = n
Spec == Init /\ [][Next]_vars

P == Read(D.T).v
Own == D.what = "own"
Alts(name) == LET X == {x \in 1..Len(D.own.rules) : D.own.rules[x][1] = name} IN
              IF X = {} THEN <<>> ELSE D.own.rules[CHOOSE x \in X : TRUE][2]
OwnRules == (Own /\ k = 0) =>
  /\ C("own-description", Read(D.T).ok /\ Contradictions(D.T, P) = {}, "wop.grammar cannot be read")
  /\ C("own-answered", Answered(D.own), Bad(D.own))
  /\ Answered(D.own) =>
     /\ C("own-rules", {D.own.rules[x][1] : x \in 1..Len(D.own.rules)} = {Name(D.T, P[d].name) : d \in Rules(D.T, P)}, D.own.rules)
     /\ C("own-reductors", {<<D.own.reds[x][1], D.own.reds[x][2]>> : x \in 1..Len(D.own.reds)} =
                           {<<Name(D.T, P[d].name), Len(Expanded(D.T, P, d))>> : d \in Rules(D.T, P)}, D.own.reds)
     /\ C("own-start", D.own.start = "EntryPoint" /\ D.own.eof = <<"Eof">>, <<D.own.start, D.own.eof>>)
OwnAlternatives == (Own /\ k > 0 /\ Answered(D.own) /\ P[k].k = "rule") =>
  LET x == Expanded(D.T, P, k)
      spec == [i \in 1..Len(x) |-> x[i].b]
  IN C("own-alternatives", Alts(Name(D.T, P[k].name)) = spec, <<Alts(Name(D.T, P[k].name)), spec>>)
Regenerates == (Own /\ k = 0) => \A x \in 1..Len(D.regen) : C("regenerated", D.regen[x] = "", D.regen[x])

\* every generated front end reads as the compiled-in one does
Reads == (D.what = "file" /\ k > 0) =>
  LET R == D.reads[k] IN
  \A x \in 2..Len(R) :
    /\ C("answered", Answered(R[x]) <=> Answered(R[1]), <<R[1], R[x]>>)
    /\ (Answered(R[x]) /\ Answered(R[1])) => C("reads-alike", R[x] = R[1], <<"compiled in", R[1], "regenerated", R[x]>>)
Repeats == (D.what = "twice" /\ k > 0) =>
  C("repeatable", D.exps[k] = D.exps[k + 1], <<"two generations differ">>)
=============================================================================
