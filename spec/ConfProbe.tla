----------------------------- MODULE ConfProbe -----------------------------
(***************************************************************************)
(* Every state of a table with every token after it: prefixes leading to   *)
(* each state, each followed by each terminal, by the end, by the end      *)
(* marker as a token and by an unknown symbol.                             *)
(*   n: grammar   k: table   q: prefix (0: none yet)                       *)
(*   cf: the Driver's configuration once the prefix is consumed            *)
(***************************************************************************)
EXTENDS Driver, Impl

VARIABLES n, k, q, cf
vars == <<n, k, q, cf>>

G == TLCGet(1)
Rw == TLCGet(2)[n][k]
T == Data[n].tabs[k]
Ok == k > 0 /\ Answered(T) /\ Answered(Data[n].probes[k])
Ps == Data[n].probes[k].probes
P == Ps[q]
w == P[1]
C(clause, cond, detail) == Claim(Data[n].id \o "/" \o T.kind \o "/" \o ToString(T.compact), clause, cond, <<w, detail>>)

\* up to the point where the whole prefix is consumed
RECURSIVE Consume(_, _, _, _)
Consume(g, rows, inp, c) ==
  IF c.out # "run" \/ c.pos = Len(inp) THEN c ELSE Consume(g, rows, inp, TLCEval(Step(g, rows, inp, c, FALSE, "")))

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> Grammar(Data[x].g)]))
        /\ TLCSet(2, TLCEval([x \in 1..Len(Data) |-> TLCEval([y \in 1..Len(Data[x].tabs) |->
              IF Answered(Data[x].tabs[y]) THEN ImplRows(Data[x].tabs[y].rows) ELSE <<>>])]))
        /\ n \in 1..Len(Data)
        /\ k \in 1..Len(Data[n].tabs)
        /\ q = 0
        /\ cf = Start
Next == /\ Ok
        /\ q < Len(Ps)
        /\ q' = q + 1
        /\ cf' = Consume(G[n], Rw, Ps[q + 1][1], Start)
        /\ UNCHANGED <<n, k>>
Spec == Init /\ [][Next]_vars

Probing == Ok /\ q > 0
Word(t) == IF t = "" THEN w ELSE Append(w, t)

C0(clause, cond, detail) == Claim(Data[n].id \o "/" \o T.kind \o "/" \o ToString(T.compact), clause, cond, detail)
Answers == q = 0 => /\ C0("answered", Answered(T), Bad(T))
                    /\ Answered(T) => C0("probed", Answered(Data[n].probes[k]), Bad(Data[n].probes[k]))

\* what the driver does from here with each of the tokens (calls: of the last step only, not compared)
RECURSIVE Count(_, _, _, _, _)
Count(g, rows, inp, c, m) ==       \* <<end, reductions>>
  IF c.out # "run" THEN <<c, m>> ELSE
  LET d == TLCEval(Step(g, rows, inp, c, FALSE, "")) IN
  Count(g, rows, inp, d, IF d.call = <<>> THEN m ELSE m + 1)

End(t) == RunFrom(G[n], Rw, Word(t), cf, FALSE, "")
Outcome(e) == IF e.out = "cycle" THEN "tok" ELSE e.out
Each(Test(_, _)) == \A x \in 1..Len(P[2]) : LET e == End(P[2][x].t) IN Test(P[2][x], e)

\* the driver's verdict, the token it names and the tokens it lists, and where it stands
SameOutcome == Probing => LET F(x, e) == C("probe-outcome", x.res.e = Outcome(e), <<x.t, "impl", x.res, "spec", e.out>>) IN Each(F)
SameNamed == Probing =>
  LET F(x, e) == (x.res.e = "tok" /\ e.out = "tok") =>
        /\ C("probe-token", x.res.t = LookAhead(G[n], Word(x.t), e), <<x.t, x.res.t>>)
        /\ C("probe-expected", RangeOf(x.res.exp) = Expected(G[n], Rw, e) /\ Len(x.res.exp) = Cardinality(RangeOf(x.res.exp)),
             <<x.t, "impl", x.res.exp, "spec", Expected(G[n], Rw, e)>>)
  IN Each(F)
SamePlace == Probing =>
  LET F(x, e) == (e.out # "cycle") =>
        /\ C("probe-stack", x.it = e.sy /\ x.ns = Len(e.st), <<x.t, "impl", x.it, x.ns, "spec", e.sy>>)
        /\ C("probe-left", x.left = SubSeq(Word(x.t), e.pos + 1, Len(Word(x.t))), <<x.t, x.left, e.pos>>)
  IN Each(F)
\* every reduction the driver made built one item from its body: no other action ran
SameCalls == Probing =>
  LET base == Count(G[n], Rw, w, Start, 0)
      F(x, e) == (e.out # "cycle") => LET c == Count(G[n], Rw, Word(x.t), Start, 0) IN C("probe-calls", x.calls = c[2], <<x.t, x.calls, c[2]>>)
  IN Each(F)

\* against derivability
NoConflict == ConflictCells(Rw) = {}
Sound == Probing /\ NoConflict /\ G[n].nts \subseteq Productive(G[n])
Derivability == Sound =>
  LET sets == ERun(G[n], <<EInit(G[n])>>, w, 1)
      here == sets[Len(sets)]
      next == {After(G[n], it[1], it[2]) : it \in {x \in here : ~Done(G[n], x[1], x[2])}} \ G[n].nts
      acc  == EAccepts(G[n], sets)
      Shifted(x) == x.left = <<>>
      F(x) == IF here = {} THEN C("probe-prefix", x.res.e # "ok" /\ Len(x.left) > (IF x.t = "" THEN 0 ELSE 1), <<x.t, x.res, x.left>>)
              ELSE IF x.t = "" THEN C("probe-accepts", (x.res.e = "ok") <=> acc, <<x.res, acc>>)
              ELSE C("probe-shifts", Shifted(x) <=> x.t \in next, <<x.t, x.left, next>>)
  IN \A x \in 1..Len(P[2]) : F(P[2][x])
\* canonical LR(1) lists exactly what could have come
Precise == (Sound /\ T.kind = "clr") =>
  LET sets == ERun(G[n], <<EInit(G[n])>>, w, 1)
      exp == EExpected(G[n], sets)
  IN sets[Len(sets)] # {} =>
       \A x \in 1..Len(P[2]) : (P[2][x].res.e = "tok" /\ (P[2][x].t = "" \/ P[2][x].left = <<P[2][x].t>>)) =>
         C("probe-precise", RangeOf(P[2][x].res.exp) = exp, <<P[2][x].t, "possible", exp, "listed", P[2][x].res.exp>>)
=============================================================================
