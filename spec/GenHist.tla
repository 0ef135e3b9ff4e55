------------------------------ MODULE GenHist ------------------------------
(***************************************************************************)
(* Histories of driver operations, generated: two drivers over each given  *)
(* grammar's rows, any operation at any time.  TLC visits every situation  *)
(* (states, position and input of both drivers; not the values) that       *)
(* MaxOps operations can bring about, and prints, for every operation      *)
(* possible in a situation, one shortest history that ends with it:        *)
(* OUT|n|history.  They are replayed into the real      *)
(* driver, and what it does is checked against ConfHist.                   *)
(*   Data[n]: [g, kind, ins: inputs, steps: the numbers of single steps]   *)
(***************************************************************************)
EXTENDS Driver, Impl

CONSTANTS MaxOps

VARIABLES n, cur, other, hist, k      \* hist: the operations, as the harness is given them; k: how many
vars == <<n, cur, other, hist, k>>

G == TLCGet(1)[n]
Rw == TLCGet(2)[n]

Fresh(w) == [c |-> Start, w |-> w, fin |-> FALSE, dead |-> FALSE]
Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> TLCEval(Grammar(Data[x].g))]))
        /\ TLCSet(2, TLCEval([x \in 1..Len(Data) |-> LET H == TLCGet(1)[x] IN TLCEval(Rows(H, Data[x].kind, TLCEval(Automaton(H, Data[x].kind))))]))
        /\ n \in 1..Len(Data)
        /\ cur = Fresh(<<>>) /\ other = Fresh(<<>>) /\ hist = "" /\ k = 0

Again(c) == [c EXCEPT !.out = "run", !.flat = 0, !.call = <<>>]
Finish(d) == IF d.fin THEN d ELSE LET c == RunFrom(G, Rw, d.w, Again(d.c), FALSE, "") IN [d EXCEPT !.c = c, !.fin = (c.out = "ok")]
RECURSIVE Steps(_, _)
Steps(d, q) ==
  IF q = 0 \/ d.fin THEN d ELSE
  LET c == TLCEval(Step(G, Rw, d.w, Again(d.c), FALSE, "")) IN
  IF c.out = "run" THEN Steps([d EXCEPT !.c = c], q - 1) ELSE [d EXCEPT !.c = c, !.fin = (c.out = "ok")]

RECURSIVE Words(_, _)
Words(w, i) == IF i > Len(w) THEN "" ELSE " " \o w[i] \o Words(w, i + 1)
Did(op, w) == LET h == (IF k = 0 THEN "" ELSE hist \o " | ") \o op \o Words(w, 1) IN
              hist' = h /\ k' = k + 1 /\ PrintT("OUT|" \o ToString(n) \o "|" \o h)
Ins == RangeOf(Data[n].ins)
New   == \E w \in Ins : Did("new", w) /\ cur' = Fresh(w) /\ UNCHANGED other
\* after an accepted parse the driver has given its value away: nothing is known but that it can be given the next input
Parse == \E w \in Ins : Did("parse", w) /\ (LET d == Finish(Fresh(w)) IN cur' = [d EXCEPT !.dead = d.fin]) /\ UNCHANGED other
Start_ == ~cur.dead /\ Did("start", <<>>) /\ cur' = Finish(cur) /\ UNCHANGED other
Reset == Did("reset", <<>>) /\ cur' = [cur EXCEPT !.c = [Start EXCEPT !.pos = cur.c.pos], !.fin = FALSE, !.dead = FALSE] /\ UNCHANGED other
StepN == \E q \in RangeOf(Data[n].steps) : ~cur.dead /\ Did("step", <<ToString(q)>>) /\ cur' = Steps(cur, q) /\ UNCHANGED other
Feed == \E w \in Ins : Did("feed", w) /\ cur' = [cur EXCEPT !.w = w, !.c = [Again(cur.c) EXCEPT !.pos = 0], !.dead = @ \/ cur.fin] /\ UNCHANGED other
Take == cur.fin /\ ~cur.dead /\ Did("take", <<>>) /\ cur' = [cur EXCEPT !.dead = TRUE, !.c.out = "taken"] /\ UNCHANGED other
Clone == Did("clone", <<>>) /\ other' = cur /\ UNCHANGED cur
Swap  == Did("swap", <<>>) /\ other' = cur /\ cur' = other
Next == k < MaxOps /\ n' = n /\ (New \/ Parse \/ Start_ \/ Reset \/ StepN \/ Feed \/ Take \/ Clone \/ Swap)
Spec == Init /\ [][Next]_vars

Situation(d) == <<d.c.st, d.c.pos, d.c.out, d.w, d.fin, d.dead>>
View == <<n, Situation(cur), Situation(other)>>

-----------------------------------------------------------------------------
\* A failed run started again fails again; a finished one has read its input
Stays == \A d \in {cur, other} :
  /\ d.c.out \in {"tok", "conf", "inc", "cycle"} /\ ~d.fin => Finish(d).c.out = d.c.out
  /\ (d.fin /\ ~d.dead) => d.c.pos = Len(d.w)
=============================================================================
