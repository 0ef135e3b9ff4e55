------------------------------ MODULE ConfHist ------------------------------
(***************************************************************************)
(* C10: histories of operations on drivers.  The specification keeps two   *)
(* drivers, cur and other, as abstract states                              *)
(*    c     Driver configuration                                           *)
(*    w     the whole input it was given                                   *)
(*    tag   which operation gave it its input (values carry it)            *)
(*    fin   the run has finished                                           *)
(*    unk   nothing is claimed about it: a parse through the driver has    *)
(*          given its value away, or stopped somewhere in a cycle          *)
(* and applies the recorded operations to them.                            *)
(***************************************************************************)
EXTENDS Driver, Impl

VARIABLES n, h, k, cur, other, ret
vars == <<n, h, k, cur, other, ret>>

G == TLCGet(1)
Tabs == TLCGet(2)
Hist(x, y) == Data[x].hists[y]
H == Hist(n, h)
Ok == Answered(H)
Rw == Tabs[n][H.tab]
Op == H.hist[k]            \* the last operation applied, and what the code showed after it

Fresh(input, tg) == [c |-> Start, w |-> input, tag |-> tg, fin |-> FALSE, unk |-> FALSE]
NoRet == [e |-> "none", v |-> ""]

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> Grammar(Data[x].g)]))
        /\ TLCSet(2, TLCEval([x \in 1..Len(Data) |-> TLCEval([y \in 1..Len(Data[x].tabs) |->
                        IF Answered(Data[x].tabs[y]) THEN ImplRows(Data[x].tabs[y].rows) ELSE <<>>])]))
        /\ n \in 1..Len(Data)
        /\ h \in 1..Len(Data[n].hists)
        /\ k = 0
        /\ cur = Fresh(<<>>, "0.")
        /\ other = Fresh(<<>>, "0.")
        /\ ret = NoRet

\* the configuration goes on where it stopped
Again(c) == [c EXCEPT !.out = "run", !.flat = 0, !.call = <<>>]
Finish(d) ==          \* run d to its end
  IF d.fin THEN [d EXCEPT !.c.out = "ok"]
  ELSE LET c == RunFrom(G[n], Rw, d.w, Again(d.c), TRUE, d.tag) IN
       [d EXCEPT !.c = c, !.fin = (c.out = "ok"), !.unk = @ \/ c.out = "cycle"]
How(c) == IF c.out = "cycle" THEN "tok" ELSE c.out

RECURSIVE Steps(_, _)
Steps(d, q) ==
  IF q = 0 \/ d.fin THEN d ELSE
  LET c == Step(G[n], Rw, d.w, Again(d.c), TRUE, d.tag) IN
  IF c.out = "run" THEN Steps([d EXCEPT !.c = c], q - 1)
  ELSE [d EXCEPT !.c = c, !.fin = (c.out = "ok"), !.unk = @ \/ c.out = "cycle"]

Named(name) == /\ Ok /\ k < Len(H.hist) /\ H.hist[k + 1].o = name
               /\ k' = k + 1
               /\ UNCHANGED <<n, h>>
Arg == H.hist[k + 1].a
Tag == ToString(k + 1) \o "."

New   == /\ Named("new")
         /\ cur' = Fresh(Arg, Tag)
         /\ ret' = NoRet /\ UNCHANGED other
\* parsing a further input through the same driver: as a fresh one would
Parse == /\ Named("parse")
         /\ LET d == Finish(Fresh(Arg, Tag)) IN
            IF d.fin
            THEN /\ ret' = [e |-> "ok", v |-> Last(d.c.va)]
                 /\ cur' = [d EXCEPT !.unk = TRUE]
            ELSE /\ ret' = [e |-> How(d.c), v |-> ""]
                 /\ cur' = d
         /\ UNCHANGED other
Start_ == /\ Named("start")
          /\ LET d == Finish(cur) IN /\ cur' = d
                                     /\ ret' = IF cur.unk THEN NoRet ELSE [e |-> How(d.c), v |-> ""]
          /\ UNCHANGED other
\* the automaton goes back to its initial state, the input stays where it is
Reset == /\ Named("reset")
         /\ cur' = [cur EXCEPT !.c = [Start EXCEPT !.pos = cur.c.pos], !.fin = FALSE, !.unk = FALSE]
         /\ ret' = NoRet /\ UNCHANGED other
StepN == /\ Named("step")
         /\ LET d == Steps(cur, H.hist[k + 1].n) IN
            /\ cur' = d
            /\ ret' = IF H.hist[k + 1].n = 0 \/ cur.fin \/ cur.unk THEN NoRet
                      ELSE [e |-> IF d.c.out = "run" THEN "ok" ELSE How(d.c), v |-> ""]
         /\ UNCHANGED other
\* another input for the same driver, whatever it is doing
Feed == /\ Named("feed")
        /\ cur' = [cur EXCEPT !.w = Arg, !.tag = Tag, !.c.pos = 0]
        /\ ret' = NoRet /\ UNCHANGED other
\* the value of a finished run, taken by hand: as after a parse
Take == /\ Named("take")
        /\ cur' = [cur EXCEPT !.unk = @ \/ cur.fin]
        /\ ret' = [e |-> "none", v |-> IF cur.unk THEN H.hist[k + 1].value ELSE IF cur.fin THEN Last(cur.c.va) ELSE ""]
        /\ UNCHANGED other
Clone == Named("clone") /\ other' = cur /\ ret' = NoRet /\ UNCHANGED cur
Swap  == Named("swap") /\ other' = cur /\ cur' = other /\ ret' = NoRet
Next == New \/ Parse \/ Start_ \/ Reset \/ StepN \/ Feed \/ Take \/ Clone \/ Swap
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Id == Data[n].id \o "/" \o Data[n].tabs[H.tab].kind \o "/" \o ToString(h)
C(clause, cond, detail) ==
  Claim(Id, clause, cond, <<"operation", k, [q \in 1..k |-> <<H.hist[q].o, H.hist[q].a>>], detail>>)
Done_ == Ok /\ k > 0
Calm == ~cur.unk

Answers == k = 0 => C("answered", Ok, Bad(H))
Claims == Done_ /\ ~(cur.unk /\ Op.o \in {"start", "step"} /\ ret.e = "none")
Verdicts == Claims => C("verdict", Op.res.e = ret.e, <<"impl", Op.res, "spec", ret.e>>)
ValuesMatch == (Done_ /\ Op.o \in {"parse", "take"}) => C("value", Op.value = ret.v, <<"impl", Op.value, "spec", ret.v>>)
\* the whole error, as a fresh driver reports it
Errors == (Done_ /\ Op.res.e = "tok" /\ ret.e = "tok" /\ Calm) =>
  C("error", Op.res.t = LookAhead(G[n], cur.w, cur.c) /\ RangeOf(Op.res.exp) = Expected(G[n], Rw, cur.c), Op.res)
ConfErrors == (Done_ /\ Op.res.e = "conf" /\ ret.e = "conf") =>
  C("conflict", RangeOf(Op.res.acts) = Offer(G[n], Rw, cur.w, cur.c), Op.res)
\* what the driver holds
Holds == (Done_ /\ Calm) =>
  /\ C("symbols", Op.it = cur.c.sy, <<"impl", Op.it, "spec", cur.c.sy>>)
  /\ C("values", Op.vals = cur.c.va, <<"impl", Op.vals, "spec", cur.c.va>>)
  /\ C("states", Op.ns = Len(cur.c.st), <<"impl", Op.ns, "spec", Len(cur.c.st)>>)
  /\ C("finished", Op.fin = cur.fin, <<"impl", Op.fin, "spec", cur.fin>>)
  /\ C("left", Op.left = SubSeq(cur.w, cur.c.pos + 1, Len(cur.w)), <<"impl", Op.left, "spec", cur.c.pos>>)
\* a run that failed is not turned into success by starting it again
NoResurrection == (Done_ /\ k > 1 /\ Op.o = "start" /\ H.hist[k - 1].o \in {"start", "parse"}
                    /\ H.hist[k - 1].res.e # "ok") => C("resurrected", Op.res.e # "ok", Op.res)
=============================================================================
