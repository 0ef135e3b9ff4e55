------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The parser driver: a pushdown machine over an automaton's rows.         *)
(* A configuration is a record                                             *)
(*   st   states of the specification automaton, bottom first              *)
(*   sy   symbols on the stack (the viable prefix)                         *)
(*   va   their semantic values (strings; <<>> when values are not kept)   *)
(*   pos  tokens consumed                                                  *)
(*   out  "run" while running, else how the run ended:                     *)
(*        "ok", "tok", "conf", "eof", "inc", "cycle" (refused like "tok")  *)
(*   flat  single-symbol reductions in a row (they alone keep the height): *)
(*        more of them than there are states mean that a state was seen    *)
(*        again with the same lookahead, a cycle A -> B, B -> A            *)
(*   call the semantic action of the last step: <<>> or <<p, types>>       *)
(* Each Step below is one turn of the driver's loop.                       *)
(***************************************************************************)
EXTENDS LRTheory

Start == [st |-> <<1>>, sy |-> <<>>, va |-> <<>>, pos |-> 0, out |-> "run", flat |-> 0, call |-> <<>>]

Last(s) == s[Len(s)]
Front(s, n) == SubSeq(s, 1, Len(s) - n)     \* without the last n
Tail2(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))   \* the last n

LookAhead(G, inp, c) == IF c.pos < Len(inp) THEN inp[c.pos + 1] ELSE G.eof

\* the actions offered for the lookahead; a rule's name is never a token
Offer(G, rows, inp, c) ==
  LET a == LookAhead(G, inp, c) IN IF a \in G.nts THEN {} ELSE Cell(rows, Last(c.st), a)

Ended(c, how) == [c EXCEPT !.out = how, !.call = <<>>]

ShiftOn(G, inp, c, j, keep, tag) ==
  IF c.pos < Len(inp)
  THEN [c EXCEPT !.st = Append(@, j), !.sy = Append(@, inp[c.pos + 1]),
                 !.va = IF keep THEN Append(@, tag \o ToString(c.pos + 1)) ELSE @,
                 !.pos = @ + 1, !.flat = 0, !.call = <<>>]
  ELSE Ended(c, "eof")

RECURSIVE Joined(_, _)
Joined(vs, k) == IF k > Len(vs) THEN "" ELSE " " \o vs[k] \o Joined(vs, k + 1)

Node(p, vs) == "(" \o ToString(p) \o Joined(vs, 1) \o ")"

\* "broken" is no outcome a sound table leads to: an empty stack, or no single goto to follow
ReduceBy(G, rows, c, p, keep) ==
  LET n == Len(G.R[p])
      below == Front(c.st, n)
      cell == Cell(rows, Last(below), G.L[p])
      j == (CHOOSE a \in cell : TRUE)[2]
  IN IF n >= Len(c.st) \/ Cardinality(cell) # 1 THEN Ended(c, "broken")
     ELSE [c EXCEPT !.st = Append(below, j),
               !.sy = Append(Front(@, n), G.L[p]),
               !.va = IF keep THEN Append(Front(@, n), Node(p, Tail2(@, n))) ELSE @,
               !.flat = IF n = 1 THEN @ + 1 ELSE 0,
               !.call = <<p, Tail2(c.sy, n)>>]

AcceptOn(inp, c) == Ended(c, IF c.pos = Len(inp) THEN "ok" ELSE "inc")

\* the run would go on for ever; the token it looks at can never be shifted
Cycling(rows, c) == c.flat > Len(rows)

Kind(offer) ==
  IF offer = {} THEN "tok"
  ELSE IF Cardinality(offer) > 1 THEN "conf"
  ELSE (CHOOSE a \in offer : TRUE)[1]

Step(G, rows, inp, c, keep, tag) ==
  LET offer == Offer(G, rows, inp, c)
      k == Kind(offer)
      act == CHOOSE a \in offer : TRUE
  IN IF Last(c.st) \notin 1..Len(rows) THEN Ended(c, "broken") ELSE
     CASE k = "tok" -> Ended(c, "tok")
       [] k = "conf" -> Ended(c, "conf")
       [] k = "s" -> ShiftOn(G, inp, c, act[2], keep, tag)
       [] k = "r" -> IF Cycling(rows, c) THEN Ended(c, "cycle") ELSE ReduceBy(G, rows, c, act[2], keep)
       [] k = "a" -> AcceptOn(inp, c)
       [] OTHER -> Ended(c, "broken")

\* terminals the current state can act on
Expected(G, rows, c) == {X \in DOMAIN rows[Last(c.st)] : X \notin G.nts}

RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(G, rows, inp, c, keep, tag) ==
  IF c.out # "run" THEN c ELSE RunFrom(G, rows, inp, TLCEval(Step(G, rows, inp, c, keep, tag)), keep, tag)

-----------------------------------------------------------------------------
(* Does a sequence of alternatives, read backwards, derive w rightmost?     *)
(* Independent of any automaton.                                           *)

RECURSIVE RightmostNT(_, _, _)
RightmostNT(G, form, k) == IF k = 0 THEN 0 ELSE IF form[k] \in G.nts THEN k ELSE RightmostNT(G, form, k - 1)

RECURSIVE Rederive(_, _, _, _)
Rederive(G, form, ps, k) ==     \* expand with ps[k], ps[k-1], ...
  IF k = 0 THEN [ok |-> TRUE, form |-> form] ELSE
  LET at == RightmostNT(G, form, Len(form)) IN
  IF at = 0 \/ ps[k] \notin 1..G.n THEN [ok |-> FALSE, form |-> form]
  ELSE IF G.L[ps[k]] # form[at] THEN [ok |-> FALSE, form |-> form]
  ELSE Rederive(G, TLCEval(SubSeq(form, 1, at - 1) \o G.R[ps[k]] \o SubSeq(form, at + 1, Len(form))), ps, k - 1)

DerivesReversed(G, ps, w) ==
  LET r == Rederive(G, G.R[G.sp], ps, Len(ps)) IN r.ok /\ r.form = w
=============================================================================
