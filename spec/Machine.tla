------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The driver's operations one by one, over any table - not only those a   *)
(* grammar gives rise to.                                                  *)
(*   M: [R, L: bodies and rules of the alternatives, rows, eof, w: input]  *)
(*      rows[i]: a function from symbols to actions, state i - 1           *)
(*   action: [k: "s"|"g", n: state]  [k: "r", p: alternative]  [k: "a"]    *)
(*           [k: "c", a, b: actions]                                       *)
(*   m: [st: states, it: symbols, va: values, pos: tokens taken, fin]      *)
(* An operation gives [m, res].  res.e: "ok" or the error; after a         *)
(* reduction that finds no goto nothing is claimed of m ("torn").          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ok_ == [e |-> "ok"]
Top(m) == m.st[Len(m.st)]
Made == [st |-> <<0>>, it |-> <<>>, va |-> <<>>, pos |-> 0, fin |-> FALSE, torn |-> FALSE]
Gives(m, res) == [m |-> m, res |-> res]

Lacks(m, row, X, M) == Gives(m, [e |-> "tok", t |-> X, exp |-> {Y \in DOMAIN row : row[Y].k # "g"}])

Shift_(M, m, to) ==
  IF m.pos >= Len(M.w) THEN Gives(m, [e |-> "eof"])
  ELSE Gives([m EXCEPT !.st = Append(@, to), !.it = Append(@, M.w[m.pos + 1]),
                       !.va = Append(@, ToString(m.pos + 1)), !.pos = @ + 1], Ok_)
Goto_(m, to) == Gives([m EXCEPT !.st = Append(@, to)], Ok_)
Accept_(M, m) == IF m.pos = Len(M.w) THEN Gives([m EXCEPT !.fin = TRUE], Ok_) ELSE Gives(m, [e |-> "inc"])

RECURSIVE JoinVals(_, _)
JoinVals(vs, k) == IF k > Len(vs) THEN "" ELSE " " \o vs[k] \o JoinVals(vs, k + 1)

RECURSIVE Travel_(_, _, _)
RECURSIVE Reduce_(_, _, _)
Travel_(M, m, X) ==
  IF Top(m) >= Len(M.rows) THEN Gives(m, [e |-> "state"]) ELSE
  LET row == M.rows[Top(m) + 1] IN
  IF X \notin DOMAIN row THEN Lacks(m, row, X, M) ELSE
  LET a == row[X] IN
  CASE a.k = "s" -> Shift_(M, m, a.n)
    [] a.k = "g" -> Goto_(m, a.n)
    [] a.k = "a" -> Accept_(M, m)
    [] a.k = "c" -> Gives(m, [e |-> "conf", a |-> a.a, b |-> a.b])
    [] OTHER -> Reduce_(M, m, a.p)
Reduce_(M, m, p) ==
  LET q == Len(M.R[p]) IN
  IF Len(m.it) < q THEN Gives(m, [e |-> "eof"])
  ELSE IF Len(m.st) <= q THEN Gives(m, [e |-> "prev"])
  ELSE LET below == [m EXCEPT !.st = SubSeq(@, 1, Len(@) - q),
                              !.it = Append(SubSeq(@, 1, Len(@) - q), M.L[p]),
                              !.va = Append(SubSeq(@, 1, Len(@) - q),
                                            "(" \o ToString(p) \o JoinVals(SubSeq(m.va, Len(m.va) - q + 1, Len(m.va)), 1) \o ")")]
           then == Travel_(M, below, M.L[p])
       IN IF then.res = Ok_ THEN then ELSE [then EXCEPT !.m.torn = TRUE]
Reset_(m) == [Made EXCEPT !.pos = m.pos]

\* from outside, by the driver's public fields
Give_(m, X) == [m EXCEPT !.it = Append(@, X), !.va = Append(@, "<" \o X \o ">")]
Drop(xs) == SubSeq(xs, 1, Len(xs) - 1)
Take_(m) == IF m.it = <<>> THEN m ELSE [m EXCEPT !.it = Drop(@), !.va = Drop(@)]
Leave_(m) == IF Len(m.st) = 1 THEN m ELSE [m EXCEPT !.st = Drop(@)]
Edit_(M, row, X, a) == [M EXCEPT !.rows[row + 1] = IF a = <<>> THEN [Y \in DOMAIN @ \ {X} |-> @[Y]] ELSE (X :> a[1]) @@ @]

Ahead(M, m) == IF m.pos < Len(M.w) THEN M.w[m.pos + 1] ELSE M.eof
\* one turn of a run: a goto is never taken for a token
Turn(M, m) ==
  LET X == Ahead(M, m) IN
  IF Top(m) < Len(M.rows) /\ X \in DOMAIN M.rows[Top(m) + 1] /\ M.rows[Top(m) + 1][X].k = "g"
  THEN Lacks(m, M.rows[Top(m) + 1], X, M)
  ELSE Travel_(M, m, X)

\* a whole run of at most so many turns
RECURSIVE RunOn(_, _, _)
RunOn(M, m, left) ==
  IF m.fin \/ left = 0 THEN Gives(m, Ok_)
  ELSE LET t == TLCEval(Turn(M, m)) IN IF t.res = Ok_ THEN RunOn(M, t.m, left - 1) ELSE t
\* M.w parsed from the start: its value is what lies on top at the end. What goes on for ever is
\* an error that has to be noticed; where the driver then stands is left open
Parse_(M) ==
  LET t == TLCEval(RunOn(M, Made, 200)) IN
  IF t.res # Ok_ THEN [m |-> t.m, res |-> t.res, val |-> ""]
  ELSE IF ~t.m.fin THEN [m |-> [t.m EXCEPT !.torn = TRUE], res |-> [e |-> "cycle"], val |-> ""]
  ELSE IF t.m.it = <<>> THEN [m |-> t.m, res |-> [e |-> "prev"], val |-> ""]
  ELSE [m |-> Reset_(t.m), res |-> Ok_, val |-> t.m.va[Len(t.m.va)]]

-----------------------------------------------------------------------------
(* What is printed *)
RECURSIVE Sep(_, _, _)
Sep(xs, by, k) == IF k > Len(xs) THEN "" ELSE IF k = Len(xs) THEN xs[k] ELSE xs[k] \o by \o Sep(xs, by, k + 1)
List(xs) == "[" \o Sep(xs, ", ", 1) \o "]"
RECURSIVE ShowAct(_, _)
ShowAct(M, a) ==
  CASE a.k = "s" -> "Shift(" \o ToString(a.n) \o ")"
    [] a.k = "g" -> "Goto(" \o ToString(a.n) \o ")"
    [] a.k = "a" -> "Acc"
    [] a.k = "r" -> "Reduce(" \o M.L[a.p] \o ", (" \o List(M.R[a.p]) \o ", " \o ToString(M.I[a.p]) \o "))"
    [] OTHER -> "Conflict(" \o ShowAct(M, a.a) \o ", " \o ShowAct(M, a.b) \o ")"
\* expecteds are listed in some order: exp
ShowError(M, r, exp) ==
  CASE r.e = "tok" -> "unexpected token " \o r.t \o ". expected " \o List(exp)
    [] r.e = "eof" -> "unexpected eof"
    [] r.e = "conf" -> "conflicting action " \o ShowAct(M, r.a) \o " and " \o ShowAct(M, r.b)
    [] r.e = "prev" -> "missing previous state. impossible to continue dfa execution"
    [] r.e = "state" -> "state not specified in actions table"
    [] r.e = "inc" -> "finished the parsing without consume entire buffer"
    [] OTHER -> ""
\* states and what they hold in turn, from the bottom; what there are more of follows
RECURSIVE Zip(_, _, _)
Zip(xs, ys, k) ==
  IF k > Len(xs) /\ k > Len(ys) THEN <<>>
  ELSE (IF k <= Len(xs) THEN <<xs[k]>> ELSE <<>>) \o (IF k <= Len(ys) THEN <<ys[k]>> ELSE <<>>) \o Zip(xs, ys, k + 1)
ShowStack(m, items) == Sep(Zip([x \in 1..Len(m.st) |-> ToString(m.st[x])], items, 1), " ", 1)
ShowToken(ty, va) == "Token { item: \"" \o va \o "\", ty: " \o ty \o " }"
=============================================================================
