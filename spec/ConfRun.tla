------------------------------ MODULE ConfRun ------------------------------
(***************************************************************************)
(* Trace validation of the driver.  Every run of the real Dfa was recorded *)
(* step by step (ev[j]: what it looked like before its j-th step).  This   *)
(* module takes the Driver's own steps over the same table and the same    *)
(* input and compares after each one.                                      *)
(*   n: grammar   r: one of its runs (0: none)   j: step   cf: Driver      *)
(*   configuration before step j (j = number of steps + 1: at the end)     *)
(***************************************************************************)
EXTENDS Driver, Impl

VARIABLES n, r, j, cf
vars == <<n, r, j, cf>>

G == TLCGet(1)
Tabs == TLCGet(2)           \* the tables the runs were made with

Tab(x, y) == Data[x].tabs[y]
MkTabs == TLCEval([x \in 1..Len(Data) |-> TLCEval([y \in 1..Len(Data[x].tabs) |->
            IF Answered(Tab(x, y)) THEN ImplRows(Tab(x, y).rows) ELSE <<>>])])

Run(x, y) == Data[x].runs[y]
R == Run(n, r)
Ok == Answered(R)           \* the run gave an answer at all
M == Len(R.ev)
Rw == Tabs[n][R.tab]
Kind_ == Tab(n, R.tab).kind
Compact == Tab(n, R.tab).compact
w == R.toks
Id == Data[n].id \o "/" \o Kind_ \o "/" \o ToString(Compact) \o "/" \o ToString(r)
C(clause, cond, detail) == Claim(Id, clause, cond, <<w, "step", j, detail>>)

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> Grammar(Data[x].g)]))
        /\ TLCSet(2, MkTabs)
        /\ n \in 1..Len(Data)
        /\ r \in 1..Len(Data[n].runs)
        /\ j = 1
        /\ cf = Start

\* one turn of the driver's loop, taken by the specification for each one the code took
Turn == /\ Ok
        /\ ~R.over
        /\ j <= M
        /\ cf.out = "run"
        /\ cf' = Step(G[n], Rw, w, cf, TRUE, "")
        /\ j' = j + 1
        /\ UNCHANGED <<n, r>>
Next == Turn
Spec == Init /\ [][Next]_vars

Ended_ == Ok /\ ~R.over /\ j = M + 1          \* everything the code did has been followed
Seen == IF j <= M THEN R.ev[j] ELSE R.fin     \* what the code looked like here
Live == Ok /\ ~R.over /\ j \in 1..(M + 1)

FULL == 48
Window(s) == IF Len(s) <= FULL THEN s ELSE SubSeq(s, Len(s) - FULL + 1, Len(s))

-----------------------------------------------------------------------------
(* C09 *)
Halts == j = 1 => /\ C("answered", Ok, Bad(R))
                  /\ Ok => C("halts", ~R.over, "too many steps")
StackShape == Live =>
  /\ C("one-more-state", Seen.ns = Seen.ni + 1, <<Seen.ns, Seen.ni>>)
  /\ C("top", Len(Seen.st) > 0 /\ Seen.top = Last(Seen.st), <<Seen.top, Seen.st>>)
  /\ C("symbols", Seen.ni = Len(cf.sy) /\ Seen.it = Window(cf.sy), <<"impl", Seen.it, "spec", cf.sy>>)
  /\ C("states", Seen.st = Window(cf.st), <<"impl", Seen.st, "spec", cf.st>>)
\* the states on the stack are those the symbols lead to from the initial one
StackPath == (Live /\ Len(cf.st) <= FULL) =>
  \A k \in 1..(Len(Seen.st) - 1) :
    C("path", k <= Len(Seen.it) /\ Seen.st[k] \in 1..Len(Rw)
              /\ \E a \in Cell(Rw, Seen.st[k], Seen.it[k]) : a[1] \in {"s", "g"} /\ a[2] = Seen.st[k + 1],
      <<k, Seen.st, Seen.it>>)
\* A cycle may be noticed as soon as a state was seen again, or later.
MayCycle == cf.flat > 0 /\ (cf.flat > Len(Rw) \/ cf.out = "cycle"
            \/ \E k \in 1..cf.flat : j - k >= 1 /\ j - k <= M /\ R.ev[j - k].st = Window(cf.st))
Refused == cf.out \in {"tok", "cycle"} \/ (cf.out = "run" /\ MayCycle)
Outcome == IF Refused THEN "tok" ELSE cf.out
\* runs end when the specification's run ends, and not before
SameLength == /\ (Live /\ j <= M) => C("goes-on", cf.out = "run", <<"spec ended", cf.out>>)
              /\ Ended_ => C("ends", Outcome # "run", "spec goes on")
Orderly == Ended_ => C("orderly", R.res.e \in {"ok", "tok", "eof", "inc", "conf"} /\ cf.out # "broken", <<R.res.e, cf.out>>)
SameEnd == Ended_ => C("outcome", R.res.e = Outcome, <<"impl", R.res.e, "spec", cf.out>>)

-----------------------------------------------------------------------------
(* C05, the run-time part *)
ConflictsStop == Ended_ =>
  /\ C("conflict-stops", (R.res.e = "conf") <=> (cf.out = "conf"), <<R.res.e, cf.out>>)
  /\ (R.res.e = "conf" /\ cf.out = "conf") =>
        /\ C("conflict-names", RangeOf(R.res.acts) = Offer(G[n], Rw, w, cf), <<R.res.acts, Offer(G[n], Rw, w, cf)>>)
        /\ C("conflict-unchanged", R.fin.it = R.ev[M].it /\ R.fin.st = R.ev[M].st /\ R.fin.top = R.ev[M].top
                                    /\ R.fin.calls = <<>>, <<R.ev[M], R.fin>>)

-----------------------------------------------------------------------------
(* C06: verdicts against derivability, by Earley *)
NoConflict == ConflictCells(Rw) = {}
Short == Len(w) <= 181
Derivable == InLanguage(G[n], w)
\* longer ones: against the pushdown machine over the specification's own view of the table
VerdictLong == (Ended_ /\ NoConflict /\ ~Short) => C("language-long", (R.res.e = "ok") <=> (cf.out = "ok"), <<R.res.e, cf.out>>)
Verdict == (Ok /\ j = 1) =>
  LET acc == R.res.e = "ok" IN
  /\ (NoConflict /\ Short) => C("language", acc <=> Derivable, <<"impl", R.res.e, "derivable", Derivable>>)
  /\ C("parse", R.parse.e = R.res.e, <<R.parse.e, R.res.e>>)
  /\ C("validate", R.valid = acc, <<R.valid, R.res.e>>)
  /\ C("simple", R.simple.e = R.res.e, <<R.simple.e, R.res.e>>)

-----------------------------------------------------------------------------
(* C07: what the semantic actions see, and what comes out *)
Call == IF cf.call = <<>> THEN <<>> ELSE <<cf.call>>
SawCalls == (Live /\ j > 1) => C("calls", Seen.calls = Call, <<"impl", Seen.calls, "spec", Call>>)
NoEarlyCalls == (Live /\ j = 1) => C("calls-early", Seen.calls = <<>>, Seen.calls)
RECURSIVE AllCalls(_, _)
AllCalls(x, k) == IF k > Len(x.ev) THEN [q \in 1..Len(x.fin.calls) |-> x.fin.calls[q][1]]
                  ELSE [q \in 1..Len(x.ev[k].calls) |-> x.ev[k].calls[q][1]] \o AllCalls(x, k + 1)
Replays == (Ended_ /\ R.res.e = "ok") =>
  C("rightmost", DerivesReversed(G[n], AllCalls(R, 1), w), AllCalls(R, 1))
Values == Ended_ => C("values", R.vals = cf.va, <<"impl", R.vals, "spec", cf.va>>)
LastCall == LET a == AllCalls(R, 1) IN a[Len(a)]
Result == (Ended_ /\ R.res.e = "ok" /\ cf.out = "ok") =>
  /\ C("result", Len(cf.va) > 0 /\ R.value = Last(cf.va), <<R.value, cf.va>>)
  /\ C("body", R.fin.ni = Len(G[n].R[G[n].sp]) /\ R.fin.it = Window(G[n].R[G[n].sp]), R.fin.it)
  /\ C("cloned", R.cloned = (LET top == Last(cf.sy) IN IF top \in G[n].nts THEN G[n].R[LastCall][1] ELSE top), R.cloned)

-----------------------------------------------------------------------------
(* C08: where and how errors are reported *)
Here == cf                        \* at the end: as at the failed step, nothing consumed since
Offending == LookAhead(G[n], w, cf)
TokenNamed == (Ended_ /\ R.res.e = "tok") =>
  /\ C("token", R.res.t = Offending, <<R.res.t, Offending>>)
  /\ C("expected", RangeOf(R.res.exp) = Expected(G[n], Rw, cf) /\ Len(R.res.exp) = Cardinality(RangeOf(R.res.exp)),
       <<"impl", R.res.exp, "spec", Expected(G[n], Rw, cf)>>)
Rejected == Ended_ /\ R.res.e \in {"tok", "eof", "inc"}
InScope8 == NoConflict /\ Short /\ Reduced(G[n])
Earliest == (Rejected /\ InScope8) =>
  LET sets == ERun(G[n], <<EInit(G[n])>>, SubSeq(w, 1, cf.pos), 1)
      here == sets[Len(sets)]
      next == {After(G[n], it[1], it[2]) : it \in {x \in here : ~Done(G[n], x[1], x[2])}} \ G[n].nts
      exp  == IF EAccepts(G[n], sets) THEN next \cup {G[n].eof} ELSE next
  IN /\ C("prefix", here # {}, <<"not a prefix of a sentence", cf.pos>>)
     /\ C("earliest", IF cf.pos < Len(w) THEN w[cf.pos + 1] \notin next ELSE ~EAccepts(G[n], sets),
          <<"could have gone on after", cf.pos>>)
     /\ (R.res.e = "tok" /\ Kind_ = "clr") => C("precise", RangeOf(R.res.exp) = exp, <<"possible", exp, "listed", R.res.exp>>)
\* the token that cannot be shifted has not been consumed
Unconsumed == Rejected => C("unconsumed", R.left = SubSeq(w, cf.pos + 1, Len(w)), <<R.left, cf.pos>>)
SameError == (Ok /\ j = 1) => C("same-error", R.parse = R.res /\ R.simple = R.res, <<R.res, R.parse, R.simple>>)

-----------------------------------------------------------------------------
(* C15: reading the input *)
Reading == Live =>
  /\ C("lookahead", Seen.pulled \in {cf.pos, cf.pos + 1} /\ Seen.pulled <= Len(w), <<"pulled", Seen.pulled, "shifted", cf.pos>>)
  /\ C("late", Seen.late = 0, Seen.late)
Untouched == Ok => C("created", R.created <= 1, R.created)
LeftOver == Ended_ => C("left", R.left = SubSeq(w, cf.pos + 1, Len(w)), <<R.left, cf.pos>>)
InOrder == (Ended_ /\ cf.out # "ok") => C("order", R.vals = cf.va, <<R.vals, cf.va>>)

-----------------------------------------------------------------------------
(* C12: the three constructions against each other *)
Confs(K) == {y \in 1..Len(Data[n].tabs) : Tab(n, y).kind = K /\ Tab(n, y).compact = 0 /\ Answered(Tab(n, y))}
Free(K) == \E y \in Confs(K) : Tab(n, y).conf = 0
Known(K) == Confs(K) # {}
Hierarchy == (r = 1 /\ j = 1) =>
  /\ (Known("slr") /\ Known("lalr")) => C("slr-lalr", Free("slr") => Free("lalr"), "conflicts")
  /\ (Known("lalr") /\ Known("clr")) => C("lalr-clr", Free("lalr") => Free("clr"), "conflicts")
Productive_ == G[n].nts \subseteq Productive(G[n])
\* compared with the other runs on the same input
Agreement == (Ok /\ j = 1 /\ Compact = 0 /\ Productive_ /\ Tab(n, R.tab).conf = 0) =>
  \A q \in 1..(r - 1) :
    LET O == Run(n, q) IN
    (O.toks = w /\ Tab(n, O.tab).compact = 0 /\ Tab(n, O.tab).conf = 0 /\ Answered(O)) =>
      /\ C("agree-verdict", (O.res.e = "ok") <=> (R.res.e = "ok"), <<O.res, R.res>>)
      /\ C("agree-prefix", O.left = R.left, <<O.left, R.left>>)
      /\ R.res.e = "ok" => /\ C("agree-actions", AllCalls(O, 1) = AllCalls(R, 1), <<AllCalls(O, 1), AllCalls(R, 1)>>)
                           /\ C("agree-value", O.value = R.value /\ O.vals = R.vals, <<O.value, R.value>>)

-----------------------------------------------------------------------------
(* C11: compacted tables behave as the original one *)
Nameless(res) == [f \in DOMAIN res |-> IF f = "acts"
                    THEN {IF a[1] \in {"s", "g"} THEN <<a[1], 0>> ELSE a : a \in RangeOf(res[f])}
                    ELSE IF f = "exp" THEN RangeOf(res[f]) ELSE res[f]]
CompactSame == (j = 1 /\ Compact > 0) =>
  \A q \in 1..Len(Data[n].runs) :
    LET O == Run(n, q) IN
    (O.toks = w /\ Tab(n, O.tab).compact = 0 /\ Tab(n, O.tab).kind = Kind_ /\ Answered(O)) =>
      /\ C("compact-answered", Ok, Bad(R))
      /\ Ok => /\ C("compact-outcome", Nameless(R.res) = Nameless(O.res) /\ R.over = O.over, <<R.res, O.res>>)
               /\ C("compact-parse", Nameless(R.parse) = Nameless(O.parse) /\ R.value = O.value /\ R.valid = O.valid, <<R.parse, O.parse>>)
               /\ C("compact-actions", AllCalls(R, 1) = AllCalls(O, 1), <<AllCalls(R, 1), AllCalls(O, 1)>>)
               /\ C("compact-values", R.vals = O.vals /\ R.left = O.left, <<R.vals, O.vals>>)
CompactSize == (r = 1 /\ j = 1) =>
  \A y \in 1..Len(Data[n].tabs) :
    LET T == Tab(n, y) rows == Tabs[n][y] IN
    /\ C("compact-built", Answered(T), Bad(T))
    /\ Answered(T) =>
        /\ C("compact-size", Len(rows) <= T.before, <<Len(rows), T.before>>)
        /\ C("compact-targets", \A i \in 1..Len(rows) : \A X \in DOMAIN rows[i] : \A a \in rows[i][X] :
                                   a[1] \in {"s", "g"} => a[2] \in 1..Len(rows), T.kind)
=============================================================================
