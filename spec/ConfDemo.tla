------------------------------ MODULE ConfDemo ------------------------------
(***************************************************************************)
(* C20: what the lrp tool prints.  The action table it shows is taken as   *)
(* Machine's table (ConfAutomaton and ConfSets judge the table, the item   *)
(* sets and the FIRST and FOLLOW sets shown); here: the goto listing, and  *)
(* each input's trace, line by line.                                       *)
(*   n: recording of a session   j: line of input (0: before the first)    *)
(*   k: line of its trace   m: Machine's situation there                   *)
(*   Symbols are named as they are printed, in quotes.                     *)
(***************************************************************************)
EXTENDS Machine, Impl

VARIABLES n, j, k, m
vars == <<n, j, k, m>>

D == Data[n]
Ok == Answered(D)
Row(r) == [X \in {r[x][1] : x \in 1..Len(r)} |-> r[CHOOSE x \in 1..Len(r) : r[x][1] = X][2]]
M0 == TLCGet(1)[n]
Rn == D.runs[j]
M == [M0 EXCEPT !.w = Rn.w]
C(clause, cond, detail) == Claim(D.id \o "/" \o ToString(j), clause, cond, detail)

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> IF Answered(Data[x]) THEN TLCEval([Data[x].m EXCEPT !.rows = TLCEval([y \in 1..Len(@) |-> TLCEval(Row(@[y]))])]) ELSE <<>>]))
        /\ n \in 1..Len(Data) /\ m = Made /\ k = 0
        /\ j \in 0..(IF Answered(Data[n]) THEN Len(Data[n].runs) ELSE 0)
Next == /\ j > 0 /\ k < Len(Rn.rows) /\ ~m.torn /\ ~m.fin
        /\ k' = k + 1 /\ UNCHANGED <<n, j>>
        /\ m' = IF k = 0 THEN m ELSE LET t == TLCEval(Turn(M, m)) IN IF t.res = Ok_ THEN t.m ELSE [t.m EXCEPT !.torn = TRUE]
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Answers == j = 0 => C("answered", Ok, Bad(D))
Whole == j = 0 /\ Ok
\* as many traces as lines, and the tool ends with its input
Ends == Whole => /\ C("traces", Len(D.runs) = D.lines, <<Len(D.runs), D.lines>>)
                 /\ C("ended", D.status = 0, D.status)

\* the action table numbers its rows
Columns == Whole => C("numbers", D.state_column[1] = D.state_column[2], D.state_column)

\* the goto listing: D.gotos: [state, symbol, kernel, to, closure], closures by state in D.items
Leads(y, X) == X \in DOMAIN M0.rows[y + 1] /\ M0.rows[y + 1][X].k \in {"s", "g"}
Gotos == Whole =>
  LET listed == {<<D.gotos[x][1], D.gotos[x][2]>> : x \in 1..Len(D.gotos)}
      there == UNION {{<<y, X>> : X \in {Z \in DOMAIN M0.rows[y + 1] : Leads(y, Z)}} : y \in 0..(Len(M0.rows) - 1)} IN
  /\ C("listed", listed = there /\ Len(D.gotos) = Cardinality(there), <<listed \ there, there \ listed>>)
  /\ C("last", D.last = Len(M0.rows) - 1 /\ Len(D.items) = Len(M0.rows), <<D.last, Len(M0.rows), Len(D.items)>>)
  /\ \A x \in 1..Len(D.gotos) : LET t == D.gotos[x] IN (<<t[1], t[2]>> \in there /\ t[1] < Len(D.items) /\ t[4] < Len(D.items)) =>
       /\ C("to", t[4] = M0.rows[t[1] + 1][t[2]].n, <<t, M0.rows[t[1] + 1][t[2]]>>)
       /\ C("closure", ImplItems(t[5]) = ImplItems(D.items[t[4] + 1]), t)
       /\ C("kernel", /\ ImplCores(t[3]) = {<<c[1], c[2] + 1>> : c \in {z \in ImplCores(D.items[t[1] + 1]) : z[2] < Len(M0.R[z[1]]) /\ M0.R[z[1]][z[2] + 1] = t[2]}}
                     /\ ImplItems(t[3]) \subseteq ImplItems(D.items[t[4] + 1]), t)

\* a trace: rows [step, stack, buffer, address, action], then the outcome
Line == Rn.rows[k]
Trace == (j > 0 /\ k > 0) =>
  LET X == Ahead(M, m)
      here == Top(m) < Len(M.rows) /\ X \in DOMAIN M.rows[Top(m) + 1] IN
  /\ C("too-long", ~m.fin /\ ~m.torn, Rn.rows)
  /\ (~m.fin /\ ~m.torn) =>
     /\ C("step", Line[1] = ToString(k), Line)
     /\ C("stack", Line[2] = ShowStack(m, m.it), <<Line, m>>)
     /\ C("buffer", Line[3] = List(Append(SubSeq(M.w, m.pos + 1, Len(M.w)), M.eof)), <<Line, m>>)
     /\ C("address", Line[4] = ToString(Top(m)) \o ":" \o X, <<Line, m>>)
     /\ C("action", Line[5] = IF here THEN ShowAct(M, M.rows[Top(m) + 1][X]) ELSE "n/a", <<Line, m>>)
\* the last line shown is the last turn of the run; exp: the order of the symbols
RECURSIVE Ordered(_, _)
Ordered(S, x) == IF x > Len(D.order) THEN <<>> ELSE (IF D.order[x] \in S THEN <<D.order[x]>> ELSE <<>>) \o Ordered(S, x + 1)
Outcome == (j > 0 /\ k = Len(Rn.rows) /\ ~m.fin /\ ~m.torn) =>
  /\ C("some", k > 0, Rn)
  /\ k > 0 =>
     LET t == TLCEval(Turn(M, m)) IN
     IF t.res = Ok_ THEN C("outcome", t.m.fin /\ Rn.res = "ok", <<Rn.res, t.m>>)
     ELSE C("outcome", Rn.res = ShowError(M, t.res, IF t.res.e = "tok" THEN Ordered(t.res.exp, 1) ELSE <<>>), <<Rn.res, t.res>>)
=============================================================================
