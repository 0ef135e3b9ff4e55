---------------------------- MODULE ConfCompact ----------------------------
(***************************************************************************)
(* C11: tables, many of them changed by hand, compacted again and again.   *)
(* Rows are equal or not; whatever is written in them is opaque but for    *)
(* the states actions lead to, also within competing actions.              *)
(*   n: case   t: table   r: times compacted                               *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, t, r
vars == <<n, t, r>>

Tab == Data[n].tabs[t]
Ok == Answered(Tab)
R(q) == Tab.rounds[q + 1].rows
\* what compacting says of it: old state -> new state
To(q) == LET v == Tab.rounds[q + 1].travel IN [s \in {v[k][1] : k \in 1..Len(v)} |-> v[CHOOSE k \in 1..Len(v) : v[k][1] = s][2]]
RECURSIVE Led(_, _)
Led(a, to) ==
  CASE a.k \in {"s", "g"} -> [a EXCEPT !.n = to[@]]
    [] a.k = "c" -> [a EXCEPT !.a = Led(@, to), !.b = Led(@, to)]
    [] OTHER -> a
RowLed(row, to) == [k \in 1..Len(row) |-> <<row[k][1], Led(row[k][2], to)>>]

Init == n \in 1..Len(Data) /\ t \in 1..Len(Data[n].tabs) /\ r = 0
Next == Ok /\ r < Len(Tab.rounds) - 1 /\ r' = r + 1 /\ UNCHANGED <<n, t>>
Spec == Init /\ [][Next]_vars

C(clause, cond, detail) == Claim(Data[n].id \o "/" \o ToString(t), clause, cond, <<Tab.kind, "compacted", r, detail>>)
Answers == r = 0 => C("answered", Ok, Bad(Tab))
Sets == Ok => LET w == [i \in 1..Len(R(r)) |-> TLCEval(R(r)[i])]
                  confs == UNION {{<<i, k>> : k \in {k \in 1..Len(w[i]) : w[i][k][2].k = "c"}} : i \in 1..Len(w)}
                  all == Tab.rounds[r + 1].confs IN
  \* every cell with competing actions is listed, once
  /\ C("conflicts", Cardinality(confs) = Len(all) /\ Tab.rounds[r + 1].conf = Len(all), <<Cardinality(confs), Len(all)>>)
  /\ C("listed", RangeOf(all) = {w[x[1]][x[2]][2] : x \in confs}, all)
\* the way there: one new state for each distinct row
Travel == Ok =>
  LET w == R(r) to == TLCEval(To(r)) kept == Tab.rounds[r + 1].kept IN
  /\ C("all-states", DOMAIN to = 0..(Len(w) - 1), DOMAIN to)
  /\ C("onto", {to[s] : s \in DOMAIN to} = 0..(kept - 1), <<to, kept>>)
  /\ C("equal-rows", Cardinality(RangeOf(w)) = kept /\ \A i, j \in 1..Len(w) : (w[i] = w[j]) <=> (to[i - 1] = to[j - 1]), to)
  /\ C("start", to[0] = 0, to)
\* what becomes of the table
Compacted == (Ok /\ r > 0) =>
  LET w == R(r - 1) to == TLCEval(To(r - 1)) IN
  /\ C("size", Len(R(r)) = Tab.rounds[r].kept /\ Len(R(r)) <= Len(w), Len(R(r)))
  /\ C("nstates", Tab.rounds[r + 1].nstates = Tab.rounds[1].nstates, Tab.rounds[r + 1].nstates)
  /\ \A i \in 1..Len(w) : C("row", R(r)[to[i - 1] + 1] = RowLed(w[i], to), <<i - 1, w[i], "became", to[i - 1], R(r)[to[i - 1] + 1]>>)
=============================================================================
