------------------------------- MODULE GenOps -------------------------------
(***************************************************************************)
(* Every situation MaxOps single operations can bring a driver into, over  *)
(* given tables, and every operation in each of them: printed as           *)
(* OUT|n|operations, one shortest history for each.                        *)
(*   Data[n]: [R, L, I, rows, eof, w, to: states, on: symbols]             *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils, SequencesExt
CONSTANT MaxOps

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))
Row(r) == [X \in {r[k][1] : k \in 1..Len(r)} |-> r[CHOOSE k \in 1..Len(r) : r[k][1] = X][2]]

VARIABLES n, m, hist, k
vars == <<n, m, hist, k>>
M == TLCGet(1)[n]
Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> TLCEval([Data[x] EXCEPT !.rows = TLCEval([i \in 1..Len(@) |-> TLCEval(Row(@[i]))])])]))
        /\ n \in 1..Len(Data) /\ m = Made /\ hist = "" /\ k = 0

Did(op, res) == LET h == (IF k = 0 THEN "" ELSE hist \o " | ") \o op IN
                hist' = h /\ k' = k + 1 /\ m' = res.m /\ PrintT("OUT|" \o ToString(n) \o "|" \o h)
To == 1..Len(M.to)
Shift == \E i \in To : Did("shift " \o ToString(M.to[i]), Shift_(M, m, M.to[i]))
Goto == \E i \in To : Did("goto " \o ToString(M.to[i]), Goto_(m, M.to[i]))
Accept == Did("accept", Accept_(M, m))
Reduce == \E p \in 1..Len(M.R) : Did("reduce " \o ToString(p), Reduce_(M, m, p))
Travel == \E i \in 1..Len(M.on) : Did("travel " \o M.on[i], Travel_(M, m, M.on[i]))
Outside == \/ Did("give a", Gives(Give_(m, "a"), Ok_)) \/ Did("give A", Gives(Give_(m, "A"), Ok_))
           \/ Did("take", Gives(Take_(m), Ok_)) \/ Did("leave", Gives(Leave_(m), Ok_))
Reset == Did("reset", Gives(Reset_(m), Ok_))
\* a run that goes on for ever has to be noticed; where it then stands is left open
Start == LET t == TLCEval(RunOn(M, m, 60)) IN Did("start", IF t.res = Ok_ /\ ~t.m.fin THEN Gives([t.m EXCEPT !.torn = TRUE], Ok_) ELSE t)
Next == n' = n /\ k < MaxOps /\ ~m.torn /\ (Shift \/ Goto \/ Accept \/ Reduce \/ Travel \/ Outside \/ Reset \/ Start)
Spec == Init /\ [][Next]_vars
View == <<n, m.st, m.it, m.pos, m.fin, m.torn>>

-----------------------------------------------------------------------------
\* a bottom state, a value for each symbol, and an end only at the end
Sane == /\ Len(m.st) >= 1 /\ Len(m.it) = Len(m.va) /\ m.pos <= Len(M.w)
        /\ m.fin => m.pos = Len(M.w)
=============================================================================
