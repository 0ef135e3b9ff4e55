-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* What was observed of the real code, read from the file named by the     *)
(* environment variable DATA: one JSON record per line, holding a grammar  *)
(* (field g) and the answers of the harness.                               *)
(***************************************************************************)
EXTENDS LRTheory, Json, IOUtils

Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))

\* A claim that does not hold is named on the output, for the runner.
Claim(case, clause, cond, detail) ==
  cond \/ ~PrintT("FAIL|" \o case \o "|" \o clause \o "|" \o ToString(detail))

Answered(out) == "bad" \notin DOMAIN out     \* bad: how the code failed to answer (panic, hang, crash)
Bad(out) == IF Answered(out) THEN "" ELSE out.bad

\* action rows as functions from symbols to sets of actions
ImplRow(row) == [X \in {row[k][1] : k \in 1..Len(row)} |->
                   RangeOf(row[CHOOSE k \in 1..Len(row) : row[k][1] = X][2])]
ImplRows(rows) == TLCEval([i \in 1..Len(rows) |-> TLCEval(ImplRow(rows[i]))])

\* items [p, d, [lookaheads]] as a set of <<p, d, a>>
ImplItems(its) == UNION {{<<its[k][1], its[k][2], a>> : a \in RangeOf(its[k][3])} : k \in 1..Len(its)}
ImplCores(its) == {<<its[k][1], its[k][2]>> : k \in 1..Len(its)}

Kinds == {"clr", "lalr", "slr"}
=============================================================================
