------------------------------- MODULE MCLalr -------------------------------
(***************************************************************************)
(* The LALR construction of lalr.rs as a work list: states are found by    *)
(* their core, lookaheads arriving later are merged into a state already   *)
(* there, and a state that grew is worked on again.  The next state to     *)
(* work on is any of those waiting.  Whatever the order, it ends with the  *)
(* canonical collection merged by core.                                    *)
(*   st: core -> item set   todo: cores waiting                            *)
(* Requeue = FALSE is what the code once did: a state worked on before was *)
(* left alone, so lookaheads got no further.                               *)
(***************************************************************************)
EXTENDS MCGrammars

CONSTANTS Requeue

VARIABLES g, G, st, todo
vars == <<g, G, st, todo>>

Init == g \in AllGrammars /\ G = <<>> /\ st = <<>> /\ todo = {}
Build == /\ G = <<>>
         /\ LET H == TLCEval(Grammar(g))
                I == TLCEval(Init1(H))
            IN Sane(H) /\ G' = H /\ st' = (Core(I) :> I) /\ todo' = {Core(I)}
         /\ UNCHANGED g

Reached(I) == {Goto1(G, I, X) : X \in NextSyms(G, I)}
Work(s) ==
  LET J == TLCEval(Reached(st[s]))
      new == {Core(I) : I \in J} \ DOMAIN st
      grown == {Core(I) : I \in {K \in J : Core(K) \in DOMAIN st /\ ~(K \subseteq st[Core(K)])}}
  IN /\ st' = TLCEval([k \in DOMAIN st \cup new |-> (IF k \in DOMAIN st THEN st[k] ELSE {}) \cup UNION {I \in J : Core(I) = k}])
     /\ todo' = (todo \ {s}) \cup new \cup (IF Requeue THEN grown ELSE {})
     /\ UNCHANGED <<g, G>>
Next == Build \/ \E s \in todo : Work(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

On == G # <<>>
Merged == LET M == MergeByCore(G, TLCEval(Canonical1(G))) IN RangeOf(M.st)
Exact == (On /\ todo = {}) => {st[k] : k \in DOMAIN st} = Merged
Within == On => \A k \in DOMAIN st : \E I \in Merged : Core(I) = k /\ st[k] \subseteq I
OneEach == On => \A k \in DOMAIN st : Core(st[k]) = k
Ends == <>(On => todo = {})
=============================================================================
