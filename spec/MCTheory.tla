------------------------------ MODULE MCTheory ------------------------------
(***************************************************************************)
(* The specification's own definitions against each other, for every small *)
(* grammar.  g: the grammar   G: worked out   A: its canonical automaton   *)
(* fs: rightmost sentential forms [d: what precedes the nonterminal,       *)
(* p: alternative applied to it, w: what follows], up to a bound; ph: how  *)
(* far the derivations went                                                *)
(***************************************************************************)
EXTENDS MCGrammars

CONSTANTS Deriv,     \* bound on the length of sentential forms (0: no derivations)
          Short      \* prefixes up to this length are looked at for completeness

VARIABLES g, G, A, forms, ph
vars == <<g, G, A, forms, ph>>

Init == /\ g \in AllGrammars
        /\ G = <<>> /\ A = <<>> /\ forms = {} /\ ph = "raw"

Build == /\ ph = "raw"
         /\ LET H == TLCEval(Grammar(g)) IN
            /\ Sane(H)
            /\ G' = H
            /\ A' = TLCEval(Canonical1(H))
            /\ forms' = IF Deriv = 0 THEN {} ELSE {<<H.start>>}
            /\ ph' = IF Deriv = 0 THEN "done" ELSE "deriving"
         /\ UNCHANGED g

\* --- validity by derivation: every rightmost derivation within the bound
RightAt(f) == LET X == {k \in 1..Len(f) : f[k] \in G.nts} IN IF X = {} THEN 0 ELSE CHOOSE k \in X : \A j \in X : j <= k
Expand(f) ==
  LET k == RightAt(f) IN
  IF k = 0 THEN {} ELSE {x \in {SubSeq(f, 1, k - 1) \o G.R[p] \o SubSeq(f, k + 1, Len(f)) : p \in G.by[f[k]]} : Len(x) <= Deriv}
Derive == /\ ph = "deriving"
          /\ LET new == UNION {Expand(f) : f \in forms} IN
             /\ forms' = TLCEval(forms \cup new)
             /\ ph' = IF new \subseteq forms THEN "done" ELSE "deriving"
          /\ UNCHANGED <<g, G, A>>
Next == Build \/ Derive
Spec == Init /\ [][Next]_vars

Done_ == ph = "done"

\* the state a prefix leads to, 0 when there is none
RECURSIVE At(_, _, _)
At(x, k, s) == IF k > Len(x) THEN s ELSE IF x[k] \in DOMAIN A.tr[s] THEN At(x, k + 1, A.tr[s][x[k]]) ELSE 0

\* [A -> alpha . beta, c] is valid for delta alpha when S =>* delta A w, c the first of w (or the end)
LookOf(f, k) == IF k < Len(f) THEN f[k + 1] ELSE G.eof
Valid == UNION {LET k == RightAt(f) IN
                IF k = 0 THEN {} ELSE
                UNION {{<<SubSeq(f, 1, k - 1) \o SubSeq(G.R[p], 1, d), <<p, d, LookOf(f, k)>>>> : d \in 0..Len(G.R[p])} : p \in G.by[f[k]]}
                : f \in forms}
\* every item a derivation gives is in the state its prefix leads to
ItemsSound == (Done_ /\ Deriv > 0) =>
  \A v \in Valid : At(v[1], 1, 1) # 0 /\ v[2] \in A.st[At(v[1], 1, 1)]
\* and every item of a state reached by a short prefix comes from a derivation
Prefixes == UNION {{SubSeq(v[1], 1, k) : k \in 0..Len(v[1])} : v \in Valid}
ItemsComplete == (Done_ /\ Deriv > 0) =>
  LET V == Valid IN
  \A x \in {y \in Prefixes : Len(y) <= Short} : A.st[At(x, 1, 1)] \subseteq {v[2] : v \in {u \in V : u[1] = x}}

\* --- LALR: merging and propagating give the same
LalrAlike == Done_ => LET M == TLCEval(MergeByCore(G, A))
                          P == TLCEval(LalrByPropagation(G)) IN
                      /\ RangeOf(M.st) = RangeOf(P.st)
                      /\ Len(M.st) = Len(P.st)
\* --- the hierarchy: what merging loses, and FOLLOW covers every lookahead
Cores == {Core(A.st[k]) : k \in 1..Len(A.st)}
HierarchyHolds == Done_ =>
  LET M == TLCEval(MergeByCore(G, A))
      Z == TLCEval(Canonical0(G))
      free(kind, X) == ConflictCells(Rows(G, kind, X)) = {}
  IN /\ Cores = RangeOf(Z.st)
     /\ \A k \in 1..Len(M.st) : \A it \in M.st[k] : it[3] \in G.follow[G.L[it[1]]]
     /\ free("slr", Z) => free("lalr", M)
     /\ free("lalr", M) => free("clr", A)
\* merging never makes a shift/reduce conflict
NoNewShiftReduce == Done_ =>
  LET M == TLCEval(MergeByCore(G, A))
      sr(I) == \E i, j \in I : Done(G, i[1], i[2]) /\ ~Done(G, j[1], j[2]) /\ After(G, j[1], j[2]) = i[3]
  IN (\A k \in 1..Len(A.st) : ~sr(A.st[k])) => (\A k \in 1..Len(M.st) : ~sr(M.st[k]))
=============================================================================
