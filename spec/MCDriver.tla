------------------------------ MODULE MCDriver ------------------------------
(***************************************************************************)
(* The driver over the automata of every small grammar, on-line: the       *)
(* environment gives one token after another (the grammar's, a rule's      *)
(* name, the end marker, an unknown one) or ends the input, and drivers of *)
(* all three constructions, and over compacted canonical rows, work until  *)
(* they need the next token.  So every input up to MaxIn tokens is tried.  *)
(*   rows: construction -> rows   c: construction -> configuration         *)
(*   calls: construction -> alternatives reduced by so far                 *)
(*   busy: the most steps one token needed   E: Earley sets of the input   *)
(***************************************************************************)
EXTENDS MCGrammars, Driver

CONSTANTS MaxIn

VARIABLES g, G, rows, w, closed, c, calls, busy, E
vars == <<g, G, rows, w, closed, c, calls, busy, E>>

Kinds == {"clr", "lalr", "slr", "clr+"}

-----------------------------------------------------------------------------
(* Compacting: states with equal rows become one, and what leads to them    *)
(* follows.  The first of them stays.                                       *)
Compact(R) ==
  LET kept == SelectSeq([i \in 1..Len(R) |-> i], LAMBDA i : \A j \in 1..(i - 1) : R[j] # R[i])
      to == TLCEval([i \in 1..Len(R) |-> CHOOSE k \in 1..Len(kept) : R[kept[k]] = R[i]])
      act(a) == IF a[1] \in {"s", "g"} THEN <<a[1], to[a[2]]>> ELSE a
  IN TLCEval([k \in 1..Len(kept) |-> [X \in DOMAIN R[kept[k]] |-> {act(a) : a \in R[kept[k]][X]}]])

Init == /\ g \in AllGrammars
        /\ G = <<>> /\ rows = <<>> /\ c = <<>> /\ calls = <<>> /\ busy = 0
        /\ w = <<>> /\ closed = FALSE /\ E = <<>>

Build == /\ G = <<>>
         /\ LET H == TLCEval(Grammar(g))
                A1 == TLCEval(Canonical1(H))
                r1 == TLCEval(Rows(H, "clr", A1))
            IN /\ Reduced(H)
               /\ G' = H
               /\ rows' = TLCEval([k \in Kinds |->
                    CASE k = "clr" -> r1 [] k = "clr+" -> Compact(r1)
                      [] k = "lalr" -> Rows(H, "lalr", TLCEval(MergeByCore(H, A1))) [] k = "slr" -> Rows(H, "slr", TLCEval(Canonical0(H)))])
               /\ E' = <<TLCEval(EInit(H))>>
         /\ c' = [k \in Kinds |-> Start]
         /\ calls' = [k \in Kinds |-> <<>>]
         /\ UNCHANGED <<g, w, closed, busy>>

\* turns of the loop until the next token is needed; [c, calls, n: turns]
RECURSIVE Work(_, _, _, _)
Work(R, inp, end, x) ==
  IF x.c.out # "run" \/ (x.c.pos = Len(inp) /\ ~end) THEN x
  ELSE LET d == TLCEval(Step(G, R, inp, x.c, FALSE, "")) IN
       Work(R, inp, end, [c |-> d, calls |-> IF d.call = <<>> THEN x.calls ELSE Append(x.calls, d.call[1]), n |-> x.n + 1])

Feed(inp, end) ==
  LET x == TLCEval([k \in Kinds |-> Work(rows[k], inp, end, [c |-> c[k], calls |-> calls[k], n |-> 0])]) IN
  /\ w' = inp /\ closed' = end
  /\ c' = [k \in Kinds |-> x[k].c]
  /\ calls' = [k \in Kinds |-> x[k].calls]
  /\ busy' = CHOOSE m \in {x[k].n : k \in Kinds} : \A k \in Kinds : x[k].n <= m
  /\ UNCHANGED <<g, G, rows>>

Running == {k \in Kinds : c[k].out = "run"} # {}
Tokens_ == (G.terms \cup {"A", "?"})
Token_ == /\ G # <<>> /\ ~closed /\ Running /\ Len(w) < MaxIn
          /\ \E t \in Tokens_ : /\ Feed(Append(w, t), FALSE)
                                /\ E' = TLCEval(EStep(G, E, IF t \in G.nts THEN "?" ELSE t))
End_ == G # <<>> /\ ~closed /\ Running /\ Feed(w, TRUE) /\ UNCHANGED E
Next == Build \/ Token_ \/ End_
Spec == Init /\ [][Next]_vars

On == G # <<>>
Free(k) == ConflictCells(rows[k]) = {}
Real == {"clr", "lalr", "slr"}

\* C09: nothing but the outcomes there are; and only so many turns per token
Outcomes == On => \A k \in Kinds : c[k].out \in {"run", "ok", "tok", "conf", "inc", "cycle"}
Bounded == On => \A k \in Kinds : busy <= (Len(w) + 2) * (Len(rows[k]) + 2)
Shape == On => \A k \in Kinds : Len(c[k].st) = Len(c[k].sy) + 1
\* C08: everything shifted starts a sentence, and the token refused does not go on with it
Viable == On => \A k \in Kinds : E[c[k].pos + 1] # {}
Refused == On => \A k \in Kinds : c[k].out \in {"tok", "cycle", "inc"} =>
             LookAhead(G, w, c[k]) \notin EExpected(G, SubSeq(E, 1, c[k].pos + 1)) \/ (c[k].pos < Len(w) /\ w[c[k].pos + 1] = G.eof)
Lists == On => (c["clr"].out = "tok" /\ Free("clr") => Expected(G, rows["clr"], c["clr"]) = EExpected(G, SubSeq(E, 1, c["clr"].pos + 1)))
\* C06: accepted exactly when derivable
Accepts == On => \A k \in Kinds : c[k].out = "ok" => EAccepts(G, E) /\ w \in Language(G, MaxIn)
Complete == (On /\ closed) => \A k \in Kinds : (Free(k) /\ c[k].out # "ok") => ~EAccepts(G, E)
NoConflict == On => \A k \in Kinds : Free(k) => c[k].out # "conf"
\* C07
Trees == On => \A k \in Kinds : c[k].out = "ok" => DerivesReversed(G, calls[k], w)
\* C11: the compacted rows go the same way
Same == On => LET a == c["clr"] b == c["clr+"] IN
              /\ a.out = b.out /\ a.sy = b.sy /\ a.pos = b.pos /\ calls["clr"] = calls["clr+"]
              /\ Expected(G, rows["clr"], a) = Expected(G, rows["clr+"], b)
              /\ Len(rows["clr+"]) <= Len(rows["clr"])
\* C12
Agree == On => \A k, l \in Real : (Free(k) /\ Free(l)) =>
           /\ (c[k].out = "ok") = (c[l].out = "ok")
           /\ c[k].pos = c[l].pos
           /\ c[k].out = "ok" => calls[k] = calls[l]
=============================================================================
