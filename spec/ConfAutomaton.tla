---------------------------- MODULE ConfAutomaton ----------------------------
(***************************************************************************)
(* C02-C05: the automaton the code built and the one LRTheory defines,     *)
(* walked side by side from their initial states over every symbol.  A     *)
(* state is a grammar n, an observed table t of it (one construction), a   *)
(* specification state s and the implementation state i reached by the     *)
(* same symbols (i = 0: the table as a whole).  State numbers are never    *)
(* compared, only what is reached.                                         *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, t, s, i
vars == <<n, t, s, i>>

\* worked out once, in Init
G == TLCGet(1)
Auts == TLCGet(2)
SpecRows == TLCGet(3)
Impls == TLCGet(4)
Kind(x, y) == Data[x].tabs[y].kind

\* the specification automata: record with clr, lalr, slr (those that are needed)
\* What C02-C05 are about: the start symbol has one alternative and is used nowhere else, and every
\* symbol derives something (an item of a rule that derives nothing is valid for no prefix).
Applicable(g) == /\ Cardinality(g.by[g.start]) = 1
                 /\ \A p \in 1..g.n : g.start \notin RangeOf(g.R[p])
                 /\ g.nts \subseteq Productive(g)
AutOf(x) ==
  LET need == IF Applicable(G[x]) THEN {Kind(x, y) : y \in 1..Len(Data[x].tabs)} ELSE {}
      g == G[x]
      big == Data[x].big
      clr == IF "clr" \in need \/ ("lalr" \in need /\ ~big) THEN TLCEval(Canonical1(g)) ELSE <<>>
  IN TLCEval([K \in need |->
       CASE K = "clr" -> clr
         [] K = "slr" -> TLCEval(Canonical0(g))
         [] K = "lalr" -> IF big THEN TLCEval(LalrByPropagation(g)) ELSE TLCEval(MergeByCore(g, clr))])
MkAuts == TLCEval([x \in 1..Len(Data) |-> AutOf(x)])
MkSpecRows == TLCEval([x \in 1..Len(Data) |-> TLCEval([K \in DOMAIN Auts[x] |-> Rows(G[x], K, Auts[x][K])])])

Out(x, y) == Data[x].tabs[y]
MkImpls == TLCEval([x \in 1..Len(Data) |-> TLCEval([y \in 1..Len(Data[x].tabs) |->
            IF Answered(Out(x, y)) THEN ImplRows(Out(x, y).rows) ELSE <<>>])])

K == Kind(n, t)
A == Auts[n][K]
SR == SpecRows[n][K][s]
Impl == Impls[n][t]
Here == i \in 1..Len(Impl)
IR == IF Here THEN Impl[i] ELSE <<>>
Plain == Out(n, t).compact = 0
CaseId == Data[n].id \o "/" \o K \o "/" \o ToString(Out(n, t).compact)

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> Grammar(Data[x].g)]))
        /\ TLCSet(2, MkAuts)
        /\ TLCSet(3, MkSpecRows)
        /\ TLCSet(4, MkImpls)
        /\ n \in 1..Len(Data) /\ t \in 1..Len(Data[n].tabs)
        /\ s = 1 /\ i = 0

Targets(cell) == {a[2] : a \in {b \in cell : b[1] \in {"s", "g"}}}

InScope == K \in DOMAIN Auts[n]
Enter == i = 0 /\ InScope /\ Answered(Out(n, t)) /\ i' = 1 /\ UNCHANGED <<n, t, s>>
Move(X) == /\ Here
           /\ X \in DOMAIN IR
           /\ \E j \in Targets(IR[X]) : i' = j
           /\ s' = A.tr[s][X]
           /\ UNCHANGED <<n, t>>
Next == Enter \/ (i # 0 /\ \E X \in DOMAIN A.tr[s] : Move(X))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
C(clause, cond, detail) == Claim(CaseId, clause, cond, detail)

Terminates == i = 0 => C("answered", Answered(Out(n, t)), Bad(Out(n, t)))

\* the state reached exists
InTable == i # 0 => C("intable", Here, <<i, Len(Impl)>>)

\* shifts and gotos: exactly the transitions of the specification state
Moves(row) == {X \in DOMAIN row : Targets(row[X]) # {}}
TransitionsExact == Here =>
  /\ C("transitions", Moves(IR) = DOMAIN A.tr[s], <<i, "impl", Moves(IR), "spec", DOMAIN A.tr[s]>>)
  /\ \A X \in Moves(IR) : C("deterministic", Cardinality(Targets(IR[X])) = 1, <<i, X, IR[X]>>)
  /\ \A X \in Moves(IR) : C("shiftkind", \A a \in IR[X] : a[1] = "s" => X \notin G[n].nts, <<i, X, IR[X]>>)
  /\ \A X \in Moves(IR) : C("gotokind", \A a \in IR[X] : a[1] = "g" => X \in G[n].nts, <<i, X, IR[X]>>)

\* reductions and acceptance: same productions on the same lookaheads
Finals(row) == UNION {{<<X, a[1], a[2]>> : a \in {b \in row[X] : b[1] \in {"r", "a"}}} : X \in DOMAIN row}
ReductionsExact == Here =>
  C("reductions", Finals(IR) = Finals(SR), <<i, "impl", Finals(IR) \ Finals(SR), "spec", Finals(SR) \ Finals(IR)>>)

\* no empty cell and no column without action
NoEmptyCell == Here => C("cells", DOMAIN IR = DOMAIN SR, <<i, "impl", DOMAIN IR, "spec", DOMAIN SR>>)

\* the item sets; SLR items carry no lookaheads, so only cores are compared there
ItemsExact == (Here /\ Plain) =>
  LET its == Out(n, t).items[i] IN
  /\ C("cores", ImplCores(its) = (IF K = "slr" THEN A.st[s] ELSE Core(A.st[s])),
       <<i, "impl", ImplCores(its), "spec", A.st[s]>>)
  /\ K # "slr" => C("lookaheads", ImplItems(its) = A.st[s],
       <<i, "extra", ImplItems(its) \ A.st[s], "missing", A.st[s] \ ImplItems(its)>>)

\* exactly one state per set of the collection (with the walk: a bijection)
\* (the canonical construction may represent one set by several equal states)
CountExact == (i = 0 /\ InScope /\ Answered(Out(n, t)) /\ Plain /\ K # "clr") =>
  /\ C("nstates", Out(n, t).nstates = Len(A.st), <<Out(n, t).nstates, Len(A.st)>>)
  /\ C("nrows", Len(Impl) = Len(A.st), <<Len(Impl), Len(A.st)>>)

-----------------------------------------------------------------------------
(* Conflicts *)
Strip(cell) == {IF a[1] \in {"s", "g"} THEN <<a[1], 0>> ELSE a : a \in cell}
ConflictsExact == Here =>
  \A X \in DOMAIN IR \cup DOMAIN SR :
     LET ic == IF X \in DOMAIN IR THEN IR[X] ELSE {}
         sc == IF X \in DOMAIN SR THEN SR[X] ELSE {}
     IN /\ C("conflict-iff", (Cardinality(ic) > 1) <=> (Cardinality(sc) > 1), <<i, X, "impl", ic, "spec", sc>>)
        /\ (Cardinality(sc) > 1) => C("conflict-acts", Strip(ic) = Strip(sc), <<i, X, "impl", ic, "spec", sc>>)
ConflictCountExact == (i = 0 /\ Answered(Out(n, t))) =>
  /\ C("conflict-count", Out(n, t).conf = Cardinality(ConflictCells(Impl)), <<Out(n, t).conf, ConflictCells(Impl)>>)
  /\ (InScope /\ Plain /\ K # "clr") => C("conflict-count-spec", Out(n, t).conf = Cardinality(ConflictCells(SpecRows[n][K])),
                <<Out(n, t).conf, ConflictCells(SpecRows[n][K])>>)
  /\ C("conflict-listed",
       LET listed == [j \in 1..Len(Out(n, t).confacts) |-> RangeOf(Out(n, t).confacts[j])]
           cells == {Impl[c[1]][c[2]] : c \in ConflictCells(Impl)}
       IN {listed[j] : j \in 1..Len(listed)} = cells, Out(n, t).confacts)
=============================================================================
