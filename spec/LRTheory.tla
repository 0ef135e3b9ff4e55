------------------------------ MODULE LRTheory ------------------------------
(***************************************************************************)
(* The mathematics lrp relies on: grammars, FIRST/FOLLOW, LR(0)/LR(1) item *)
(* sets, the canonical LR(1), LALR(1) and SLR(1) automata, their action    *)
(* rows, and (as an independent yardstick) Earley recognition.             *)
(*                                                                         *)
(* A grammar as it comes from JSON is a record                             *)
(*   [start, eof: STRING, nts: Seq(STRING),                                *)
(*    prods: Seq([l: STRING, r: Seq(STRING), i: Nat])]                     *)
(* where i is the number of the alternative in its rule.  Grammar(g) turns *)
(* it into the record the other operators use.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Grammars *)

RawNT(g)    == RangeOf(g.nts)
RawTerms(g) == (UNION {RangeOf(g.prods[p].r) : p \in 1..Len(g.prods)} \ RawNT(g)) \cup {g.eof}
RawBy(g)    == [A \in RawNT(g) |-> {p \in 1..Len(g.prods) : g.prods[p].l = A}]

\* FIRST as a least fixpoint. F maps nonterminals to sets of terminals.
RECURSIVE FirstFix(_, _)
FirstFix(g, F) ==
  LET S(X) == IF X \in DOMAIN F THEN F[X] ELSE {X}
      F2 == TLCEval([A \in DOMAIN F |->
               F[A] \cup UNION {S(g.prods[p].r[1]) : p \in {q \in 1..Len(g.prods) : g.prods[q].l = A}}])
  IN IF F2 = F THEN F ELSE FirstFix(g, F2)

RawFirst(g) == FirstFix(g, [A \in RawNT(g) |-> {}])

\* FOLLOW as a least fixpoint over all rules (reachable or not).
RECURSIVE FollowFix(_, _, _)
FollowFix(g, first, F) ==
  LET S(X) == IF X \in DOMAIN F THEN first[X] ELSE {X}
      Occ(B) == {<<p, k>> \in UNION {{<<p, k>> : k \in 1..Len(g.prods[p].r)} : p \in 1..Len(g.prods)} :
                    g.prods[p].r[k] = B}
      F2 == TLCEval([B \in DOMAIN F |-> F[B] \cup
               UNION {IF o[2] < Len(g.prods[o[1]].r) THEN S(g.prods[o[1]].r[o[2] + 1])
                      ELSE F[g.prods[o[1]].l] : o \in Occ(B)}])
  IN IF F2 = F THEN F ELSE FollowFix(g, first, F2)

RawFollow(g, first) ==
  FollowFix(g, first, [A \in RawNT(g) |-> IF A = g.start THEN {g.eof} ELSE {}])

Grammar(g) ==
  LET nt == RawNT(g)
      te == RawTerms(g)
      fi == TLCEval(RawFirst(g))
      by == TLCEval(RawBy(g))
  IN [ nts   |-> nt,
       terms |-> te,
       syms  |-> nt \cup te,
       start |-> g.start,
       eof   |-> g.eof,
       n     |-> Len(g.prods),
       L     |-> TLCEval([p \in 1..Len(g.prods) |-> g.prods[p].l]),
       R     |-> TLCEval([p \in 1..Len(g.prods) |-> g.prods[p].r]),
       idx   |-> TLCEval([p \in 1..Len(g.prods) |-> g.prods[p].i]),
       by    |-> by,
       first |-> TLCEval([X \in nt \cup te |-> IF X \in nt THEN fi[X] ELSE {X}]),
       follow|-> TLCEval(RawFollow(g, fi)),
       sp    |-> CHOOSE p \in 1..Len(g.prods) : g.prods[p].l = g.start ]

\* Symbols reachable from the start, and nonterminals deriving some sentence.
RECURSIVE ReachFix(_, _)
ReachFix(G, S) ==
  LET S2 == S \cup UNION {UNION {RangeOf(G.R[p]) : p \in G.by[A]} : A \in S \cap G.nts}
  IN IF S2 = S THEN S ELSE ReachFix(G, S2)
Reachable(G) == ReachFix(G, {G.start})

RECURSIVE ProdFix(_, _)
ProdFix(G, S) ==
  LET S2 == S \cup {A \in G.nts : \E p \in G.by[A] : \A k \in 1..Len(G.R[p]) : G.R[p][k] \in S}
  IN IF S2 = S THEN S ELSE ProdFix(G, S2)
Productive(G) == ProdFix(G, G.terms)

Reduced(G) == /\ G.nts \subseteq Reachable(G)
              /\ G.nts \subseteq Productive(G)

-----------------------------------------------------------------------------
(* LR(1) items <<p, d, a>>: production p, dot after d symbols, lookahead a *)
(* LR(0) items are <<p, d>>.                                               *)

After(G, p, d)  == G.R[p][d + 1]
Done(G, p, d)   == d = Len(G.R[p])

RECURSIVE Clo1(_, _, _)
Clo1(G, done, fr) ==
  IF fr = {} THEN done ELSE
  LET all == done \cup fr
      open == {it \in fr : ~Done(G, it[1], it[2]) /\ After(G, it[1], it[2]) \in G.nts}
      \* demanded (nonterminal, lookahead) pairs
      dem == UNION {LET p == it[1] d == it[2] IN
                    {<<After(G, p, d), b>> : b \in IF d + 2 <= Len(G.R[p]) THEN G.first[G.R[p][d + 2]] ELSE {it[3]}}
                    : it \in open}
      new == UNION {{<<q, 0, x[2]>> : q \in G.by[x[1]]} : x \in dem}
  IN Clo1(G, all, new \ all)

Closure1(G, I) == Clo1(G, {}, I)

RECURSIVE Clo0(_, _, _)
Clo0(G, done, fr) ==
  IF fr = {} THEN done ELSE
  LET all == done \cup fr
      dem == {After(G, it[1], it[2]) : it \in {i \in fr : ~Done(G, i[1], i[2])}} \cap G.nts
      new == UNION {{<<q, 0>> : q \in G.by[X]} : X \in dem}
  IN Clo0(G, all, new \ all)

Closure0(G, I) == Clo0(G, {}, I)

NextSyms(G, I) == {After(G, it[1], it[2]) : it \in {i \in I : ~Done(G, i[1], i[2])}}

Moved1(G, I, X) == {<<it[1], it[2] + 1, it[3]>> :
                      it \in {i \in I : ~Done(G, i[1], i[2]) /\ After(G, i[1], i[2]) = X}}
Moved0(G, I, X) == {<<it[1], it[2] + 1>> :
                      it \in {i \in I : ~Done(G, i[1], i[2]) /\ After(G, i[1], i[2]) = X}}

Goto1(G, I, X) == Closure1(G, Moved1(G, I, X))
Goto0(G, I, X) == Closure0(G, Moved0(G, I, X))

Core(I) == {<<it[1], it[2]>> : it \in I}

Init1(G) == Closure1(G, {<<G.sp, 0, G.eof>>})
Init0(G) == Closure0(G, {<<G.sp, 0>>})

-----------------------------------------------------------------------------
(* Collections.  An automaton is [st: Seq(item set), tr: Seq(symbol -> Nat)] *)

IndexOf(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

RECURSIVE SetToSeqR(_)
SetToSeqR(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqR(S \ {x})

\* kern maps a kernel to the number of its state
RECURSIVE Collect(_, _, _, _, _, _)
Collect(G, lr1, st, kern, tr, k) ==
  IF k > Len(st) THEN [st |-> st, tr |-> tr] ELSE
  LET I == st[k]
      xs == NextSyms(G, I)
      mv == TLCEval([X \in xs |-> IF lr1 THEN Moved1(G, I, X) ELSE Moved0(G, I, X)])
      newk == SetToSeqR({mv[X] : X \in xs} \ DOMAIN kern)
      base == Len(st)
      kern2 == IF newk = <<>> THEN kern
               ELSE TLCEval(kern @@ [K \in RangeOf(newk) |-> base + IndexOf(newk, K)])
      st2 == TLCEval(st \o [i \in 1..Len(newk) |-> IF lr1 THEN Closure1(G, newk[i]) ELSE Closure0(G, newk[i])])
      row == TLCEval([X \in xs |-> kern2[mv[X]]])
  IN Collect(G, lr1, st2, kern2, Append(tr, row), k + 1)

Canonical1(G) ==
  Collect(G, TRUE, <<Init1(G)>>, ({<<G.sp, 0, G.eof>>} :> 1), <<>>, 1)
Canonical0(G) ==
  Collect(G, FALSE, <<Init0(G)>>, ({<<G.sp, 0>>} :> 1), <<>>, 1)

\* LALR by definition: LR(1) states merged by core.
MergeByCore(G, A) ==
  LET cores == TLCEval([i \in 1..Len(A.st) |-> Core(A.st[i])])
      reps  == SelectSeq([i \in 1..Len(A.st) |-> i], LAMBDA i : \A j \in 1..(i - 1) : cores[j] # cores[i])
      num   == TLCEval([i \in 1..Len(A.st) |-> IndexOf([k \in 1..Len(reps) |-> cores[reps[k]]], cores[i])])
  IN [ st |-> TLCEval([k \in 1..Len(reps) |-> UNION {A.st[i] : i \in {j \in 1..Len(A.st) : num[j] = k}}]),
       tr |-> TLCEval([k \in 1..Len(reps) |-> [X \in DOMAIN A.tr[reps[k]] |-> num[A.tr[reps[k]][X]]]]) ]

\* LALR by lookahead propagation over the LR(0) collection (used for grammars
\* whose LR(1) collection is too large; MCTheory (LalrAlike) shows it equals MergeByCore).
RECURSIVE Propagate(_, _, _, _)
Propagate(G, A0, la, todo) ==      \* la: state -> set of LR(1) items; todo: states to push
  IF todo = {} THEN la ELSE
  LET s == CHOOSE x \in todo : \A y \in todo : x <= y
      xs == DOMAIN A0.tr[s]
      inc == TLCEval([t \in {A0.tr[s][X] : X \in xs} |->
                 Closure1(G, UNION {Moved1(G, la[s], X) : X \in {Y \in xs : A0.tr[s][Y] = t}})])
      grown == {t \in DOMAIN inc : ~(inc[t] \subseteq la[t])}
      la2 == IF grown = {} THEN la
             ELSE TLCEval([t \in DOMAIN la |-> IF t \in grown THEN la[t] \cup inc[t] ELSE la[t]])
  IN Propagate(G, A0, la2, (todo \ {s}) \cup grown)

LalrByPropagation(G) ==
  LET A0 == TLCEval(Canonical0(G))
      la0 == TLCEval([i \in 1..Len(A0.st) |-> IF i = 1 THEN Init1(G) ELSE {}])
  IN [st |-> Propagate(G, A0, la0, {1}), tr |-> A0.tr]

-----------------------------------------------------------------------------
(* Action rows.  An action is <<kind, n>>: <<"s", j>> shift to state j,     *)
(* <<"g", j>> goto, <<"r", p>> reduce by production p, <<"a", 0>> accept.   *)

RedLook(G, kind, I) ==   \* completed items of a state with their lookaheads
  IF kind = "slr"
  THEN UNION {{<<it[1], a>> : a \in G.follow[G.L[it[1]]]} : it \in {i \in I : Done(G, i[1], i[2])}}
  ELSE {<<it[1], it[3]>> : it \in {i \in I : Done(G, i[1], i[2])}}

RowOf(G, kind, I, tr) ==
  LET red == RedLook(G, kind, I)
      cols == DOMAIN tr \cup {r[2] : r \in red}
  IN TLCEval([X \in cols |->
        (IF X \in DOMAIN tr THEN {<<(IF X \in G.nts THEN "g" ELSE "s"), tr[X]>>} ELSE {})
        \cup {IF r[1] = G.sp THEN <<"a", 0>> ELSE <<"r", r[1]>> : r \in {x \in red : x[2] = X}}])

Rows(G, kind, A) == TLCEval([i \in 1..Len(A.st) |-> RowOf(G, kind, A.st[i], A.tr[i])])

Automaton(G, kind) ==
  CASE kind = "clr"  -> Canonical1(G)
    [] kind = "lalr" -> MergeByCore(G, TLCEval(Canonical1(G)))
    [] kind = "slr"  -> Canonical0(G)

Cell(rows, i, X) == IF X \in DOMAIN rows[i] THEN rows[i][X] ELSE {}

ConflictCells(rows) == {<<i, X>> \in UNION {{<<i, X>> : X \in DOMAIN rows[i]} : i \in 1..Len(rows)} :
                          Cardinality(rows[i][X]) > 1}

-----------------------------------------------------------------------------
(* Earley recognition: items <<p, d, k>>, k = origin position.  Independent *)
(* of LR theory; used as the yardstick for languages and viable prefixes.   *)

RECURSIVE EClose(_, _, _, _, _)
\* prev: sequence of finished sets (prev[j+1] is the set of position j); here: position
EClose(G, prev, here, done, fr) ==
  IF fr = {} THEN done ELSE
  LET all == done \cup fr
      pred == UNION {{<<q, 0, here>> : q \in G.by[X]} :
                X \in {After(G, it[1], it[2]) : it \in {i \in fr : ~Done(G, i[1], i[2])}} \cap G.nts}
      \* no empty alternatives: a completed item's origin is an earlier position
      comp == UNION {LET A == G.L[it[1]] IN
                {<<jt[1], jt[2] + 1, jt[3]>> : jt \in
                   {j \in prev[it[3] + 1] : ~Done(G, j[1], j[2]) /\ After(G, j[1], j[2]) = A}}
                : it \in {i \in fr : Done(G, i[1], i[2])}}
  IN EClose(G, prev, here, all, (pred \cup comp) \ all)

EInit(G) == EClose(G, <<>>, 0, {}, {<<G.sp, 0, 0>>})

EStep(G, sets, t) ==   \* sets: Seq of Earley sets so far
  LET here == Len(sets)
      sc == {<<it[1], it[2] + 1, it[3]>> : it \in
               {i \in sets[here] : ~Done(G, i[1], i[2]) /\ After(G, i[1], i[2]) = t}}
  IN Append(sets, EClose(G, sets, here, {}, sc))

EAccepts(G, sets) == <<G.sp, Len(G.R[G.sp]), 0>> \in sets[Len(sets)]

\* terminals that can come next (the end marker if the input may end here)
EExpected(G, sets) ==
  ({After(G, it[1], it[2]) : it \in {i \in sets[Len(sets)] : ~Done(G, i[1], i[2])}} \ G.nts)
  \cup (IF EAccepts(G, sets) THEN {G.eof} ELSE {})

RECURSIVE ERun(_, _, _, _)
ERun(G, sets, w, k) == IF k > Len(w) THEN sets ELSE ERun(G, TLCEval(EStep(G, sets, w[k])), w, k + 1)

InLanguage(G, w) == (\A k \in 1..Len(w) : w[k] \notin G.nts) /\ EAccepts(G, ERun(G, <<EInit(G)>>, w, 1))

-----------------------------------------------------------------------------
(* The language up to length n by plain derivation (a third, naive view). *)

Concat(S, T, n) == {x[1] \o x[2] : x \in {y \in S \X T : Len(y[1]) + Len(y[2]) <= n}}

RECURSIVE SeqLang(_, _, _, _)
SeqLang(LA, rhs, k, n) ==
  IF k > Len(rhs) THEN {<<>>}
  ELSE Concat(IF rhs[k] \in DOMAIN LA THEN LA[rhs[k]] ELSE {<<rhs[k]>>}, SeqLang(LA, rhs, k + 1, n), n)

RECURSIVE LangFix(_, _, _)
LangFix(G, LA, n) ==
  LET L2 == TLCEval([A \in G.nts |-> UNION {SeqLang(LA, G.R[p], 1, n) : p \in G.by[A]}])
  IN IF L2 = LA THEN LA ELSE LangFix(G, L2, n)

Language(G, n) == LangFix(G, [A \in G.nts |-> {}], n)[G.start]

=============================================================================
