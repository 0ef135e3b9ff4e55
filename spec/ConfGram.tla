------------------------------ MODULE ConfGram ------------------------------
(***************************************************************************)
(* C14: the grammar object, and which rule sets yield a parser at all.     *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, k              \* case; 0: the grammar object, k > 0: the k-th attempt to build a parser
vars == <<n, k>>
g == Data[n].g
O == Data[n].gram
B == Data[n].builds[k]
C(clause, cond, detail) == Claim(Data[n].id, clause, cond, detail)

Init == n \in 1..Len(Data) /\ k = 0
Next == k < Len(Data[n].builds) /\ k' = k + 1 /\ n' = n
Spec == Init /\ [][Next]_vars

StartProds == {p \in 1..Len(g.prods) : g.prods[p].l = g.start}
\* malformed: no parser may come out of it
NoStart == g.start \notin RawNT(g) \/ StartProds = {}
EmptyAlt == \E p \in 1..Len(g.prods) : g.prods[p].r = <<>>
Malformed == NoStart \/ EmptyAlt
Several == Cardinality(StartProds) > 1       \* refused in debug builds only: nothing is claimed

Refused == k > 0 => /\ Malformed => C("refused", ~Answered(B), <<B, "was built">>)
                    /\ (~Malformed /\ ~Several) => C("built", Answered(B), Bad(B))
                    /\ ~Answered(B) => C("panic", B.bad # "" , B)
\* a refusal is a panic, not a hang or a crash
Politely == (k > 0 /\ Malformed) => C("politely", Answered(B) \/ B.how = "panic", Bad(B))

Obj == k = 0 /\ ~NoStart /\ ~Several
Answers == Obj => C("answered", Answered(O), Bad(O))
Seen == Obj /\ Answered(O)
Syms == RawNT(g) \cup RawTerms(g)
Terminals == Seen => C("terminals", RangeOf(O.terminals) = RawTerms(g), <<O.terminals, RawTerms(g)>>)
Symbols == Seen => C("symbols", RangeOf(O.symbols) = Syms /\ Len(O.symbols) = Cardinality(Syms), <<O.symbols, Syms>>)
IsTerminal == Seen => /\ C("isterminal", RangeOf(O.isterm) \cap Syms = Syms \ RawNT(g), <<O.isterm, O.probe>>)
                      /\ C("probed", Syms \subseteq RangeOf(O.probe), O.probe)
RuleNames == Seen => C("rulenames", RangeOf(O.keys) = RawNT(g) /\ RangeOf(O.rnames) = RawNT(g)
                                    /\ Len(O.keys) = Cardinality(RawNT(g)) /\ Len(O.rnames) = Cardinality(RawNT(g)), <<O.keys, O.rnames>>)
\* O.rules: [name, [[number, body], ...]] as enumerated from the object
AltsOf(A) == LET ps == SelectSeq([p \in 1..Len(g.prods) |-> p], LAMBDA p : g.prods[p].l = A)
             IN [q \in 1..Len(ps) |-> <<g.prods[ps[q]].i, g.prods[ps[q]].r>>]
Alternatives == Seen => \A q \in 1..Len(O.rules) :
   C("alternatives", O.rules[q][2] = AltsOf(O.rules[q][1]), <<O.rules[q], AltsOf(O.rules[q][1])>>)
AllRules == Seen => C("allrules", {O.rules[q][1] : q \in 1..Len(O.rules)} = RawNT(g), O.rules)
Basis == Seen => C("basis", O.basis = <<CHOOSE p \in StartProds : TRUE, 0, <<g.eof>>>>, O.basis)
=============================================================================
