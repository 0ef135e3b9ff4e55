----------------------------- MODULE MCGrammars -----------------------------
(***************************************************************************)
(* All small grammars, for the design-level models.  Two families:         *)
(*   "one"  S and a rule A of up to MaxAlts alternatives over {A, a, b}    *)
(*   "two"  S -> A and rules A (up to MaxAlts) and B (up to MaxAlts2)      *)
(*          over {A, B, a, b}                                              *)
(*   "cyc"  S -> A and rules A, B, C of one alternative over {A, B, C, a}, *)
(*          C having up to MaxAlts2                                        *)
(* Alternatives are sequences of 1..MaxLen symbols.  A rule's alternatives *)
(* are a set: their order matters to nothing the models look at.           *)
(***************************************************************************)
EXTENDS LRTheory

CONSTANTS Family, MaxLen, MaxAlts, MaxAlts2

Bodies_(X) == UNION {[1..k -> X] : k \in 1..MaxLen}
RECURSIVE UpTo(_, _)
UpTo(S, k) == IF k = 0 THEN {{}} ELSE LET P == UpTo(S, k - 1) IN P \cup {p \cup {x} : p \in P, x \in S}
Alts_(X, k) == UpTo(Bodies_(X), k) \ {{}}

Prods(A, bodies) == LET b == SetToSeqR(bodies) IN [i \in 1..Len(b) |-> [l |-> A, r |-> b[i], i |-> i - 1]]
Raw(nts, ps) == [start |-> "S", eof |-> "$", nts |-> nts, prods |-> ps]

AllGrammars ==
  IF Family = "one"
  THEN {Raw(<<"S", "A">>, Prods("S", {s}) \o Prods("A", a)) : s \in {b \in Bodies_({"A", "a", "b"}) : "A" \in RangeOf(b)},
                                                              a \in Alts_({"A", "a", "b"}, MaxAlts)}
  ELSE IF Family = "cyc"
  THEN {Raw(<<"S", "A", "B", "C">>, Prods("S", {<<"A">>}) \o Prods("A", {x[1]}) \o Prods("B", {x[2]}) \o Prods("C", c)) :
           x \in {y \in Bodies_({"A", "B", "C", "a"}) \X Bodies_({"A", "B", "C", "a"}) : "B" \in RangeOf(y[1])},
           c \in Alts_({"A", "B", "C", "a"}, MaxAlts2)}
  ELSE {Raw(<<"S", "A", "B">>, Prods("S", {<<"A">>}) \o Prods("A", a) \o Prods("B", b)) :
           a \in {x \in Alts_({"A", "B", "a", "b"}, MaxAlts) : \E y \in x : "B" \in RangeOf(y)}, b \in Alts_({"A", "B", "a", "b"}, MaxAlts2)}

\* every rule derives something
Sane(G) == G.nts \subseteq Productive(G)
=============================================================================
