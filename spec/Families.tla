------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Four grammars whose parses can be told in advance, for inputs of any    *)
(* length: what a parser does with the input of parameters p = <<i, j, k>>. *)
(*   nest   1: S1 -> S   2: S -> a S b   3: S -> c        a^i c^j b^k      *)
(*   right  1: S1 -> L   2: L -> X L   3: L -> X   4: X -> a   a^i z^j     *)
(*   left   1: S1 -> L   2: L -> L X   3: L -> X   4: X -> a   a^i z^j     *)
(*   list   1: S1 -> E   2: E -> E + T   3: E -> T   4: T -> n             *)
(*          5: T -> ( E )                        (^i n (+ n)^j )^k         *)
(* z is a symbol no grammar knows.                                         *)
(* And five families of grammars of any size n, with inputs p = <<i, j, 0>>*)
(*   wide   1: S1 -> X   1+q: X -> tq                             ti z^j   *)
(*   body   1: S1 -> X   2: X -> t1 .. tn                   t1 .. ti z^j   *)
(*   chain  1: S1 -> A1   1+q: Aq -> A(q+1)   1+n: An -> t1    t1^i z^j    *)
(*   rules  1: S1 -> A1   1+q: Aq -> tq A(q+1)   1+n: An -> tn             *)
(*                                                          t1 .. ti z^j   *)
(*   peel   1: S1 -> A1   1+q: Aq -> A(q+1) tq   1+n: An -> tn             *)
(*                                                    the first i of tn .. t1, then z^j *)
(* MCLong checks these answers against the driver for small parameters;    *)
(* ConfLong holds the code to them for long inputs.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Sized == {"wide", "body", "chain", "rules", "peel"}
TN(q) == "t" \o ToString(q)
AN(q) == "A" \o ToString(q)
Grow(fam, n) ==
  LET one(l, r) == [l |-> l, r |-> r] IN
  CASE fam = "wide" -> <<one("S1", <<"X">>)>> \o [q \in 1..n |-> one("X", <<TN(q)>>)]
    [] fam = "body" -> <<one("S1", <<"X">>), one("X", [q \in 1..n |-> TN(q)])>>
    [] fam = "chain" -> <<one("S1", <<AN(1)>>)>> \o [q \in 1..n |-> one(AN(q), <<IF q = n THEN TN(1) ELSE AN(q + 1)>>)]
    [] fam = "rules" -> <<one("S1", <<AN(1)>>)>> \o [q \in 1..n |-> one(AN(q), IF q = n THEN <<TN(n)>> ELSE <<TN(q), AN(q + 1)>>)]
    [] OTHER -> <<one("S1", <<AN(1)>>)>> \o [q \in 1..n |-> one(AN(q), IF q = n THEN <<TN(n)>> ELSE <<AN(q + 1), TN(q)>>)]
RECURSIVE Times(_, _)
Times(w, k) == IF k = 0 THEN <<>> ELSE w \o Times(w, k - 1)
\* the longest sentence there is, and the input
Full(fam, n, i) ==
  CASE fam = "wide" -> <<TN(Max2(i, 1))>>
    [] fam = "chain" -> <<TN(1)>>
    [] fam = "peel" -> [q \in 1..n |-> TN(n + 1 - q)]
    [] OTHER -> [q \in 1..n |-> TN(q)]
Input(fam, n, p) ==
  CASE fam = "nest" -> Times(<<"a">>, p[1]) \o Times(<<"c">>, p[2]) \o Times(<<"b">>, p[3])
    [] fam \in {"left", "right"} -> Times(<<"a">>, p[1]) \o Times(<<"z">>, p[2])
    [] fam = "list" -> Times(<<"(">>, p[1]) \o <<"n">> \o Times(<<"+", "n">>, p[2]) \o Times(<<")">>, p[3])
    [] fam = "chain" -> Times(<<TN(1)>>, p[1]) \o Times(<<"z">>, p[2])
    [] fam = "wide" -> (IF p[1] = 0 THEN <<>> ELSE <<TN(p[1])>>) \o Times(<<"z">>, p[2])
    [] OTHER -> SubSeq(Full(fam, n, p[1]), 1, p[1]) \o Times(<<"z">>, p[2])

\* what is read of the input, and what comes then: "" when it is accepted
Outcome(fam, n, p) ==
  LET i == p[1] j == p[2] k == p[3] IN
  CASE fam = "nest" ->
         IF j = 0 THEN <<i, IF k > 0 THEN "b" ELSE "$">>
         ELSE IF j > 1 THEN <<i + 1, "c">>
         ELSE IF k < i THEN <<i + 1 + k, "$">> ELSE IF k > i THEN <<i + 1 + i, "b">> ELSE <<i + 1 + k, "">>
    [] fam \in {"right", "left"} -> IF j > 0 THEN <<i, "z">> ELSE IF i = 0 THEN <<0, "$">> ELSE <<i, "">>
    [] fam = "list" -> IF k < i THEN <<i + 1 + 2 * j + k, "$">> ELSE IF k > i THEN <<i + 1 + 2 * j + i, ")">> ELSE <<i + 1 + 2 * j + k, "">>
    [] OTHER ->
         LET m == IF fam \in {"wide", "chain"} THEN 1 ELSE n                  \* tokens of a sentence
             h == IF fam = "wide" /\ i > 1 THEN 1 ELSE i IN                   \* tokens there are
         IF h > m THEN <<m, TN(1)>>
         ELSE IF j > 0 THEN <<h, "z">> ELSE IF h < m THEN <<h, "$">> ELSE <<m, "">>
\* for the sized families: the tokens that may come where the reading stops
Next_(fam, n, p) ==
  LET i == p[1] f == Full(fam, n, i) IN
  IF fam = "wide" /\ i = 0 THEN {TN(q) : q \in 1..n}
  ELSE IF (fam = "wide" /\ i > 0) \/ i >= Len(f) THEN {"$"} ELSE {f[i + 1]}
Length(fam, n, p) ==
  CASE fam = "list" -> p[1] + 1 + 2 * p[2] + p[3]
    [] fam = "wide" -> (IF p[1] = 0 THEN 0 ELSE 1) + p[2]
    [] OTHER -> p[1] + p[2] + p[3]
\* of an accepted input: how often each alternative is reduced by
Calls(fam, n, p) ==
  LET i == p[1] j == p[2] IN
  CASE fam = "nest" -> <<0, i, 1>>
    [] fam \in {"right", "left"} -> <<0, i - 1, 1, i>>
    [] fam = "list" -> <<0, j, i + 1, j + 1, i>>
    [] fam = "wide" -> [q \in 1..(n + 1) |-> IF q = i + 1 THEN 1 ELSE 0]
    [] fam = "body" -> <<0, 1>>
    [] OTHER -> [q \in 1..(n + 1) |-> IF q = 1 THEN 0 ELSE 1]
\* the most symbols the stack ever holds
Tallest(fam, n, p) ==
  LET i == p[1] j == p[2] IN
  CASE fam = "nest" -> IF i = 0 THEN 1 ELSE i + 2
    [] fam = "right" -> i
    [] fam = "left" -> IF i = 1 THEN 1 ELSE 2
    [] fam = "list" -> i + (IF j > 0 THEN 3 ELSE IF i > 0 THEN 2 ELSE 1)
    [] fam \in {"wide", "chain"} -> 1
    [] fam = "peel" -> IF n = 1 THEN 1 ELSE 2
    [] OTHER -> n

\* the tables of the sized families, the same for all three constructions
Sizes(fam, n) ==       \* rows, shifts, gotos, reductions, acceptances, conflicts
  CASE fam = "wide" -> <<n + 2, n, 1, n, 1, 0>>
    [] fam = "body" -> <<n + 2, n, 1, 1, 1, 0>>
    [] fam = "chain" -> <<n + 2, 1, n, n, 1, 0>>
    [] OTHER -> <<2 * n + 1, n, n, n, 1, 0>>
FirstOf(fam, n, x) ==
  LET q == CHOOSE y \in 1..(n + 1) : x = "S1" \/ y = n + 1 \/ x = AN(y) IN
  CASE fam = "wide" -> {TN(y) : y \in 1..n}
    [] fam = "peel" -> {TN(n)}
    [] fam = "rules" -> {TN(IF x = "S1" THEN 1 ELSE q)}
    [] OTHER -> {TN(1)}
FollowOf(fam, n, x) ==
  IF fam # "peel" \/ x \in {"S1", "A1"} THEN {"$"}
  ELSE LET q == CHOOSE y \in 2..n : x = AN(y) IN {TN(q - 1)}
=============================================================================
