---------------------------- MODULE ConfExpand ----------------------------
(***************************************************************************)
(* W03, W04, W05, W07: what was generated from a file, run: the rules as   *)
(* the generated expression builds them, and every reductor called on as   *)
(* many tokens as its alternative has (token j being the bytes             *)
(* 10j-7..10j-3, and worth j).                                             *)
(*   n: file   P: what the specification reads in it   r: its rule         *)
(* declarations, one after another   sp: the current one's alternatives as *)
(* specified   a: the alternative looked at                                *)
(***************************************************************************)
EXTENDS WopExpand, Impl

VARIABLES n, P, r, a, sp
vars == <<n, P, r, a, sp>>

D == Data[n]
T == D.T
Wrong == Contradictions(T, P)
Built == Answered(D.built) /\ D.built.ok
Ok == Built /\ Answered(D.exp)
C(clause, cond, detail) == Claim(D.id, clause, cond, <<IF r > 0 THEN Name(T, P[r].name) ELSE "file", a, detail>>)

RECURSIVE NextRule(_)
NextRule(d) == IF d > Len(P) THEN 0 ELSE IF P[d].k = "rule" THEN d ELSE NextRule(d + 1)

Init == /\ n \in 1..Len(Data)
        /\ P = TLCEval(Read(Data[n].T).v)
        /\ r = 0 /\ a = 0
        /\ sp = <<>>
Next == /\ n' = n /\ P' = P
        /\ P # <<>> /\ Ok
        /\ \/ a < Len(sp) /\ a' = a + 1 /\ r' = r /\ sp' = sp
           \/ a = Len(sp) /\ LET d == NextRule(r + 1) IN
                /\ d > 0
                /\ r' = d /\ a' = 0 /\ sp' = TLCEval(Expanded(T, P, d))
Spec == Init /\ [][Next]_vars

\* --- the file as a whole
Compiles == (r = 0 /\ P # <<>> /\ Wrong = {}) =>
  C("generated", Built => Answered(D.exp), Bad(D.exp))
\* W07
Refusals == (r = 0 /\ P # <<>>) =>
  /\ C("contradiction-accepted", Wrong # {} => ~Built, Wrong)
  /\ C("refused-without-contradiction", Wrong = {} => Answered(D.built), Bad(D.built))
RuleSet == (r = 0 /\ P # <<>> /\ Ok /\ Wrong = {}) =>
  LET ns == {Name(T, P[d].name) : d \in Rules(T, P)} IN
  /\ C("rules", {D.exp.rules[x].key : x \in 1..Len(D.exp.rules)} = ns, <<D.exp.rules, ns>>)
  /\ C("rule-names", \A x \in 1..Len(D.exp.rules) : D.exp.rules[x].name = D.exp.rules[x].key, "a rule kept under another name")
  /\ C("reductors", RangeOf(D.exp.redkeys) = ns, D.exp.redkeys)

\* --- the rule at hand
Mine == LET X == {x \in 1..Len(D.exp.rules) : D.exp.rules[x].key = Name(T, P[r].name)} IN
        IF X = {} THEN [alts |-> <<>>, fns |-> 0] ELSE D.exp.rules[CHOOSE x \in X : TRUE]
At == Mine.alts[a]
On == r > 0 /\ a > 0 /\ a <= Len(Mine.alts)
Run == On /\ Answered(At)

\* W03
Count == (r > 0 /\ a = 0) => C("alternatives", Len(Mine.alts) = Len(sp), <<[x \in 1..Len(Mine.alts) |-> Mine.alts[x].body], [x \in 1..Len(sp) |-> sp[x].b]>>)
Bodies == On => C("body", At.body = sp[a].b, <<At.body, sp[a].b>>)
Blocks == Run => C("block", At.block = sp[a].block, <<At.block, sp[a].block>>)
\* W05
OneToOne == (r > 0 /\ a = 0) => C("one-to-one", Mine.fns = Len(Mine.alts), <<Mine.fns, Len(Mine.alts)>>)
Calls == On => C("call", Answered(At), Bad(At))
Given == Run => C("tokens", [x \in 1..Len(At.kids) |-> At.kids[x].leaf] = [x \in 1..Len(sp[a].b) |-> x], At.kids)
Spans == Run => C("span", At.s = 3 /\ At.e = 10 * (Len(sp[a].b) - 1) + 7, <<At.s, At.e>>)
\* W04
Seen(l) == {x \in 1..Len(At.labels) : At.labels[x].n = l.n}
What(l) == LET B == {m \in sp[a].L : m.n = l.n} IN
           IF B = {} THEN <<>>
           ELSE LET m == CHOOSE m \in B : TRUE IN
                [x \in 1..(m.hi - m.lo + 1) |-> <<10 * (m.lo + x - 2) + 3, 10 * (m.lo + x - 2) + 7, sp[a].b[m.lo + x - 1]>>]
Bound == (Run /\ At.body = sp[a].b /\ At.block = sp[a].block /\ ~Puzzling(sp[a])) =>
  /\ C("labels", {At.labels[x].n : x \in 1..Len(At.labels)} = {l.n : l \in sp[a].labels}, At.labels)
  /\ \A l \in sp[a].labels : \A x \in Seen(l) :
       LET m == At.labels[x]
           some == \E b \in sp[a].L : b.n = l.n
       IN /\ C("label-kind", m.opt = l.opt /\ m.own = l.own /\ m.run = l.run, <<m, l>>)
          /\ C("label-present", m.some = some, <<m, l, sp[a].L>>)
          /\ C("label-value", some => m.at = What(l), <<m, What(l)>>)
          /\ C("label-absent", ~some => m.at = <<>>, m)
=============================================================================
