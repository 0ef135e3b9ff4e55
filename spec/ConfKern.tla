------------------------------ MODULE ConfKern ------------------------------
(***************************************************************************)
(* C13: looking states up by kernel.  Every (state, symbol) of every table *)
(* is one step of the walk; what the lookup says must be what the table    *)
(* does.                                                                   *)
(***************************************************************************)
EXTENDS Impl

VARIABLES n, t, i           \* case, table, state (0: the table as a whole)
vars == <<n, t, i>>
G == TLCGet(1)
T == Data[n].kerns[t]
Ok == Answered(T)
Id == Data[n].id \o "/" \o T.kind
C(clause, cond, detail) == Claim(Id, clause, cond, detail)

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> Grammar(Data[x].g)]))
        /\ n \in 1..Len(Data) /\ t \in 1..Len(Data[n].kerns) /\ i = 0
Next == Ok /\ i < Len(T.items) /\ i' = i + 1 /\ UNCHANGED <<n, t>>
Spec == Init /\ [][Next]_vars

Row == ImplRow(T.rows[i])
Targets(cell) == {x[2] : x \in {y \in cell : y[1] \in {"s", "g"}}}
Looks == {q \in 1..Len(T.look) : T.look[q][1] = i}
State(x) == ImplItems(T.items[x])
Cores(x) == ImplCores(T.items[x])
\* the kernel a state has after X, worked out from its items
Adv(X) == {<<it[1], it[2] + 1>> : it \in {c \in Cores(i) : ~Done(G[n], c[1], c[2]) /\ After(G[n], c[1], c[2]) = X}}
AdvL(X) == {<<it[1], it[2] + 1, it[3]>> : it \in {c \in State(i) : ~Done(G[n], c[1], c[2]) /\ After(G[n], c[1], c[2]) = X}}

Answers == i = 0 => C("answered", Ok, Bad(T))
\* every symbol some item waits for was looked up
AllSymbols == i > 0 => C("all", {T.look[q][2] : q \in Looks} = {X \in G[n].syms : Adv(X) # {}}, i)
\* the lookup gives the state the table's transition leads to
Agrees == i > 0 => \A q \in Looks :
  LET X == T.look[q][2] to == T.look[q][3] IN
  /\ C("advance", ImplCores(T.look[q][4]) = Adv(X) /\ ImplItems(T.look[q][4]) = AdvL(X), <<i, X, T.look[q][4]>>)
  /\ C("found", to # 0, <<i, X>>)
  /\ to # 0 => C("transition", X \in DOMAIN Row /\ Targets(Row[X]) = {to}, <<i, X, to, IF X \in DOMAIN Row THEN Row[X] ELSE {}>>)
\* ... whose items include the kernel, with at least its lookaheads
Included == i > 0 => \A q \in Looks :
  LET to == T.look[q][3] IN
  to \in 1..Len(T.items) => C("contains", ImplCores(T.look[q][4]) \subseteq Cores(to) /\ ImplItems(T.look[q][4]) \subseteq State(to),
                              <<i, T.look[q][2], to>>)
\* the kernel on record for it is the recorded one of that state
Final == i > 0 => \A q \in Looks :
  LET to == T.look[q][3]
      fk == T.look[q][5]
  IN to # 0 => C("final", \E r \in 1..Len(T.kernels) : T.kernels[r][2] = to /\ ImplItems(T.kernels[r][1]) = ImplItems(fk)
                                             /\ ImplCores(T.kernels[r][1]) = ImplCores(fk), <<i, T.look[q][2], to, fk>>)
\* and every transition can be looked up
Covered == i > 0 => \A X \in {Y \in DOMAIN Row : Targets(Row[Y]) # {}} :
  C("covered", \E q \in Looks : T.look[q][2] = X, <<i, X>>)
\* kernels nobody has are not found.  (LALR finds a state by its core.)
KernelSet == {<<ImplItems(T.kernels[r][1]), ImplCores(T.kernels[r][1])>> : r \in 1..Len(T.kernels)}
CoreSet == {x[2] : x \in KernelSet}
Missing == (i = 0 /\ Ok) => \A q \in 1..Len(T.miss) :
  LET it == T.miss[q][1]
      has == IF T.kind = "lalr" THEN ImplCores(it) \in CoreSet ELSE <<ImplItems(it), ImplCores(it)>> \in KernelSet
  IN ~has => C("missing", T.miss[q][2] = 0, T.miss[q])
\* one kernel for each state but the initial one
OneEach == (i = 0 /\ Ok) =>
  /\ C("onto", {T.kernels[r][2] : r \in 1..Len(T.kernels)} \cup {1} = 1..Len(T.items), [r \in 1..Len(T.kernels) |-> T.kernels[r][2]])
  /\ \A s \in 2..Len(T.items) : C("one", Cardinality({r \in 1..Len(T.kernels) : T.kernels[r][2] = s}) = 1, s)
  /\ \A r \in 1..Len(T.kernels) : T.kernels[r][2] # 1 =>
        C("own", ImplCores(T.kernels[r][1]) \subseteq Cores(T.kernels[r][2]) /\ ImplItems(T.kernels[r][1]) \subseteq State(T.kernels[r][2]), r)
=============================================================================
