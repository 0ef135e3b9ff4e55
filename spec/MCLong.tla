------------------------------- MODULE MCLong -------------------------------
(***************************************************************************)
(* The answers of Families, for small parameters, against the driver over  *)
(* all three automata.   Data: [fam, n, g]                                 *)
(***************************************************************************)
EXTENDS Driver, Families, Json, IOUtils
CONSTANT Most
Data == TLCEval(ndJsonDeserialize(IOEnv.DATA))

VARIABLES n, kind, p, c, calls, high
vars == <<n, kind, p, c, calls, high>>
Tab == TLCGet(1)[n]
G == Tab.G
Fam == Data[n].fam
Size == Data[n].n
Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> LET H == TLCEval(Grammar(Data[x].g)) IN
                       [G |-> H, rows |-> TLCEval([k \in {"clr", "lalr", "slr"} |-> Rows(H, k, Automaton(H, k))])]]))
        /\ n \in 1..Len(Data) /\ kind \in {"clr", "lalr", "slr"}
        /\ p \in (0..Most) \X (0..Most) \X (0..Most)
        /\ Data[n].fam \notin {"nest", "list"} => p[3] = 0
        /\ Data[n].fam \in Sized \ {"chain"} => p[1] <= Data[n].n
        /\ c = Start /\ calls = [x \in 1..Len(Data[n].g.prods) |-> 0] /\ high = 0
Next == /\ c.out = "run" /\ UNCHANGED <<n, kind, p>>
        /\ c' = TLCEval(Step(G, Tab.rows[kind], Input(Fam, Size, p), c, FALSE, ""))
        /\ calls' = IF c'.call = <<>> THEN calls ELSE [calls EXCEPT ![c'.call[1]] = @ + 1]
        /\ high' = Max2(high, Len(c'.sy))
Spec == Init /\ [][Next]_vars

NoConflicts == ConflictCells(Tab.rows[kind]) = {}
Told == c.out # "run" =>
  LET o == Outcome(Fam, Size, p) IN
  /\ c.pos = o[1]
  /\ c.out = IF o[2] = "" THEN "ok" ELSE "tok"
  /\ o[2] # "" => LookAhead(G, Input(Fam, Size, p), c) = o[2]
  /\ o[2] = "" => c.pos = Length(Fam, Size, p) /\ calls = Calls(Fam, Size, p) /\ high = Tallest(Fam, Size, p)
\* the grammars are those described, and so are their tables
Described == Fam \in Sized =>
  /\ [q \in DOMAIN Data[n].g.prods |-> [l |-> Data[n].g.prods[q].l, r |-> Data[n].g.prods[q].r]] = Grow(Fam, Size)
  /\ LET R == Tab.rows[kind]
         cells == UNION {{<<q, x>> : x \in DOMAIN R[q]} : q \in DOMAIN R}
         of(k) == Cardinality({<<c_, a>> \in UNION {{c_} \X R[c_[1]][c_[2]] : c_ \in cells} : a[1] = k}) IN
     <<Len(R), of("s"), of("g"), of("r"), of("a"), Cardinality(ConflictCells(R))>> = Sizes(Fam, Size)
  /\ \A x \in G.nts : G.first[x] = FirstOf(Fam, Size, x) /\ G.follow[x] = FollowOf(Fam, Size, x)
AllowedNext == (Fam \in Sized /\ c.out = "tok") => Expected(G, Tab.rows[kind], c) = Next_(Fam, Size, p)
=============================================================================
