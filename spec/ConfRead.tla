------------------------------ MODULE ConfRead ------------------------------
(***************************************************************************)
(* W02: what the front end made of a sequence of tokens.  n: file, k: one  *)
(* of its token sequences (the file's own, or an edited one).              *)
(***************************************************************************)
EXTENDS WopRead, Impl

VARIABLES n, k
vars == <<n, k>>
R == Data[n].reads[k]
T == R.T
C(clause, cond, detail) == Claim(Data[n].id \o "/" \o ToString(k), clause, cond, detail)

Init == n \in 1..Len(Data) /\ k = 0
Next == k < Len(Data[n].reads) /\ k' = k + 1 /\ n' = n
Spec == Init /\ [][Next]_vars

On == k > 0
Ok == On /\ Answered(R)
S == Read(T)
Answers == On => C("answered", Answered(R), Bad(R))
Verdict == Ok => C("verdict", R.ok <=> S.ok, <<"front end", R.ok, "specification", S.ok, [x \in 1..Len(T) |-> T[x].x]>>)
Faithful == (Ok /\ R.ok /\ S.ok) =>
  /\ C("declarations", Len(R.prog) = Len(S.v), <<Len(R.prog), Len(S.v)>>)
  /\ \A d \in 1..Len(S.v) : d <= Len(R.prog) => C("declaration", R.prog[d] = S.v[d], <<"read", R.prog[d], "written", S.v[d]>>)

\* the recursive descent against the plain grammar of grammar files, by Earley
P(l, r) == [l |-> l, r |-> r, i |-> 0]
FileGrammar == Grammar(
  [start |-> "File", eof |-> "Eof", nts |-> <<"File", "Prog", "Decl", "Path", "Rule", "Alt", "Items", "Item", "Atom">>,
   prods |-> <<P("File", <<"Prog">>), P("Prog", <<"Decl", "Sc">>), P("Prog", <<"Prog", "Decl", "Sc">>),
     P("Decl", <<"UseWord", "Path">>), P("Decl", <<"UseWord", "Path", "PathAccess", "Glob">>),
     P("Decl", <<"AliasWord", "Ident", "Path">>), P("Decl", <<"AliasWord", "StrLit", "Path">>),
     P("Decl", <<"Path", "TwoDots", "Path", "Assign", "Rule">>),
     P("Path", <<"Ident">>), P("Path", <<"Path", "PathAccess", "Ident">>),
     P("Rule", <<"Alt">>), P("Rule", <<"Rule", "Pipe", "Alt">>), P("Alt", <<"Items">>), P("Alt", <<"Items", "CodeBlock">>),
     P("Items", <<"Item">>), P("Items", <<"Items", "Item">>),
     P("Item", <<"Atom">>), P("Item", <<"Atom", "Optional">>),
     P("Item", <<"Atom", "TwoDots", "Ident">>), P("Item", <<"Atom", "TwoDots", "Clone", "Ident">>),
     P("Item", <<"Atom", "Optional", "TwoDots", "Ident">>), P("Item", <<"Atom", "Optional", "TwoDots", "Clone", "Ident">>),
     P("Atom", <<"Path">>), P("Atom", <<"StrLit">>), P("Atom", <<"OpenParen", "Rule", "CloseParen">>)>>])
TwoViews == (On /\ Len(T) <= 60 /\ \A x \in 1..Len(T) : T[x].k # "Eof") =>
  C("specification", S.ok <=> InLanguage(FileGrammar, [x \in 1..Len(T) |-> T[x].k]), "descent and Earley disagree")
=============================================================================
