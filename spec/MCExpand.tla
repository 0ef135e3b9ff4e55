------------------------------ MODULE MCExpand ------------------------------
(***************************************************************************)
(* Reading and expanding rules, by themselves: every body of up to MaxToks *)
(* tokens is given to the reader of WopRead and the expansion of           *)
(* WopExpand.                                                              *)
(*  - Reading loses nothing: what was read, written down again, is what    *)
(*    was given.                                                           *)
(*  - The expansion denotes the same words as the items do, each word as   *)
(*    often as there are choices that give it, and labels cover what they  *)
(*    are attached to.  The denotation below goes word by word (does this  *)
(*    description give this word, in how many ways?) and so shares nothing *)
(*    with the expansion.                                                  *)
(***************************************************************************)
EXTENDS WopExpand

CONSTANTS MaxToks,
          Labels_,      \* whether labels are among the tokens
          Print_        \* whether to print the bodies read, for replaying (one symbol only)

VARIABLES body, T, R, Ex      \* T: as tokens   R: what was read   Ex: its expansion
vars == <<body, T, R, Ex>>

Alphabet == {<<"Ident", "a">>, <<"OpenParen", "(">>, <<"CloseParen", ")">>, <<"Pipe", "|">>, <<"Optional", "?">>}
            \cup (IF Print_ THEN {} ELSE {<<"Ident", "b">>})
            \cup (IF Labels_ THEN {<<"TwoDots", ":">>} ELSE {})
RuleHead == <<<<"Ident", "r">>, <<"TwoDots", ":">>, <<"Ident", "t">>, <<"Assign", "=">>>>
RuleTail == <<<<"CodeBlock", "{}">>, <<"Sc", ";">>>>
Toks(b) == LET f == RuleHead \o b \o RuleTail
           IN [i \in 1..Len(f) |-> [k |-> f[i][1], x |-> f[i][2], v |-> f[i][2], s |-> 10 * i, e |-> 10 * i + 5]]

Init == body = <<>> /\ T = <<>> /\ R = No /\ Ex = <<>>
\* what can never become a body is not pursued
RECURSIVE Depth(_, _, _)
Depth(b, i, d) == IF d < 0 \/ i > Len(b) THEN d ELSE Depth(b, i + 1, IF b[i][1] = "OpenParen" THEN d + 1 ELSE IF b[i][1] = "CloseParen" THEN d - 1 ELSE d)
Opener == {"Ident", "CloseParen", "Optional"}
Fits(b, t) ==
  LET l == IF b = <<>> THEN "Pipe" ELSE b[Len(b)][1] IN
  CASE t = "Optional" -> IF l = "CloseParen" THEN TRUE ELSE IF l # "Ident" THEN FALSE ELSE IF Len(b) < 2 THEN TRUE ELSE b[Len(b) - 1][1] # "TwoDots"
    [] t \in {"Pipe", "CloseParen"} -> l \in Opener
    [] t = "TwoDots" -> l \in Opener
    [] OTHER -> TRUE
Next == /\ Len(body) < MaxToks
        /\ \E t \in Alphabet : Fits(body, t[1]) /\ body' = Append(body, t)
        /\ Depth(body', 1, 0) >= 0 /\ Depth(body', 1, 0) <= MaxToks - Len(body')
        /\ T' = TLCEval(Toks(body'))
        /\ R' = TLCEval(Read(T'))
        /\ Ex' = IF R'.ok THEN TLCEval(AltChoices(T', <<>>, R'.v[1].alts, 1)) ELSE <<>>
        /\ (IF Print_ /\ R'.ok THEN PrintT("OUT|" \o Joined(T', 1 + Len(RuleHead), 10 * (Len(RuleHead) + Len(body')) + 5)) ELSE TRUE)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* writing down what was read
RECURSIVE WItems(_)
RECURSIVE WAlts(_)
WItem(it) ==
  (IF it.k = "grp" THEN <<"(">> \o WAlts(it.alts) \o <<")">> ELSE <<T[First_(T, it.at)].x>>)
  \o (IF it.opt THEN <<"?">> ELSE <<>>)
  \o (IF it.label = <<>> THEN <<>> ELSE <<":", Name(T, it.label)>>)
WItems(its) == IF its = <<>> THEN <<>> ELSE WItem(its[1]) \o WItems(Tail(its))
WAlts(as) == WItems(as[1].items) \o (IF Len(as) = 1 THEN <<>> ELSE <<"|">> \o WAlts(Tail(as)))
Alts0 == R.v[1].alts
RoundTrip == R.ok => WAlts(Alts0) = [i \in 1..Len(body) |-> body[i][2]]

-----------------------------------------------------------------------------
\* in how many ways do the items give w?
RECURSIVE WaysItem(_, _)
RECURSIVE WaysSeq(_, _)
RECURSIVE WaysAlts(_, _)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k < 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
WaysItem(it, w) ==
  (IF it.k = "grp" THEN WaysAlts(it.alts, w) ELSE IF w = <<T[First_(T, it.at)].x>> THEN 1 ELSE 0)
  + (IF it.opt /\ w = <<>> THEN 1 ELSE 0)
WaysSeq(its, w) ==
  IF its = <<>> THEN (IF w = <<>> THEN 1 ELSE 0)
  ELSE SumTo([k \in 0..Len(w) |-> LET a == WaysItem(its[1], SubSeq(w, 1, k)) IN
                                 IF a = 0 THEN 0 ELSE a * WaysSeq(Tail(its), SubSeq(w, k + 1, Len(w)))], Len(w))
WaysAlts(as, w) == IF as = <<>> THEN 0 ELSE WaysSeq(as[1].items, w) + WaysAlts(Tail(as), w)

Idents == Cardinality({i \in 1..Len(body) : body[i][1] = "Ident"})
Words == UNION {[1..k -> {"a", "b"}] : k \in 0..IF Idents > 4 THEN 4 ELSE Idents}
Denotes == R.ok =>
  \A w \in Words : Cardinality({x \in 1..Len(Ex) : Ex[x].b = w}) = WaysAlts(Alts0, w)
\* present before absent: all that is written comes first; the first alternative first
FirstIsFull == R.ok => LET RECURSIVE Full(_)
                          Full(its) == IF its = <<>> THEN <<>>
                                       ELSE (IF its[1].k = "grp" THEN Full(its[1].alts[1].items) ELSE <<T[First_(T, its[1].at)].x>>) \o Full(Tail(its))
                      IN Ex[1].b = Full(Alts0[1].items)
\* a label covers a part of the alternative; on an item outside groups, the word there is the item's
LabelsFit == (R.ok /\ Labels_) => \A x \in 1..Len(Ex) : \A l \in Ex[x].L : 1 <= l.lo /\ l.hi <= Len(Ex[x].b)
=============================================================================
