------------------------------ MODULE WopRead ------------------------------
(***************************************************************************)
(* The structure of grammar files: a recursive descent over tokens         *)
(* [k: kind, s, e: where in the text, x: the text, v: its value].          *)
(*   Program: (Decl ";")+        Decl: use | alias | rule                  *)
(* Each reader gives [ok, i, v]: whether it could read, the position after *)
(* it, and what it read.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Kd(T, i) == IF i >= 1 /\ i <= Len(T) THEN T[i].k ELSE "Eof"
No == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Yes(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
Ext(T, i, j) == <<T[i].s, T[j].e>>          \* the text of tokens i..j

\* identifiers joined by "::"
RECURSIVE PathEnd(_, _)
PathEnd(T, i) == IF Kd(T, i) = "PathAccess" /\ Kd(T, i + 1) = "Ident" THEN PathEnd(T, i + 2) ELSE i
RPath(T, i) == IF Kd(T, i) # "Ident" THEN No ELSE LET e == PathEnd(T, i + 1) IN Yes(e, Ext(T, i, e - 1))

\* what may follow an item: "?", then ":" with an optional "&" and an identifier
Suffix(T, i) ==
  LET o == Kd(T, i) = "Optional"
      a == IF o THEN i + 1 ELSE i
      l == Kd(T, a) = "TwoDots"
      c == l /\ Kd(T, a + 1) = "Clone"
      at == IF c THEN a + 2 ELSE a + 1
  IN IF ~l THEN Yes(a, [opt |-> o, label |-> <<>>, cl |-> FALSE])
     ELSE IF Kd(T, at) # "Ident" THEN No
     ELSE Yes(at + 1, [opt |-> o, label |-> Ext(T, at, at), cl |-> c])

RECURSIVE RItem(_, _)
RECURSIVE RItems(_, _)
RECURSIVE RRule(_, _)
RItem(T, i) ==
  LET p == RPath(T, i)
      r == IF Kd(T, i) = "OpenParen" THEN RRule(T, i + 1) ELSE No
      base == CASE Kd(T, i) = "Ident" -> Yes(p.i, [k |-> "id", at |-> p.v, alts |-> <<>>])
                [] Kd(T, i) = "StrLit" -> Yes(i + 1, [k |-> "lit", at |-> Ext(T, i, i), alts |-> <<>>])
                [] Kd(T, i) = "OpenParen" ->
                     IF r.ok /\ Kd(T, r.i) = "CloseParen" THEN Yes(r.i + 1, [k |-> "grp", at |-> Ext(T, i + 1, r.i - 1), alts |-> r.v]) ELSE No
                [] OTHER -> No
      s == IF base.ok THEN Suffix(T, base.i) ELSE No
  IN IF ~s.ok THEN No ELSE Yes(s.i, [k |-> base.v.k, at |-> base.v.at, alts |-> base.v.alts, all |-> Ext(T, i, s.i - 1),
                                     opt |-> s.v.opt, label |-> s.v.label, cl |-> s.v.cl])
\* one or more items
RItems(T, i) ==
  LET a == RItem(T, i) IN
  IF ~a.ok THEN No
  ELSE IF Kd(T, a.i) \in {"Ident", "StrLit", "OpenParen"}
       THEN LET b == RItems(T, a.i) IN IF b.ok THEN Yes(b.i, <<a.v>> \o b.v) ELSE No
       ELSE Yes(a.i, <<a.v>>)
RAlt(T, i) ==
  LET a == RItems(T, i) IN
  IF ~a.ok THEN No
  ELSE IF Kd(T, a.i) = "CodeBlock" THEN Yes(a.i + 1, [items |-> a.v, code |-> Ext(T, a.i, a.i)])
  ELSE Yes(a.i, [items |-> a.v, code |-> <<0, 0>>])
RRule(T, i) ==
  LET a == RAlt(T, i) IN
  IF ~a.ok THEN No
  ELSE IF Kd(T, a.i) = "Pipe" THEN LET b == RRule(T, a.i + 1) IN IF b.ok THEN Yes(b.i, <<a.v>> \o b.v) ELSE No
  ELSE Yes(a.i, <<a.v>>)

RDecl(T, i) ==
  LET k == Kd(T, i) IN
  CASE k = "UseWord" ->
         LET p == RPath(T, i + 1) IN
         IF ~p.ok THEN No
         ELSE LET e == IF Kd(T, p.i) = "PathAccess" /\ Kd(T, p.i + 1) = "Glob" THEN p.i + 2 ELSE p.i IN
              Yes(e, [k |-> "use", all |-> Ext(T, i, e - 1), path |-> Ext(T, i + 1, e - 1)])
    [] k = "AliasWord" ->
         LET p == RPath(T, i + 2) IN
         IF Kd(T, i + 1) \notin {"Ident", "StrLit"} \/ ~p.ok THEN No
         ELSE Yes(p.i, [k |-> "alias", all |-> Ext(T, i, p.i - 1), tk |-> Ext(T, i + 1, i + 1), to |-> p.v])
    [] k = "Ident" ->
         LET p == RPath(T, i)
             t == IF Kd(T, p.i) = "TwoDots" THEN RPath(T, p.i + 1) ELSE No
             r == IF t.ok /\ Kd(T, t.i) = "Assign" THEN RRule(T, t.i + 1) ELSE No
         IN IF ~r.ok THEN No
            ELSE Yes(r.i, [k |-> "rule", all |-> Ext(T, i, r.i - 1), name |-> p.v, ty |-> t.v, alts |-> r.v])
    [] OTHER -> No

RECURSIVE RProgram(_, _)
RProgram(T, i) ==
  LET d == RDecl(T, i) IN
  IF ~d.ok \/ Kd(T, d.i) # "Sc" THEN No
  ELSE IF d.i = Len(T) THEN Yes(d.i + 1, <<d.v>>)
  ELSE LET b == RProgram(T, d.i + 1) IN IF b.ok THEN Yes(b.i, <<d.v>> \o b.v) ELSE No

Read(T) == RProgram(T, 1)
=============================================================================
