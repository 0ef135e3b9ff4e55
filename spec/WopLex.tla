------------------------------ MODULE WopLex ------------------------------
(***************************************************************************)
(* The lexical structure of grammar files.  A text is a sequence of        *)
(* characters [c, n, w]: the character, its length in bytes, and whether   *)
(* it may continue an identifier.                                          *)
(* At a position one lexeme is matched: blanks, a comment, or a token.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ch(t, i) == IF i <= Len(t) THEN t[i].c ELSE ""
Two(t, i) == Ch(t, i) \o Ch(t, i + 1)

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Starts == Lower \cup Upper \cup {"_"}
Blank == {" ", "\t", "\n", "\r"}

Continues(t, i) == i <= Len(t) /\ (t[i].c \in Starts \cup Digits \/ t[i].w)

\* each of these gives the position after the match, or 0 when there is none
RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF Continues(t, i) THEN WordEnd(t, i + 1) ELSE i

RECURSIVE BlankEnd(_, _)
BlankEnd(t, i) == IF i <= Len(t) /\ t[i].c \in Blank THEN BlankEnd(t, i + 1) ELSE i

RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i <= Len(t) /\ t[i].c # "\n" THEN LineEnd(t, i + 1) ELSE i

\* the first occurrence of a two-character terminator, from i on
RECURSIVE Until(_, _, _)
Until(t, i, stop) == IF i + 1 > Len(t) THEN 0 ELSE IF Two(t, i) = stop THEN i + 2 ELSE Until(t, i + 1, stop)

\* inside a string: a backslash takes the next character along, which is not the end of the line
RECURSIVE StrEnd(_, _)
StrEnd(t, i) ==
  IF i > Len(t) THEN 0
  ELSE IF t[i].c = "\"" THEN i + 1
  ELSE IF t[i].c = "\\" THEN (IF i + 1 > Len(t) \/ Ch(t, i + 1) = "\n" THEN 0 ELSE StrEnd(t, i + 2))
  ELSE StrEnd(t, i + 1)

RECURSIVE Text(_, _, _)
Text(t, i, j) == IF i >= j THEN "" ELSE t[i].c \o Text(t, i + 1, j)

Marks == ("=" :> "Assign") @@ ("|" :> "Pipe") @@ ("(" :> "OpenParen") @@ (")" :> "CloseParen") @@ (";" :> "Sc")
         @@ ("*" :> "Glob") @@ ("?" :> "Optional") @@ ("&" :> "Clone")

\* the lexeme at i: [k: kind ("skip", "none" or the token's), e: position after it]
Lexeme(t, i) ==
  LET c == Ch(t, i)
      L(k, e) == [k |-> IF e = 0 THEN "none" ELSE k, e |-> e]
  IN CASE c \in Blank -> L("skip", BlankEnd(t, i))
       [] Two(t, i) = "//" -> L("skip", LineEnd(t, i))
       [] Two(t, i) = "/*" -> L("skip", Until(t, i + 2, "*/"))
       [] Two(t, i) = "->" -> L("CodeBlock", Until(t, i + 2, "}%"))
       [] Two(t, i) = "::" -> L("PathAccess", i + 2)
       [] c = ":" /\ Two(t, i) # "::" -> L("TwoDots", i + 1)
       [] c = "\"" -> L("StrLit", StrEnd(t, i + 1))
       [] c \in DOMAIN Marks -> L(Marks[c], i + 1)
       [] c \in Starts -> LET e == WordEnd(t, i) IN
                          LET x == Text(t, i, e) IN
                          L(IF x = "alias" THEN "AliasWord" ELSE IF x = "use" THEN "UseWord" ELSE "Ident", e)
       [] OTHER -> L("none", 0)

\* the next thing that is no blank and no comment
RECURSIVE Skip(_, _)
Skip(t, i) == LET l == Lexeme(t, i) IN IF i <= Len(t) /\ l.k = "skip" THEN Skip(t, l.e) ELSE i
=============================================================================
