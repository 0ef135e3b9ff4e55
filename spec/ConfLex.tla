------------------------------ MODULE ConfLex ------------------------------
(***************************************************************************)
(* W01: the tokens the lexer gave for a text, followed lexeme by lexeme.   *)
(*   n: text   i: position in it   b: the same in bytes   j: next token    *)
(*   h: the lexeme there                                                   *)
(* Where nothing matches, the code has to say Error there; how much text   *)
(* an error takes with it is its own business.                             *)
(***************************************************************************)
EXTENDS WopLex, Impl

VARIABLES n, i, b, j, h
vars == <<n, i, b, j, h>>

Tx == Data[n].text
O == Data[n].lex
Ok == Answered(O)
Tok == O.toks[j]
C(clause, cond, detail) == Claim(Data[n].id, clause, cond, <<Data[n].src, "token", j, "position", i, detail>>)

RECURSIVE Bytes(_, _, _)
Bytes(t, x, y) == IF x >= y THEN 0 ELSE t[x].n + Bytes(t, x + 1, y)
\* the position k bytes further
RECURSIVE Forward(_, _, _)
Forward(t, x, k) == IF k = 0 THEN x ELSE IF x > Len(t) \/ t[x].n > k THEN 0 ELSE Forward(t, x + 1, k - t[x].n)

Init == /\ n \in 1..Len(Data)
        /\ j = 1
        /\ i = Skip(Tx, 1)
        /\ b = Bytes(Tx, 1, i)
        /\ h = TLCEval(Lexeme(Tx, i))
Here == h
Extent == Tok[2] = b /\ Tok[3] = b + Bytes(Tx, i, Here.e)
\* known: a keyword right before a character of several bytes that is in no token is given as an identifier
Keyword == Here.k \in {"AliasWord", "UseWord"} /\ Here.e <= Len(Tx) /\ Tx[Here.e].n > 1 /\ Tok[1] = "Ident" /\ Extent
Right == (Tok[1] = Here.k /\ Extent) \/ Keyword
Wrong == Here.k = "none" /\ Tok[1] = "Error" /\ Tok[2] = b /\ Tok[3] > b /\ Forward(Tx, i, Tok[3] - b) > 0
Next == /\ Ok
        /\ i <= Len(Tx)
        /\ j <= Len(O.toks)
        /\ Right \/ Wrong
        /\ LET e == IF Right THEN Here.e ELSE Forward(Tx, i, Tok[3] - b)
               k == Skip(Tx, e)
           IN /\ i' = k
              /\ b' = b + Bytes(Tx, i, k)
              /\ h' = TLCEval(Lexeme(Tx, k))
        /\ j' = j + 1
        /\ n' = n
Spec == Init /\ [][Next]_vars

Answers == C("answered", Ok, Bad(O))
\* every lexeme has its token, and the other way round
AllThere == Ok => /\ C("missing", j <= Len(O.toks) \/ i > Len(Tx), "no token for the rest of the text")
                  /\ C("surplus", i <= Len(Tx) \/ j > Len(O.toks), "tokens after the end of the text")
Kinds_ == (Ok /\ i <= Len(Tx) /\ j <= Len(O.toks)) =>
  /\ C("start", Tok[2] = b, <<Tok, "expected to start at", b>>)
  /\ Here.k = "none" => C("error", Wrong, Tok)
  /\ Here.k # "none" => /\ C("keyword-before-stray-character", ~Keyword, <<Tok, Here.k>>)
                        /\ C("kind", Tok[1] = Here.k \/ Keyword, <<Tok, Here.k>>)
                        /\ C("extent", Tok[3] = b + Bytes(Tx, i, Here.e), <<Tok, "expected to end at", b + Bytes(Tx, i, Here.e)>>)
\* the token's value is its own kind
Values == (Ok /\ j <= Len(O.toks)) => C("value", Tok[4], Tok)
=============================================================================
