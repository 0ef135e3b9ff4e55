------------------------------ MODULE ConfOps ------------------------------
(***************************************************************************)
(* C18, C19: recorded histories of single operations on a driver, over     *)
(* tables of all kinds, checked against Machine.                           *)
(*   n: case   h: history   k: operations taken   m: Machine's state       *)
(*   mc: the table and the input, as they now are                          *)
(*   res, val: what the last one should have given                         *)
(* A run (start) is recorded turn by turn: the situations before each.     *)
(***************************************************************************)
EXTENDS Machine, Impl

VARIABLES n, h, k, m, mc, res, val
vars == <<n, h, k, m, mc, res, val>>

Row(r) == [X \in {r[x][1] : x \in 1..Len(r)} |-> r[CHOOSE x \in 1..Len(r) : r[x][1] = X][2]]
M0 == TLCGet(1)[n]
H == Data[n].hists[h]
Ok == Answered(H)
Op == H.ops[k]

Init == /\ TLCSet(1, TLCEval([x \in 1..Len(Data) |-> TLCEval([Data[x].m EXCEPT !.rows = TLCEval([i \in 1..Len(@) |-> TLCEval(Row(@[i]))])])]))
        /\ n \in 1..Len(Data) /\ h \in 1..Len(Data[n].hists)
        /\ k = 0 /\ m = Made /\ res = Ok_ /\ val = "" /\ mc = [M0 EXCEPT !.w = H.w]

\* a run, following the recorded turns: where it is after the first q of them
RECURSIVE Turns(_, _, _, _)
Turns(MM, x, ev, q) ==
  IF q > Len(ev) THEN [m |-> x, res |-> Ok_, q |-> q, same |-> TRUE]
  ELSE LET t == TLCEval(Turn(MM, x))
           same == ev[q].st = x.st /\ ev[q].it = x.it /\ ev[q].left = SubSeq(MM.w, x.pos + 1, Len(MM.w)) IN
       IF ~same \/ t.res # Ok_ \/ t.m.fin THEN [m |-> t.m, res |-> t.res, q |-> q, same |-> same]
       ELSE Turns(MM, t.m, ev, q + 1)
Cycle(MM, ev, x) ==
  /\ \E q \in 1..Len(ev) : ev[q].st = x.st /\ ev[q].left = SubSeq(MM.w, x.pos + 1, Len(MM.w))
  /\ Top(x) < Len(MM.rows)
RunTo(MM, x, o) ==
  LET t == TLCEval(Turns(MM, x, o.ev, 1)) IN
  IF ~t.same \/ (t.q < Len(o.ev)) THEN [m |-> t.m, res |-> [e |-> "another run", at |-> t.q]]
  ELSE IF t.q = Len(o.ev) THEN [m |-> t.m, res |-> t.res]
  ELSE \* all recorded turns were fine and none of them ended it
    IF x.fin /\ o.ev = <<>> THEN [m |-> x, res |-> Ok_]
    ELSE IF Cycle(MM, o.ev, t.m)
    THEN [m |-> t.m, res |-> [e |-> "tok", t |-> Ahead(MM, t.m), exp |-> {Y \in DOMAIN MM.rows[Top(t.m) + 1] : MM.rows[Top(t.m) + 1][Y].k # "g"}]]
    ELSE [m |-> t.m, res |-> [e |-> "a longer run", at |-> t.q]]

Apply(MM, x, o) ==
  CASE o.o = "shift" -> Shift_(MM, x, o.n)
    [] o.o = "goto" -> Goto_(x, o.n)
    [] o.o = "accept" -> Accept_(MM, x)
    [] o.o = "reduce" -> Reduce_(MM, x, o.n)
    [] o.o = "travel" -> Travel_(MM, x, o.a)
    [] o.o = "reset" -> Gives(Reset_(x), Ok_)
    [] o.o = "give" -> Gives(Give_(x, o.a), Ok_)
    [] o.o = "take" -> Gives(Take_(x), Ok_)
    [] o.o = "leave" -> Gives(Leave_(x), Ok_)
    [] o.o \in {"edit", "copy"} -> Gives(x, Ok_)
    [] OTHER -> RunTo(MM, x, o)

Next == /\ Ok /\ k < Len(H.ops) /\ ~m.torn
        /\ k' = k + 1 /\ UNCHANGED <<n, h>>
        /\ LET o == H.ops[k + 1] IN
           IF o.o = "parse"
           THEN /\ mc' = [mc EXCEPT !.w = o.ws]
                /\ LET g == TLCEval(Parse_(mc')) IN m' = g.m /\ res' = g.res /\ val' = g.val
           ELSE /\ mc' = IF o.o = "edit" THEN Edit_(mc, o.n, o.ws[2], o.act) ELSE mc
                /\ val' = ""
                /\ LET g == TLCEval(Apply(mc, m, o)) IN m' = g.m /\ res' = g.res
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
C(clause, cond, detail) ==
  Claim(Data[n].id \o "/" \o ToString(h), clause, cond, <<"operation", k, [q \in 1..k |-> <<H.ops[q].o, H.ops[q].a>>], detail>>)
On == Ok /\ k > 0
Answers == k = 0 => C("answered", Ok, Bad(H))
\* C18
Result == On =>
  /\ C("result", Op.res.e = IF res.e = "cycle" THEN "tok" ELSE res.e, <<"driver", Op.res, "specification", res>>)
  /\ C("value", Op.val = val, <<Op.val, val>>)
  /\ (res.e = "tok" /\ Op.res.e = "tok") => C("token", Op.res.t = res.t /\ RangeOf(Op.res.exp) = res.exp /\ Len(Op.res.exp) = Cardinality(res.exp), <<Op.res, res>>)
  /\ (res.e = "conf" /\ Op.res.e = "conf") => C("competing", Op.res.a = res.a /\ Op.res.b = res.b, <<Op.res, res>>)
Holds == (On /\ ~m.torn) =>
  /\ C("states", Op.st = m.st, <<"driver", Op.st, "specification", m.st>>)
  /\ C("top", Op.top = Top(m), Op.top)
  /\ C("symbols", Op.it = m.it, <<"driver", Op.it, "specification", m.it>>)
  /\ C("values", Op.va = m.va, <<"driver", Op.va, "specification", m.va>>)
  /\ C("finished", Op.fin = m.fin, Op.fin)
  /\ C("left", Op.left = SubSeq(mc.w, m.pos + 1, Len(mc.w)), <<Op.left, m.pos>>)
\* C19: by what the driver itself holds
Shown == [st |-> Op.st]
Stack == On => C("stack_fmt", Op.fmt = ShowStack(Shown, Op.it), <<Op.fmt, Op.st, Op.it>>)
Debug_ == On => C("stack_debug", Op.dbg = ShowStack(Shown, [x \in 1..Len(Op.it) |-> ShowToken(Op.it[x], Op.va[x])]), <<Op.dbg, Op.st, Op.it>>)
Text == (On /\ Op.res.e # "ok") => C("message", Op.text = ShowError(M0, Op.res, IF Op.res.e = "tok" THEN Op.res.exp ELSE <<>>), <<Op.text, Op.res>>)
Each == (On /\ Op.o = "start") => \A q \in 1..Len(Op.ev) :
  C("stack_fmt-in-run", Op.ev[q].fmt = ShowStack([st |-> Op.ev[q].st], Op.ev[q].it), <<Op.ev[q]>>)
=============================================================================
