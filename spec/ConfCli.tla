------------------------------ MODULE ConfCli ------------------------------
(***************************************************************************)
(* W08: what the command-line tool did with a file, besides what           *)
(* ConfExpand says about the rules it wrote.                               *)
(*   D.status: exit status   D.out: "old" (out.rs is what it was), "new"   *)
(*   D.room: whether there was room to write                               *)
(*   D.plain: whether there is a file, of text                             *)
(***************************************************************************)
EXTENDS ConfExpand

Whole == r = 0
Fine == D.plain /\ Read(T).ok /\ Wrong = {}
Ends == Whole => C("ended", D.status \in 0..255, D.status)
Status == Whole =>
  /\ C("refused", (Fine /\ D.room) => D.status = 0, <<D.status, D.err>>)
  /\ C("success-without-a-description", ~Fine => D.status # 0, [x \in 1..Len(T) |-> T[x].x])
  /\ C("success-without-output", ~D.room => D.status # 0, "nothing could be written")
Output == Whole =>
  /\ C("overwritten", ~Fine => D.out = "old", [x \in 1..Len(T) |-> T[x].x])
  /\ C("not-written", (Fine /\ D.room /\ D.status = 0) => D.out = "new", D.out)
Basis == (Whole /\ Fine /\ D.room /\ Ok /\ Answered(D.basis)) =>
  /\ C("start", D.basis.start = "EntryPoint", D.basis.start)
  /\ C("eof", D.basis.eof = <<"Eof">>, D.basis.eof)
Based == (Whole /\ Fine /\ D.room /\ Ok) => C("based", Answered(D.basis), Bad(D.basis))
=============================================================================
