------------------------------- MODULE Acker --------------------------------
(* An acknowledger and the receiver of its ACK.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

New(sid, fid) == [sid |-> sid, fid |-> fid, acts |-> <<>>,
                  open |-> TRUE,          \* neither completed nor aborted nor dropped
                  held |-> TRUE,          \* the acknowledger is still there
                  rx |-> TRUE,            \* the receiver is still there, and has not got its ACK
                  sent |-> <<>>,          \* the ACK on its way
                  waits |-> FALSE]        \* the receiver looked, in vain

Ack(s, aborted) == [t |-> "ack", frag |-> FALSE, abort |-> aborted, sid |-> s.sid, fid |-> s.fid, acts |-> s.acts]

Say(s, r) == [s |-> s, r |-> r, wakes |-> FALSE]
\* the end of s: its ACK is on its way, if there is somewhere to go
End(s, aborted, r) == [s |-> [s EXCEPT !.open = FALSE, !.sent = IF s.rx THEN << Ack(s, aborted) >> ELSE <<>>, !.waits = FALSE],
                       r |-> r, wakes |-> s.waits]

\* state, reply, and whether the receiver has to be woken
After(s, op) ==
  CASE op.o \in {"set", "unset"} ->
         IF ~s.held THEN Say(s, [r |-> "gone"])
         ELSE Say(IF s.open THEN [s EXCEPT !.acts = Append(@, op.act)] ELSE s, [r |-> "ok"])
    [] op.o = "all" ->        \* one after another
         IF ~s.held THEN Say(s, [r |-> "gone"])
         ELSE Say(IF s.open THEN [s EXCEPT !.acts = @ \o op.acts] ELSE s, [r |-> "ok"])
    [] op.o \in {"complete", "abort"} ->
         IF ~s.held THEN Say(s, [r |-> "gone"])
         ELSE IF ~s.open THEN Say(s, [r |-> "closed"])
         ELSE End(s, op.o = "abort", [r |-> IF s.rx THEN "ok" ELSE "closed"])
    [] op.o \in {"drop", "unwind"} ->        \* unwind: dropped by a panic
         LET e == IF s.held /\ s.open THEN End(s, FALSE, [r |-> "ok"]) ELSE Say(s, [r |-> "ok"])
         IN [e EXCEPT !.s.held = FALSE]
    [] op.o = "rxdrop" -> Say([s EXCEPT !.rx = FALSE, !.sent = <<>>, !.waits = FALSE], [r |-> "ok"])
    [] op.o = "poll" ->
         IF ~s.rx THEN Say(s, [r |-> "gone"])
         ELSE IF s.sent = <<>> THEN Say([s EXCEPT !.waits = TRUE], [r |-> "pend"])
         ELSE Say([s EXCEPT !.rx = FALSE, !.sent = <<>>], [r |-> "ack", ack |-> s.sent[1]])
=============================================================================
