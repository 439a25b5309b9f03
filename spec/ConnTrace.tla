----------------------------- MODULE ConnTrace ------------------------------
(* Does Conn explain what a real connection did?  A trace is the list of     *)
(* what happened at its edges: bytes read and written, questions to and      *)
(* answers of the service and its maker, the token, the end - each with the  *)
(* (virtual) time in milliseconds.  What the connection does inside (taking  *)
(* a frame, giving up on a call, stopping) has to be found by TLC.           *)
EXTENDS Conn, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
SLACK == 2

VARIABLES tr, l, s, ib, ob, mk
vars == << tr, l, s, ib, ob, mk >>

C == Traces[tr].cfg
Ev == Traces[tr].ev

Read1 == LET r == ReadOne(ib, s.limit)
         IN IF r.res = "frame" THEN [r EXCEPT !.frame = r.frame] @@ [abort |-> Aborted(SubSeq(ib, 5, r.used))] ELSE r
More == ReadOne(ib, s.limit).res = "more"

Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ s = Start(C) /\ ib = <<>> /\ ob = <<>> /\ mk = <<>>

(* silent steps *)
Silent == l <= Len(Ev) /\ UNCHANGED << tr, l, ob, mk >>
TakeIt == /\ Silent /\ CanTake(s) /\ s.broken # "write"
          /\ LET r == Read1
             IN /\ r.res # "more"
                /\ s' = Take(s, C, r)
                /\ ib' = IF r.res = "size" THEN <<>> ELSE SubSeq(ib, r.used + 1, Len(ib))
GiveUp == Silent /\ CanTimeout(s, C, Ev[l].t) /\ s' = [TimedOut(s) EXCEPT !.now = Deadline(s, C)] /\ UNCHANGED ib
StopIt == Silent /\ CanStop(s, More) /\ s' = Stop(s) /\ UNCHANGED ib

(* events *)
InTime(e) == /\ Urgent(s, More) => e.t <= s.now + SLACK
             /\ s.phase = "call" => e.t <= Deadline(s, C) + SLACK

To(x) == s' = x /\ UNCHANGED << ib, ob >>
At(e) == [s EXCEPT !.now = e.t]

WriteEv(e, u) ==
  LET b == ob \o e.b
      n == IF Len(b) < 4 THEN 0 - 1 ELSE BodyLen(b)
  IN /\ s.phase = "write" /\ s.broken # "write" /\ ~s.blocked
     /\ UNCHANGED ib
     /\ IF n < 0 \/ Len(b) < 4 + n
        THEN ob' = b /\ s' = [u EXCEPT !.dirty = TRUE]
        ELSE LET d == Decode(SubSeq(b, 5, Len(b)))
             IN /\ Len(b) = 4 + n
                /\ d.ok /\ Fits(s, d.v, n)
                /\ SubSeq(b, 5, 9) = << TypeCode(d.v), 0, 0, 0, Flags(d.v) >>
                /\ ob' = <<>> /\ s' = [Written(u) EXCEPT !.dirty = TRUE]

Stuck == /\ ~Urgent(s, More)
         /\ \/ ob = <<>> /\ s.phase \in {"hello", "ready"} /\ More /\ ~s.cancelled /\ s.broken = ""
            \/ ob = <<>> /\ s.phase = "make"
            \/ s.blocked /\ \E k \in 1..(l - 1) : Ev[k].e = "block" /\ Ev[k].r = "never"

Event ==
  /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tr
  /\ LET e == Ev[l]
         u == At(e)
     IN /\ e.e = "start" \/ InTime(e)
        /\ CASE e.e = "start"   -> To(u)
             [] e.e = "wait"    -> To(u)
             [] e.e = "rd"      -> s.phase # "end" /\ s' = u /\ ib' = ib \o e.b /\ UNCHANGED ob
             [] e.e = "eof"     -> To([u EXCEPT !.broken = IF @ = "write" THEN @ ELSE "read"])
             [] e.e = "rderr"   -> To([u EXCEPT !.broken = IF @ = "write" THEN @ ELSE "read"])
             [] e.e = "wr"      -> WriteEv(e, u)
             [] e.e = "wrerr"   -> To([u EXCEPT !.broken = "write"])
             [] e.e = "block"   -> CanBlock(s) /\ To(Block(u))
             [] e.e = "unblock" -> s.blocked /\ To(Unblock(u))
             [] e.e = "flush"   -> To([u EXCEPT !.dirty = FALSE])
             [] e.e = "cancel"  -> To([u EXCEPT !.cancelled = TRUE])
             [] e.e = "mkready" -> CanAskMaker(s) /\ To(AskMaker(u, e.r))
             [] e.e = "mk"      -> CanMake(s) /\ To(Make(u))
             [] e.e = "mkend"   -> IF e.r = "drop" THEN s.phase = "end" /\ To(u)
                                   ELSE CanMakeEnd(s) /\ To(MakeEnd(u, e.r = "ok"))
             [] e.e = "ready"   -> CanAsk(s) /\ To(Ask(u, e.r, IF e.r = "err" THEN e.m ELSE <<>>))
             [] e.e = "call"    -> CanCall(s, e.msgs) /\ To(Call(u))
             [] e.e = "ret"     -> CanReturn(s) /\ To(IF e.r = "ok" THEN Return(u, e.acts) ELSE ReturnErr(u, e.m))
             [] e.e = "drop"    -> CanDrop(s) /\ To(Drop(u))
             [] e.e = "end"     -> CanEnd(s) /\ (ob = <<>> \/ s.broken = "write") /\ l = Len(Ev) /\ To(u)
             [] e.e = "stuck"   -> Stuck /\ l = Len(Ev) /\ To(u)
             \* what came since the mark came again as it was, any number of times: that is fine
             \* if it led back to where it began
             [] e.e = "cut"     -> l = Len(Ev) /\ To(u)      \* there was more
             [] e.e = "mark"    -> To(u)
             [] e.e = "again"   -> mk = << [s EXCEPT !.now = e.t], ib, ob >> /\ To(u)
             [] OTHER           -> FALSE
        /\ mk' = IF e.e = "mark" THEN << u, ib, ob >> ELSE IF e.e = "again" THEN <<>> ELSE mk

Next == TakeIt \/ GiveUp \/ StopIt \/ Event
Spec == Init /\ [][Next]_vars

Finished == l > Len(Ev) /\ Len(Ev) > 0 /\ Ev[Len(Ev)].e \in {"end", "stuck", "cut"}
Report == /\ Finished => PrintT(<<"ACCEPT", tr>>)
          /\ Diag => PrintT(<<"AT", tr, l>>)
=============================================================================
