---------------------------- MODULE FramingTrace ----------------------------
(* Does Framing explain what the real framer and codecs did on a transport?  *)
EXTENDS Framing, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES tr, l, r, w, k, idle
vars == << tr, l, r, w, k, idle >>      \* k: frame being written, idle: the reader has returned to wait

T == Traces[tr]
Ev == T.ev
SizeErrors == {"BadFrameSize", "TooBig"}

Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ r = Reader(T.max) /\ w = Writer(T.max) /\ k = 1 /\ idle = FALSE

Writing == k <= Len(T.writes)
GotOk(e, o) ==
  CASE o.res = "frame"   -> e.res = "frame" /\ e.frame = o.frame
    [] o.res = "invalid" -> e.res = "err" /\ e.err \notin (SizeErrors \cup {"Io", "Normal"})
    [] o.res = "size"    -> e.res = "err" /\ e.err \in SizeErrors
    [] o.res = "closed"  -> e.res = "err" /\ e.err = "Io"
    [] OTHER             -> FALSE

Got(e) == /\ ~Writing /\ ~r.done
          /\ GotOk(e, Says(r))
          /\ r' = Report(r, Says(r)) /\ UNCHANGED << w, k >>

Wrote(e) == /\ Writing
            /\ LET f == T.writes[k]
               IN CASE e.r = "ok"            -> WriteOk(w, f) /\ e.n = Len(w.out)
                    [] e.r \in SizeErrors    -> WriteTooBig(w, f)
                    [] OTHER                 -> WriteFailed(w, f)
            /\ k' = k + 1 /\ w' = Next_(w) /\ UNCHANGED r

\* having returned to wait, the reader may go on only when it needs more
Needs == Says(r).res = "more"

Step == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tr
        /\ LET e == Ev[l]
           IN /\ CASE e.e = "rd"    -> (idle => Needs) /\ r' = Arrive(r, e.b) /\ UNCHANGED << w, k >>
                   [] e.e = "wait"  -> UNCHANGED << r, w, k >>
                   [] e.e \in {"eof", "rderr"} -> (idle => Needs) /\ r' = End(r) /\ UNCHANGED << w, k >>
                   [] e.e = "got"   -> Got(e)
                   [] e.e = "wr"    -> Writing /\ w' = Leave(w, e.b) /\ UNCHANGED << r, k >>
                   [] e.e = "flush" -> w' = Flush(w) /\ UNCHANGED << r, k >>
                   [] e.e = "wrerr" -> Writing /\ w' = Fail_(w) /\ UNCHANGED << r, k >>
                   [] e.e \in {"block", "unblock"} -> Writing /\ UNCHANGED << r, w, k >>      \* slow, no more
                   [] e.e = "wrote" -> Wrote(e)
                   [] e.e = "stuck" -> ~Writing /\ Needs /\ ~r.done /\ l = Len(Ev) /\ UNCHANGED << r, w, k >>
                   [] OTHER         -> FALSE
              /\ idle' = (e.e = "wait")
Spec == Init /\ [][Step]_vars

Finished == l > Len(Ev) /\ Len(Ev) > 0 /\ ~Writing /\ (r.done \/ Ev[Len(Ev)].e = "stuck")
Tell == /\ Finished => PrintT(<<"ACCEPT", tr>>)
        /\ Diag => PrintT(<<"AT", tr, l>>)
=============================================================================
