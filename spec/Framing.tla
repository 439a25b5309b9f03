------------------------------ MODULE Framing -------------------------------
(* A reader and a writer of frames on a byte stream that arrives and leaves  *)
(* in arbitrary pieces.  Steps are functions of the state, shared by the     *)
(* model (FramingMC) and the judge of recorded transports (FramingTrace).    *)
EXTENDS SpopWire

Reader(limit) == [limit |-> limit, buf |-> <<>>, ended |-> FALSE, done |-> FALSE]

Arrive(r, b) == [r EXCEPT !.buf = @ \o b]
End(r) == [r EXCEPT !.ended = TRUE]

\* what the next read reports, "more" if it has to wait
Says(r) == LET o == ReadOne(r.buf, r.limit)
           IN IF o.res = "more" /\ r.ended THEN [res |-> "closed"] ELSE o

\* the reader after that report: every error is the last one
Report(r, o) ==
  IF o.res = "frame" THEN [r EXCEPT !.buf = SubSeq(@, o.used + 1, Len(@))]
  ELSE [r EXCEPT !.done = TRUE]

\* what has to come out of a stream in the end, however it is cut
RECURSIVE Outcome(_, _)
Outcome(s, limit) ==
  LET o == ReadOne(s, limit)
  IN CASE o.res = "frame" -> << [res |-> "frame", frame |-> o.frame] >> \o Outcome(SubSeq(s, o.used + 1, Len(s)), limit)
       [] o.res = "more"  -> << [res |-> "closed"] >>
       [] OTHER           -> << [res |-> o.res] >>

(* The writer: each frame goes out whole and in order, or not at all when it *)
(* is too long, or in part when the transport fails.                         *)
Writer(limit) == [limit |-> limit, out |-> <<>>, dirty |-> FALSE, failed |-> FALSE]

Leave(w, b) == [w EXCEPT !.out = @ \o b, !.dirty = TRUE]
Flush(w) == [w EXCEPT !.dirty = FALSE]
Fail_(w) == [w EXCEPT !.failed = TRUE]

TooLong(w, f) == Len(Encode(f)) > w.limit

SameItems(f, b) ==
  LET head == << TypeCode(f) >> \o PutMeta(f)
      n == Len(head)
      got == All(GetKV, b, n + 1)
  IN /\ Len(b) >= n /\ SubSeq(b, 1, n) = head
     /\ got.ok
     /\ Len(got.v) = Len(Items(f))
     /\ { got.v[j] : j \in 1..Len(got.v) } = { Items(f)[j] : j \in 1..Len(Items(f)) }

\* b is the frame f with its length; the items of a HELLO or DISCONNECT come in any order
IsFramed(f, b) ==
  LET e == Encode(f)
  IN /\ Len(b) = 4 + Len(e)
     /\ SubSeq(b, 1, 4) = LenPrefix(Len(e))
     /\ LET body == SubSeq(b, 5, Len(b))
        IN IF f.t \in {"unset", "notify", "ack"} THEN body = e ELSE SameItems(f, body)

IsPart(f, b) ==
  LET e == Framed(f)
      head == 4 + 1 + Len(PutMeta(f))
      n == IF f.t \in {"unset", "notify", "ack"} \/ Len(b) <= head THEN Len(b) ELSE head
  IN Len(b) <= Len(e) /\ SubSeq(b, 1, n) = SubSeq(e, 1, n)

WriteOk(w, f) == ~TooLong(w, f) /\ IsFramed(f, w.out) /\ ~w.dirty /\ ~w.failed
WriteTooBig(w, f) == TooLong(w, f) /\ w.out = <<>>
WriteFailed(w, f) == ~TooLong(w, f) /\ w.failed /\ IsPart(f, w.out)
Next_(w) == [w EXCEPT !.out = <<>>]
=============================================================================
