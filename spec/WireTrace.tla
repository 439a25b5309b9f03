----------------------------- MODULE WireTrace ------------------------------
(* Conformance of recorded writes and reads of the real framer to SpopWire.  *)
(* Every event is judged on its own; a rejected one is printed.              *)
EXTENDS SpopWire, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)
BLOCK == IF N > 16384 THEN 64 ELSE 1 + N \div 256      \* judged by one worker

VARIABLE i
vars == <<i>>

\* The items of a HELLO or DISCONNECT may be written in any order.
SameItems(f, b) ==
  LET head == << TypeCode(f) >> \o PutMeta(f)
      n == Len(head)
      got == All(GetKV, b, n + 1)
  IN /\ Len(b) >= n /\ SubSeq(b, 1, n) = head
     /\ got.ok
     /\ Len(got.v) = Len(Items(f))
     /\ { got.v[j] : j \in 1..Len(got.v) } = { Items(f)[j] : j \in 1..Len(Items(f)) }

IsEncoding(f, b) ==
  IF f.t \in {"unset", "notify", "ack"} THEN b = Encode(f) ELSE SameItems(f, b)

SizeErrors == {"BadFrameSize", "TooBig"}

\* What reading the whole of s in one go must report, given that s is all there is.
ReadOk(s, max, ev) ==
  LET r == ReadOne(s, max)
  IN CASE r.res = "frame"   -> ev.res = "frame" /\ ev.frame = r.frame /\ ev.left = Len(s) - r.used
       [] r.res = "invalid" -> ev.res = "err" /\ ev.err \notin (SizeErrors \cup {"Io", "Normal"})
                               /\ ev.left = Len(s) - r.used
       [] r.res = "size"    -> ev.res = "err" /\ ev.err \in SizeErrors /\ ev.left = Len(s) - 4
       [] r.res = "more"    -> ev.res = "err" /\ ev.err = "Io"

WriteOk(ev) ==
  LET f == ev.frame
      len == Len(Encode(f))
  IN /\ ev.ftype = TypeCode(f)
     /\ ev.msize = IF HasIds(f) THEN << Len(PutMeta(f)) >> ELSE <<>>
     /\ IF len > ev.max
        THEN /\ ev.res \in SizeErrors      \* too long for the limit: nothing is written
             /\ ev.b = <<>>
        ELSE /\ ev.res = "ok"
             /\ ev.n = Len(ev.b)
             /\ Len(ev.b) = 4 + len
             /\ SubSeq(ev.b, 1, 4) = LenPrefix(len)
             /\ IsEncoding(f, SubSeq(ev.b, 5, Len(ev.b)))
             /\ IF f.t = "unset"
                THEN ev.back.res = "err"
                ELSE ev.back.res = "frame" /\ ev.back.same /\ ev.back.frame = f /\ ev.left = 0

\* A frame too long to be spelled out: its head, a block that is repeated, and the rest.
BulkHead(ev) ==
  LET f == ev.frame
      head == << TypeCode(f) >> \o PutMeta(f)
      len == Varint(Small(ev.n))
  IN CASE ev.kind = "items" -> head
       [] ev.kind = "name" /\ f.t = "notify" -> head \o len
       [] ev.kind = "name" /\ f.t = "ack" -> head \o << 2, 2, f.acts[1].scope >> \o len
       [] ev.kind \in {"str", "bin"} -> head \o << 1, 3, f.acts[1].scope >> \o PutBytes(f.acts[1].name) \o << KindCode(ev.kind) >> \o len
BulkBlock(ev) ==
  IF ev.kind = "items" THEN (IF ev.frame.t = "notify" THEN PutMessage(ev.frame.msgs[1]) ELSE PutAction(ev.frame.acts[1])) ELSE << 120 >>
BulkRest(ev) == IF ev.kind = "name" /\ ev.frame.t = "notify" THEN << 0 >> ELSE <<>>

BulkOk(ev) ==
  LET len == Len(BulkHead(ev)) + ev.n * Len(BulkBlock(ev)) + Len(BulkRest(ev))
      given == IF ev.mode = "cut" THEN len - 1 ELSE len
      back == ev.back
  IN /\ ev.out = [head |-> LenPrefix(len) \o BulkHead(ev), block |-> BulkBlock(ev), times |-> ev.n, rest |-> BulkRest(ev)]
     /\ IF len > ev.max THEN ev.w.res \in SizeErrors /\ ev.w.len = 0
        ELSE ev.w.res = "ok" /\ ev.w.n = 4 + len /\ ev.w.len = 4 + len
     /\ IF given > ev.max THEN back.res = "err" /\ back.err \in SizeErrors
        ELSE CASE ev.mode = "whole" -> /\ back.res = "frame" /\ back.same /\ ev.left = 0
                                      /\ IF ev.kind = "items" THEN back.count = ev.n ELSE back.text = ev.n
               [] ev.mode = "cut"   -> back.res = "err" /\ back.err \notin (SizeErrors \cup {"Io", "Normal"}) /\ ev.left = 0
               [] ev.mode = "short" -> back.res = "err" /\ back.err = "Io"

EventOk(ev) ==
  CASE ev.op = "write" -> WriteOk(ev)
    [] ev.op = "bulk"  -> BulkOk(ev)
    [] ev.op = "read"  -> ReadOk(ev.b, ev.max, ev)
    [] OTHER           -> FALSE                        \* panic, crash, hang

Judge == i < 0 \/ EventOk(Events[i]) \/ PrintT(<<"REJECT", i>>)

NB == (N + BLOCK - 1) \div BLOCK
Init == i \in { 0 - k : k \in 1..NB }
Next == i < 0 /\ i' \in { j \in 1..N : (j - 1) \div BLOCK = 0 - i - 1 }
Spec == Init /\ [][Next]_vars

AllJudged == TLCGet("stats").distinct = N + NB \/ PrintT(<<"INCOMPLETE", TLCGet("stats").distinct>>)
=============================================================================
