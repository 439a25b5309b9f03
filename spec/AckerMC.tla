------------------------------ MODULE AckerMC -------------------------------
(* Every history of an acknowledger up to a length.  The finished ones are   *)
(* printed and replayed into the real one.                                   *)
EXTENDS Acker, Json

CONSTANTS Length, Tell, Twice      \* Twice: a wrong design, which sends another ACK when dropped after completion

VARIABLES s, hist, replies, got, firstEnd
vars == << s, hist, replies, got, firstEnd >>
\* hist: what was done, got: the ACKs received, firstEnd: the position of the first end

Names == {"set", "unset", "complete", "abort", "drop", "rxdrop", "poll"}
Op(o) == IF o \in {"set", "unset"} THEN [o |-> o, act |-> << o, Len(hist) + 1 >>] ELSE [o |-> o]
Ends == {"complete", "abort", "drop"}

Init == s = New(7, 9) /\ hist = <<>> /\ replies = <<>> /\ got = <<>> /\ firstEnd = 0
Do(o) == LET op == Op(o)
             a == IF Twice /\ o = "drop" /\ s.held THEN [End(s, FALSE, [r |-> "ok"]) EXCEPT !.s.held = FALSE] ELSE After(s, op)
         IN /\ Len(hist) < Length
            /\ s' = IF Twice /\ a.r.r = "ack" THEN [a.s EXCEPT !.rx = TRUE] ELSE a.s
            /\ hist' = Append(hist, op) /\ replies' = Append(replies, a.r)
            /\ got' = IF a.r.r = "ack" THEN Append(got, a.r.ack) ELSE got
            /\ firstEnd' = IF firstEnd = 0 /\ o \in Ends THEN Len(hist) + 1 ELSE firstEnd
Next == \E o \in Names : Do(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the actions recorded before position n
RECURSIVE Recorded(_)
Recorded(n) == IF n = 0 THEN <<>> ELSE IF hist[n].o \in {"set", "unset"} THEN Append(Recorded(n - 1), hist[n].act) ELSE Recorded(n - 1)
\* exactly one ACK, of the first end, with what came before it
One == Len(got) <= 1
Early == got # <<>> => firstEnd # 0
Exact == got # <<>> => got[1] = [t |-> "ack", frag |-> FALSE, abort |-> hist[firstEnd].o = "abort", sid |-> 7, fid |-> 9, acts |-> Recorded(firstEnd - 1)]
Delivered == (firstEnd # 0 /\ s.rx) => s.sent # <<>>
\* the second end, or one without a receiver, says so
Closed == \A i \in 1..Len(hist) : (hist[i].o \in {"complete", "abort"} /\ replies[i].r # "gone") =>
             (replies[i].r = "ok") = (i = firstEnd /\ \A j \in 1..(i - 1) : hist[j].o # "rxdrop")
NeverAsleep == s.waits => s.open
Told == (Tell /\ Len(hist) = Length) => PrintT(ToJson([ops |-> [i \in 1..Length |-> hist[i].o]]))
=============================================================================
