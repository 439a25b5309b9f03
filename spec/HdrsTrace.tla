----------------------------- MODULE HdrsTrace ------------------------------
(* What the real decoder made of byte strings, judged one by one.            *)
EXTENDS HdrsBin, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
BLOCK == IF N > 16384 THEN 64 ELSE 1 + N \div 256      \* judged by one worker
VARIABLE i

Most == 20000       \* a map of headers holds at least that many
RecOk(r) == CASE r.op = "hdrs" -> Outcome(r.b, r.res, r.hdrs)
              [] r.op = "many" -> (r.res = "ok" /\ r.got = r.n) \/ (r.res = "err" /\ r.n > Most)
              [] OTHER -> FALSE
Judge == i < 0 \/ RecOk(Recs[i]) \/ PrintT(<<"REJECT", i>>)

NB == (N + BLOCK - 1) \div BLOCK
Init == i \in { 0 - k : k \in 1..NB }
Next == i < 0 /\ i' \in { j \in 1..N : (j - 1) \div BLOCK = 0 - i - 1 }
Spec == Init /\ [][Next]_i
AllJudged == TLCGet("stats").distinct = N + NB \/ PrintT(<<"INCOMPLETE", TLCGet("stats").distinct>>)
=============================================================================
