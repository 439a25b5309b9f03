----------------------------- MODULE HeldTrace ------------------------------
(* What the real keepers weighed after windows of many rounds.               *)
EXTENDS Held, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
BLOCK == IF N > 16384 THEN 64 ELSE 1 + N \div 256      \* judged by one worker
VARIABLE i

RecOk(r) == CASE r.op # "held" -> FALSE
              [] r.what \in {"agent", "ends"} -> Light(r.grown, r.rounds * Len(r.kinds))
              [] OTHER -> Assert(Closes(r.script), "not a closing script") /\ Light(r.grown, r.rounds)
Judge == i < 0 \/ RecOk(Recs[i]) \/ PrintT(<<"REJECT", i>>)

NB == (N + BLOCK - 1) \div BLOCK
Init == i \in { 0 - k : k \in 1..NB }
Next == i < 0 /\ i' \in { j \in 1..N : (j - 1) \div BLOCK = 0 - i - 1 }
Spec == Init /\ [][Next]_i
AllJudged == TLCGet("stats").distinct = N + NB \/ PrintT(<<"INCOMPLETE", TLCGet("stats").distinct>>)
=============================================================================
