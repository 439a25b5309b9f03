----------------------------- MODULE AckerTrace -----------------------------
(* Recorded histories of real acknowledgers, judged one by one.              *)
EXTENDS Acker, SequencesExt, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
BLOCK == IF N > 16384 THEN 64 ELSE 1 + N \div 256      \* judged by one worker
VARIABLE i

OneOk(a, r) == /\ \A x \in DOMAIN a.r : x \in DOMAIN r /\ r[x] = a.r[x]
               /\ a.wakes => r.woken
Runs(s, ops, res) ==
  FoldLeft(LAMBDA x, k : IF ~x.ok THEN x
                         ELSE LET a == TLCEval(After(x.s, ops[k])) IN [ok |-> OneOk(a, res[k]), s |-> a.s],
           [ok |-> TRUE, s |-> s], [ k \in 1..Len(ops) |-> k ]).ok

RecOk(r) == r.op = "acker" /\ Len(r.res) = Len(r.ops) /\ Runs(New(r.sid, r.fid), r.ops, r.res)
Judge == i < 0 \/ RecOk(Recs[i]) \/ PrintT(<<"REJECT", i>>)

NB == (N + BLOCK - 1) \div BLOCK
Init == i \in { 0 - k : k \in 1..NB }
Next == i < 0 /\ i' \in { j \in 1..N : (j - 1) \div BLOCK = 0 - i - 1 }
Spec == Init /\ [][Next]_i
AllJudged == TLCGet("stats").distinct = N + NB \/ PrintT(<<"INCOMPLETE", TLCGet("stats").distinct>>)
=============================================================================
