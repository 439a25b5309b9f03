----------------------------- MODULE AgentTrace -----------------------------
(* Runs of the real agent on loopback sockets, judged by Agent's observer.   *)
EXTENDS Agent, SequencesExt, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
BLOCK == IF N > 16384 THEN 64 ELSE 1 + N \div 256      \* judged by one worker
VARIABLE i

\* the first event that is refused, or 0
Run(o, ev) == FoldLeft(LAMBDA x, e : IF x.at # 0 THEN x
                                     ELSE LET n == TLCEval(Step(x.o, e))
                                          IN [o |-> n, k |-> x.k + 1, at |-> IF n.ok THEN 0 ELSE x.k],
                       [o |-> o, k |-> 1, at |-> 0], ev).at
RecOk(r, n) == IF r.op # "agent" THEN PrintT(<<"REJECT", n, 0>>)
               ELSE LET at == Run(Fresh(0..(r.clients - 1), r.serves, r.limited), r.ev)
                    IN at = 0 \/ PrintT(<<"REJECT", n, at>>)
Judge == i < 0 \/ RecOk(Recs[i], i)

NB == (N + BLOCK - 1) \div BLOCK
Init == i \in { 0 - k : k \in 1..NB }
Next == i < 0 /\ i' \in { j \in 1..N : (j - 1) \div BLOCK = 0 - i - 1 }
Spec == Init /\ [][Next]_i
AllJudged == TLCGet("stats").distinct = N + NB \/ PrintT(<<"INCOMPLETE", TLCGet("stats").distinct>>)
=============================================================================
