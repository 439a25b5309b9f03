--------------------------- MODULE DispatchTrace ----------------------------
(* Recorded sequential histories of a real dispatcher and its consumers.     *)
EXTENDS Dispatch, SequencesExt, Json, IOUtils

CONSTANT Wakes       \* whether the wakers are judged, too
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
BLOCK == IF N > 16384 THEN 64 ELSE 1 + N \div 256      \* judged by one worker
VARIABLE i

R(s, rs) == [s |-> s, rs |-> rs, acks |-> {}]
One(x) == { [r |-> x] }

\* dropping the acknowledgers of the items nobody will take
RECURSIVE DropFrom(_, _)
DropFrom(s, k) == IF k > Len(s.items) THEN [s |-> s, acks |-> {}]
                  ELSE LET a == Acks(s, k, [o |-> "drop"])
                           d == DropFrom(a.s, k + 1)
                       IN [d EXCEPT !.acks = @ \cup (IF a.a.wakes THEN {k} ELSE {})]

Step(s, op) ==
  LET k == IF "i" \in DOMAIN op THEN op.i + 1 ELSE 0
      there == k \in 1..Len(s.items)
      taken == k \in 1..s.taken
  IN CASE op.o = "submit" ->
            IF ~s.up THEN R(s, One("gone"))
            ELSE LET a == Submit(s, op.n) IN R(a.s, { [r |-> x] : x \in a.rs })
       [] op.o = "next" ->
            IF ~s.taker THEN R(s, One("gone"))
            ELSE IF s.taken < Len(s.items) THEN R([s EXCEPT !.taken = @ + 1], One("item"))
            ELSE IF ~s.up THEN R(s, One("end"))
            ELSE R([s EXCEPT !.waits = TRUE], One("pend"))
       [] op.o = "msg" ->
            IF ~taken \/ ~s.items[k].stream THEN R(s, One("gone"))
            ELSE IF s.items[k].msgs # <<>> THEN R([s EXCEPT !.items[k].msgs = Tail(@)], { [r |-> "msg", m |-> s.items[k].msgs[1]] })
            ELSE IF s.items[k].ended THEN R(s, One("end"))
            ELSE R([s EXCEPT !.items[k].waits = TRUE], One("pend"))
       [] op.o = "msgdrop" ->
            R(IF taken THEN [s EXCEPT !.items[k].stream = FALSE, !.items[k].msgs = <<>>] ELSE s, One("ok"))
       [] op.o = "acked" ->
            IF ~there THEN R(s, One("gone"))
            ELSE LET a == Acks(s, k, [o |-> "poll"]) IN R(a.s, { a.a.r })
       [] op.o = "rxdrop" ->
            IF ~there THEN R(s, One("ok")) ELSE R(Acks(s, k, [o |-> "rxdrop"]).s, One("ok"))
       [] op.o = "close" ->
            LET d == DropFrom(s, s.taken + 1)
            IN [s |-> [d.s EXCEPT !.taker = FALSE, !.waits = FALSE], rs |-> One("ok"), acks |-> IF s.taker THEN d.acks ELSE {}]
       [] op.o = "down" ->
            R([s EXCEPT !.up = FALSE, !.open = {}, !.items = [j \in 1..Len(@) |-> [@[j] EXCEPT !.ended = TRUE]]], One("ok"))
       [] OTHER ->       \* something done with the acknowledger
            IF ~taken THEN R(s, One("gone"))
            ELSE LET a == Acks(s, k, op) IN [s |-> a.s, rs |-> { a.a.r }, acks |-> IF a.a.wakes THEN {k} ELSE {}]

Has(x, r) == \A f \in DOMAIN r : f \in DOMAIN x /\ x[f] = r[f]
In(q) == { q[j] + 1 : j \in 1..Len(q) }

OneOk(s, a, x) ==
  /\ \E r \in a.rs : Has(x, r)
  /\ Wakes => /\ MustNext(s, a.s) => x.next
              /\ MustMsgs(s, a.s) \subseteq In(x.msgs)
              /\ a.acks \subseteq In(x.acks)
Runs(s, ops, res) ==
  FoldLeft(LAMBDA x, k : IF ~x.ok THEN x
                         ELSE LET a == TLCEval(Step(x.s, ops[k])) IN [ok |-> OneOk(x.s, a, res[k]), s |-> Calm(a.s)],
           [ok |-> TRUE, s |-> s], [ k \in 1..Len(ops) |-> k ]).ok

RecOk(r) == r.op = "dispatch" /\ Len(r.res) = Len(r.ops) /\ Runs(Fresh, r.ops, r.res)
Judge == i < 0 \/ RecOk(Recs[i]) \/ PrintT(<<"REJECT", i>>)

NB == (N + BLOCK - 1) \div BLOCK
Init == i \in { 0 - k : k \in 1..NB }
Next == i < 0 /\ i' \in { j \in 1..N : (j - 1) \div BLOCK = 0 - i - 1 }
Spec == Init /\ [][Next]_i
AllJudged == TLCGet("stats").distinct = N + NB \/ PrintT(<<"INCOMPLETE", TLCGet("stats").distinct>>)
=============================================================================
