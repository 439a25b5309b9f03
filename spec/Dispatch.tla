------------------------------ MODULE Dispatch ------------------------------
(* The dispatcher: NOTIFY frames in, work items with message streams out.    *)
(* Work items are numbered in the order they are created; an item has an     *)
(* acknowledger (Acker) and a stream of messages.                            *)
EXTENDS Acker

Key(n) == << n.sid, n.fid >>

Fresh == [up |-> TRUE,           \* the dispatcher is there
          taker |-> TRUE,        \* the consumer of work items is there
          taken |-> 0,           \* how many items it took
          waits |-> FALSE,       \* it looked for one, in vain
          open |-> {},           \* requests with more fragments to come: [key, item]
          items |-> <<>>]        \* [ack, msgs, ended, stream, waits]

NewItem(n) == [ack |-> New(n.sid, n.fid), msgs |-> <<>>, ended |-> FALSE, stream |-> TRUE, waits |-> FALSE]
OpenOf(s, k) == { o \in s.open : o.key = k }
ItemOf(s, k) == (CHOOSE o \in OpenOf(s, k) : TRUE).item

\* the messages of n go to item i, which ends with a final fragment
Deliver(s, i, n) ==
  LET t == [s EXCEPT !.items[i].msgs = IF s.items[i].stream THEN @ \o n.msgs ELSE @,
                     !.items[i].ended = ~n.frag]
  IN [t EXCEPT !.open = IF n.frag THEN (@ \ OpenOf(s, Key(n))) \cup { [key |-> Key(n), item |-> i] } ELSE @ \ OpenOf(s, Key(n))]

\* s after n was handed in, and what the caller is told: one of rs
Submit(s, n) ==
  IF OpenOf(s, Key(n)) # {}
  THEN LET i == ItemOf(s, Key(n))
       IN [s |-> Deliver(s, i, n), rs |-> IF s.taker \/ (i <= s.taken /\ s.items[i].stream) THEN {"none"} ELSE {"none", "err"}]
  ELSE IF ~s.taker THEN [s |-> s, rs |-> {"err"}]          \* no trace of it
  ELSE LET t == [s EXCEPT !.items = Append(@, NewItem(n))]
       IN [s |-> Deliver(t, Len(t.items), n), rs |-> {"new"}]

\* what somebody waiting could have now
NextReady(s) == s.taker /\ (s.taken < Len(s.items) \/ ~s.up)
MsgReady(s, i) == i <= s.taken /\ s.items[i].stream /\ (s.items[i].msgs # <<>> \/ s.items[i].ended)

\* those who waited and need not any more have to be woken
MustNext(s, t) == s.waits /\ NextReady(t)
MustMsgs(s, t) == { i \in 1..Len(s.items) : s.items[i].waits /\ MsgReady(t, i) }
Calm(t) == [t EXCEPT !.waits = @ /\ ~NextReady(t),
                     !.items = [i \in 1..Len(t.items) |-> [t.items[i] EXCEPT !.waits = @ /\ ~MsgReady(t, i)]]]

Acks(s, i, op) == LET a == After(s.items[i].ack, op) IN [s |-> [s EXCEPT !.items[i].ack = a.s], a |-> a]
=============================================================================
