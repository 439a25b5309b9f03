----------------------------- MODULE DispatchMC -----------------------------
(* Threads hand in fragments, as the real code does it: under the lock of    *)
(* the request they look it up or create it, and send the messages one by    *)
(* one after letting go of the lock.  Channels wake their readers, who look, *)
(* leave their waker, look again and only then sleep.                        *)
(* Reading: "right", or a wrong one: "blind" (no second look), "mute" (no    *)
(* waker left).  Locking: FALSE looks up and creates in two steps.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, PerThread, Keys, Msgs, Reading, Locking

MaxItems == Cardinality(Threads) * PerThread
Chans == 0..MaxItems            \* 0: the work items, k: the messages of item k

VARIABLES plan, at, pc, mine, left, open, n, q, senders, waker, awake, rd, got, up, lin, seen
vars == << plan, at, pc, mine, left, open, n, q, senders, waker, awake, rd, got, up, lin, seen >>
\* mine: the channel a thread sends to, left: what it still sends, open: << key, channel >>, n: items made,
\* senders: how many hold the sending side, rd: where each reader is, lin: << thread, op, item, created >> in order

Ops == [k : Keys, frag : BOOLEAN]
Op(t) == plan[t][at[t]]
Name(t, i, j) == t * 100 + i * 10 + j

Init == /\ plan \in [Threads -> [1..PerThread -> Ops]]
        /\ at = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> 0] /\ open = {} /\ n = 0
        /\ q = [c \in Chans |-> <<>>] /\ senders = [c \in Chans |-> IF c = 0 THEN 1 ELSE 0]
        /\ waker = [c \in Chans |-> FALSE] /\ awake = [c \in Chans |-> FALSE]
        /\ rd = [c \in Chans |-> IF c = 0 THEN "poll" ELSE "none"]
        /\ got = [c \in Chans |-> <<>>] /\ up = TRUE /\ lin = <<>> /\ seen = [t \in Threads |-> {}]

Of(k) == { o \in open : o[1] = k }
\* c changed: who left a waker there is woken
Wake(cs) == /\ waker' = [c \in Chans |-> waker[c] /\ c \notin cs]
            /\ awake' = [c \in Chans |-> awake[c] \/ (waker[c] /\ c \in cs)]

\* the look-up and what follows from it, as one step
Enter(t, found) ==
  IF found = {}
  THEN /\ n' = n + 1
       /\ q' = [q EXCEPT ![0] = Append(@, n + 1)]
       /\ Wake({0})
       /\ open' = IF Op(t).frag THEN (open \ Of(Op(t).k)) \cup { << Op(t).k, n + 1 >> } ELSE open
       /\ senders' = [c \in Chans |-> IF c = n + 1 THEN (IF Op(t).frag THEN 2 ELSE 1)
                                      ELSE IF Op(t).frag /\ << Op(t).k, c >> \in open THEN senders[c] - 1 ELSE senders[c]]
       /\ mine' = [mine EXCEPT ![t] = n + 1]
       /\ lin' = Append(lin, << t, at[t], n + 1, TRUE >>)
  ELSE LET c == (CHOOSE o \in found : TRUE)[2]
       IN /\ mine' = [mine EXCEPT ![t] = c]
          /\ open' = IF Op(t).frag THEN open ELSE open \ found
          /\ senders' = [senders EXCEPT ![c] = IF Op(t).frag THEN @ + 1 ELSE @]     \* a final one takes over the entry's
          /\ lin' = Append(lin, << t, at[t], c, FALSE >>)
          /\ UNCHANGED << n, q, waker, awake >>

Begin(t) == /\ pc[t] = "idle" /\ at[t] <= PerThread
            /\ IF Locking
               THEN /\ Enter(t, Of(Op(t).k)) /\ pc' = [pc EXCEPT ![t] = "send"] /\ left' = [left EXCEPT ![t] = Msgs] /\ UNCHANGED seen
               ELSE /\ seen' = [seen EXCEPT ![t] = Of(Op(t).k)] /\ pc' = [pc EXCEPT ![t] = "seen"]
                    /\ UNCHANGED << mine, left, open, n, q, senders, waker, awake, lin >>
            /\ UNCHANGED << plan, at, rd, got, up >>
Unlocked(t) == /\ pc[t] = "seen" /\ Enter(t, seen[t] \cap open) /\ pc' = [pc EXCEPT ![t] = "send"] /\ left' = [left EXCEPT ![t] = Msgs]
               /\ UNCHANGED << plan, at, rd, got, up, seen >>
Send(t) == /\ pc[t] = "send" /\ left[t] > 0
           /\ q' = [q EXCEPT ![mine[t]] = Append(@, Name(t, at[t], Msgs - left[t] + 1))]
           /\ Wake({mine[t]})
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED << plan, at, pc, mine, open, n, senders, rd, got, up, lin, seen >>
Leave(t) == /\ pc[t] = "send" /\ left[t] = 0
            /\ senders' = [senders EXCEPT ![mine[t]] = @ - 1]
            /\ IF senders[mine[t]] = 1 THEN Wake({mine[t]}) ELSE UNCHANGED << waker, awake >>
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ UNCHANGED << plan, mine, left, open, n, q, rd, got, up, lin, seen >>
\* the dispatcher goes when nobody uses it any more
Down == /\ up /\ \A t \in Threads : pc[t] = "idle" /\ at[t] > PerThread
        /\ up' = FALSE /\ open' = {}
        /\ senders' = [c \in Chans |-> senders[c] - (IF c = 0 THEN 1 ELSE Cardinality({ o \in open : o[2] = c }))]
        /\ Wake({ c \in Chans : senders'[c] = 0 })
        /\ UNCHANGED << plan, at, pc, mine, left, n, q, rd, got, lin, seen >>

Ended(c) == senders[c] = 0
Poll(c) == /\ rd[c] = "poll" /\ Reading # "none"
           /\ IF q[c] # <<>>
              THEN /\ got' = [got EXCEPT ![c] = Append(@, Head(q[c]))] /\ q' = [q EXCEPT ![c] = Tail(@)]
                   /\ rd' = IF c = 0 THEN [rd EXCEPT ![Head(q[c])] = "poll"] ELSE rd        \* a reader for the item
              ELSE /\ rd' = [rd EXCEPT ![c] = IF Ended(c) THEN "done" ELSE "leave"] /\ UNCHANGED << got, q >>
           /\ UNCHANGED << plan, at, pc, mine, left, open, n, senders, waker, awake, up, lin, seen >>
LeaveWaker(c) == /\ rd[c] = "leave"
                 /\ waker' = [waker EXCEPT ![c] = Reading # "mute"] /\ awake' = [awake EXCEPT ![c] = FALSE]
                 /\ rd' = [rd EXCEPT ![c] = IF Reading = "right" THEN "again" ELSE "sleep"]
                 /\ UNCHANGED << plan, at, pc, mine, left, open, n, q, senders, got, up, lin, seen >>
Again(c) == /\ rd[c] = "again" /\ rd' = [rd EXCEPT ![c] = IF q[c] # <<>> \/ Ended(c) THEN "poll" ELSE "sleep"]
            /\ UNCHANGED << plan, at, pc, mine, left, open, n, q, senders, waker, awake, got, up, lin, seen >>
Rise(c) == /\ rd[c] = "sleep" /\ awake[c] /\ rd' = [rd EXCEPT ![c] = "poll"] /\ awake' = [awake EXCEPT ![c] = FALSE]
           /\ UNCHANGED << plan, at, pc, mine, left, open, n, q, senders, waker, got, up, lin, seen >>

Next == \/ \E t \in Threads : Begin(t) \/ Unlocked(t) \/ Send(t) \/ Leave(t)
        \/ Down
        \/ \E c \in Chans : Poll(c) \/ LeaveWaker(c) \/ Again(c) \/ Rise(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Safety *)
\* each request creates an item when nothing of it is under way, and only then
RECURSIVE Walk(_, _, _)
Walk(ops, tab, k) ==      \* tab: << key, item >> under way, k: items so far
  IF ops = <<>> THEN TRUE
  ELSE LET o == Head(ops)
           p == plan[o[1]][o[2]]
           f == { x \in tab : x[1] = p.k }
           it == IF f = {} THEN k + 1 ELSE (CHOOSE x \in f : TRUE)[2]
       IN /\ o[3] = it /\ o[4] = (f = {})
          /\ Walk(Tail(ops), IF p.frag THEN (tab \ f) \cup { << p.k, it >> } ELSE tab \ f, IF f = {} THEN k + 1 ELSE k)
Once == Walk(lin, {}, 0)
InOrder == \A j \in 1..Len(got[0]) : got[0][j] = j
\* what is sent is got or on its way, once, in each submission's order, and nowhere else
Sent(t, i) == IF i < at[t] THEN Msgs ELSE IF i = at[t] /\ pc[t] = "send" THEN Msgs - left[t] ELSE 0
Content == \A e \in 1..Len(lin) :
  LET t == lin[e][1]
      i == lin[e][2]
      all == got[lin[e][3]] \o q[lin[e][3]]
      pos(j) == { x \in 1..Len(all) : all[x] = Name(t, i, j) }
  IN /\ \A j \in 1..Sent(t, i) : Cardinality(pos(j)) = 1
     /\ \A j \in 1..Msgs : j + 1 <= Sent(t, i) => \A x \in pos(j), y \in pos(j + 1) : x < y
NoMore == LET RECURSIVE Sum(_) 
              Sum(c) == IF c = 0 THEN 0 ELSE Len(got[c]) + Len(q[c]) + Sum(c - 1)
              RECURSIVE All(_)
              All(e) == IF e = 0 THEN 0 ELSE Sent(lin[e][1], lin[e][2]) + All(e - 1)
          IN Sum(MaxItems) = All(Len(lin))
\* nothing comes after an end
EndIsEnd == \A c \in Chans : rd[c] = "done" => q[c] = <<>> /\ senders[c] = 0
(* Liveness *)
Over == ~up /\ \A c \in 1..MaxItems : c <= n => rd[c] = "done" /\ rd[0] = "done"
EveryoneReads == <>[]Over
=============================================================================
