------------------------------- MODULE Agent --------------------------------
(* What may be seen of an agent from outside: by its clients, its services,  *)
(* and those who ask it to stop.  The observer takes one event after the     *)
(* other; it keeps what has been sent, what is owed in return, and which     *)
(* calls run.  AgentMC shows that it accepts everything the design does and  *)
(* refuses designs that are wrong; AgentTrace judges the real agent with it. *)
(*                                                                           *)
(* Events: connect c, send c d, frame c f, eof c, nothing c (a long time),   *)
(* gone c, open k, call k, ret k r, drop k, nocall k, shutdown, returned i,  *)
(* notreturned i, starve, feed, settle, reading c (c takes what comes).      *)
(* What is sent (d.t): hello, check (a health check), req (frag, sid, fid,   *)
(* m, kind), bye, bad (anything undecodable), part (of a frame), half (the   *)
(* end of the stream).                                                       *)
(* Kinds of requests: ok, fail, panic, gate and gatefail (answered when      *)
(* opened), never, fat (answered with more than fits between the two).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Client == [conn |-> "no",         \* no, open, gone
           late |-> FALSE,        \* connected when the agent had returned
           todo |-> <<>>,         \* sent, and not taken by the agent
           st |-> "new",          \* new, ready, ended
           tab |-> {},            \* requests with fragments so far
           run |-> <<>>,          \* the call that runs
           owed |-> <<>>,         \* what the client will get
           got |-> FALSE,         \* it got something
           acc |-> FALSE,         \* it has surely been accepted
           full |-> FALSE,        \* more is on its way than fits in between, and nobody takes it
           eof |-> FALSE]

Fresh(clients, serves, limited) ==
  [ok |-> TRUE, serves |-> serves, limited |-> limited,     \* whether calls time out
   shut |-> FALSE, ret |-> {}, starved |-> FALSE, opened |-> {}, cl |-> [c \in clients |-> Client]]

Bad(o) == [o EXCEPT !.ok = FALSE]
If(o, p, t) == IF p THEN t ELSE Bad(o)
Clients(o) == DOMAIN o.cl
Over(o) == Cardinality(o.ret) = o.serves

(****************** what follows from what has been sent *******************)
Eof == [t |-> "eof"]
Disc(codes) == [t |-> "adisc", codes |-> codes]
ANY == 1..99
End(s, replies) == [s EXCEPT !.st = "ended", !.owed = @ \o replies, !.todo = <<>>]
Pop(s) == [s EXCEPT !.todo = Tail(@)]
KeyOf(d) == << d.sid, d.fid >>
Parts(s, d) == { p \in s.tab : p.key = KeyOf(d) }
Gather(s, d) == IF Parts(s, d) = {} THEN [key |-> KeyOf(d), k |-> d.m, kind |-> d.kind]
                ELSE LET p == CHOOSE x \in Parts(s, d) : TRUE IN [p EXCEPT !.k = @ \o "+" \o d.m]

RECURSIVE Norm(_)
Norm(s) ==
  IF s.st = "ended" \/ s.todo = <<>> \/ s.run # <<>> THEN s
  ELSE LET d == Head(s.todo)
       IN CASE d.t = "hello" -> IF s.st = "new" THEN Norm([Pop(s) EXCEPT !.st = "ready", !.owed = Append(@, [t |-> "ahello"])])
                                ELSE End(s, << Disc(ANY), Eof >>)
            [] d.t = "check" -> IF s.st = "new" THEN End(s, << [t |-> "ahello"], Eof >>) ELSE End(s, << Disc(ANY), Eof >>)
            [] d.t = "bye"   -> End(s, << Disc(IF s.st = "new" THEN ANY ELSE {0}), Eof >>)
            [] d.t = "bad"   -> End(s, << Disc(ANY), Eof >>)
            [] d.t = "half"  -> End(s, << Eof >>)
            [] d.t = "part"  -> IF Len(s.todo) > 1 THEN End(s, << Eof >>) ELSE s
            [] d.t = "req"   -> IF s.st = "new" THEN End(s, << Disc(ANY), Eof >>)
                                ELSE IF d.frag THEN Norm([Pop(s) EXCEPT !.tab = (@ \ Parts(s, d)) \cup { Gather(s, d) }])
                                ELSE s

\* the request that has to be called next
Callable(s) == IF s.st = "ready" /\ s.run = <<>> /\ s.todo # <<>> /\ Head(s.todo).t = "req" THEN << Gather(s, Head(s.todo)) >> ELSE <<>>

(************************ what has to come by and by ***********************)
Finishes(o, r) == r.kind \in {"ok", "fail", "panic", "fat"} \/ (r.kind \in {"gate", "gatefail"} /\ r.k \in o.opened) \/ o.limited
\* the agent has, or will have, taken the connection
Served(o, s) == s.conn = "open" /\ ~s.late /\ (s.got \/ s.acc \/ (~o.shut /\ ~o.starved /\ o.ret = {}))
Due(o, s) ==
  /\ Served(o, s)
  /\ \/ s.owed # <<>> /\ (o.shut => s.got \/ s.acc)
     \/ s.run # <<>> /\ Finishes(o, s.run[1])
     \/ ~o.shut /\ Callable(s) # <<>> /\ Finishes(o, Callable(s)[1])
     \/ o.shut /\ s.run = <<>>

(******************************** the events *******************************)
Acks(s) == { j \in 1..Len(s.owed) : s.owed[j].t = "ack" }
AckOf(r) == [t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> r.key[1], fid |-> r.key[2], k |-> r.k]

\* f: a frame as the client decoded it, of an ACK only the name of the call it speaks of
Matches(f, x) == CASE x.t = "ahello" -> f.t = "ahello"
                   [] x.t = "ack"    -> f = x
                   [] x.t = "adisc"  -> f.t = "adisc" /\ f.code \in x.codes
                   [] OTHER          -> FALSE

Put(o, c, s) == [o EXCEPT !.cl[c] = s]
Owner(o, k) == { c \in Clients(o) : o.cl[c].run # <<>> /\ o.cl[c].run[1].k = k }
Calls(o, k) == { c \in Clients(o) : Callable(o.cl[c]) # <<>> /\ Callable(o.cl[c])[1].k = k }
The(set) == CHOOSE x \in set : TRUE

OnFrame(o, c, f) ==
  LET s == o.cl[c]
  IN IF s.owed # <<>> /\ ~s.late /\ ~s.eof /\ Matches(f, Head(s.owed)) THEN Put(o, c, [s EXCEPT !.owed = Tail(@), !.got = TRUE])
     \* timed out, before the call was seen to be dropped
     ELSE IF s.owed = <<>> /\ s.run # <<>> /\ o.limited /\ f.t = "adisc" /\ f.code = 2
          THEN Put(o, c, [End(s, << Eof >>) EXCEPT !.got = TRUE])
     ELSE Bad(o)

OnEof(o, c) ==
  LET s == o.cl[c]
  IN If(o, \/ s.late \/ s.eof
           \/ s.owed # <<>> /\ Head(s.owed) = Eof
           \/ o.shut /\ s.run = <<>> /\ Acks(s) = {},        \* a running call is waited for, and its answer written
        Put(o, c, [s EXCEPT !.eof = TRUE, !.owed = <<>>]))

OnCall(o, k) ==
  IF Calls(o, k) = {} \/ Over(o) THEN Bad(o)
  ELSE LET c == The(Calls(o, k))
           s == o.cl[c]
       IN If(o, ~s.late, Put(o, c, [Pop(s) EXCEPT !.run = Callable(s), !.tab = @ \ Parts(s, Head(s.todo))]))

OnRet(o, k, r) ==
  IF Owner(o, k) = {} THEN Bad(o)
  ELSE LET c == The(Owner(o, k))
           q == o.cl[c].run[1]
           s == [o.cl[c] EXCEPT !.run = <<>>, !.full = (q.kind = "fat" /\ r = "ok")]
           want == CASE q.kind \in {"ok", "gate", "fat"} -> "ok" [] q.kind = "panic" -> "panic" [] OTHER -> "err"
       IN If(o, r = want,
             Put(o, c, IF s.st = "ended" THEN s
                       ELSE CASE r = "ok"  -> Norm([s EXCEPT !.owed = Append(@, AckOf(q))])
                              [] r = "err" -> End(s, << Disc(ANY), Eof >>)
                              [] OTHER     -> End(s, << Eof >>)))

\* a call that was given up: because it took too long, or because nobody is there any more
OnDrop(o, k) ==
  IF Owner(o, k) = {} THEN Bad(o)
  ELSE LET c == The(Owner(o, k))
           s == [o.cl[c] EXCEPT !.run = <<>>]
       IN If(o, o.limited \/ s.conn = "gone", Put(o, c, IF s.st = "ended" THEN s ELSE End(s, << Disc({2}), Eof >>)))

\* its answer can not have been written yet
Held(s) == s.full /\ s.conn = "open"

Step(o, e) ==
  IF ~o.ok THEN o
  ELSE CASE e.e = "connect"     -> Put(o, e.c, [o.cl[e.c] EXCEPT !.conn = "open", !.late = Over(o)])
         [] e.e = "noconnect"   -> If(o, o.ret # {}, o)
         [] e.e = "send"        -> Put(o, e.c, Norm([o.cl[e.c] EXCEPT !.todo = IF @ = <<>> /\ o.cl[e.c].st = "ended" THEN @ ELSE Append(@, e.d)]))
         [] e.e = "frame"       -> OnFrame(o, e.c, e.f)
         [] e.e = "eof"         -> OnEof(o, e.c)
         [] e.e = "nothing"     -> If(o, ~Due(o, o.cl[e.c]), o)
         [] e.e = "reading"     -> Put(o, e.c, [o.cl[e.c] EXCEPT !.full = FALSE])
         [] e.e = "gone"        -> Put(o, e.c, [o.cl[e.c] EXCEPT !.conn = "gone"])
         [] e.e = "open"        -> [o EXCEPT !.opened = @ \cup {e.k}]
         [] e.e = "call"        -> OnCall(o, e.k)
         [] e.e = "ret"         -> OnRet(o, e.k, e.r)
         [] e.e = "drop"        -> OnDrop(o, e.k)
         [] e.e = "nocall"      -> If(o, o.shut \/ \A c \in Calls(o, e.k) : ~Served(o, o.cl[c]), o)
         [] e.e = "shutdown"    -> [o EXCEPT !.shut = TRUE]
         [] e.e = "returned"    -> If(o, o.shut /\ \A c \in Clients(o) : o.cl[c].run = <<>> /\ ~Held(o.cl[c]), [o EXCEPT !.ret = @ \cup {e.i}])
         [] e.e = "notreturned" -> If(o, ~o.shut \/ \E c \in Clients(o) : Held(o.cl[c]) \/ (o.cl[c].run # <<>> /\ ~Finishes(o, o.cl[c].run[1])), o)
         [] e.e = "starve"      -> [o EXCEPT !.starved = TRUE]
         [] e.e = "feed"        -> [o EXCEPT !.starved = FALSE]
         [] e.e = "settle"      -> IF o.starved \/ o.shut THEN o
                                   ELSE [o EXCEPT !.cl = [c \in Clients(o) |-> [o.cl[c] EXCEPT !.acc = @ \/ o.cl[c].conn = "open"]]]
         [] OTHER               -> Bad(o)
=============================================================================
