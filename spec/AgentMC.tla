------------------------------ MODULE AgentMC -------------------------------
(* The design of the agent: a loop that accepts connections from a queue,    *)
(* a task for each of them, a shutdown that stops the loop and the idle      *)
(* tasks, and the wait for the others.  Everything that can be seen of it is *)
(* given to the observer of Agent, which has to accept it.                   *)
(* Wrong: "" or a mistake the theorems have to find:                         *)
(*   "stop" the loop ends when it cannot accept, "nowait" it returns without *)
(*   waiting, "kill" shutdown ends running calls, "idle" idle connections    *)
(*   keep it waiting, "mix" answers go to another client, "share" fragments  *)
(*   are kept for all connections, "spread" a failure ends the others, too,  *)
(*   "late" it accepts after it has returned.                                *)
EXTENDS Agent

CONSTANTS Conns, Wrong, Scripts, MayStarve, Serves

VARIABLES o, todo, net, back, task, loop, shut, starved, opened, gone
vars == << o, todo, net, back, task, loop, shut, starved, opened, gone >>
\* todo: what each client still sends; net: both directions; back: the queue of connections; task: per connection;
\* loop: accept, drain, returned per serve call

H == [t |-> "hello"]
R(c, i, kind, fr) == [t |-> "req", frag |-> fr, sid |-> 1, fid |-> i, m |-> ToString(c) \o ToString(i), kind |-> kind]
ScriptOf(name, c) ==
  CASE name = "ok"    -> << H, R(c, 1, "ok", FALSE) >>
    [] name = "gate"  -> << H, R(c, 1, "gate", FALSE) >>
    [] name = "two"   -> << H, R(c, 1, "gate", FALSE), R(c, 2, "ok", FALSE) >>
    [] name = "frags" -> << H, R(c, 1, "ok", TRUE), R(c, 1, "ok", FALSE) >>
    [] name = "fail"  -> << H, R(c, 1, "fail", FALSE) >>
    [] name = "panic" -> << H, R(c, 1, "panic", FALSE) >>
    [] name = "bad"   -> << H, [t |-> "bad"] >>
    [] name = "bye"   -> << H, [t |-> "bye"] >>
    [] name = "half"  -> << H, R(c, 1, "ok", FALSE), [t |-> "half"] >>
    [] name = "idle"  -> << H >>
    [] name = "mute"  -> << >>
    [] name = "part"  -> << [t |-> "part"] >>
    [] name = "check" -> << [t |-> "check"] >>

Task == [st |-> "none", tab |-> {}, run |-> <<>>]        \* none, back, new, ready, end
Init == /\ todo \in [Conns -> Scripts] /\ o = Fresh(Conns, Serves, FALSE)
        /\ net = [c \in Conns |-> [up |-> <<>>, down |-> <<>>, closed |-> FALSE]]
        /\ back = <<>> /\ task = [c \in Conns |-> Task] /\ loop = [i \in 1..Serves |-> "accept"]
        /\ shut = FALSE /\ starved = FALSE /\ opened = {} /\ gone = {}
Scr(c) == todo[c]

See(e) == o' = Step(o, e)
Blind == UNCHANGED o

(* the clients *)
Connect(c) == /\ task[c].st = "none" /\ task' = [task EXCEPT ![c].st = "back"] /\ back' = Append(back, c)
              /\ todo' = [todo EXCEPT ![c] = [name |-> @, at |-> 1]]
              /\ See([e |-> "connect", c |-> c]) /\ UNCHANGED << net, loop, shut, starved, opened, gone >>
Rest(c) == IF task[c].st = "none" THEN <<>> ELSE LET q == ScriptOf(todo[c].name, c) IN SubSeq(q, todo[c].at, Len(q))
Send(c) == /\ task[c].st # "none" /\ c \notin gone /\ Rest(c) # <<>>
           /\ net' = [net EXCEPT ![c].up = Append(@, Head(Rest(c)))] /\ todo' = [todo EXCEPT ![c].at = @ + 1]
           /\ See([e |-> "send", c |-> c, d |-> Head(Rest(c))]) /\ UNCHANGED << back, task, loop, shut, starved, opened, gone >>
Receive(c) == /\ c \notin gone /\ net[c].down # <<>>
              /\ net' = [net EXCEPT ![c].down = Tail(@)]
              /\ See([e |-> "frame", c |-> c, f |-> Head(net[c].down)]) /\ UNCHANGED << todo, back, task, loop, shut, starved, opened, gone >>
SeeEnd(c) == /\ c \notin gone /\ net[c].down = <<>> /\ net[c].closed /\ ~o.cl[c].eof
             /\ See([e |-> "eof", c |-> c]) /\ UNCHANGED << todo, net, back, task, loop, shut, starved, opened, gone >>
Leave(c) == /\ task[c].st # "none" /\ c \notin gone /\ Rest(c) = <<>> /\ todo[c].name \in {"gate", "idle"}
            /\ gone' = gone \cup {c} /\ net' = [net EXCEPT ![c].up = Append(@, [t |-> "half"])]
            /\ See([e |-> "gone", c |-> c]) /\ UNCHANGED << todo, back, task, loop, shut, starved, opened >>

(* the world *)
Names == { ToString(c) \o "1" : c \in Conns }
Open(k) == /\ k \notin opened /\ opened' = opened \cup {k} /\ See([e |-> "open", k |-> k])
           /\ UNCHANGED << todo, net, back, task, loop, shut, starved, gone >>
Shut == /\ ~shut /\ shut' = TRUE /\ See([e |-> "shutdown"]) /\ UNCHANGED << todo, net, back, task, loop, starved, opened, gone >>
Starve == /\ MayStarve /\ ~starved /\ ~shut /\ starved' = TRUE /\ See([e |-> "starve"]) /\ UNCHANGED << todo, net, back, task, loop, shut, opened, gone >>
Feed == /\ starved /\ starved' = FALSE /\ See([e |-> "feed"]) /\ UNCHANGED << todo, net, back, task, loop, shut, opened, gone >>

(* the agent *)
Accept(i) == /\ loop[i] = "accept" \/ (Wrong = "late" /\ loop[i] = "returned") 
             /\ back # <<>> /\ ~starved
             /\ task' = [task EXCEPT ![Head(back)].st = "new"] /\ back' = Tail(back)
             /\ Blind /\ UNCHANGED << todo, net, loop, shut, starved, opened, gone >>
AcceptFails(i) == /\ loop[i] = "accept" /\ back # <<>> /\ starved /\ Wrong = "stop"
                  /\ loop' = [loop EXCEPT ![i] = "drain"] /\ Blind /\ UNCHANGED << todo, net, back, task, shut, starved, opened, gone >>
StopLoop(i) == /\ loop[i] = "accept" /\ shut /\ loop' = [loop EXCEPT ![i] = "drain"]
               /\ Blind /\ UNCHANGED << todo, net, back, task, shut, starved, opened, gone >>
Busy == { c \in Conns : task[c].st \in {"new", "ready"} }
Return(i) == /\ loop[i] = "drain" /\ (Busy = {} \/ Wrong = "nowait")
             /\ loop' = [loop EXCEPT ![i] = "returned"] /\ See([e |-> "returned", i |-> i])
             /\ UNCHANGED << todo, net, back, task, shut, starved, opened, gone >>

(* a connection's task *)
Others(c) == IF Wrong = "mix" /\ \E d \in Conns : d # c /\ task[d].st \in {"new", "ready"} THEN CHOOSE d \in Conns : d # c /\ task[d].st \in {"new", "ready"} ELSE c
ToClient(c, fs) == [net EXCEPT ![c].down = @ \o fs]
Close(n, c) == [n EXCEPT ![c].closed = TRUE]
DiscF(code) == [t |-> "adisc", code |-> code]
KeyT(c, d) == << IF Wrong = "share" THEN 0 ELSE c, d.sid, d.fid >>
Tab(c) == IF Wrong = "share" THEN UNION { task[x].tab : x \in Conns } ELSE task[c].tab
Live(c) == task[c].st \in {"new", "ready"}
EndTask(c) == [task EXCEPT ![c] = [@ EXCEPT !.st = "end", !.run = <<>>]]
\* what a failure does
Failing(c, fs) == /\ net' = IF Wrong = "spread" THEN [x \in Conns |-> IF x = c THEN Close(ToClient(c, fs), c)[c] ELSE IF Live(x) THEN [net[x] EXCEPT !.closed = TRUE] ELSE net[x]]
                           ELSE Close(ToClient(c, fs), c)
                  /\ task' = IF Wrong = "spread" THEN [x \in Conns |-> IF Live(x) THEN [task[x] EXCEPT !.st = "end", !.run = <<>>] ELSE task[x]] ELSE EndTask(c)
Take(c) ==
  /\ Live(c) /\ task[c].run = <<>> /\ net[c].up # <<>>
  /\ LET d == Head(net[c].up)
         used == [net EXCEPT ![c].up = Tail(@)]
     IN CASE d.t = "hello" -> /\ task' = [task EXCEPT ![c].st = "ready"]
                              /\ net' = [used EXCEPT ![c].down = Append(@, [t |-> "ahello"])] /\ Blind
          [] d.t = "check" -> /\ task' = EndTask(c) /\ net' = Close([used EXCEPT ![c].down = Append(@, [t |-> "ahello"])], c) /\ Blind
          [] d.t \in {"bad", "bye"} -> Failing(c, << DiscF(IF d.t = "bye" THEN 0 ELSE 4) >>) /\ Blind
          [] d.t = "half" -> task' = EndTask(c) /\ net' = Close(used, c) /\ Blind
          [] d.t = "part" -> FALSE
          [] d.t = "req"  -> LET had == { p \in Tab(c) : p.key = KeyT(c, d) }
                                 all == IF had = {} THEN [key |-> KeyT(c, d), k |-> d.m, kind |-> d.kind] ELSE [The(had) EXCEPT !.k = @ \o "+" \o d.m]
                             IN IF d.frag THEN /\ task' = [x \in Conns |-> [task[x] EXCEPT !.tab = IF x = c THEN (@ \ had) \cup {all} ELSE @ \ had]]
                                               /\ net' = used /\ Blind
                                ELSE /\ task' = [x \in Conns |-> [task[x] EXCEPT !.tab = @ \ had, !.run = IF x = c THEN << [k |-> all.k, kind |-> all.kind, d |-> d] >> ELSE @]]
                                     /\ net' = used /\ See([e |-> "call", k |-> all.k])
  /\ UNCHANGED << todo, back, loop, shut, starved, opened, gone >>
CallEnds(c) ==
  /\ Live(c) /\ task[c].run # <<>>
  /\ LET r == task[c].run[1]
     IN /\ r.kind # "gate" \/ r.k \in opened
        /\ See([e |-> "ret", k |-> r.k, r |-> CASE r.kind \in {"ok", "gate"} -> "ok" [] r.kind = "panic" -> "panic" [] OTHER -> "err"])
        /\ CASE r.kind \in {"ok", "gate"} -> /\ task' = [task EXCEPT ![c].run = <<>>]
                                            /\ net' = ToClient(Others(c), << [t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> r.d.sid, fid |-> r.d.fid, k |-> r.k] >>)
             [] r.kind = "panic" -> Failing(c, <<>>)
             [] OTHER -> Failing(c, << DiscF(99) >>)
  /\ UNCHANGED << todo, back, loop, shut, starved, opened, gone >>
Cancelled(c) == /\ Live(c) /\ shut /\ Wrong # "idle"
                /\ IF task[c].run = <<>> THEN Blind ELSE Wrong = "kill" /\ See([e |-> "drop", k |-> task[c].run[1].k])
                /\ task' = EndTask(c) /\ net' = Close(net, c)
                /\ UNCHANGED << todo, back, loop, shut, starved, opened, gone >>

Inner == \/ \E i \in 1..Serves : Accept(i) \/ AcceptFails(i) \/ StopLoop(i) \/ Return(i)
         \/ \E c \in Conns : Take(c) \/ CallEnds(c) \/ Cancelled(c)
Quiet == ~ENABLED Inner
\* after a long time, with nothing going on inside
Nothing(c) == /\ Quiet /\ task[c].st # "none" /\ c \notin gone /\ net[c].down = <<>> /\ ~net[c].closed
              /\ See([e |-> "nothing", c |-> c]) /\ UNCHANGED << todo, net, back, task, loop, shut, starved, opened, gone >>
NotReturned(i) == /\ Quiet /\ loop[i] # "returned"
                  /\ See([e |-> "notreturned", i |-> i]) /\ UNCHANGED << todo, net, back, task, loop, shut, starved, opened, gone >>
NoCall(k) == /\ Quiet /\ ~\E c \in Conns : task[c].run # <<>> /\ task[c].run[1].k = k
             /\ See([e |-> "nocall", k |-> k]) /\ UNCHANGED << todo, net, back, task, loop, shut, starved, opened, gone >>
Settle == /\ Quiet /\ See([e |-> "settle"]) /\ UNCHANGED << todo, net, back, task, loop, shut, starved, opened, gone >>

Outer == \/ \E c \in Conns : Connect(c) \/ Send(c) \/ Receive(c) \/ SeeEnd(c) \/ Leave(c)
         \/ \E k \in Names : Open(k)
         \/ Shut \/ Starve \/ Feed
Waits == \/ \E c \in Conns : Nothing(c)
         \/ \E i \in 1..Serves : NotReturned(i)
         \/ \E k \in Names : NoCall(k)
         \/ Settle
Next == o.ok /\ (Inner \/ Outer \/ Waits)
Spec == Init /\ [][Next]_vars
\* everybody does what they can: for liveness
Fair == Spec /\ WF_vars(Inner) /\ SF_vars(\E i \in 1..Serves : Accept(i)) /\ WF_vars(\E c \in Conns : Receive(c) \/ SeeEnd(c)) /\ WF_vars(\E k \in Names : Open(k)) /\ WF_vars(Feed)
        /\ \A c \in Conns : WF_vars(Take(c)) /\ WF_vars(CallEnds(c)) /\ WF_vars(Cancelled(c)) /\ WF_vars(Send(c))

Accepted == o.ok
Drained == \A i \in 1..Serves : loop[i] = "returned" => Busy = {}
NoneLate == (\A i \in 1..Serves : loop[i] = "returned") => \A c \in Conns : task[c].st # "new"
Returns == [](shut => <>(\A i \in 1..Serves : loop[i] = "returned"))
Greeted == \A c \in Conns : [](task[c].st = "back" => <>(shut \/ task[c].st # "back"))
=============================================================================
