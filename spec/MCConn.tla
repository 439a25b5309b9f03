------------------------------- MODULE MCConn -------------------------------
(* A connection (Conn) with everything its environment may do: a peer that   *)
(* sends any sequence of frames and may end the stream, a service that may   *)
(* be slow, fail or never answer, and a shutdown at any time.                *)
EXTENDS Conn, Json

CONSTANTS MaxFrames,     \* frames the peer sends
          Cfg,           \* the configuration of the agent
          HelloFirst,    \* whether the first frame is always a HELLO
          Failures,      \* whether peer and service may misbehave
          MAXT,          \* ticks a scenario may last
          Slow,          \* whether the peer may be slow in taking what is written
          Script         \* whether the scenario is recorded (for simulation)



VARIABLES s, inq, n, taken, sent, calls, script, closed
vars == << s, inq, n, taken, sent, calls, script, closed >>
view == << s, inq, n, taken, sent, calls, closed >>

Id(k) == Small(k)
HelloF(hc, caps) == [t |-> "hhello", versions |-> << <<1, 0>>, <<2, 0>> >>, mfs |-> <<200, 0>>, caps |-> caps, hc |-> hc, eid |-> <<>>]
NotifyF(fr, sid, fid, k) == [t |-> "notify", frag |-> fr, sid |-> Id(sid), fid |-> Id(fid), msgs |-> << [name |-> <<k>>, args |-> <<>>] >>]

Fr(f) == [res |-> "frame", frame |-> f, abort |-> FALSE]
Hellos == { Fr(HelloF(hc, caps)) : hc \in IF Failures THEN { <<>>, <<TRUE>>, <<FALSE>> } ELSE { <<>> },
              caps \in { <<>>, <<"fragmentation">>, <<"async", "fragmentation">> } }
Notifies == { Fr(NotifyF(fr, sid, fid, n)) : fr \in BOOLEAN, sid \in {1, 2}, fid \in {1, 2} }
Aborts == { [Fr(NotifyF(FALSE, 1, 1, n)) EXCEPT !.abort = TRUE] }
Others == { [res |-> "invalid"], [res |-> "size"],
            Fr([t |-> "hdisc", code |-> <<0, 0>>, msg |-> <<>>]),
            Fr([t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> Id(1), fid |-> Id(1), acts |-> <<>>]),
            Fr([HelloF(<<>>, <<>>) EXCEPT !.versions = << <<9, 9>> >>]) }
Pool == Notifies \cup (IF Failures /\ (~Script \/ n + 1 >= MaxFrames) THEN Aborts \cup Others \cup Hellos ELSE {})

\* recorded scenarios fail only towards their end, or they would all be short
Late == ~Script \/ n = MaxFrames
Trouble == Failures /\ Late

Note(x) == IF Script THEN script' = Append(script, x) ELSE UNCHANGED script

Init == /\ s = Start(Cfg) /\ inq = <<>> /\ n = 0 /\ taken = <<>> /\ sent = <<>> /\ calls = <<>>
        /\ script = <<>> /\ closed = FALSE

Step(t) == s' = t /\ ~closed

(* the environment *)
Deliver ==
  /\ ~closed /\ n < MaxFrames /\ s.broken = "" /\ Len(inq) < 2
  /\ \E r \in IF n = 0 /\ HelloFirst THEN Hellos ELSE IF n = 0 THEN Hellos \cup Pool ELSE Pool :
       /\ inq' = Append(inq, r)
       /\ Note([k |-> "d", at |-> s.now, r |-> r])
  /\ n' = n + 1
  /\ UNCHANGED << s, taken, sent, calls, closed >>
PeerGone == /\ Trouble /\ s.broken = "" /\ Step([s EXCEPT !.broken = "read"]) /\ Note([k |-> "eof", at |-> s.now])
            /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
Cancel == /\ ~s.cancelled /\ Late /\ Step([s EXCEPT !.cancelled = TRUE]) /\ Note([k |-> "cancel", at |-> s.now])
          /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
Tick == /\ ~Urgent(s, inq = <<>>) /\ (s.now < MAXT \/ s.phase = "call")
        /\ s.phase = "call" => s.now < Deadline(s, Cfg)
        /\ Step([s EXCEPT !.now = @ + 1])
        /\ UNCHANGED << inq, n, taken, sent, calls, script, closed >>

\* recorded scenarios do not block twice at the same place
Fresh == ~Script \/ \A i \in 1..Len(script) : script[i].k = "block" => script[i].f # Len(sent)
BlockStep == /\ Slow /\ CanBlock(s) /\ Fresh /\ Step(Block(s)) /\ Note([k |-> "block", at |-> s.now, f |-> Len(sent), flush |-> s.phase # "write"])
             /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
UnblockStep == /\ s.blocked /\ Step(Unblock(s)) /\ Note([k |-> "unblock", at |-> s.now])
               /\ UNCHANGED << inq, n, taken, sent, calls, closed >>

(* the connection and its service *)
TakeStep == /\ CanTake(s) /\ inq # <<>> /\ s.broken # "write"
            /\ Step(Take(s, Cfg, Head(inq))) /\ inq' = Tail(inq) /\ taken' = Append(taken, Head(inq))
            /\ UNCHANGED << n, sent, calls, script, closed >>
MakerStep == /\ CanAskMaker(s) /\ s.phase = "make" /\ ~s.mkrdy
             /\ \E r \in IF Trouble THEN {"ok", "err"} ELSE {"ok"} : Step(AskMaker(s, r)) /\ (r = "err" => Note([k |-> "mkready", at |-> s.now, r |-> r])) /\ (r = "ok" => UNCHANGED script)
             /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
MakeStep == /\ CanMake(s) /\ Step(Make(s)) /\ UNCHANGED << inq, n, taken, sent, calls, script, closed >>
MakeEndStep == /\ CanMakeEnd(s)
               /\ \E ok \in IF Trouble THEN BOOLEAN ELSE {TRUE} : Step(MakeEnd(s, ok)) /\ Note([k |-> "made", at |-> s.now, ok |-> ok])
               /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
AskStep == /\ CanAsk(s) /\ s.phase = "call" /\ ~s.rdy
           /\ \E r \in {"ok", "pend"} \cup (IF Trouble THEN {"err"} ELSE {}) :
                /\ (r = "pend" => ~s.asked)
                /\ Step(Ask(s, r, <<1>>)) /\ Note([k |-> "ready", at |-> s.now, r |-> r, i |-> Len(calls) + 1, t0 |-> s.t0])
           /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
CallStep == /\ CanCall(s, s.req[1].msgs) /\ Step(Call(s)) /\ calls' = Append(calls, s.req[1])
            /\ UNCHANGED << inq, n, taken, sent, script, closed >>
Acts(k) == << [a |-> "unset", scope |-> 0, name |-> << k >>, v |-> Null] >>
BigActs == << [a |-> "unset", scope |-> 0, name |-> [i \in 1..200 |-> 97], v |-> Null] >>
ReturnStep == /\ CanReturn(s)
              /\ \E big \in IF Trouble THEN BOOLEAN ELSE {FALSE} :
                   /\ Step(Return(s, IF big THEN BigActs ELSE Acts(Len(calls))))
                   /\ Note([k |-> "ret", at |-> s.now, t0 |-> s.t0, big |-> big, i |-> Len(calls)])
              /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
ReturnErrStep == /\ Trouble /\ CanReturn(s) /\ Step(ReturnErr(s, <<2>>)) /\ Note([k |-> "fail", at |-> s.now, t0 |-> s.t0, i |-> Len(calls)])
                 /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
TimeoutStep == /\ CanTimeout(s, Cfg, s.now) /\ Step(TimedOut(s)) /\ Note([k |-> "timeout", at |-> s.now, i |-> Len(calls)])
               /\ UNCHANGED << inq, n, taken, sent, calls, closed >>
DropStep == /\ CanDrop(s) /\ Step(Drop(s)) /\ UNCHANGED << inq, n, taken, sent, calls, script, closed >>
MayWrite(o) ==
  CASE o.k = "ack"   -> { o.f }
    [] o.k = "hello" -> { HelloOf(o.n) }
    [] o.k = "disc"  -> { [t |-> "adisc", code |-> << c, 0 >>, msg |-> IF o.msg = <<>> THEN <<>> ELSE o.msg[1]] : c \in o.codes }
WriteStep == /\ s.phase = "write" /\ s.broken # "write" /\ ~s.blocked
             /\ \E f \in MayWrite(s.out[1]) :
                  /\ Fits(s, f, Len(Encode(f)))
                  /\ Step([Written(s) EXCEPT !.dirty = TRUE])
                  /\ sent' = Append(sent, f)
             /\ UNCHANGED << inq, n, taken, calls, script, closed >>
FlushStep == /\ s.dirty /\ ~s.blocked /\ Step([s EXCEPT !.dirty = FALSE]) /\ UNCHANGED << inq, n, taken, sent, calls, script, closed >>
StopStep == /\ CanStop(s, inq = <<>>) /\ Step(Stop(s)) /\ UNCHANGED << inq, n, taken, sent, calls, script, closed >>
EndStep == /\ CanEnd(s) /\ ~closed /\ closed' = TRUE
           /\ (Script => PrintT(ToJson(script)))
           /\ UNCHANGED << s, inq, n, taken, sent, calls, script >>

System == TakeStep \/ MakerStep \/ MakeStep \/ MakeEndStep \/ AskStep \/ CallStep \/ ReturnStep \/ ReturnErrStep
          \/ TimeoutStep \/ DropStep \/ WriteStep \/ FlushStep \/ StopStep \/ EndStep
Next == Deliver \/ PeerGone \/ Cancel \/ BlockStep \/ UnblockStep \/ Tick \/ System

\* the connection does what it can; makers, unlike services, are assumed to answer; time passes
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(TakeStep \/ MakerStep \/ MakeStep \/ MakeEndStep \/ CallStep \/ TimeoutStep \/ DropStep
                        \/ StopStep \/ EndStep)
             /\ SF_vars(WriteStep) /\ SF_vars(FlushStep)       \* a slow peer gets on
             /\ WF_vars(AskStep) /\ WF_vars(Tick) /\ WF_vars(UnblockStep)

(******************************** theorems *********************************)
\* Complete requests, said once more without a table: walk over what was taken.
Agreed == IF s.agreed = <<>> THEN {} ELSE s.agreed[1].caps
IsN(r) == r.res = "frame" /\ r.frame.t = "notify"
Same(a, b) == a.frame.sid = b.frame.sid /\ a.frame.fid = b.frame.fid
Closes(r) == ~r.frame.frag \/ r.abort
Whole(i) ==
  LET mine == { j \in 1..i : IsN(taken[j]) /\ Same(taken[j], taken[i])
                             /\ \A k \in j..(i - 1) : ~(IsN(taken[k]) /\ Same(taken[k], taken[i]) /\ Closes(taken[k])) }
      part(j) == IF j \in mine THEN taken[j].frame.msgs ELSE <<>>
  IN [sid |-> taken[i].frame.sid, fid |-> taken[i].frame.fid, msgs |-> FlattenSeq([ j \in 1..i |-> part(j) ])]
Completes == { i \in 2..Len(taken) : IsN(taken[i]) /\ ~taken[i].frame.frag
                                     /\ (~taken[i].abort \/ "fragmentation" \notin Agreed) }
Requests == LET q == SetToSortSeq(Completes, <) IN [ i \in 1..Len(q) |-> Whole(q[i]) ]

\* each complete request is called at most once, in order, with all its messages
CallsMatch == /\ Len(calls) <= Len(Requests)
              /\ \A i \in 1..Len(calls) : calls[i] = Requests[i]
AcksOf == SelectSeq(sent, LAMBDA f : f.t = "ack")
AcksMatch == /\ Len(AcksOf) <= Len(calls)
             /\ \A i \in 1..Len(AcksOf) :
                  /\ AcksOf[i].sid = calls[i].sid /\ AcksOf[i].fid = calls[i].fid
                  /\ AcksOf[i].acts = Acts(i) /\ ~AcksOf[i].frag /\ ~AcksOf[i].abort
\* requests are finished one after the other
OneAtATime == Len(calls) <= Len(AcksOf) + 1
Phases == /\ sent # <<>> => sent[1].t \in {"ahello", "adisc"}
          /\ \A i \in 2..Len(sent) : sent[i].t # "ahello"
          /\ calls # <<>> => sent[1].t = "ahello"
          /\ calls # <<>> => ~(taken[1].frame.hc = <<TRUE>>)
          /\ (s.made => taken[1].res = "frame" /\ taken[1].frame.t = "hhello" /\ taken[1].frame.hc # <<TRUE>>)
OneDisconnect == \A i \in 1..Len(sent) : sent[i].t = "adisc" => i = Len(sent)
LastTaken == IF taken = <<>> THEN [res |-> "none"] ELSE taken[Len(taken)]
\* a peer that says goodbye gets a normal disconnect, unless something failed before
Goodbye == (closed /\ s.broken # "write" /\ LastTaken.res = "frame" /\ LastTaken.frame.t = "hdisc" /\ Len(taken) > 1)
             => sent[Len(sent)].t = "adisc" /\ sent[Len(sent)].code = <<0, 0>>
\* a connection that ends on its own has told the peer why
Explained == (closed /\ s.broken = "" /\ ~s.cancelled) =>
                \/ sent[Len(sent)].t = "adisc"
                \/ sent[Len(sent)].t = "ahello" /\ taken[1].frame.hc = <<TRUE>>
InTime == s.phase = "call" => s.now <= Deadline(s, Cfg)
\* a request that reached the service is answered before the end, or the failure is reported
Drained == (closed /\ s.broken # "write" /\ Len(AcksOf) < Len(calls)) => sent[Len(sent)].t = "adisc"
SizesHold == \A i \in 1..Len(sent) : Len(Encode(sent[i])) <= (IF i = 1 THEN MaxFrame(Cfg) ELSE
                   IF s.agreed # <<>> THEN Clip(FromU32(s.agreed[1].mfs)) ELSE MaxFrame(Cfg))
NotMixed == \A p, q \in s.tab : KeyOf(p) = KeyOf(q) => p = q
Theorems == CallsMatch /\ AcksMatch /\ OneAtATime /\ Phases /\ OneDisconnect /\ Goodbye /\ Explained /\ InTime
            /\ Drained /\ SizesHold /\ NotMixed

\* after a shutdown the connection ends; and no call lasts for ever
Stops == s.cancelled ~> closed
Answered == \A k \in 1..MaxFrames : Len(calls) >= k ~> (Len(AcksOf) >= k \/ closed)

CfgA == [versions |-> << <<2, 0>> >>, caps |-> <<"fragmentation", "pipelining">>, mfs |-> <<150>>, maxt |-> <<1>>]
CfgB == [versions |-> <<>>, caps |-> <<>>, mfs |-> <<>>, maxt |-> <<1>>]
=============================================================================
