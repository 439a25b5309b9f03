-------------------------------- MODULE Conn --------------------------------
(* One agent connection: handshake, requests, fragments, replies, failures,  *)
(* deadline and shutdown.  The steps are written as functions from state to  *)
(* state; MCConn explores them with an environment, ConnTrace checks that    *)
(* they explain what the real connection did.                                *)
EXTENDS SpopWire

CONSTANT DropAborted      \* whether an aborted fragmented request is dropped (as it has to be)

Range_(q) == { q[i] : i \in 1..Len(q) }

(**************************** configuration ********************************)
\* cfg: versions and caps as sequences, maxt as a sequence of at most one number, mfs: nothing, a number, or the limbs of a large one
Versions(c) == IF c.versions = <<>> THEN { <<2, 0>> } ELSE Range_(c.versions)
Caps(c) == Range_(c.caps)
LARGE == 2^30            \* nothing here is as long as this; stands for all limits above it
Clip(w) == IF ToNat(w) = 0 - 1 THEN LARGE ELSE ToNat(w)
MaxFrame64(c) == IF c.mfs = <<>> THEN Small(16384) ELSE IF Len(c.mfs) = 1 THEN Small(c.mfs[1]) ELSE c.mfs
MaxFrame(c) == Clip(MaxFrame64(c))
MaxTime(c) == IF c.maxt = <<>> THEN 15000 ELSE c.maxt[1]

VersionLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* the smaller of a 64-bit and a 32-bit number, as a 32-bit one
MinLimit(n, w) == IF n[3] # 0 \/ n[4] # 0 THEN w ELSE Min32(Low32(n), w)

Negotiate(c, h) ==
  LET common == Range_(h.versions) \cap Versions(c)
  IN IF common = {} THEN <<>>
     ELSE << [version |-> CHOOSE v \in common : \A u \in common : VersionLeq(u, v),
              mfs |-> MinLimit(MaxFrame64(c), h.mfs),
              caps |-> Range_(h.caps) \cap Caps(c)] >>

(******************************** the state ********************************)
Start(c) ==
  [ phase |-> "hello",     \* hello, make, write, ready, call, end
    out |-> <<>>,          \* what has to be written in phase write
    after |-> "end",       \* the phase after that
    agreed |-> <<>>,       \* the outcome of the handshake
    limit |-> MaxFrame(c), \* the frame size limit in force
    tab |-> {},            \* requests with fragments so far
    req |-> <<>>,          \* the request being processed
    mkasked |-> FALSE, mkrdy |-> FALSE, made |-> FALSE,
    asked |-> FALSE, rdy |-> FALSE, called |-> FALSE, live |-> FALSE,
    t0 |-> 0, now |-> 0,
    cancelled |-> FALSE,
    broken |-> "",         \* read: end of stream or read error seen; write: write error seen
    blocked |-> FALSE,     \* the peer takes nothing at the moment
    dirty |-> FALSE ]      \* written bytes not flushed yet

\* what is to be written
OutHello(n) == [k |-> "hello", n |-> n]
OutAck(f) == [k |-> "ack", f |-> f]
OutDisc(codes, msg) == [k |-> "disc", codes |-> codes, msg |-> msg]

Write(s, o, after) == [s EXCEPT !.phase = "write", !.out = <<o>>, !.after = after]
Refuse(s, codes, msg) == Write(s, OutDisc(codes, msg), "end")

TIMEOUT == {2}
TOOBIG == {3}
INVALID == {4}
BADHELLO == {4, 5, 6, 7}
BADSIZE == {3, 4, 9}
NOFRAG == {10}
UNKNOWN == {99}
NONZERO == (1..14) \cup UNKNOWN

(**************************** taking a frame *******************************)
CanTake(s) == s.phase \in {"hello", "ready"}

Key(f) == << f.sid, f.fid >>
KeyOf(p) == << p.sid, p.fid >>
Partial(s, f) == { p \in s.tab : KeyOf(p) = Key(f) }
Gathered(s, f) == IF Partial(s, f) = {} THEN f.msgs
                  ELSE (CHOOSE p \in Partial(s, f) : TRUE).msgs \o f.msgs
Forget(s, f) == s.tab \ Partial(s, f)

BeginCall(s, f, msgs) ==
  [s EXCEPT !.phase = "call", !.req = << [sid |-> f.sid, fid |-> f.fid, msgs |-> msgs] >>,
            !.tab = Forget(s, f), !.asked = FALSE, !.called = FALSE, !.t0 = s.now]

TakeNotify(s, f, abort) ==
  IF "fragmentation" \notin s.agreed[1].caps
  THEN IF f.frag THEN Refuse(s, NOFRAG, <<>>) ELSE BeginCall(s, f, f.msgs)
  ELSE IF abort /\ DropAborted THEN [s EXCEPT !.tab = Forget(s, f)]
  ELSE IF f.frag
       THEN [s EXCEPT !.tab = Forget(s, f) \cup { [sid |-> f.sid, fid |-> f.fid, msgs |-> Gathered(s, f)] }]
       ELSE BeginCall(s, f, Gathered(s, f))

\* the AGENT-HELLO that says n, with the capabilities in some order
HelloOf(n) == [t |-> "ahello", version |-> n.version, mfs |-> n.mfs,
               caps |-> SetToSeq(n.caps)]
WriteHello(s, n, after) ==
  IF Len(Encode(HelloOf(n))) > s.limit THEN Refuse(s, TOOBIG, <<>>) ELSE Write(s, OutHello(n), after)

TakeHello(s, c, h) ==
  LET n == Negotiate(c, h)
  IN IF n = <<>> THEN Refuse(s, NONZERO, <<>>)
     ELSE LET g == [s EXCEPT !.agreed = n]
          IN IF h.hc = <<TRUE>> THEN WriteHello(g, n[1], "end")
             ELSE [g EXCEPT !.phase = "make"]

\* r: what ReadOne says, with the ABORT flag of a frame
Take(s, c, r) ==
  CASE r.res = "size"    -> Refuse(s, BADSIZE, <<>>)
    [] r.res = "invalid" -> Refuse(s, IF s.phase = "hello" THEN BADHELLO ELSE INVALID, <<>>)
    [] r.res = "frame"   ->
         IF s.phase = "hello"
         THEN IF r.frame.t = "hhello" THEN TakeHello(s, c, r.frame) ELSE Refuse(s, INVALID, <<>>)
         ELSE CASE r.frame.t = "notify" -> TakeNotify(s, r.frame, r.abort)
                [] r.frame.t = "hdisc"  -> Refuse(s, {0}, <<>>)
                [] OTHER                -> Refuse(s, INVALID, <<>>)

(******************************* the service *******************************)
CanAskMaker(s) == s.phase \in {"hello", "make"}
AskMaker(s, r) ==
  CASE r = "pend" -> [s EXCEPT !.mkasked = TRUE]
    [] r = "ok"   -> [s EXCEPT !.mkasked = TRUE, !.mkrdy = TRUE]
    [] OTHER      -> Refuse(s, NONZERO, <<>>)

CanMake(s) == s.phase = "make" /\ s.mkrdy /\ ~s.made
Make(s) == [s EXCEPT !.made = TRUE]

CanMakeEnd(s) == s.phase = "make" /\ s.made
MakeEnd(s, ok) == IF ok THEN WriteHello(s, s.agreed[1], "ready") ELSE Refuse(s, NONZERO, <<>>)

CanAsk(s) == s.phase \in {"ready", "call"} /\ ~s.called
Ask(s, r, msg) ==
  CASE r = "pend" -> [s EXCEPT !.asked = TRUE]
    [] r = "ok"   -> [s EXCEPT !.asked = TRUE, !.rdy = TRUE]
    [] OTHER      -> Refuse(s, UNKNOWN, <<msg>>)

CanCall(s, msgs) == s.phase = "call" /\ ~s.called /\ s.rdy /\ msgs = s.req[1].msgs
Call(s) == [s EXCEPT !.called = TRUE, !.live = TRUE, !.rdy = FALSE]

AckOf(s, acts) == [t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> s.req[1].sid, fid |-> s.req[1].fid, acts |-> acts]
CanReturn(s) == s.phase = "call" /\ s.called
Return(s, acts) ==
  LET u == [s EXCEPT !.live = FALSE, !.called = FALSE]
      a == AckOf(s, acts)
  IN IF Len(Encode(a)) > s.limit THEN Refuse(u, TOOBIG, <<>>) ELSE Write(u, OutAck(a), "ready")
ReturnErr(s, msg) == Refuse([s EXCEPT !.live = FALSE, !.called = FALSE], UNKNOWN, <<msg>>)

\* the call future was dropped unfinished, which only its end may do
CanDrop(s) == s.live /\ s.phase # "call"
Drop(s) == [s EXCEPT !.live = FALSE]

Deadline(s, c) == s.t0 + MaxTime(c)
CanTimeout(s, c, t) == s.phase = "call" /\ t >= Deadline(s, c)
TimedOut(s) == Refuse([s EXCEPT !.called = FALSE], TIMEOUT, <<>>)

(******************************** writing **********************************)
\* the frame f, encoded in len bytes, is what has to be written now
Fits(s, f, len) ==
  LET o == s.out[1]
  IN CASE o.k = "ack"   -> f = o.f
       [] o.k = "hello" -> /\ f.t = "ahello" /\ f.version = o.n.version
                           /\ f.mfs = o.n.mfs
                           /\ Len(f.caps) = Cardinality(o.n.caps) /\ Range_(f.caps) = o.n.caps
       [] o.k = "disc"  -> /\ f.t = "adisc" /\ len <= s.limit
                           /\ ToNat(FromU32(f.code)) \in o.codes
                           /\ (o.msg # <<>> /\ f.msg # o.msg[1]) =>
                                 Len(Encode([f EXCEPT !.msg = o.msg[1]])) > s.limit    \* no room for all of it

\* the peer may be slow in taking what is written; that excuses nothing but the delay
CanBlock(s) == (s.phase = "write" \/ s.dirty) /\ ~s.blocked
Block(s) == [s EXCEPT !.blocked = TRUE]
Unblock(s) == [s EXCEPT !.blocked = FALSE]

Written(s) ==
  LET hello == s.out[1].k = "hello"
  IN [s EXCEPT !.phase = s.after, !.out = <<>>,
               !.limit = IF hello THEN Clip(FromU32(s.agreed[1].mfs)) ELSE @]

(***************************** the end of it *******************************)
\* more: nothing that could be taken has arrived
CanStop(s, more) ==
  \/ s.cancelled /\ (s.phase \in {"hello", "make", "ready"} \/ (s.phase = "call" /\ ~s.called))
  \/ s.broken = "read" /\ more /\ s.phase \in {"hello", "ready"}
  \/ s.broken = "write" /\ s.phase \in {"write", "hello", "ready"}
Stop(s) == [s EXCEPT !.phase = "end"]

CanEnd(s) == s.phase = "end" /\ ~s.live /\ (s.dirty => s.broken = "write")

(* A connection in an urgent state has something to do at once: no time may  *)
(* pass before it does.                                                      *)
Urgent(s, more) ==
  ~s.blocked /\
  \/ s.phase \in {"write", "end"} \/ s.dirty
  \/ s.phase = "make" /\ (~s.mkasked \/ (s.mkrdy /\ ~s.made))
  \/ s.phase = "call" /\ ~s.called /\ (~s.asked \/ s.rdy)
  \/ s.phase \in {"hello", "ready"} /\ (~more \/ s.broken # "" \/ s.cancelled)
=============================================================================
