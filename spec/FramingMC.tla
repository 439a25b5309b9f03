----------------------------- MODULE FramingMC ------------------------------
(* A stream of frames, good and bad, arrives in every possible way of cutting *)
(* it; what comes out must not depend on the cuts.  Likewise frames leave in  *)
(* pieces of every size.                                                      *)
EXTENDS Framing

CONSTANTS MaxFrames, Cut

F1 == [t |-> "notify", frag |-> FALSE, sid |-> Small(1), fid |-> Small(2), msgs |-> <<>>]
F2 == [t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> Small(300), fid |-> Small(1), acts |-> <<>>]
F3 == [t |-> "hdisc", code |-> <<0, 0>>, msg |-> <<>>]
LIMIT == 31
Pieces == { Framed(F1), Framed(F2), Framed(F3),
            << 0, 0, 0, 0 >>,                              \* empty: no frame
            << 0, 0, 0, 3, 3, 0, 0 >>,                     \* truncated
            << 0, 0, 0, LIMIT >> \o [ i \in 1..LIMIT |-> 1 ],   \* junk of the full length
            << 0, 0, 0, LIMIT + 1 >>,                      \* too long
            << 255, 0, 0, 1 >> }

VARIABLES all, pos, r, out, w, sent, phase
vars == << all, pos, r, out, w, sent, phase >>

Init == /\ all = <<>> /\ pos = 0 /\ r = Reader(LIMIT) /\ out = <<>>
        /\ w = Writer(LIMIT) /\ sent = <<>> /\ phase = "grow"

Grow == /\ phase = "grow" /\ Len(sent) < MaxFrames
        /\ \E p \in Pieces : all' = all \o p
        /\ sent' = Append(sent, 0) /\ UNCHANGED << pos, r, out, w, phase >>
\* the stream may end anywhere
Open == /\ phase = "grow" /\ \E n \in { Len(all) } \cup (IF Cut THEN 0..Len(all) ELSE {}) : all' = SubSeq(all, 1, n)
        /\ phase' = "read" /\ UNCHANGED << pos, r, out, w, sent >>
Chunk == /\ phase = "read" /\ ~r.done /\ Says(r).res = "more" /\ pos < Len(all)
         /\ \E n \in 1..(Len(all) - pos) : r' = Arrive(r, SubSeq(all, pos + 1, pos + n)) /\ pos' = pos + n
         /\ UNCHANGED << all, out, w, sent, phase >>
Close == /\ phase = "read" /\ ~r.ended /\ pos = Len(all) /\ r' = End(r) /\ UNCHANGED << all, pos, out, w, sent, phase >>
Give == /\ phase = "read" /\ ~r.done /\ Says(r).res # "more"
        /\ out' = Append(out, IF Says(r).res = "frame" THEN [res |-> "frame", frame |-> Says(r).frame] ELSE [res |-> Says(r).res])
        /\ r' = Report(r, Says(r)) /\ UNCHANGED << all, pos, w, sent, phase >>
Next == Grow \/ Open \/ Chunk \/ Close \/ Give
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Chunk) /\ WF_vars(Close) /\ WF_vars(Give) /\ WF_vars(Open)

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* never anything but the frames of the stream, in order; in the end all of them
CutFree == phase = "read" => IsPre(out, Outcome(all, LIMIT))
Complete == r.done => out = Outcome(all, LIMIT)
\* a refusal needs no more than the length
Early == (phase = "read" /\ ~r.done /\ Len(r.buf) >= 4 /\ BodyLen(r.buf) > LIMIT) => Says(r).res = "size"
\* bytes are given back exactly: what is buffered is what has arrived and not been reported
Settles == <>(r.done)
=============================================================================
