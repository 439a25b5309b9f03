------------------------------- MODULE HdrsMC -------------------------------
(* Lists of headers, grown from boundary names and values (Part "lists"),    *)
(* and all short byte strings over a small alphabet ("bytes").  The theorems *)
(* hold in every state, and every state is printed as a case to be replayed. *)
EXTENDS HdrsBin, Json

CONSTANTS Part, Depth

Fill(n, c) == [ i \in 1..n |-> c ]
Names == { <<97>>, <<65>>, S("x-Forwarded-For"), Fill(239, 98), Fill(240, 98), Fill(241, 66), Fill(2288, 99) }
Vals == { <<>>, <<118>>, <<9, 32, 126>>, <<128, 255>>, Fill(239, 49), Fill(240, 49), Fill(2288, 50) }
FewNames == { <<97>>, <<65>>, Fill(240, 98) }
FewVals == { <<>>, <<118>>, Fill(240, 49) }
Alphabet == { 0, 1, 2, 58, 97, 127, 240, 255 }

VARIABLES hs, raw
vars == << hs, raw >>
Init == hs = <<>> /\ raw = <<>>
Grow == /\ Part = "lists" /\ Len(hs) < Depth
        /\ \E n \in IF hs = <<>> THEN Names ELSE FewNames, v \in IF hs = <<>> THEN Vals ELSE FewVals : hs' = Append(hs, [n |-> n, v |-> v])
        /\ UNCHANGED raw
Byte == /\ Part = "bytes" /\ Len(raw) < Depth /\ \E x \in Alphabet : raw' = Append(raw, x) /\ UNCHANGED hs
Next == Grow \/ Byte
Spec == Init /\ [][Next]_vars

Lowered(h) == [n |-> Lower(h.n), v |-> h.v]
Whole == LET e == EncodeList(hs)
         IN Read(e) = [whole |-> TRUE, hdrs |-> [ i \in 1..Len(hs) |-> Lowered(hs[i]) ], p |-> Len(e) + 1]
\* what follows the end is ignored
Tail1 == \A x \in {0, 97, 255} : LET r == Read(EncodeList(hs) \o << x >>) IN r.whole /\ r.hdrs = Read(EncodeList(hs)).hdrs
\* a list cut short is noticed, and what was complete is there
Cuts == LET e == EncodeList(hs)
            whole == Read(e).hdrs
        IN \A k \in { j \in 0..(Len(e) - 1) : j < 20 \/ j > Len(e) - 6 } :
             LET r == Read(SubSeq(e, 1, k)) IN ~r.whole /\ Len(r.hdrs) <= Len(whole) /\ r.hdrs = SubSeq(whole, 1, Len(r.hdrs))
\* what is read back, written, reads the same
Faithful == LET r == Read(raw) IN Read(EncodeList(r.hdrs)).hdrs = r.hdrs
Emit == PrintT(ToJson([op |-> "hdrs", b |-> IF Part = "lists" THEN EncodeList(hs) ELSE raw]))
=============================================================================
