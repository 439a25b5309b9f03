-------------------------------- MODULE Held --------------------------------
(* What a table of open requests weighs.  A keeper handles steps             *)
(* [sid, fid, frag] as Reassembly does; what it keeps is what is open, and a *)
(* script that closes what it opens leaves it as light as it was.            *)
EXTENDS Reassembly

Step(tab, s) == After(tab, [sid |-> s.sid, fid |-> s.fid, frag |-> s.frag, items |-> << 0 >>]).tab

RECURSIVE Through(_, _, _)
Through(tab, script, k) == IF k > Len(script) THEN tab ELSE Through(Step(tab, script[k]), script, k + 1)

\* every request of the script ends in it
Closes(script) == \A j \in 1..Len(script) : script[j].frag =>
                    \E k \in (j + 1)..Len(script) : script[k].sid = script[j].sid /\ script[k].fid = script[j].fid /\ ~script[k].frag

RECURSIVE Weigh(_)
Weigh(tab) == IF tab = {} THEN 0 ELSE LET p == CHOOSE p \in tab : TRUE IN 1 + Len(p.items) + Weigh(tab \ {p})

(* After r rounds of a closing script with identifiers of their own the      *)
(* weight is what it was.  Allocators are not that exact, so one byte for    *)
(* each round is let pass, which is less than the smallest thing to keep.    *)
Light(grown, rounds) == \A k \in 1..Len(grown) : grown[k] <= (k - 1) * rounds
=============================================================================
