---------------------------- MODULE Reassembly ------------------------------
(* A reassembly table: submissions of fragments, keyed by stream and frame   *)
(* identifier; the final fragment takes everything of its key out.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* there may be copies of a table; an operation names the one it is for
Place(op) == IF "on" \in DOMAIN op THEN op.on ELSE 0
Key(op) == << Place(op), op.sid, op.fid >>

Of(tab, k) == { p \in tab : p.key = k }
Before(tab, k) == IF Of(tab, k) = {} THEN <<>> ELSE (CHOOSE p \in Of(tab, k) : TRUE).items

None == [r |-> "none", items |-> <<>>]
Some(items) == [r |-> "some", items |-> items]
Error(e) == [r |-> e, items |-> <<>>]

\* the table and the result after op
After(tab, op) ==
  LET k == Key(op)
      all == Before(tab, k) \o op.items
      rest == tab \ Of(tab, k)
  IN IF op.frag THEN [tab |-> rest \cup { [key |-> k, items |-> all] }, res |-> None]
     ELSE [tab |-> rest, res |-> Some(all)]

\* a copy has what the table has so far, and goes its own way
AfterClone(tab, op) ==
  [tab |-> { p \in tab : p.key[1] # op.clone } \cup { [p EXCEPT !.key[1] = op.clone] : p \in { q \in tab : q.key[1] = Place(op) } },
   res |-> None]

\* the same for a frame handed to the handler for requests ("msg") or replies ("act")
AfterFrame(tab, kind, f) ==
  LET mine == IF kind = "msg" THEN "notify" ELSE "ack"
      bye == IF kind = "msg" THEN "hdisc" ELSE "adisc"
  IN CASE f.t = mine -> After(tab, [sid |-> f.sid, fid |-> f.fid, frag |-> f.frag,
                                    items |-> IF kind = "msg" THEN f.msgs ELSE f.acts])
       [] f.t = bye  -> [tab |-> tab, res |-> Error("Normal")]
       [] OTHER      -> [tab |-> tab, res |-> Error("Invalid")]
=============================================================================
