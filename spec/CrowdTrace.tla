----------------------------- MODULE CrowdTrace -----------------------------
(* Recorded histories of several threads handing NOTIFY frames to one real   *)
(* dispatcher, and what its consumers had in the end:                        *)
(*   [e |-> "inv", op], [e |-> "res", of, res, (ack)], [e |-> "items", items] *)
(* TLC has to find moments at which the submissions took effect.             *)
EXTENDS Dispatch, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES tr, l, s, pend, done, into
vars == << tr, l, s, pend, done, into >>
\* done: << position, result, item >> of submissions with an effect and no end, into: << position, item >> of all with an effect

Ev == Traces[tr].ev
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Fresh /\ pend = {} /\ done = {} /\ into = {}

Effect == /\ l <= Len(Ev) /\ Ev[l].e = "res"
          /\ \E p \in pend : LET n == Ev[p].op
                                 a == Submit(s, n)
                                 it == IF OpenOf(s, Key(n)) # {} THEN ItemOf(s, Key(n)) ELSE Len(a.s.items)
                             IN \E r \in a.rs : s' = a.s /\ done' = done \cup { << p, r, it >> } /\ into' = into \cup { << p, it >> } /\ pend' = pend \ {p}
          /\ UNCHANGED << tr, l >>
Inv == /\ l <= Len(Ev) /\ Ev[l].e = "inv" /\ pend' = pend \cup {l} /\ l' = l + 1 /\ UNCHANGED << tr, s, done, into >>

\* the receiver belongs to the item (its consumer numbered the items in the order they came out)
Number(k) == [a |-> "set", scope |-> 3, name |-> << 107 >>, v |-> [k |-> "u32", v |-> << k - 1, 0, 0, 0 >>]]
AckOf(p, it) == << [t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> Ev[p].op.sid, fid |-> Ev[p].op.fid, acts |-> << Number(it) >>] >>
Res == /\ l <= Len(Ev) /\ Ev[l].e = "res"
       /\ \E d \in done : /\ d[1] = Ev[l].of /\ d[2] = Ev[l].res
                          /\ Ev[l].res = "new" => Ev[l].ack = AckOf(d[1], d[3])
                          /\ done' = done \ {d}
       /\ l' = l + 1 /\ UNCHANGED << tr, s, pend, into >>

\* the messages q of item it: those of its submissions, each once, in their order, and of one after the other where they did not overlap
PosIn(q, m) == CHOOSE j \in 1..Len(q) : q[j] = m
EndOf(p) == CHOOSE k \in 1..Len(Ev) : Ev[k].e = "res" /\ Ev[k].of = p
Merge(q, it) ==
  LET ps == { x[1] : x \in { y \in into : y[2] = it } }
      all == UNION { { << p, j >> : j \in 1..Len(Ev[p].op.msgs) } : p \in ps }
      m(x) == Ev[x[1]].op.msgs[x[2]]
  IN /\ Len(q) = Cardinality(all)
     /\ { q[j] : j \in 1..Len(q) } = { m(x) : x \in all }
     /\ \A x, y \in all : (x[1] = y[1] /\ x[2] < y[2]) \/ (x[1] # y[1] /\ EndOf(x[1]) < y[1]) => PosIn(q, m(x)) < PosIn(q, m(y))
Items == /\ l <= Len(Ev) /\ Ev[l].e = "items" /\ pend = {} /\ done = {}
         /\ Len(Ev[l].items) = Len(s.items)
         /\ \A k \in 1..Len(s.items) : Merge(Ev[l].items[k], k)
         /\ l' = l + 1 /\ UNCHANGED << tr, s, pend, done, into >>
Next == Effect \/ Inv \/ Res \/ Items
Spec == Init /\ [][Next]_vars

Tell == /\ l > Len(Ev) => PrintT(<<"ACCEPT", tr>>)
        /\ Diag => PrintT(<<"AT", tr, l>>)
=============================================================================
