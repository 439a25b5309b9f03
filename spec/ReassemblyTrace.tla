-------------------------- MODULE ReassemblyTrace ---------------------------
(* Recorded histories of the real table.  Each is a list of events           *)
(* [e |-> "inv", op] and [e |-> "res", of, res] (of: the position of its     *)
(* inv); TLC has to find moments between them at which the operations took   *)
(* effect.                                                                   *)
EXTENDS Reassembly, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES tr, l, tab, pend, done
vars == << tr, l, tab, pend, done >>
\* pend: begun and without effect so far; done: << position, result >> of those with an effect and no end

Ev == Traces[tr].ev
Do(op) == IF "f" \in DOMAIN op THEN AfterFrame(tab, op.kind, op.f) ELSE IF "clone" \in DOMAIN op THEN AfterClone(tab, op) ELSE After(tab, op)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ tab = {} /\ pend = {} /\ done = {}

\* an effect is only placed right before the next end (a later place explains no less)
Effect == /\ l <= Len(Ev) /\ Ev[l].e = "res"
          /\ \E p \in pend : LET a == Do(Ev[p].op)
                             IN tab' = a.tab /\ done' = done \cup { << p, a.res >> } /\ pend' = pend \ {p}
          /\ UNCHANGED << tr, l >>
Inv == /\ l <= Len(Ev) /\ Ev[l].e = "inv" /\ pend' = pend \cup {l} /\ l' = l + 1 /\ UNCHANGED << tr, tab, done >>
Res == /\ l <= Len(Ev) /\ Ev[l].e = "res" /\ << Ev[l].of, Ev[l].res >> \in done
       /\ done' = { d \in done : d[1] # Ev[l].of } /\ l' = l + 1 /\ UNCHANGED << tr, tab, pend >>
Next == Effect \/ Inv \/ Res
Spec == Init /\ [][Next]_vars

Tell == /\ l > Len(Ev) => PrintT(<<"ACCEPT", tr>>)
        /\ Diag => PrintT(<<"AT", tr, l>>)
=============================================================================
