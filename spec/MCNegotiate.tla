---------------------------- MODULE MCNegotiate -----------------------------
(* Every handshake over small sets of versions, limits and capabilities:     *)
(* the agreement is the best common one, whatever the order and repetitions  *)
(* in the peer's lists.  Each state is also emitted as a case.               *)
EXTENDS Conn, Json

CONSTANT Emitting
VSet == { <<1, 0>>, <<1, 255>>, <<2, 0>>, <<2, 1>>, <<10, 0>> }
Lists == { <<v>> : v \in VSet } \cup { <<u, v>> : u, v \in VSet }
         \cup { << <<2, 0>>, <<1, 0>>, <<2, 1>> >>, << <<10, 0>>, <<2, 0>>, <<1, 255>>, <<2, 0>> >> }
AgentVs == { <<>>, << <<1, 0>> >>, << <<2, 1>>, <<2, 0>> >>, << <<1, 255>>, <<1, 0>> >>, << <<2, 0>>, <<10, 0>>, <<1, 0>> >> }
CapLists == { <<>>, <<"async">>, <<"fragmentation">>, <<"pipelining">>, <<"async", "pipelining">>,
              <<"fragmentation", "pipelining", "async">>, <<"pipelining", "fragmentation">>, <<"async", "async", "fragmentation">> }
NoDup(q) == Cardinality(Range_(q)) = Len(q)
Limits == { <<>>, <<256>>, <<16384>>, <<16385>>, <<0, 32768, 0, 0>>, <<65535, 65535, 0, 0>>, <<0, 0, 1, 0>>, <<100, 0, 1, 0>>,
            <<256, 0, 0, 1>>, <<65535, 65535, 65535, 65535>> }
Words == { <<255, 0>>, <<256, 0>>, <<257, 0>>, <<16383, 0>>, <<16384, 0>>, <<0, 1>>, <<65535, 32767>>, <<0, 32768>>, <<65535, 65535>> }

VARIABLES c, h
vars == << c, h >>
H(vs, w, cs) == [t |-> "hhello", versions |-> vs, mfs |-> w, caps |-> cs, hc |-> <<>>, eid |-> <<>>]
Cf(vs, cs, m) == [versions |-> vs, caps |-> cs, mfs |-> m, maxt |-> <<>>]

\* versions, capabilities and limits vary one at a time
Init == \/ \E vs \in AgentVs, hs \in Lists : c = Cf(vs, <<>>, <<>>) /\ h = H(hs, <<16384, 0>>, <<>>)
        \/ \E cs \in { k \in CapLists : NoDup(k) }, hs \in CapLists : c = Cf(<<>>, cs, <<>>) /\ h = H(<< <<2, 0>> >>, <<16384, 0>>, hs)
        \/ \E m \in Limits, w \in Words : c = Cf(<<>>, <<>>, m) /\ h = H(<< <<2, 0>> >>, w, <<>>)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

N == Negotiate(c, h)
Best == N # <<>> => /\ N[1].version \in Range_(h.versions) \cap Versions(c)
                    /\ \A v \in Range_(h.versions) \cap Versions(c) : VersionLeq(v, N[1].version)
None == N = <<>> <=> \A v \in Range_(h.versions) : v \notin Versions(c)
Least == N # <<>> => /\ Clip(FromU32(N[1].mfs)) <= MaxFrame(c) /\ Leq32(N[1].mfs, h.mfs)
                     /\ FromU32(N[1].mfs) = MaxFrame64(c) \/ N[1].mfs = h.mfs
Both == N # <<>> => \A k \in {"fragmentation", "pipelining", "async"} :
                      k \in N[1].caps <=> (\E i \in 1..Len(h.caps) : h.caps[i] = k) /\ (\E i \in 1..Len(c.caps) : c.caps[i] = k)
Rev(q) == [ i \in 1..Len(q) |-> q[Len(q) + 1 - i] ]
OrderFree == Negotiate(c, [h EXCEPT !.versions = Rev(@) \o @, !.caps = Rev(@) \o @]) = N
             /\ Negotiate([c EXCEPT !.versions = Rev(@), !.caps = Rev(@)], h) = N
Emit == Emitting => PrintT(ToJson([cfg |-> c, hello |-> h]))
=============================================================================
