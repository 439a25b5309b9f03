--------------------------- MODULE ReassemblyMC -----------------------------
(* Threads submit fragments to one table whose entries are locked while they *)
(* are looked at and changed (as the real table does), or, with Locked =     *)
(* FALSE, looked up and changed in two steps.  Every history of the first    *)
(* kind has a sequential explanation; the second kind loses items, which     *)
(* shows that the theorems say something.                                    *)
EXTENDS Reassembly

CONSTANTS Threads, PerThread, Keys, Locked

VARIABLES tab, plan, at, pc, seen, results, lin, lock, step
\* plan: the operations of each thread, at: the next one, pc: idle/held/read, seen: what was looked up,
\* results: per thread what came out so far, lin: the sequence of operations in the order they took effect,
\* lock: the keys held, step: real time, as the order of beginnings and ends
vars == << tab, plan, at, pc, seen, results, lin, lock, step >>

Op(t, i) == plan[t][i]
Cur(t) == Op(t, at[t])

Plans == [ 1..PerThread -> [k : Keys, frag : BOOLEAN] ]
Make(t, p) == [ i \in 1..PerThread |-> [sid |-> p[i].k, fid |-> 1, frag |-> p[i].frag, items |-> << t * 10 + i >>] ]

Init == /\ tab = {} /\ \E p \in [Threads -> Plans] : plan = [t \in Threads |-> Make(t, p[t])]
        /\ at = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "idle"]
        /\ seen = [t \in Threads |-> <<>>] /\ results = [t \in Threads |-> <<>>]
        /\ lin = <<>> /\ lock = {} /\ step = <<>>

Begin(t) == /\ pc[t] = "idle" /\ at[t] <= PerThread
            /\ pc' = [pc EXCEPT ![t] = "begun"] /\ step' = Append(step, << "inv", t, at[t] >>)
            /\ UNCHANGED << tab, plan, at, seen, results, lin, lock >>
Acquire(t) == /\ pc[t] = "begun" /\ (Locked => Key(Cur(t)) \notin lock)
              /\ lock' = IF Locked THEN lock \cup { Key(Cur(t)) } ELSE lock
              /\ seen' = [seen EXCEPT ![t] = Before(tab, Key(Cur(t)))]
              /\ pc' = [pc EXCEPT ![t] = "read"]
              /\ UNCHANGED << tab, plan, at, results, lin, step >>
Change(t) == /\ pc[t] = "read"
             /\ LET k == Key(Cur(t))
                    all == seen[t] \o Cur(t).items
                    rest == tab \ Of(tab, k)
                IN IF Cur(t).frag
                   THEN tab' = rest \cup { [key |-> k, items |-> all] } /\ results' = [results EXCEPT ![t] = Append(@, [r |-> "none", items |-> <<>>])]
                   ELSE tab' = rest /\ results' = [results EXCEPT ![t] = Append(@, [r |-> "some", items |-> all])]
             /\ lin' = Append(lin, << t, at[t] >>)
             /\ lock' = lock \ { Key(Cur(t)) }
             /\ pc' = [pc EXCEPT ![t] = "changed"]
             /\ UNCHANGED << plan, at, seen, step >>
Finish(t) == /\ pc[t] = "changed" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ at' = [at EXCEPT ![t] = @ + 1]
             /\ step' = Append(step, << "res", t, at[t] >>)
             /\ UNCHANGED << tab, plan, seen, results, lin, lock >>

Next == \E t \in Threads : Begin(t) \/ Acquire(t) \/ Change(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

\* the operations, applied one after the other in the order they took effect, give these results
RECURSIVE Replay(_, _)
Replay(ops, st) ==
  IF ops = <<>> THEN st
  ELSE LET o == Head(ops)
           a == After(st.tab, Op(o[1], o[2]))
       IN Replay(Tail(ops), [tab |-> a.tab, res |-> [st.res EXCEPT ![o[1]] = Append(@, a.res)]])
Explained == Replay(lin, [tab |-> {}, res |-> [t \in Threads |-> <<>>]]) = [tab |-> tab, res |-> results]

\* nothing is lost, repeated or mixed
AllOps == { << t, i >> : t \in Threads, i \in 1..PerThread }
Applied == { lin[j] : j \in 1..Len(lin) }
Item(o) == Op(o[1], o[2]).items[1]
OutOf(t, i) == results[t][i].items
Places(x) == Cardinality({ << t, i, j >> \in { << u, v, w >> : u \in Threads, v \in 1..PerThread, w \in 1..(PerThread * Cardinality(Threads)) } :
                              i <= Len(results[t]) /\ j <= Len(OutOf(t, i)) /\ OutOf(t, i)[j] = x })
             + Cardinality({ << p, j >> \in { << q, w >> : q \in tab, w \in 1..(PerThread * Cardinality(Threads)) } : j <= Len(p.items) /\ p.items[j] = x })
Conserved == \A o \in Applied : Places(Item(o)) = 1
OwnKey == \A t \in Threads : \A i \in 1..Len(results[t]) : \A j \in 1..Len(OutOf(t, i)) :
            \E o \in Applied : Item(o) = OutOf(t, i)[j] /\ Key(Op(o[1], o[2])) = Key(Op(t, i))
\* real time: what had ended before another began took effect before it
PosIn(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
RealTime == \A a, b \in Applied : (\E i, j \in 1..Len(step) : i < j /\ step[i] = << "res", a[1], a[2] >> /\ step[j] = << "inv", b[1], b[2] >>)
              => PosIn(lin, a) < PosIn(lin, b)
View == << tab, plan, at, pc, seen, results, lin, lock >>
=============================================================================
