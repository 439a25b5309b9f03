------------------------------- MODULE HeldMC -------------------------------
(* Every script of a few steps, done again and again with identifiers of its *)
(* own by a keeper that keeps what Reassembly keeps, and by two that do not. *)
EXTENDS Held

CONSTANTS Keys, MaxSteps, Rounds, Wrong

VARIABLES script, tab, round, at
vars == << script, tab, round, at >>
Steps == [sid : Keys, fid : {1}, frag : BOOLEAN]

Own(s) == [s EXCEPT !.sid = @ + 100 * round]
Do(s) == LET k == << 0, s.sid, s.fid >>
         IN CASE Wrong = "husk" /\ ~s.frag /\ Of(tab, k) # {} -> (tab \ Of(tab, k)) \cup { [key |-> k, items |-> <<>>] }
              [] Wrong = "tally" /\ ~s.frag -> Step(tab, s) \cup { [key |-> << 1, s.sid, s.fid >>, items |-> <<>>] }
              [] OTHER -> Step(tab, s)

Init == script = <<>> /\ tab = {} /\ round = 0 /\ at = 0
Choose == round = 0 /\ Len(script) < MaxSteps /\ \E s \in Steps : script' = Append(script, s) /\ UNCHANGED << tab, round, at >>
Start == round = 0 /\ script # <<>> /\ Closes(script) /\ round' = 1 /\ at' = 1 /\ UNCHANGED << script, tab >>
Go == /\ round > 0 /\ at <= Len(script) /\ tab' = Do(Own(script[at])) /\ at' = at + 1 /\ UNCHANGED << script, round >>
Again == round > 0 /\ at > Len(script) /\ round < Rounds /\ round' = round + 1 /\ at' = 1 /\ UNCHANGED << script, tab >>
Next == Choose \/ Start \/ Go \/ Again
Spec == Init /\ [][Next]_vars

\* between two rounds nothing is kept, and during one no more than it has sent
Empty == at > Len(script) => Weigh(tab) = 0
Bounded == Weigh(tab) <= 2 * Len(script)
\* the other way round: a script that does not close something leaves something
Needed == round = 0 => (Closes(script) <=> Weigh(Through({}, script, 1)) = 0)
=============================================================================
