------------------------------- MODULE ApiMC --------------------------------
(* An application that builds a message, and one that builds an agent, in    *)
(* every way; what they get does not depend on the way, and every way is     *)
(* printed as a case to be replayed.                                         *)
EXTENDS Api, Json

CONSTANTS Part, Depth

KV(n, x) == [n |-> S(n), v |-> x]
Some == { KV("a", Null), KV("a", Typed("bool", <<1>>)), KV("b", Typed("u32", Small(240))) }

Settings == { <<"version", <<2, 0>>>>, <<"version", <<2, 1>>>>, <<"version", <<1, 9>>>>, <<"fragmentation">>, <<"pipelining">>, <<"async">>,
              <<"cap", "fragmentation">>, <<"caps", <<>>>>, <<"caps", <<"async", "pipelining">>>>,
              <<"mfs", Small(300)>>, <<"mfs", <<0, 0, 1, 0>>>>, <<"maxt", Small(0)>>, <<"maxt", Small(60000)>> }

VARIABLES steps, m
vars == << steps, m >>
Init == steps = <<>> /\ m = Begin(S("m"))
Arg == Part = "message" /\ \E kv \in Some : steps' = Append(steps, <<kv>>) /\ m' = AddArg(m, kv)
Args == Part = "message" /\ \E q \in { <<>> } \cup { <<x, y>> : x \in Some, y \in Some } : steps' = Append(steps, q) /\ m' = AddArgs(m, q)
Setting == Part = "builder" /\ \E s \in Settings : steps' = Append(steps, s) /\ UNCHANGED m
Next == Len(steps) < Depth /\ (Arg \/ Args \/ Setting)
Spec == Init /\ [][Next]_vars

\* the way does not matter
SameMessage == Part = "message" => m = Built(S("m"), steps) /\ m = Built(S("m"), << FlattenSeq(steps) >>)
\* nor does the order of the settings, but for those that replace one another
Kept(q) == SelectSeq(q, LAMBDA s : s[1] \notin {"mfs", "maxt"})
Turned == Part = "builder" => LET q == Kept(steps) IN Made(q) = Made(Reverse(q))
Twice == Part = "builder" => Made(steps \o steps) = Made(steps)
LastWins == Part = "builder" => \A s \in Settings : s[1] = "mfs" => Made(Append(steps, s)).mfs = s[2]
NeverEmpty == Part = "builder" => Made(steps).versions # {}
Emit == PrintT(ToJson(IF Part = "message" THEN [op |-> "message", name |-> m.name, steps |-> steps, new |-> FALSE]
                      ELSE [op |-> "builder", steps |-> steps]))
=============================================================================
