------------------------------ MODULE ApiTrace ------------------------------
(* What the real constructors and conversions made of what they were given,  *)
(* judged one by one.                                                        *)
EXTENDS Api, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
BLOCK == IF N > 16384 THEN 64 ELSE 1 + N \div 256      \* judged by one worker
VARIABLE i

TypedOk(c) == LET x == [k |-> KindOf(c.from, c.x.v), v |-> c.x.v]
              IN c.out.got = x /\ c.out.backs = Backs(x) /\ c.out.same
FrameOk(c) == LET f == Frame(c)
              IN /\ c.out.frame = f /\ c.out.kinds = << f.t >> /\ c.out.unwraps = << f >>
                 /\ c.out.type = TypeCode(f) /\ c.out.meta = Meta(f)
MetaOk(c) == c.out.final = ~c.frame.frag /\ c.out.sid = c.frame.sid /\ c.out.fid = c.frame.fid
StatusOk(c) == IF IsStatus(c.n) THEN c.out.known /\ c.out.back = c.n /\ c.out.disc = c.n /\ c.out.name = StatusName(c.n)
               ELSE ~c.out.known
ScopeOk(c) == IF c.n < 5 THEN c.out.known /\ c.out.back = c.n /\ c.out.name = ScopeNames[c.n + 1] ELSE ~c.out.known
VersionOk(c) == LET v == ParseVersion(c.s)
                IN IF v = <<>> THEN ~c.out.ok
                   ELSE IF c.s = VersionBytes(v[1]) THEN c.out.ok /\ c.out.v = v[1] /\ c.out.back = c.s
                   ELSE c.out.ok => c.out.v = v[1]          \* signs and leading zeros may be refused
OrderOk(c) == /\ c.out.eq = (c.a = c.b) /\ c.out.lt = VersionLess(c.a, c.b)
              /\ c.out.cmp = (IF c.a = c.b THEN "Equal" ELSE IF VersionLess(c.a, c.b) THEN "Less" ELSE "Greater")
CapOk(c) == IF CapIndex(c.s) = {} THEN ~c.out.ok
            ELSE c.out.ok /\ c.out.back = c.s /\ c.out.name = CapConsts[CHOOSE j \in CapIndex(c.s) : TRUE]
FailureOk(c) == /\ c.out.code = CodeOf(c.layers)
                /\ c.out.status = (IF StatusOf(c.layers) = <<>> THEN <<>> ELSE << StatusOf(c.layers)[1][1] >>)
                /\ IF StatusOf(c.layers) = <<>> THEN c.out.msg = c.out.text
                   ELSE c.layers[1][1] = "ctx" => c.out.msg = c.layers[1][2]
BuilderOk(c) == LET b == Made(c.steps)
                IN /\ Range(c.out.versions) = b.versions /\ Len(c.out.versions) = Cardinality(b.versions)
                   /\ Range(c.out.caps) = b.caps /\ Len(c.out.caps) = Cardinality(b.caps)
                   /\ c.out.mfs = b.mfs /\ c.out.maxt = b.maxt
VarintOk(c) == LET b == Varint(c.n)
               IN /\ c.out.b = b /\ c.out.inplace = b /\ c.out.put = Len(b) /\ c.out.size = Len(b)
                  /\ c.out.got = << c.n >> /\ c.out.left = 0
GetVarOk(c) == LET g == GetVarint(c.b, 1)
               IN IF g.ok THEN c.out.got = << g.v >> /\ c.out.left = Len(c.b) - g.p + 1 ELSE c.out.got = <<>>

RecOk(c) ==
  CASE c.op = "typed"      -> TypedOk(c)
    [] c.op = "message"    -> c.out.got = Built(c.name, c.steps)
    [] c.op = "action"     -> c.out.got = c.x
    [] c.op = "frame"      -> FrameOk(c)
    [] c.op = "notifymeta" -> MetaOk(c)
    [] c.op = "status"     -> StatusOk(c)
    [] c.op = "scope"      -> ScopeOk(c)
    [] c.op = "version"    -> VersionOk(c)
    [] c.op = "order"      -> OrderOk(c)
    [] c.op = "cap"        -> CapOk(c)
    [] c.op = "failure"    -> FailureOk(c)
    [] c.op = "builder"    -> BuilderOk(c)
    [] c.op = "varint"     -> VarintOk(c)
    [] c.op = "getvar"     -> GetVarOk(c)
    [] c.op = "bye"        -> ByeOk(c, c.out)
    [] OTHER               -> FALSE
Judge == i < 0 \/ RecOk(Recs[i]) \/ PrintT(<<"REJECT", i>>)

NB == (N + BLOCK - 1) \div BLOCK
Init == i \in { 0 - k : k \in 1..NB }
Next == i < 0 /\ i' \in { j \in 1..N : (j - 1) \div BLOCK = 0 - i - 1 }
Spec == Init /\ [][Next]_i
AllJudged == TLCGet("stats").distinct = N + NB \/ PrintT(<<"INCOMPLETE", TLCGet("stats").distinct>>)
=============================================================================
