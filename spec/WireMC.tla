------------------------------- MODULE WireMC -------------------------------
(* The wire format as a transition system that builds frames item by item    *)
(* from boundary values, and then damages their encoding.  TLC checks the    *)
(* theorems the format has to satisfy on every reachable state and prints    *)
(* each of them as a case to be replayed against the real code.              *)
EXTENDS SpopWire, Json

CONSTANTS Part,        \* "frames", "values", "bytes" or "hello"
          Depth        \* how many items a frame may get

(**************************** boundary values ******************************)
Pow2(k) == [ i \in 1..4 |-> IF i = k \div 16 + 1 THEN 2^(k % 16) ELSE 0 ]
Max64 == << 65535, 65535, 65535, 65535 >>
Plus(a, b) == SubSeq(Add(a, b), 1, 4)
Minus1(a) == SubSmall(a, 1)

RECURSIVE Threshold(_)                 \* the first number that needs n + 1 bytes
Threshold(n) == IF n = 1 THEN Small(240) ELSE Plus(Threshold(n - 1), Pow2(7 * n - 3))

Around(a) == { Minus1(a), a, Plus(a, Small(1)) }
Numbers == UNION { Around(Threshold(n)) : n \in 1..9 }
           \cup UNION { Around(Pow2(k)) : k \in {1, 4, 7, 8, 15, 16, 31, 32, 47, 48, 62, 63} }
           \cup { Zero64, Max64, Minus1(Max64) }

FewNumbers == { Zero64, Small(1), Small(239), Small(240), Small(2287), Small(2288), Pow2(31), Pow2(32), Max64 }

Fill(n, c) == [ i \in 1..n |-> c ]
Texts == { Fill(n, 97) : n \in {0, 1, 2, 15, 127, 128, 239, 240, 241, 255, 256, 2287, 2288} }
         \cup { <<0>>, << 195, 169 >>, << 240, 159, 166, 128 >>, << 226, 130, 172, 44, 46 >>, <<127>> }
Blobs == { Fill(n, 255) : n \in {0, 1, 4, 16, 128, 239, 240, 241, 2288} } \cup { <<0>>, <<0, 128, 255>> }

Ints == [ k : {"u64", "i64"}, v : Numbers ]
        \cup [ k : {"u32"}, v : { FromU32(Low32(n)) : n \in Numbers } ]
        \cup [ k : {"i32"}, v : { SignExtend32(n) : n \in Numbers } ]
Values == Ints \cup { Null, Typed("bool", <<0>>), Typed("bool", <<1>>) }
          \cup [ k : {"ip4"}, v : { <<0, 0, 0, 0>>, <<127, 0, 0, 1>>, <<255, 254, 253, 252>> } ]
          \cup [ k : {"ip6"}, v : { Fill(16, 0), [ i \in 1..16 |-> i ], Fill(16, 255) } ]
          \cup [ k : {"str"}, v : Texts ] \cup [ k : {"bin"}, v : Blobs ]

FewValues == { Null, Typed("bool", <<1>>), Typed("i32", Max64), Typed("u32", Small(240)),
               Typed("i64", Pow2(63)), Typed("u64", Max64), Typed("ip4", <<1, 2, 3, 4>>),
               Typed("str", <<>>), Typed("str", <<107>>), Typed("bin", <<0>>) }
FewTexts == { <<>>, <<97>>, Fill(240, 98) }

(******************************* the frames ********************************)
Hello(vs, mfs, cs, hc, eid) == [t |-> "hhello", versions |-> vs, mfs |-> mfs, caps |-> cs, hc |-> hc, eid |-> eid]
Words == { <<0, 0>>, <<239, 0>>, <<240, 0>>, <<16384, 0>>, <<0, 32768>>, <<65535, 65535>> }
CapLists == { <<>> } \cup { <<c>> : c \in {"fragmentation", "pipelining", "async"} }
            \cup { <<"pipelining", "async">>, <<"async", "fragmentation", "pipelining">> }

StartFrames ==
  { Hello(vs, w, cs, hc, eid) : vs \in { << <<2, 0>> >>, << <<1, 0>>, <<2, 0>>, <<255, 255>> >> }, w \in Words, cs \in CapLists,
                                hc \in { <<>>, <<TRUE>>, <<FALSE>> }, eid \in { <<>>, << <<>> >>, << <<101>> >> } }
  \cup { [t |-> "ahello", version |-> v, mfs |-> w, caps |-> cs] : v \in { <<2, 0>>, <<0, 255>> }, w \in Words, cs \in CapLists }
  \cup { [t |-> d, code |-> c, msg |-> m] : d \in {"hdisc", "adisc"}, c \in Words, m \in Texts }
  \cup { [t |-> "notify", frag |-> fr, sid |-> s, fid |-> i, msgs |-> <<>>] :
           fr \in BOOLEAN, s \in FewNumbers, i \in FewNumbers \ {Zero64} }
  \cup { [t |-> "ack", frag |-> fr, abort |-> ab, sid |-> s, fid |-> i, acts |-> <<>>] :
           fr \in BOOLEAN, ab \in BOOLEAN, s \in FewNumbers, i \in FewNumbers \ {Zero64} }

Carrier(m) == [t |-> "notify", frag |-> FALSE, sid |-> Small(1), fid |-> Small(2), msgs |-> m]
Acks(a) == [t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> Small(1), fid |-> Small(2), acts |-> a]
Msg(n, args) == [name |-> n, args |-> args]
Arg(n, x) == [n |-> n, v |-> x]

\* growing a frame by one item
GrowNotify(f) ==
  { [f EXCEPT !.msgs = Append(@, Msg(n, <<>>))] : n \in FewTexts }
  \cup (IF f.msgs = <<>> THEN {}
        ELSE { [f EXCEPT !.msgs[Len(f.msgs)].args = Append(@, Arg(n, x))] :
                 n \in { <<>>, <<97>> }, x \in FewValues })
GrowAck(f) ==
  { [f EXCEPT !.acts = Append(@, a)] :
      a \in { [a |-> "set", scope |-> s, name |-> <<118>>, v |-> x] : s \in {0, 4}, x \in FewValues }
            \cup { [a |-> "set", scope |-> s, name |-> n, v |-> Null] : s \in 0..4, n \in FewTexts }
            \cup { [a |-> "unset", scope |-> s, name |-> n, v |-> Null] : s \in 0..4, n \in FewTexts } }

ValueFrames ==
  { Carrier(<< Msg(<<109>>, << Arg(<<97>>, x) >>) >>) : x \in Values }
  \cup { Acks(<< [a |-> "set", scope |-> 1, name |-> <<118>>, v |-> x] >>) : x \in Values }
  \cup { [t |-> "notify", frag |-> FALSE, sid |-> a, fid |-> b, msgs |-> <<>>] : a \in {Small(1), Max64}, b \in Numbers \ {Zero64} }
  \cup { [t |-> "ack", frag |-> FALSE, abort |-> FALSE, sid |-> a, fid |-> Small(3), acts |-> <<>>] : a \in Numbers }

(* Byte strings: the encodings of a few frames, then cut, and with bytes     *)
(* replaced, removed and inserted.                                           *)
Seeds ==
  { Encode(f) : f \in
      { Carrier(<< Msg(<<109>>, << Arg(<<97>>, x) >>), Msg(<<>>, <<>>) >>) : x \in FewValues }
      \cup { Acks(<< [a |-> "set", scope |-> 1, name |-> <<118>>, v |-> x],
                     [a |-> "unset", scope |-> 4, name |-> <<119>>, v |-> Null] >>) : x \in FewValues }
      \cup { Hello(<< <<2, 0>> >>, <<16384, 0>>, <<"async">>, <<TRUE>>, << <<101>> >>),
             [t |-> "ahello", version |-> <<2, 0>>, mfs |-> <<64, 0>>, caps |-> <<>>],
             [t |-> "adisc", code |-> <<240, 0>>, msg |-> <<120>>], [t |-> "hdisc", code |-> <<0, 0>>, msg |-> <<>>],
             [t |-> "notify", frag |-> TRUE, sid |-> Max64, fid |-> Pow2(32), msgs |-> <<>>] } }
OddBytes == { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 33, 49, 97, 101, 103, 127, 128, 192, 239, 240, 241, 255 }
Damaged(b) ==
  { SubSeq(b, 1, n) : n \in 0..(Len(b) - 1) }
  \cup { [b EXCEPT ![i] = c] : i \in 1..Len(b), c \in OddBytes }
  \cup { SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)) : i \in 1..Len(b) }
  \cup { SubSeq(b, 1, i) \o <<c>> \o SubSeq(b, i + 1, Len(b)) : i \in 0..Len(b), c \in {0, 1, 240, 255} }

(* HELLO payloads as lists of distinct items: every variant of the mandatory *)
(* ones and every order, with optional and unknown ones put in anywhere.     *)
None == Item(<<>>, "absent", <<>>)
VersionsVariants ==
  { Item(KVersions, "str", x) : x \in { S("1.0,2.0"), S(" 1.0 , 2.0 "), S("2.0,"), <<>>, S("2"), S("a.b"), S("2.0.1"), S("256.0"), S("2.0;1.0") } }
  \cup { None, Item(KVersions, "bin", S("2.0")), Item(KVersions, "u32", Small(2)) }
VersionVariants ==
  { Item(KVersion, "str", x) : x \in { S("1.0"), S("255.255"), <<>>, S("2"), S("2.x"), S("1.0,2.0"), S("256.0") } }
  \cup { None, Item(KVersion, "bin", S("2.0")), Item(KVersions, "str", S("2.0")) }
MaxFrameVariants ==
  { None, Item(KMaxFrame, "str", S("16384")), Item(KMaxFrame, "bool", <<1>>), Item(KMaxFrame, "null", <<>>),
    Item(KMaxFrame, "u32", Small(0)), Item(KMaxFrame, "u32", << 65535, 65535, 0, 0 >>), Item(KMaxFrame, "u32", Small(300)) }
CapsVariants ==
  { Item(KCaps, "str", x) : x \in { <<>>, S(" pipelining ,fragmentation,"), S("zstd,async"), S("Async"), S(" , "), S("pipelining fragmentation"),
                                    S("fragmentation,pipelining,async") } }
  \cup { None, Item(KCaps, "null", <<>>), Item(KCaps, "bin", S("async")) }
Optional ==
  { Item(KHealth, "bool", <<1>>), Item(KHealth, "bool", <<0>>),
    Item(KEngine, "str", S("e1")), Item(KEngine, "str", <<>>), Item(S("unknown"), "ip4", <<1, 2, 3, 4>>), Item(<<>>, "null", <<>>),
    Item(S("Version"), "str", S("9.9")), Item(S("healthcheck "), "bool", <<1>>) }

Present(its) == SelectSeq(its, LAMBDA it : it.v.k # "absent")
Perms == { p \in [1..3 -> 1..3] : { p[1], p[2], p[3] } = 1..3 }
GoodVer(c) == IF c = 1 THEN Item(KVersions, "str", S("2.0")) ELSE Item(KVersion, "str", S("2.0"))
GoodMf == Item(KMaxFrame, "u32", Small(16384))
GoodCaps == Item(KCaps, "str", S("async"))
Canonical(c) == << GoodVer(c), GoodMf, GoodCaps >>
Permuted(its, p) == << its[p[1]], its[p[2]], its[p[3]] >>
HelloStart ==
  UNION { { << Present(Permuted(its, p)), c >> : p \in Perms,
             its \in { << v, GoodMf, GoodCaps >> : v \in IF c = 1 THEN VersionsVariants ELSE VersionVariants }
                    \cup { << GoodVer(c), m, GoodCaps >> : m \in MaxFrameVariants }
                    \cup { << GoodVer(c), GoodMf, k >> : k \in CapsVariants }
                    \cup { Canonical(c) } } : c \in {1, 101} }
HelloBytes(code, items) == << code, 0, 0, 0, 1, 0, 0 >> \o FlattenSeq([ i \in 1..Len(items) |-> PutKV(items[i]) ])
Names(items) == { items[i].n : i \in 1..Len(items) }
PutAt(items, i, it) == SubSeq(items, 1, i) \o <<it>> \o SubSeq(items, i + 1, Len(items))

VARIABLES what, x      \* "frame" with a frame, "bytes" with a byte string, "items" with HELLO items
vars == << what, x >>

Init ==
  CASE Part = "frames" -> what = "frame" /\ x \in StartFrames \cup {[t |-> "unset"]}
    [] Part = "values" -> what = "frame" /\ x \in ValueFrames
    [] Part = "bytes"  -> what = "bytes" /\ x \in Seeds
    [] Part = "hello"  -> what = "items" /\ x \in HelloStart

Items_(f) == IF f.t = "notify" THEN Len(f.msgs) + (IF f.msgs = <<>> THEN 0 ELSE Len(f.msgs[Len(f.msgs)].args))
             ELSE Len(f.acts)

Grow ==
  /\ Part = "frames" /\ what = "frame" /\ HasIds(x)
  /\ x.sid = Small(1) /\ x.fid = Small(240)
  /\ Items_(x) < Depth
  /\ x' \in (IF x.t = "notify" THEN GrowNotify(x) ELSE GrowAck(x))
  /\ UNCHANGED what
Damage == what = "bytes" /\ x \in Seeds /\ x' \in Damaged(x) /\ UNCHANGED what
AddItem ==
  /\ what = "items" /\ Len(x[1]) < 3 + Depth
  /\ \E it \in Optional, i \in 0..Len(x[1]) :
       /\ it.n \notin Names(x[1])
       /\ Depth > 1 => Names(Canonical(x[2])) \subseteq Names(x[1])
       /\ x' = << PutAt(x[1], i, it), x[2] >>
  /\ UNCHANGED what
Next == Grow \/ Damage \/ AddItem
Spec == Init /\ [][Next]_vars

(******************************** theorems *********************************)
RoundTrip ==
  what = "frame" =>
    LET b == Encode(x)
        d == Decode(b)
    IN IF x.t = "unset" THEN ~d.ok ELSE d.ok /\ d.v = x /\ d.p = Len(b) + 1

\* every frame cut anywhere inside its last item is refused or denotes fewer items, never other ones
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Truncation ==
  (what = "frame" /\ Len(Encode(x)) < 80) =>
    \A n \in 0..(Len(Encode(x)) - 1) :
      LET d == Decode(SubSeq(Encode(x), 1, n))
      IN d.ok => CASE x.t = "notify" -> d.v.t = "notify" /\ Prefix(d.v.msgs, x.msgs) /\ d.v.msgs # x.msgs
                   [] x.t = "ack"    -> d.v.t = "ack" /\ Prefix(d.v.acts, x.acts) /\ d.v.acts # x.acts
                   [] OTHER          -> d.v.t = x.t

\* what was understood is exactly what those bytes say: writing it back gives a frame that reads the same
Faithful ==
  what = "bytes" => LET d == Decode(x)
                    IN d.ok => LET e == Decode(Encode(d.v)) IN e.ok /\ e.v = d.v

\* the order of distinct items and unknown items do not matter
Swap(s) == IF Len(s) < 2 THEN s ELSE << s[2], s[1] >> \o SubSeq(s, 3, Len(s))
SameButT(a, b) == a.ok = b.ok /\ (a.ok => a.v = b.v)
HelloOrder ==
  (what = "items" /\ Len(x[1]) > 1) =>
    SameButT(Decode(HelloBytes(x[2], x[1])), Decode(HelloBytes(x[2], Swap(x[1]))))
HelloUnknown ==
  what = "items" =>
    SameButT(Decode(HelloBytes(x[2], x[1])),
             Decode(HelloBytes(x[2], Append(x[1], Item(S("zz"), "ip4", <<1, 2, 3, 4>>)))))
\* accepted exactly when the mandatory items are there and usable
HelloMandatory ==
  (what = "items" /\ Decode(HelloBytes(x[2], x[1])).ok) => Names(Canonical(x[2])) \subseteq Names(x[1])

Emit ==
  CASE what = "frame" -> PrintT(ToJson([op |-> "write", frame |-> x]))
    [] what = "bytes" -> PrintT(ToJson([op |-> "read", b |-> x]))
    [] what = "items" -> PrintT(ToJson([op |-> "read", b |-> HelloBytes(x[2], x[1])]))
=============================================================================
