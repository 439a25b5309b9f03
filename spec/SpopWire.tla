------------------------------ MODULE SpopWire ------------------------------
(* The SPOP wire format, as operators from frames to bytes and back.         *)
(*                                                                           *)
(* Frames are records with a field t:                                        *)
(*   [t |-> "hhello", versions, mfs, caps, hc, eid]   HAPROXY-HELLO          *)
(*   [t |-> "ahello", version, mfs, caps]             AGENT-HELLO            *)
(*   [t |-> "notify", frag, sid, fid, msgs]           NOTIFY                 *)
(*   [t |-> "ack", frag, abort, sid, fid, acts]       ACK                    *)
(*   [t |-> "hdisc" / "adisc", code, msg]             DISCONNECT             *)
(*   [t |-> "unset"]                                                         *)
(* 64-bit integers are four limbs (U64), 32-bit ones two, strings and        *)
(* binaries byte sequences, options sequences of length at most one.         *)
(* A typed value is [k |-> kind, v |-> sequence of integers].                *)
EXTENDS U64, Text, TLC, FiniteSets

(***************************** integers ************************************)

RECURSIVE VarRest(_)
VarRest(m) == IF LtSmall(m, 128) THEN << m[1] >>
              ELSE << 128 + Low(m, 7) >> \o VarRest(Shr(SubSmall(m, 128), 7))

Varint(n) == IF LtSmall(n, 240) THEN << n[1] >>
             ELSE << 240 + Low(n, 4) >> \o VarRest(Shr(SubSmall(n, 240), 4))

Fail == [ok |-> FALSE]
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]    \* p: position after the item

RECURSIVE VarMore(_, _, _, _)
VarMore(b, p, n, r) ==
  IF p > Len(b) \/ r > 63 THEN Fail
  ELSE LET add == ByteAt(b[p], r)
           sum == Add(n, add)
       IN IF add[5] # 0 \/ sum[5] # 0 THEN Fail
          ELSE LET m == SubSeq(sum, 1, 4)
               IN IF b[p] < 128 THEN Ok(m, p + 1) ELSE VarMore(b, p + 1, m, r + 7)

GetVarint(b, p) ==
  IF p > Len(b) THEN Fail
  ELSE IF b[p] < 240 THEN Ok(Small(b[p]), p + 1)
       ELSE VarMore(b, p + 1, Small(b[p]), 4)

(************************ strings and typed values *************************)

PutBytes(b) == Varint(Small(Len(b))) \o b

\* n bytes from p on
GetRaw(b, p, n) == IF n > Len(b) - p + 1 THEN Fail ELSE Ok(SubSeq(b, p, p + n - 1), p + n)

GetBytes(b, p) ==
  LET len == GetVarint(b, p)
  IN IF ~len.ok THEN Fail
     ELSE LET n == ToNat(len.v)
          IN IF n < 0 THEN Fail ELSE GetRaw(b, len.p, n)

GetString(b, p) ==
  LET s == GetBytes(b, p)
  IN IF s.ok /\ Utf8Valid(s.v) THEN s ELSE Fail

Kinds == << "null", "bool", "i32", "u32", "i64", "u64", "ip4", "ip6", "str", "bin" >>
KindCode(k) == (CHOOSE i \in 1..10 : Kinds[i] = k) - 1

Typed(k, v) == [k |-> k, v |-> v]
Null == Typed("null", <<>>)

PutTyped(x) ==
  CASE x.k = "null"                            -> <<0>>
    [] x.k = "bool"                            -> <<1 + 16 * x.v[1]>>
    [] x.k \in {"i32", "u32", "i64", "u64"}    -> <<KindCode(x.k)>> \o Varint(x.v)
    [] x.k \in {"ip4", "ip6"}                  -> <<KindCode(x.k)>> \o x.v
    [] x.k \in {"str", "bin"}                  -> <<KindCode(x.k)>> \o PutBytes(x.v)

As(k, g) == IF g.ok THEN Ok(Typed(k, g.v), g.p) ELSE Fail

GetTyped(b, p) ==
  IF p > Len(b) THEN Fail
  ELSE LET code == b[p] % 16
           k == IF code < 10 THEN Kinds[code + 1] ELSE "bad"
       IN CASE k = "null" -> Ok(Null, p + 1)
            [] k = "bool" -> Ok(Typed("bool", <<(b[p] \div 16) % 2>>), p + 1)
            [] k = "i32"  -> LET n == GetVarint(b, p + 1)
                             IN IF n.ok THEN Ok(Typed(k, SignExtend32(n.v)), n.p) ELSE Fail
            [] k = "u32"  -> LET n == GetVarint(b, p + 1)
                             IN IF n.ok THEN Ok(Typed(k, FromU32(Low32(n.v))), n.p) ELSE Fail
            [] k \in {"i64", "u64"} -> As(k, GetVarint(b, p + 1))
            [] k = "ip4" -> As(k, GetRaw(b, p + 1, 4))
            [] k = "ip6" -> As(k, GetRaw(b, p + 1, 16))
            [] k = "str" -> As(k, GetString(b, p + 1))
            [] k = "bin" -> As(k, GetBytes(b, p + 1))
            [] OTHER     -> Fail

(****************************** item lists *********************************)

\* Count items from position p on, or all items up to the end when count < 0.
\* (Long lists go by folds of a hundred steps: deep recursion is slow in TLC.)
Hundred == [ i \in 1..100 |-> i ]
GetNext(Get(_, _), b, st) ==
  IF st.done THEN st
  ELSE IF st.left = 0 \/ (st.left < 0 /\ st.at > Len(b)) THEN [st EXCEPT !.done = TRUE, !.res = Ok(st.acc, st.at)]
  ELSE LET g == Get(b, st.at)
       IN IF g.ok THEN [st EXCEPT !.at = g.p, !.left = @ - 1, !.acc = Append(@, g.v)]
          ELSE [st EXCEPT !.done = TRUE]
RECURSIVE GetMany(_, _, _)
GetMany(Get(_, _), b, st) ==
  IF st.done THEN st.res
  ELSE GetMany(Get, b, TLCEval(FoldLeft(LAMBDA x, i : GetNext(Get, b, x), st, Hundred)))
RECURSIVE GetSeq(_, _, _, _, _)
GetSeq(Get(_, _), b, p, count, acc) ==
  IF count = 0 \/ (count < 0 /\ p > Len(b)) THEN Ok(acc, p)
  ELSE IF Len(acc) = 10 THEN GetMany(Get, b, [done |-> FALSE, res |-> Fail, at |-> p, left |-> count, acc |-> acc])
  ELSE LET g == Get(b, p)
       IN IF g.ok THEN GetSeq(Get, b, g.p, count - 1, Append(acc, g.v)) ELSE Fail

All(Get(_, _), b, p) == GetSeq(Get, b, p, 0 - 1, <<>>)

GetKV(b, p) ==
  LET n == GetString(b, p)
      x == GetTyped(b, n.p)
  IN IF ~n.ok THEN Fail ELSE IF ~x.ok THEN Fail ELSE Ok([n |-> n.v, v |-> x.v], x.p)

PutKV(kv) == PutBytes(kv.n) \o PutTyped(kv.v)

GetMessage(b, p) ==
  LET n == GetString(b, p)
  IN IF ~n.ok THEN Fail
     ELSE IF n.p > Len(b) THEN Fail
     ELSE LET args == GetSeq(GetKV, b, n.p + 1, b[n.p], <<>>)
          IN IF args.ok THEN Ok([name |-> n.v, args |-> args.v], args.p) ELSE Fail

PutMessage(m) ==
  PutBytes(m.name) \o << Len(m.args) >> \o FlattenSeq([ i \in 1..Len(m.args) |-> PutKV(m.args[i]) ])

\* ACTION: type, number of arguments, then scope, name and (set) value
GetAction(b, p) ==
  IF p + 2 > Len(b) THEN Fail
  ELSE LET ty == b[p]
           nb == b[p + 1]
           scope == b[p + 2]
           name == GetString(b, p + 3)
       IN IF ~name.ok \/ scope > 4 THEN Fail
          ELSE IF ty = 1 /\ nb = 3
               THEN LET x == GetTyped(b, name.p)
                    IN IF x.ok THEN Ok([a |-> "set", scope |-> scope, name |-> name.v, v |-> x.v], x.p)
                       ELSE Fail
               ELSE IF ty = 2 /\ nb = 2
                    THEN Ok([a |-> "unset", scope |-> scope, name |-> name.v, v |-> Null], name.p)
                    ELSE Fail

PutAction(a) ==
  IF a.a = "set" THEN << 1, 3, a.scope >> \o PutBytes(a.name) \o PutTyped(a.v)
  ELSE << 2, 2, a.scope >> \o PutBytes(a.name)

(************************* items of HELLO / DISCONNECT *********************)

KVersions == S("supported-versions")
KVersion == S("version")
KMaxFrame == S("max-frame-size")
KCaps == S("capabilities")
KEngine == S("engine-id")
KHealth == S("healthcheck")
KStatus == S("status-code")
KMessage == S("message")

CapNames == << "fragmentation", "pipelining", "async" >>
CapBytes == << S("fragmentation"), S("pipelining"), S("async") >>
CapToBytes(c) == CapBytes[CHOOSE i \in 1..3 : CapNames[i] = c]

VersionBytes(v) == Dec(v[1]) \o <<Dot>> \o Dec(v[2])

Item(n, k, v) == [n |-> n, v |-> Typed(k, v)]

VersionsItem(vs) == Item(KVersions, "str", Join([ i \in 1..Len(vs) |-> VersionBytes(vs[i]) ], Comma))
VersionItem(v) == Item(KVersion, "str", VersionBytes(v))
MaxFrameItem(w) == Item(KMaxFrame, "u32", FromU32(w))
CapsItem(cs) == Item(KCaps, "str", Join([ i \in 1..Len(cs) |-> CapToBytes(cs[i]) ], Comma))

Items(f) ==
  CASE f.t = "hhello" -> << VersionsItem(f.versions), MaxFrameItem(f.mfs), CapsItem(f.caps) >>
                         \o (IF f.hc = <<>> THEN <<>>
                             ELSE << Item(KHealth, "bool", << IF f.hc[1] THEN 1 ELSE 0 >>) >>)
                         \o (IF f.eid = <<>> THEN <<>> ELSE << Item(KEngine, "str", f.eid[1]) >>)
    [] f.t = "ahello" -> << VersionItem(f.version), MaxFrameItem(f.mfs), CapsItem(f.caps) >>
    [] f.t \in {"hdisc", "adisc"} -> << Item(KStatus, "u32", FromU32(f.code)), Item(KMessage, "str", f.msg) >>

PutItems(f) == LET it == Items(f) IN FlattenSeq([ i \in 1..Len(it) |-> PutKV(it[i]) ])

\* The value of item n, the last one when there are several; <<>> if absent
Lookup(items, n) ==
  LET is == { i \in 1..Len(items) : items[i].n = n }
  IN IF is = {} THEN <<>> ELSE << items[CHOOSE i \in is : \A j \in is : j <= i].v >>

LookupStr(items, n) == LET x == Lookup(items, n)
                       IN IF x # <<>> /\ x[1].k = "str" THEN << x[1].v >> ELSE <<>>
LookupInt(items, n) == LET x == Lookup(items, n)
                       IN IF x # <<>> /\ x[1].k \in {"i32", "u32", "i64", "u64"} THEN << Low32(x[1].v) >> ELSE <<>>
LookupBool(items, n) == LET x == Lookup(items, n)
                        IN IF x # <<>> /\ x[1].k = "bool" THEN << x[1].v[1] = 1 >> ELSE <<>>

\* "M.m" or <<>>
ParseVersion(b) ==
  LET parts == SplitOn(b, Dot)
  IN IF Len(parts) # 2 THEN <<>>
     ELSE LET a == ParseU8(parts[1])
              c == ParseU8(parts[2])
          IN IF a < 0 \/ c < 0 THEN <<>> ELSE << <<a, c>> >>

ParseVersions(b) ==
  LET parts == SplitOn(b, Comma)
      vs == [ i \in 1..Len(parts) |-> ParseVersion(Trim(parts[i])) ]
  IN IF \E i \in 1..Len(vs) : vs[i] = <<>> THEN <<>>
     ELSE << [ i \in 1..Len(vs) |-> vs[i][1] ] >>

\* unknown (and empty) elements are ignored
ParseCaps(b) ==
  LET parts == SplitOn(b, Comma)
      one(e) == LET is == { i \in 1..3 : CapBytes[i] = Trim(e) }
                IN IF is = {} THEN <<>> ELSE << CapNames[CHOOSE i \in is : TRUE] >>
  IN FlattenSeq([ i \in 1..Len(parts) |-> one(parts[i]) ])

DecodeHHello(b, p) ==
  LET kv == All(GetKV, b, p)
  IN IF ~kv.ok THEN Fail
     ELSE LET vs == LookupStr(kv.v, KVersions)
              pv == IF vs = <<>> THEN <<>> ELSE ParseVersions(vs[1])
              mf == LookupInt(kv.v, KMaxFrame)
              cs == LookupStr(kv.v, KCaps)
          IN IF pv = <<>> \/ mf = <<>> \/ cs = <<>> THEN Fail
             ELSE Ok([t |-> "hhello", versions |-> pv[1], mfs |-> mf[1], caps |-> ParseCaps(cs[1]),
                      hc |-> LookupBool(kv.v, KHealth), eid |-> LookupStr(kv.v, KEngine)], kv.p)

DecodeAHello(b, p) ==
  LET kv == All(GetKV, b, p)
  IN IF ~kv.ok THEN Fail
     ELSE LET vs == LookupStr(kv.v, KVersion)
              pv == IF vs = <<>> THEN <<>> ELSE ParseVersion(vs[1])
              mf == LookupInt(kv.v, KMaxFrame)
              cs == LookupStr(kv.v, KCaps)
          IN IF pv = <<>> \/ mf = <<>> \/ cs = <<>> THEN Fail
             ELSE Ok([t |-> "ahello", version |-> pv[1], mfs |-> mf[1], caps |-> ParseCaps(cs[1])], kv.p)

DecodeDisc(t, b, p) ==
  LET kv == All(GetKV, b, p)
  IN IF ~kv.ok THEN Fail
     ELSE LET c == LookupInt(kv.v, KStatus)
              m == LookupStr(kv.v, KMessage)
          IN Ok([t |-> t, code |-> IF c = <<>> THEN <<0, 0>> ELSE c[1],
                 msg |-> IF m = <<>> THEN <<>> ELSE m[1]], kv.p)

(********************************* frames **********************************)

TypeCode(f) ==
  CASE f.t = "unset" -> 0   [] f.t = "hhello" -> 1   [] f.t = "hdisc" -> 2 [] f.t = "notify" -> 3
    [] f.t = "ahello" -> 101 [] f.t = "adisc" -> 102 [] f.t = "ack" -> 103

Flags(f) ==
  CASE f.t = "notify" -> IF f.frag THEN 0 ELSE 1
    [] f.t = "ack"    -> (IF f.frag THEN 0 ELSE 1) + (IF f.abort THEN 2 ELSE 0)
    [] OTHER          -> 1

HasIds(f) == f.t \in {"notify", "ack"}
Sid(f) == IF HasIds(f) THEN f.sid ELSE Zero64
Fid(f) == IF HasIds(f) THEN f.fid ELSE Zero64

PutMeta(f) == << 0, 0, 0, Flags(f) >> \o Varint(Sid(f)) \o Varint(Fid(f))

Payload(f) ==
  CASE f.t = "unset"  -> <<>>
    [] f.t = "notify" -> FlattenSeq([ i \in 1..Len(f.msgs) |-> PutMessage(f.msgs[i]) ])
    [] f.t = "ack"    -> FlattenSeq([ i \in 1..Len(f.acts) |-> PutAction(f.acts[i]) ])
    [] OTHER          -> PutItems(f)

Encode(f) == << TypeCode(f) >> \o PutMeta(f) \o Payload(f)

\* a length prefix, most significant byte first
LenPrefix(n) == << n \div 16777216, (n \div LIMB) % 256, (n \div 256) % 256, n % 256 >>      \* n < 2^31
Framed(f) == LET b == Encode(f) IN LenPrefix(Len(b)) \o b

Decode(b) ==
  IF Len(b) < 5 THEN Fail
  ELSE LET sid == GetVarint(b, 6)
           fid == GetVarint(b, sid.p)
       IN IF ~sid.ok THEN Fail
          ELSE IF ~fid.ok THEN Fail
          ELSE LET p == fid.p
                   noids == IsZero(sid.v) /\ IsZero(fid.v)
                   frag == b[5] % 2 = 0
                   abort == (b[5] \div 2) % 2 = 1
               IN CASE b[1] = 1   /\ noids -> DecodeHHello(b, p)
                    [] b[1] = 101 /\ noids -> DecodeAHello(b, p)
                    [] b[1] = 2   /\ noids -> DecodeDisc("hdisc", b, p)
                    [] b[1] = 102 /\ noids -> DecodeDisc("adisc", b, p)
                    [] b[1] = 3   /\ ~IsZero(fid.v) ->
                         LET m == All(GetMessage, b, p)
                         IN IF m.ok THEN Ok([t |-> "notify", frag |-> frag, sid |-> sid.v,
                                             fid |-> fid.v, msgs |-> m.v], m.p) ELSE Fail
                    [] b[1] = 103 /\ ~IsZero(fid.v) ->
                         LET a == All(GetAction, b, p)
                         IN IF a.ok THEN Ok([t |-> "ack", frag |-> frag, abort |-> abort, sid |-> sid.v,
                                             fid |-> fid.v, acts |-> a.v], a.p) ELSE Fail
                    [] OTHER -> Fail

\* The ABORT flag, which the NOTIFY record does not carry
Aborted(b) == Len(b) >= 5 /\ (b[5] \div 2) % 2 = 1

(* Reading one frame from a byte stream s under a limit: what the reader     *)
(* reports and how many bytes it takes.  "more" means it has to wait.        *)
BodyLen(s) == IF s[1] > 0 THEN 16777216 ELSE s[2] * LIMB + s[3] * 256 + s[4]

ReadOne(s, max) ==
  IF Len(s) < 4 THEN [res |-> "more"]
  ELSE IF BodyLen(s) > max THEN [res |-> "size"]
  ELSE LET n == BodyLen(s)
       IN IF Len(s) < 4 + n THEN [res |-> "more"]
          ELSE LET d == Decode(SubSeq(s, 5, 4 + n))
               IN IF d.ok THEN [res |-> "frame", frame |-> d.v, used |-> 4 + n]
                  ELSE [res |-> "invalid", used |-> 4 + n]

\* Frames that the format can represent
CapsOk(cs) == \A i \in 1..Len(cs) : cs[i] \in {"fragmentation", "pipelining", "async"}
=============================================================================
