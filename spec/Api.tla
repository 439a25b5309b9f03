-------------------------------- MODULE Api ---------------------------------
(* What the public constructors and conversions make of what they are given. *)
EXTENDS SpopWire

(***************************** typed values ********************************)
\* the kind a Rust type stands for; addresses of either family by their length
KindOf(from, v) ==
  CASE from = "str"                                  -> "str"
    [] from \in {"slice", "box", "bytes", "bytesmut"} -> "bin"
    [] from = "ipaddr"                               -> IF Len(v) = 4 THEN "ip4" ELSE "ip6"
    [] OTHER                                         -> from

\* it turns back into its own kind and into no other
Backs(x) == [ k \in Range(Kinds) |-> IF k = x.k THEN << x.v >> ELSE <<>> ]

(***************************** constructors ********************************)
Built(name, steps) == [name |-> name, args |-> FlattenSeq(steps)]

\* s after one more step of an application that builds a message
Begin(name) == [name |-> name, args |-> <<>>]
AddArg(m, kv) == [m EXCEPT !.args = Append(@, kv)]
AddArgs(m, kvs) == [m EXCEPT !.args = @ \o kvs]

Single(t, sid, fid) == IF t = "notify" THEN [t |-> t, frag |-> FALSE, sid |-> sid, fid |-> fid]
                       ELSE [t |-> t, frag |-> FALSE, abort |-> FALSE, sid |-> sid, fid |-> fid]
Frame(c) ==
  CASE c.make = "notify" -> Single("notify", c.sid, c.fid) @@ [msgs |-> c.msgs]
    [] c.make = "ack"    -> Single("ack", c.sid, c.fid) @@ [acts |-> c.acts]
    [] c.make = "acknew" -> Single("ack", c.sid, c.fid) @@ [acts |-> <<>>]
    [] c.make = "hdisc"  -> [t |-> "hdisc", code |-> c.code, msg |-> c.msg]
    [] c.make \in {"adisc", "disc"} -> [t |-> "adisc", code |-> c.code, msg |-> c.msg]
    [] OTHER             -> c.frame

\* what is known of a frame without its payload
Meta(f) ==
  IF ~HasIds(f) THEN <<>>
  ELSE << [final |-> ~f.frag, frag |-> f.frag, abort |-> f.t = "ack" /\ f.abort, flags |-> Flags(f),
           sid |-> f.sid, fid |-> f.fid, size |-> Len(PutMeta(f))] >>

(************************* numbers and their names *************************)
StatusNames == << "Normal", "Io", "Timeout", "TooBig", "Invalid", "NoVersion", "NoFrameSize", "NoCapabilities", "BadVersion",
                  "BadFrameSize", "FragmentNotSupported", "InterlacedFrames", "FrameIdNotFound", "ResourceAllocErr" >>
IsStatus(w) == w[2] = 0 /\ (w[1] < 14 \/ w[1] = 99)
StatusName(w) == IF w[1] = 99 THEN "Unknown" ELSE StatusNames[w[1] + 1]

ScopeNames == << "Process", "Session", "Transaction", "Request", "Response" >>

CapConsts == << "Fragmentation", "Pipelining", "Async" >>
CapIndex(b) == { i \in 1..3 : CapBytes[i] = b }

VersionLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(******************************* failures **********************************)
\* layers of context around a cause, the outermost first
CauseOf(ls) == ls[Len(ls)]
StatusOf(ls) == IF CauseOf(ls)[1] = "status" THEN << CauseOf(ls)[2] >> ELSE <<>>
CodeOf(ls) == IF StatusOf(ls) = <<>> THEN << 99, 0 >> ELSE StatusOf(ls)[1]

(******************************** builder **********************************)
Plain == [versions |-> {}, caps |-> {}, mfs |-> Small(16384), maxt |-> Small(15000)]
Set(b, s) ==
  CASE s[1] = "version" -> [b EXCEPT !.versions = @ \cup { s[2] }]
    [] s[1] = "cap"     -> [b EXCEPT !.caps = @ \cup { s[2] }]
    [] s[1] = "caps"    -> [b EXCEPT !.caps = @ \cup Range(s[2])]
    [] s[1] = "mfs"     -> [b EXCEPT !.mfs = s[2]]
    [] s[1] = "maxt"    -> [b EXCEPT !.maxt = s[2]]
    [] OTHER            -> [b EXCEPT !.caps = @ \cup { s[1] }]
Made(steps) == LET b == FoldLeft(Set, Plain, steps) IN [b EXCEPT !.versions = IF @ = {} THEN { <<2, 0>> } ELSE @]

(***************************** disconnecting *******************************)
\* the bytes b written for a DISCONNECT under a limit of max bytes
ByeOk(c, out) ==
  LET whole == [t |-> "adisc", code |-> c.code, msg |-> c.msg]
      brief == [whole EXCEPT !.msg = <<>>]
      r == ReadOne(out.b, c.max)
  IN IF Len(Encode(brief)) > c.max THEN out.r = "err" /\ out.b = <<>>
     ELSE /\ out.r = "ok" /\ out.flushed = Len(out.b)
          /\ r.res = "frame" /\ r.used = Len(out.b)
          /\ r.frame.t = "adisc" /\ r.frame.code = c.code
          /\ Len(Encode(whole)) <= c.max => r.frame.msg = c.msg
=============================================================================
