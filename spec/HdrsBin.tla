------------------------------ MODULE HdrsBin -------------------------------
(* Binary header lists: names and values in turn, each a string with its     *)
(* length in front; an empty name with an empty value ends the list.         *)
EXTENDS SpopWire

\* ! # $ % & ' * + - . ^ _ ` | ~ digits letters
IsTokenChar(c) == c \in 97..122 \/ c \in 65..90 \/ c \in 48..57 \/ c \in {33, 42, 43, 45, 46, 124, 126} \/ c \in 35..39 \/ c \in 94..96
MaxName == 65535
IsName(b) == Len(b) \in 1..MaxName /\ \A i \in 1..Len(b) : IsTokenChar(b[i])
IsValue(b) == \A i \in 1..Len(b) : b[i] = 9 \/ (b[i] >= 32 /\ b[i] # 127)

Lower(b) == [ i \in 1..Len(b) |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i] ]

EncodePair(h) == PutBytes(h.n) \o PutBytes(h.v)
EncodeList(hs) == FlattenSeq([ i \in 1..Len(hs) |-> EncodePair(hs[i]) ]) \o << 0, 0 >>

\* the headers up to the end or to the damage, and where that is
ReadNext(b, r) ==
  LET n == GetBytes(b, r.p)
      v == IF n.ok THEN GetBytes(b, n.p) ELSE Fail
  IN IF r.done THEN r
     ELSE IF ~n.ok \/ ~v.ok THEN [r EXCEPT !.done = TRUE]
     ELSE IF n.v = <<>> /\ v.v = <<>> THEN [r EXCEPT !.done = TRUE, !.whole = TRUE, !.p = v.p]
     ELSE IF ~IsName(n.v) \/ ~IsValue(v.v) THEN [r EXCEPT !.done = TRUE]
     ELSE [r EXCEPT !.hdrs = Append(@, [n |-> TLCEval(Lower(n.v)), v |-> v.v]), !.p = v.p]
RECURSIVE ReadList(_, _)
ReadList(b, r) ==      \* by folds, deep recursion is slow in TLC
  IF r.done THEN r
  ELSE IF Len(r.hdrs) < 10 THEN ReadList(b, ReadNext(b, r))
  ELSE ReadList(b, TLCEval(FoldLeft(LAMBDA x, i : ReadNext(b, x), r, Hundred)))
Read(b) ==
  LET r == ReadList(b, [done |-> FALSE, whole |-> FALSE, hdrs |-> <<>>, p |-> 1])
  IN TLCEval([whole |-> r.whole, hdrs |-> r.hdrs, p |-> r.p])

\* the values of a name, in order
Pick(hs, n) == SelectSeq(hs, LAMBDA h : h.n = n)
SameHeaders(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Pick(a, a[i].n) = Pick(b, a[i].n)

\* res "ok" with hdrs, or "err"
Outcome(b, res, hdrs) ==
  LET r == Read(b)
  IN \/ res = "ok" /\ SameHeaders(hdrs, r.hdrs)
     \/ res = "err" /\ ~r.whole
=============================================================================
