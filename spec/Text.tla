-------------------------------- MODULE Text --------------------------------
(* Text as byte sequences: ASCII literals, UTF-8 validity, splitting,        *)
(* trimming and decimal numbers, as far as SPOP items need them.             *)
EXTENDS Integers, Sequences, SequencesExt

\* the printable ASCII characters 32..126 in order
AsciiTable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Code(c) == 31 + (CHOOSE i \in 1..95 : SubSeq(AsciiTable, i, i) = c)

\* the bytes of an ASCII literal
S(str) == [ i \in 1..Len(str) |-> Code(SubSeq(str, i, i)) ]

(* UTF-8 as in RFC 3629: the state is the set of allowed next bytes,        *)
(* <<remaining continuation bytes, lowest and highest allowed next byte>>.  *)
Utf8Step(st, c) ==
  IF st[1] < 0 THEN st
  ELSE IF st[1] = 0
       THEN CASE c <= 127              -> <<0, 0, 0>>
              [] c >= 194 /\ c <= 223  -> <<1, 128, 191>>
              [] c = 224               -> <<2, 160, 191>>
              [] c = 237               -> <<2, 128, 159>>
              [] c >= 225 /\ c <= 239  -> <<2, 128, 191>>
              [] c = 240               -> <<3, 144, 191>>
              [] c >= 241 /\ c <= 243  -> <<3, 128, 191>>
              [] c = 244               -> <<3, 128, 143>>
              [] OTHER                 -> <<-1, 0, 0>>
       ELSE IF c >= st[2] /\ c <= st[3]
            THEN <<st[1] - 1, 128, 191>>
            ELSE <<-1, 0, 0>>

Utf8Valid(b) == FoldLeft(Utf8Step, <<0, 0, 0>>, b)[1] = 0

IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)

RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(b) == IF b # <<>> /\ IsSpace(Head(b)) THEN TrimLeft(Tail(b)) ELSE b
TrimRight(b) == IF b # <<>> /\ IsSpace(b[Len(b)])
                THEN TrimRight(SubSeq(b, 1, Len(b) - 1)) ELSE b
Trim(b) == TrimRight(TrimLeft(b))

\* the elements between separators; one more element than separators
SplitOn(b, sep) ==
  FoldLeft(LAMBDA acc, c : IF c = sep THEN Append(acc, <<>>)
                           ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)],
           << <<>> >>, b)

Comma == 44
Dot == 46

IsDigit(c) == c >= 48 /\ c <= 57

\* 0..255 in decimal, optionally with a plus sign, or -1
ParseU8(b) ==
  LET d == IF b # <<>> /\ b[1] = 43 THEN Tail(b) ELSE b
  IN IF d = <<>> \/ \E i \in 1..Len(d) : ~IsDigit(d[i]) THEN -1
     ELSE LET v == FoldLeft(LAMBDA n, c : IF n > 255 THEN n ELSE n * 10 + (c - 48), 0, d)
          IN IF v > 255 THEN -1 ELSE v

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

Join(parts, sep) ==
  FlattenSeq([ i \in 1..Len(parts) |-> IF i = 1 THEN parts[1] ELSE <<sep>> \o parts[i] ])
=============================================================================
