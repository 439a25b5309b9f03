-------------------------------- MODULE U64 --------------------------------
(* Unsigned 64-bit integers as four little-endian 16-bit limbs, because     *)
(* TLC's integers have 32 bits.  Only what the SPOP integer format needs.   *)
EXTENDS Naturals, Sequences

LIMB == 65536

Zero64 == <<0, 0, 0, 0>>

Small(n) == <<n % LIMB, n \div LIMB, 0, 0>>          \* n below 2^31

IsU64(n) == Len(n) = 4 /\ \A i \in 1..4 : n[i] \in 0..(LIMB - 1)

IsZero(n) == n[1] = 0 /\ n[2] = 0 /\ n[3] = 0 /\ n[4] = 0

\* n < c for a small constant c < 2^16
LtSmall(n, c) == n[2] = 0 /\ n[3] = 0 /\ n[4] = 0 /\ n[1] < c

\* n - c for a small constant c <= n
SubSmall(n, c) ==
  LET b1 == IF n[1] < c THEN 1 ELSE 0
      b2 == IF n[2] < b1 THEN 1 ELSE 0
      b3 == IF n[3] < b2 THEN 1 ELSE 0
  IN << n[1] + b1 * LIMB - c, n[2] + b2 * LIMB - b1, n[3] + b3 * LIMB - b2, n[4] - b3 >>

\* n \div 2^k and n % 2^k for 0 < k < 16
Shr(n, k) ==
  LET d == 2^k
      u == 2^(16 - k)
  IN << (n[1] \div d) + (n[2] % d) * u,
        (n[2] \div d) + (n[3] % d) * u,
        (n[3] \div d) + (n[4] % d) * u,
        (n[4] \div d) >>

Low(n, k) == n[1] % (2^k)

\* n + m; the carry out of the top limb is returned as the fifth element
Add(n, m) ==
  LET s1 == n[1] + m[1]
      s2 == n[2] + m[2] + (s1 \div LIMB)
      s3 == n[3] + m[3] + (s2 \div LIMB)
      s4 == n[4] + m[4] + (s3 \div LIMB)
  IN << s1 % LIMB, s2 % LIMB, s3 % LIMB, s4 % LIMB, s4 \div LIMB >>

\* byte * 2^r for r < 64, as five limbs (the fifth one is what overflows)
ByteAt(b, r) ==
  LET k == r \div 16
      v == b * (2^(r % 16))
  IN [ i \in 1..5 |-> IF i = k + 1 THEN v % LIMB
                      ELSE IF i = k + 2 THEN v \div LIMB ELSE 0 ]

\* n as a TLC integer, or -1 when it does not fit 30 bits
ToNat(n) == IF n[3] = 0 /\ n[4] = 0 /\ n[2] < 16384 THEN n[1] + LIMB * n[2] ELSE 0 - 1

\* the low 32 bits as two limbs, and the way back with and without sign
Low32(n) == << n[1], n[2] >>
FromU32(w) == << w[1], w[2], 0, 0 >>
SignExtend32(n) == LET s == IF n[2] >= 32768 THEN 65535 ELSE 0 IN << n[1], n[2], s, s >>

\* n <= m on two-limb (32-bit) values
Leq32(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1])
Min32(a, b) == IF Leq32(a, b) THEN a ELSE b
=============================================================================
