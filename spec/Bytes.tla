------------------------------- MODULE Bytes -------------------------------
(* Machine words as sequences of bytes, least significant first.  A 64 bit  *)
(* value is a sequence of eight bytes (TLC's integers have 32 bits).        *)
EXTENDS Integers, Sequences, Bitwise

Zeros(n) == [i \in 1..n |-> 0]
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
IsZero(v) == \A i \in 1..Len(v) : v[i] = 0

AndB(a, b) == [i \in 1..8 |-> (a[i] & b[i])]
OrB(a, b)  == [i \in 1..8 |-> (a[i] | b[i])]
NotB(a)    == [i \in 1..8 |-> 255 - a[i]]

LtU(a, b) == \E i \in 1..8 : a[i] < b[i] /\ \A j \in (i+1)..8 : a[j] = b[j]
LeU(a, b) == ~LtU(b, a)
IsNeg(a)  == a[8] >= 128
Flip(a)   == [a EXCEPT ![8] = (@ + 128) % 256]
LtS(a, b) == LtU(Flip(a), Flip(b))
LeS(a, b) == ~LtS(b, a)

(* two's complement *)
RECURSIVE NegFrom(_, _, _)
NegFrom(a, i, carry) ==
  IF i > 8 THEN <<>>
  ELSE LET t == (255 - a[i]) + carry IN <<t % 256>> \o NegFrom(a, i + 1, t \div 256)
Neg(a) == NegFrom(a, 1, 1)

(* does the value fit in n bytes, unsigned / signed *)
FitsU(a, n) == \A i \in (n+1)..8 : a[i] = 0
FitsS(a, n) == LET s == IF a[n] >= 128 THEN 255 ELSE 0
               IN \A i \in (n+1)..8 : a[i] = s
ZeroExt(b) == b \o Zeros(8 - Len(b))
SignExt(b) == b \o [i \in 1..(8 - Len(b)) |-> IF b[Len(b)] >= 128 THEN 255 ELSE 0]

Shl(a, k) ==
  LET q == k \div 8  p == 2 ^ (k % 8)
      At(i) == IF i < 1 THEN 0 ELSE a[i]
  IN [i \in 1..8 |-> ((At(i - q) * p) % 256) + ((At(i - q - 1) * p) \div 256)]
Shr(a, k) ==
  LET q == k \div 8  r == k % 8  p == 2 ^ r
      At(i) == IF i > 8 THEN 0 ELSE a[i]
  IN [i \in 1..8 |-> (At(i + q) \div p) + ((At(i + q + 1) * (256 \div p)) % 256)]
(* the number of bits 1..64 of all ones, at the bottom *)
Mask(bits) == Shr(<<255, 255, 255, 255, 255, 255, 255, 255>>, 64 - bits)

(* small naturals *)
FromInt(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
Big == 2147483647
ToInt(a) == IF a[4] >= 127 \/ \E i \in 5..8 : a[i] # 0 THEN Big
            ELSE a[1] + 256 * (a[2] + 256 * (a[3] + 256 * a[4]))
=============================================================================
