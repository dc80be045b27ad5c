-------------------------------- MODULE Text --------------------------------
(* The meaning of scalar text: numbers, null words, false words and the     *)
(* comparison of names.  Text is a sequence of bytes without NUL.           *)
EXTENDS Bytes

-----------------------------------------------------------------------------
(* Integers, in the grammar of C's strtol with base 0:                      *)
(*   space* [+-]? ( 0[xX] hexdigit+ | 0 octdigit* | digit+ )                *)
Digit(c) == IF c \in 48..57 THEN c - 48
            ELSE IF c \in 97..102 THEN c - 87
            ELSE IF c \in 65..70 THEN c - 55
            ELSE 99
IsSpace(c) == c = 32 \/ c \in 9..13

RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN SkipSpace(s, i + 1) ELSE i

(* l is four 16 bit limbs, least significant first *)
MulAdd(l, b, d) ==
  LET t1 == l[1] * b + d
      t2 == l[2] * b + t1 \div 65536
      t3 == l[3] * b + t2 \div 65536
      t4 == l[4] * b + t3 \div 65536
  IN [l |-> <<t1 % 65536, t2 % 65536, t3 % 65536, t4 % 65536>>, ovf |-> t4 >= 65536]

RECURSIVE Digits(_, _, _, _, _)
Digits(s, i, b, l, ovf) ==
  IF i > Len(s) THEN [ok |-> TRUE, l |-> l, ovf |-> ovf]
  ELSE IF Digit(s[i]) >= b THEN [ok |-> FALSE, l |-> l, ovf |-> ovf]
  ELSE LET r == MulAdd(l, b, Digit(s[i]))
       IN Digits(s, i + 1, b, IF ovf THEN l ELSE r.l, ovf \/ r.ovf)

LimbBytes(l) == <<l[1] % 256, l[1] \div 256, l[2] % 256, l[2] \div 256,
                  l[3] % 256, l[3] \div 256, l[4] % 256, l[4] \div 256>>

(* ok: all of the text is a number.  ovf: its magnitude exceeds 64 bits. *)
ParseNum(s) ==
  LET i0 == SkipSpace(s, 1)
      sg == i0 <= Len(s) /\ s[i0] \in {43, 45}
      neg == sg /\ s[i0] = 45
      i1 == IF sg THEN i0 + 1 ELSE i0
      hex == i1 + 2 <= Len(s) /\ s[i1] = 48 /\ s[i1+1] \in {88, 120} /\ Digit(s[i1+2]) < 16
      oct == ~hex /\ i1 <= Len(s) /\ s[i1] = 48
      i2 == IF hex THEN i1 + 2 ELSE i1
      b  == IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10
      r  == Digits(s, i2, b, <<0, 0, 0, 0>>, FALSE)
  IN IF i2 > Len(s) \/ ~r.ok
     THEN [ok |-> FALSE, neg |-> FALSE, ovf |-> FALSE, mag |-> Zero8]
     ELSE [ok |-> TRUE, neg |-> neg, ovf |-> r.ovf, mag |-> LimbBytes(r.l)]

(* Text as a signed / unsigned 64 bit value *)
MinS == <<0, 0, 0, 0, 0, 0, 0, 128>>
ParseS(s) ==
  LET p == ParseNum(s) IN
  IF ~p.ok \/ p.ovf THEN [ok |-> FALSE, v |-> Zero8]
  ELSE IF p.neg THEN [ok |-> LeU(p.mag, MinS), v |-> Neg(p.mag)]
  ELSE [ok |-> LtU(p.mag, MinS), v |-> p.mag]
ParseU(s) ==
  LET p == ParseNum(s) IN
  IF ~p.ok \/ p.ovf \/ (p.neg /\ ~IsZero(p.mag)) THEN [ok |-> FALSE, v |-> Zero8]
  ELSE [ok |-> TRUE, v |-> p.mag]

-----------------------------------------------------------------------------
(* Names: equality, and equality up to the case of Latin letters (which     *)
(* take as many bytes in either case).                                      *)
RECURSIVE Decode(_, _)
Decode(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] < 128 THEN <<s[i]>> \o Decode(s, i + 1)
  ELSE IF s[i] < 224 THEN <<(s[i] - 192) * 64 + (s[i+1] - 128)>> \o Decode(s, i + 2)
  ELSE IF s[i] < 240 THEN <<(s[i] - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128)>>
                          \o Decode(s, i + 3)
  ELSE <<(s[i] - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + (s[i+3] - 128)>>
       \o Decode(s, i + 4)

(* upper case at the even, lower case at the odd code point, and vice versa *)
EvenUpper == (256..303) \cup (306..311) \cup (330..375)             \* Extended-A
             \cup (386..389) \cup (416..421) \cup (478..495)        \* Extended-B
             \cup (504..543) \cup (546..563) \cup (582..591)
OddUpper  == (313..328) \cup (377..382) \cup (435..438) \cup (461..476)
Single == [c \in {376, 391, 395, 398, 401, 408, 423, 428, 431, 439, 440, 444, 452, 453,
                  455, 456, 458, 459, 497, 498, 500, 503, 544, 571, 573, 577, 579} |->
  CASE c = 376 -> 255 [] c = 391 -> 392 [] c = 395 -> 396 [] c = 398 -> 477
    [] c = 401 -> 402 [] c = 408 -> 409 [] c = 423 -> 424 [] c = 428 -> 429
    [] c = 431 -> 432 [] c = 439 -> 658 [] c = 440 -> 441 [] c = 444 -> 445
    [] c \in {452, 453} -> 454 [] c \in {455, 456} -> 457 [] c \in {458, 459} -> 460
    [] c \in {497, 498} -> 499 [] c = 500 -> 501 [] c = 503 -> 447 [] c = 544 -> 414
    [] c = 571 -> 572 [] c = 573 -> 410 [] c = 577 -> 578 [] c = 579 -> 384]
Lower(c) ==
  IF c < 128 THEN (IF c \in 65..90 THEN c + 32 ELSE c)
  ELSE IF c < 256 THEN (IF c \in 192..222 /\ c # 215 THEN c + 32 ELSE c)
  ELSE IF c \in EvenUpper THEN (IF c % 2 = 0 THEN c + 1 ELSE c)
  ELSE IF c \in OddUpper THEN (IF c % 2 = 1 THEN c + 1 ELSE c)
  ELSE IF c \in DOMAIN Single THEN Single[c]
  ELSE c

LowerAll(s) == LET d == Decode(s, 1) IN [i \in 1..Len(d) |-> Lower(d[i])]
NameEq(a, b, insensitive) == a = b \/ (insensitive /\ Len(a) = Len(b) /\ LowerAll(a) = LowerAll(b))

-----------------------------------------------------------------------------
(* Words *)
FalseWords == { <<102, 97, 108, 115, 101>>, <<110, 111>>, <<111, 102, 102>>,
                <<100, 105, 115, 97, 98, 108, 101>>, <<48>> }
IsFalse(s) == \E w \in FalseWords : NameEq(s, w, TRUE)

NullWords == { <<126>>, <<110, 117, 108, 108>>, <<78, 117, 108, 108>>, <<78, 85, 76, 76>> }

SimpleText(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in (48..57) \cup (65..90) \cup (97..122)
=============================================================================
