------------------------------- MODULE Bytes -------------------------------
(* Byte strings and 32-bit quantities, as used by every other module.       *)
(* A byte string is a sequence over 0..255.  TLC integers are 32-bit        *)
(* signed, so a 32-bit unsigned quantity (a BER tag, an amount) is written  *)
(* as a pair <<hi16, lo16>>.                                                *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, FiniteSets

Byte == 0..255

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Sub-string of b: n bytes starting at 0-based offset o
Slice(b, o, n) == SubSeq(b, o + 1, o + n)
\* All bytes from 0-based offset o
From(b, o) == SubSeq(b, o + 1, Len(b))
\* 0-based byte access
At(b, i) == b[i + 1]

Zeros(n) == [i \in 1..n |-> 0]
Repeat(x, n) == [i \in 1..n |-> x]

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Bit(b, n) == (b \div (2 ^ n)) % 2          \* n-th bit (0 = least significant)
HasBits(b, m) == (b & m) = m
HiNib(b) == b \div 16
LoNib(b) == b % 16

\* Sign of a C return value: the documented part of most error codes
Sign(r) == IF r < 0 THEN -1 ELSE IF r > 0 THEN 1 ELSE 0

\* 32-bit unsigned as <<hi16, lo16>>
U32(hi, lo) == <<hi, lo>>
RECURSIVE U32FromBytes(_)
U32FromBytes(b) ==
    IF b = <<>> THEN <<0, 0>>
    ELSE LET p == U32FromBytes(SubSeq(b, 1, Len(b) - 1))
             x == b[Len(b)]
         IN << ((p[1] % 256) * 256) + (p[2] \div 256),
               ((p[2] % 256) * 256) + x >>
U32ToBytes(u) == << u[1] \div 256, u[1] % 256, u[2] \div 256, u[2] % 256 >>

\* Tags below 0x10000 are written Tg(0x..)
Tg(n) == <<0, n>>

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
=============================================================================
