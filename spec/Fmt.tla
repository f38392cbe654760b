-------------------------------- MODULE Fmt --------------------------------
(* EMV data element formats (EMV 4.4 Book 3, 4.3): n, cn, b, a, an, ans and *)
(* their conversion to and from integers and strings.  Strings are byte     *)
(* strings without the terminating NUL; a conversion into a buffer of cap   *)
(* octets leaves room for it.                                               *)
EXTENDS Bytes

Trunc(s, cap) == SubSeq(s, 1, Min2(Len(s), cap - 1))

IsNonControl(c) == (c >= 32 /\ c <= 126) \/ c >= 160
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
IsAlnumSpace(c) == IsAlnum(c) \/ c = 32

NonControlStr(b, cap) == Trunc(SelectSeq(b, IsNonControl), cap)
AlnumSpaceStr(b, cap) == Trunc(SelectSeq(b, IsAlnumSpace), cap)

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Nibbles(b) == [i \in 1..(2 * Len(b)) |->
                 IF i % 2 = 1 THEN HiNib(b[(i + 1) \div 2]) ELSE LoNib(b[i \div 2])]
HexStr(b, cap) == Trunc([i \in 1..(2 * Len(b)) |-> HexDigit(Nibbles(b)[i])], cap)

-----------------------------------------------------------------------------
(* Unsigned 32-bit arithmetic on <<hi16, lo16>> pairs. *)
U32Mul10Add(u, d) ==                 \* (u * 10 + d) modulo 2^32
    LET lo == u[2] * 10 + d
    IN << (u[1] * 10 + (lo \div 65536)) % 65536, lo % 65536 >>
U32Mod10(u) == ((u[1] % 10) * 6 + (u[2] % 10)) % 10      \* 65536 mod 10 = 6
U32Div10(u) ==
    LET q1 == u[1] \div 10
        r1 == u[1] % 10
        lo == r1 * 65536 + u[2]
    IN << q1, lo \div 10 >>

\* The value of format-n bytes: [ok, u]; every nibble must be a decimal digit
RECURSIVE DigitsVal(_, _)
DigitsVal(ds, u) ==
    IF ds = <<>> THEN u ELSE DigitsVal(Tail(ds), U32Mul10Add(u, Head(ds)))
NToUint(b) ==
    LET ds == Nibbles(b) IN
    IF \E i \in 1..Len(ds) : ds[i] > 9 THEN [ok |-> FALSE, u |-> <<0, 0>>]
    ELSE [ok |-> TRUE, u |-> DigitsVal(ds, <<0, 0>>)]

\* The n least significant decimal digits of u, most significant first
RECURSIVE DecDigits(_, _)
DecDigits(u, n) ==
    IF n = 0 THEN <<>> ELSE Append(DecDigits(U32Div10(u), n - 1), U32Mod10(u))
UintToN(u, len) ==
    LET ds == DecDigits(u, 2 * len) IN [i \in 1..len |-> ds[2 * i - 1] * 16 + ds[2 * i]]

UintToB(u, len) ==
    LET b4 == U32ToBytes(u) IN
    [i \in 1..len |-> LET k == len - i IN IF k >= 4 THEN 0 ELSE b4[4 - k]]
=============================================================================
