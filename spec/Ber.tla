-------------------------------- MODULE Ber --------------------------------
(* ISO 8825-1 BER-TLV decoding as EMV uses it.                              *)
(* Decode results are records: [r |-> consumed, tag, val, flags].           *)
(*   r > 0  : a complete element was found and r bytes were consumed        *)
(*   r = 0  : end of data                                                   *)
(*   r < 0  : malformed / truncated data (no element)                       *)
EXTENDS Bytes

BerFail  == [r |-> -1, tag |-> Tg(0), val |-> <<>>, off |-> 0, flags |-> 0]
BerEnd   == [r |-> 0,  tag |-> Tg(0), val |-> <<>>, off |-> 0, flags |-> 0]
IsCons(first) == HasBits(first, 32)                       \* 0x20

(* Identifier octets; result [r, tag].  High tag numbers (low five bits all *)
(* ones) continue while bit 8 is set; a tag wider than four octets is       *)
(* rejected.                                                                *)
RECURSIVE TagEnd(_, _)
TagEnd(b, n) ==              \* n = octets taken so far (>= 1); result = total octets or -1
    IF n >= Len(b) THEN -1                                \* truncated
    ELSE IF At(b, n) < 128 THEN n + 1
    ELSE IF n + 1 >= 4 THEN -1                            \* does not fit in 32 bits
    ELSE TagEnd(b, n + 1)

TagDecode(b) ==
    IF b = <<>> THEN [r |-> 0, tag |-> Tg(0)]
    ELSE IF (At(b, 0) % 32) # 31 THEN [r |-> 1, tag |-> Tg(At(b, 0))]
    ELSE LET n == TagEnd(b, 1) IN
         IF n < 0 THEN [r |-> -1, tag |-> Tg(0)]
         ELSE [r |-> n, tag |-> U32FromBytes(SubSeq(b, 1, n))]

RECURSIVE BerDecode(_), EocScan(_, _)

(* Indefinite form: elements follow until one whose tag is end-of-contents. *)
(* Result: [r |-> octets including the EOC element or -1, len |-> content   *)
(* octets before the EOC].                                                  *)
EocScan(b, o) ==
    LET e == BerDecode(From(b, o)) IN
    IF e.r <= 0 THEN [r |-> -1, len |-> 0]
    ELSE IF e.tag = Tg(0) THEN [r |-> o + e.r, len |-> o]
    ELSE EocScan(b, o + e.r)

BerDecode(b) ==
    IF b = <<>> THEN BerEnd
    ELSE IF Len(b) < 2 THEN BerFail
    ELSE LET t == TagDecode(b) IN
    IF t.r <= 0 THEN BerFail
    ELSE IF t.r >= Len(b) THEN BerFail
    ELSE
    LET l0 == At(b, t.r)
        h  == t.r + 1                                    \* header octets so far
        fl == (At(b, 0) \div 32) * 32                    \* class and constructed bits
        Element(hdr, n, total) ==
            [r |-> total, tag |-> t.tag, val |-> Slice(b, hdr, n),
             off |-> hdr, flags |-> fl]
    IN
    IF l0 = 128 THEN
        IF ~IsCons(At(b, 0)) THEN BerFail
        ELSE LET s == EocScan(From(b, h), 0) IN
             IF s.r < 0 THEN BerFail ELSE Element(h, s.len, h + s.r)
    ELSE IF l0 < 128 THEN
        IF h + l0 > Len(b) THEN BerFail ELSE Element(h, l0, h + l0)
    ELSE LET k == l0 - 128 IN
         IF k > 4 \/ h + k > Len(b) THEN BerFail
         ELSE LET n == U32FromBytes(Slice(b, h, k)) IN
              IF n[1] > 255 THEN BerFail                     \* inputs are shorter
              ELSE LET m == n[1] * 65536 + n[2] IN
                   IF h + k + m > Len(b) THEN BerFail ELSE Element(h + k, m, h + k + m)

(* Decode a whole buffer into the top-level elements; ok iff it ends        *)
(* exactly.                                                                 *)
RECURSIVE BerItems(_)
BerItems(b) ==
    LET e == BerDecode(b) IN
    IF e.r = 0 THEN [ok |-> TRUE, items |-> <<>>]
    ELSE IF e.r < 0 THEN [ok |-> FALSE, items |-> <<>>]
    ELSE LET t == BerItems(From(b, e.r)) IN
         [ok |-> t.ok, items |-> <<e>> \o t.items]

(* The flat field list of a buffer: primitive elements in document order,   *)
(* templates replaced by their content.  ok = FALSE keeps what was decoded  *)
(* before the malformed point.                                              *)
TlvRec(tag, val, fl) == [t |-> tag, v |-> val, f |-> fl]
RECURSIVE ParseFlat(_)
ParseFlat(b) ==
    LET e == BerDecode(b) IN
    IF e.r = 0 THEN [ok |-> TRUE, list |-> <<>>]
    ELSE IF e.r < 0 THEN [ok |-> FALSE, list |-> <<>>]
    ELSE LET here == IF IsCons(e.flags) THEN ParseFlat(e.val)
                     ELSE [ok |-> TRUE, list |-> <<TlvRec(e.tag, e.val, 0)>>]
         IN IF ~here.ok THEN here
            ELSE LET t == ParseFlat(From(b, e.r)) IN
                 [ok |-> t.ok, list |-> here.list \o t.list]

(* Field lookup: the first field with the tag. *)
FindIdx(list, tag) ==
    LET S == {i \in 1..Len(list) : list[i].t = tag} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Has(list, tag) == FindIdx(list, tag) # 0
ValOf(list, tag) == list[FindIdx(list, tag)].v
HasDup(list) == \E i, j \in 1..Len(list) : i < j /\ list[i].t = list[j].t

(* Definite-length encoder (used to state round-trip properties and to      *)
(* build cards in the models).                                              *)
EncLen(n) == IF n < 128 THEN <<n>>
             ELSE IF n < 256 THEN <<129, n>>
             ELSE <<130, n \div 256, n % 256>>
Enc(tagbytes, val) == tagbytes \o EncLen(Len(val)) \o val
Enc2(tagbytes, val) == tagbytes \o <<129, Len(val)>> \o val          \* not minimal
Enc3(tagbytes, val) == tagbytes \o <<130, 0, Len(val)>> \o val

(* ISO 8825-1, 8.19 object identifiers: arcs as <<hi16, lo16>> pairs.       *)
RECURSIVE SubIds(_, _)
SubIds(b, acc) ==    \* acc: 7-bit groups of the current subidentifier
    IF b = <<>> THEN IF acc = <<>> THEN <<>> ELSE << [g |-> acc, done |-> FALSE] >>
    ELSE IF b[1] < 128 THEN << [g |-> Append(acc, b[1]), done |-> TRUE] >> \o SubIds(Tail(b), <<>>)
    ELSE SubIds(Tail(b), Append(acc, b[1] % 128))
RECURSIVE GroupsToU32(_)
GroupsToU32(g) ==    \* value modulo 2^32
    IF g = <<>> THEN <<0, 0>>
    ELSE LET p == GroupsToU32(SubSeq(g, 1, Len(g) - 1)) IN
         << ((p[1] * 128) + (p[2] \div 512)) % 65536,
            ((p[2] % 512) * 128) + g[Len(g)] >>
U32Sub(u, n) == IF u[2] >= n THEN <<u[1], u[2] - n>> ELSE <<u[1] - 1, u[2] + 65536 - n>>
OidOf(b) ==
    LET ids == SubIds(b, <<>>)
        first == GroupsToU32(ids[1].g)
        head == IF first[1] = 0 /\ first[2] < 40 THEN << Tg(0), first >>
                ELSE IF first[1] = 0 /\ first[2] < 80 THEN << Tg(1), <<0, first[2] - 40>> >>
                ELSE << Tg(2), U32Sub(first, 80) >>
    IN head \o [i \in 1..(Len(ids) - 1) |-> GroupsToU32(ids[i + 1].g)]
=============================================================================
