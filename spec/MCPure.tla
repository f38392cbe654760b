------------------------------- MODULE MCPure ------------------------------
(* Byte strings, exhaustively over a small alphabet up to a length: the     *)
(* laws the decoders obey, and the inputs to replay on the implementation.  *)
EXTENDS Strings, TLC, Json

CONSTANTS Kind, MaxLen, Emit

VARIABLE input

Alphabet ==
    CASE Kind = "ber" -> {0, 1, 2, 3, 31, 48, 80, 127, 128, 129, 130, 132, 159, 191, 255}
      [] Kind = "berlen" -> {0, 1, 2, 127, 248, 250, 253, 255}
      [] Kind = "tag" -> {0, 30, 31, 63, 95, 127, 128, 129, 159, 191, 192, 223, 254, 255}
      [] Kind = "flat" -> {0, 1, 2, 3, 4, 48, 90, 128, 129, 191, 12}
      [] Kind = "oid" -> {0, 1, 39, 40, 79, 80, 127, 128, 129, 255}
      [] Kind = "dol" -> {0, 1, 2, 3, 31, 95, 129, 154, 159, 255}
      [] Kind = "afl" -> {0, 1, 2, 3, 7, 8, 80, 240, 248, 254, 255}
      [] Kind = "case" -> {0, 1, 2, 3, 4}
      [] Kind = "iso" -> {32, 65, 126, 160, 164, 165, 196, 219, 230, 255}
      [] Kind = "num" -> {0, 1, 9, 10, 16, 144, 153, 154, 160, 165, 255}

\* a fixed prefix brings some kinds to the interesting part at once
Prefix == IF Kind = "berlen" THEN <<4, 132>> ELSE IF Kind = "case" THEN <<0, 164, 4>> ELSE IF Kind = "afl" /\ MaxLen > 4 THEN <<8, 1, 2, 1>> ELSE <<>>

Init == input = Prefix
Next == \E x \in Alphabet : Len(input) < MaxLen /\ input' = Append(input, x)
Spec == Init /\ [][Next]_input

Emitted == Emit => PrintT("OUT " \o ToJson(input))

-----------------------------------------------------------------------------
\* Decoding one element: progress, bounds, and nothing beyond the element matters
LawBer ==
    LET e == BerDecode(input) IN
    /\ e.r <= Len(input)
    /\ (e.r = 0) <=> (input = <<>>)
    /\ e.r > 0 => /\ e.off >= 0 /\ e.off + Len(e.val) <= e.r
                  /\ e.val = Slice(input, e.off, Len(e.val))
                  /\ BerDecode(SubSeq(input, 1, e.r)) = e
                  /\ \A k \in 0..(e.r - 1) : k > 0 => BerDecode(SubSeq(input, 1, k)).r < 0
    /\ LET it == BerItems(input) IN
       it.ok => Len(it.items) <= Len(input)
LawFlat ==
    LET p == ParseFlat(input) IN
    /\ SumSeq([i \in 1..Len(p.list) |-> Len(p.list[i].v) + 2]) <= Len(input)
    /\ p.ok /\ input # <<>> => BerDecode(input).r > 0
LawTag ==
    LET t == TagDecode(input) IN t.r > 0 => t.r <= Len(input) /\ t.r <= 4 /\ TagDecode(SubSeq(input, 1, t.r)) = t
LawOid ==
    LET o == ExpectOid(input) IN o.r = 0 => Len(o.arcs) \in 2..MaxArcs /\ o.arcs[1] \in {Tg(0), Tg(1), Tg(2)}
\* The data built for a list has exactly the length the list asks for
Srcs == << << TlvRec(Tg(154), <<7, 8>>, 0), TlvRec(Tg(149), <<9, 9>>, 0) >>, << TlvRec(Tg(154), <<6>>, 0) >> >>
LawDol ==
    /\ DolLen(input) >= 0 => /\ DolBuild(input, Srcs, DolLen(input) + 1).r = 0
                             /\ Len(DolBuild(input, Srcs, DolLen(input) + 1).data) = DolLen(input)
                             /\ DolLen(input) > 0 => DolBuild(input, Srcs, DolLen(input)).r = 0
                             /\ DolLen(input) > 1 => DolBuild(input, Srcs, DolLen(input) - 1).r = 1
    /\ DolLen(input) < 0 => DolBuild(input, Srcs, 1000).r # 0
LawAfl ==
    LET a == AflItems(SubSeq(input, 1, 4 * (Len(input) \div 4))) IN
    \A i \in 1..Len(a.items) : /\ a.items[i].sfi \in 1..30
                               /\ a.items[i].first >= 1 /\ a.items[i].first <= a.items[i].last
                               /\ a.items[i].oda <= a.items[i].last - a.items[i].first + 1
LawCase ==
    LET k == CapduCase(input) IN
    /\ k \in {"3S", "4S"} => input[5] = Len(input) - (IF k = "3S" THEN 5 ELSE 6)
    /\ Len(input) < 4 => k = "bad"
LawNum ==
    input # <<>> => LET n == NToUint(input) IN
            /\ n.ok /\ Len(input) <= 4 => UintToN(n.u, Len(input)) = input
            /\ Len(input) <= 4 => UintToB(U32FromBytes(input), Len(input)) = input
\* Conversion: within the buffer, a prefix of the complete conversion, whole characters only
LawIso ==
    input # <<>> => \A page \in {1, 3, 5, 7, 11, 15} :
            LET full == ToUtf8(page, input, 100) IN
            \A cap \in 1..10 :
                LET t == ToUtf8(page, input, cap) IN
                /\ Len(t.s) < cap /\ IsPrefixOf(t.s, full.s)
                /\ t.s # full.s => full.s[Len(t.s) + 1] \notin 128..191
                /\ t.s # full.s => Len(t.s) + 3 >= cap - 1
Laws ==
    CASE Kind \in {"ber", "berlen"} -> LawBer
      [] Kind = "tag" -> LawTag
      [] Kind = "flat" -> LawFlat
      [] Kind = "oid" -> LawOid
      [] Kind = "dol" -> LawDol
      [] Kind = "afl" -> LawAfl
      [] Kind = "case" -> LawCase
      [] Kind = "iso" -> LawIso
      [] Kind = "num" -> LawNum
Inv == Laws /\ Emitted
=============================================================================
