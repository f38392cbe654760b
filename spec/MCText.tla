------------------------------- MODULE MCText -------------------------------
(* Values with a textual meaning, exhaustively over small alphabets: the    *)
(* laws the texts obey, and the inputs to replay on the implementation.     *)
EXTENDS Describe

CONSTANTS Kind, MaxLen, Emit

VARIABLE input

Alphabet ==
    CASE Kind = "digits" -> {47, 48, 49, 57, 58}
      [] Kind = "nib" -> {0, 15, 18, 159, 241, 255, 26, 144, 208}
      [] Kind = "chars" -> {0, 31, 32, 47, 48, 57, 58, 64, 65, 90, 91, 96, 97, 122, 123, 126, 127, 128, 255}
      [] Kind = "ctlv" -> {0, 16, 49, 130, 243, 114}
      [] Kind = "asrpd" -> {0, 1, 2, 3, 255}
      [] Kind = "cvml" -> {0, 1, 6, 9, 31, 63, 66, 94, 128}
      [] Kind = "aid" -> {1, 3, 4, 5, 16, 32, 34, 37, 48, 82, 96, 101, 128, 152}
      [] Kind = "capdu" -> {0, 1, 2, 4, 12, 128, 164, 178, 202, 219, 255}
      [] Kind = "iad" -> {0, 3, 6, 10, 15, 16, 31, 34, 165}
      [] Kind = "tpd" -> {0, 1, 2, 3, 48, 49, 128}
      [] Kind = "lists" -> 0..4
      [] Kind = "amount" -> {0, 1, 9, 10, 99, 100, 127, 128, 255}

Prefix ==
    CASE Kind = "cvml" -> <<0, 0, 0, 100, 128, 0, 0, 0>>
      [] Kind = "aid" -> <<160, 0, 0, 0>>
      [] Kind = "tpd" -> <<5, 40>>
      [] OTHER -> <<>>
\* the rest of a long value
Padded == IF Kind # "iad" THEN input ELSE input \o [i \in 1..14 |-> 0]

Init == input = Prefix
Next == \E x \in Alphabet : Len(input) < MaxLen /\ input' = Append(input, x)
Spec == Init /\ [][Next]_input
Emitted == Emit => PrintT("OUT " \o ToJson(Padded))

-----------------------------------------------------------------------------
IsNumeric(t) == t # <<>> /\ AllIn(t, IsDigit)
\* Packing and unpacking a number are inverse, and never lose a digit that fits
LawDigits ==
    \A len \in 1..3 :
        /\ IsNumeric(input) /\ Len(input) <= 2 * len =>
             /\ PackCn(input, len).r = 0 /\ Len(PackCn(input, len).b) = len
             /\ CnText(PackCn(input, len).b, 50) = Good(TextOf(input))
             /\ NText(PackN(input, len).b, 50) = Good(DigitsText(NoLeadingZeros([i \in 1..Len(input) |-> input[i] - 48])))
        /\ ~AllIn(input, IsDigit) /\ Len(input) <= 2 * len => PackCn(input, len).r = 1 /\ PackN(input, len).r = 1
\* A text is all there or refused for lack of room; never cut
LawNib ==
    input # <<>> =>
          \A cap \in 1..10 :
            /\ CnText(input, cap).r = 0 => CnText(input, cap) = CnText(input, 50) /\ Len(CnText(input, cap).s) < cap
            /\ NText(input, cap).r = 0 => NText(input, cap) = NText(input, 50) /\ Len(NText(input, cap).s) < cap
            /\ CnText(input, 50).r = 0 => Len(CnText(input, 50).s) <= 2 * Len(input)
            /\ NText(input, 50).r = 0 => (U32Text(NToUint(input).u) = NText(input, 50).s \/ Len(input) > 4)
LawChars ==
    input # <<>> =>
          /\ Chars(input, 50, IsAlpha).r = 0 => Chars(input, 50, IsAlnum).r = 0
          /\ Chars(input, 50, IsAlnum).r = 0 => Chars(input, 50, IsAlnumSpace).r = 0
          /\ Chars(input, 50, IsAlnumSpace).r = 0 => Chars(input, 50, IsCcs).r = 0
          /\ Chars(input, 50, IsCcs).r = 0 => Len(Chars(input, 50, IsCcs).s) = Len(input)
LawCtlv ==
    LET c == CompactTlv(input)
        enc(x) == <<x.tag * 16 + Len(x.val)>> \o x.val IN
    /\ c.r = 0 => FoldSeq(LAMBDA x, acc : acc \o enc(x), <<>>, c.items) = input
    /\ c.r # 0 => \A n \in 1..Len(input) : CompactTlv(SubSeq(input, 1, n)).r = 0 => n < Len(input)
LawAsrpd == LET a == AsrpdItems(input) IN a.ok => 3 * Len(a.ts) <= Len(input)
LawCvml ==
    /\ CvmListInit(input) = 0 => /\ 2 * Len(CvmRules(input)) + 8 = Len(input)
                                 /\ CvmX(input) = <<0, 100>> /\ CvmY(input) = <<32768, 0>>
    /\ (CvmListInit(input) = 0) <=> (Len(input) >= 10 /\ Len(input) % 2 = 0)
\* Extending an identifier keeps its scheme; its text is never empty
LawAid ==
    LET a == AidInfo(input) IN
    a.r = 0 => /\ \A x \in {<<0>>, <<1, 2, 3>>} : AidInfo(input \o x).scheme = a.scheme
               /\ a.product # "UNKNOWN" => \A x \in {<<0>>, <<1, 2, 3>>} : AidInfo(input \o x).product = a.product
               /\ AidText(input, 200).r = 0 /\ AidText(input, 200).s # ""
LawCapdu ==
    /\ EmvCapdu(input, 200).r = 0 => Len(input) >= 4 /\ EmvCapdu(input, 200).s # "" /\ input[1] # 255
    /\ Len(input) >= 4 /\ input[1] < 128 => (EmvCapdu(input, 200).r = 0) = (IsoCapdu(input, 200).t # Null)
\* The formats exclude each other as the definitions are ordered; only an invalid one is refused
LawIad ==
    LET p == Padded IN
    /\ (Iad(p, 500).r = 0) = (IadFormat(p) # "INVALID")
    /\ IsMchip(p) /\ ~IsCcd(p) /\ Len(p) = 18 => IadFormat(p) = "MCHIP4"
    /\ IsCcd(p) => Len(p) = 32
LawTpd == ThirdParty(input, 2000).r \in {0, 1}
          /\ (ThirdParty(input, 2000).r = 0 => Len(input) >= 5 /\ ThirdParty(input, 2000).s # "")
LawAmount ==
    input # <<>> /\ Len(input) <= 4 =>
          /\ AmountText(input, 50).r = 0
          /\ \A cap \in 1..11 : AmountText(input, cap).r = 0 => Len(AmountText(input, cap).s) < cap
\* Lists of texts: within the buffer, in order, each line a beginning of its text,
\* and complete as soon as there is room
Words == <<"", "a", "bb", "cccc", "a long text">>
Texts == [i \in 1..Len(input) |-> Words[input[i] + 1]]
RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN "" ELSE Head(ts) \o "\n" \o Joined(Tail(ts))
LawLists ==
    \A cap \in 1..30 :
        LET s == List(Texts, cap).s
            f == FitTexts(Texts, cap)
            all == Joined(Texts) IN
        /\ Len(s) < cap /\ Len(f) < cap
        /\ cap > Len(all) + 2 => s = all /\ f = all
        /\ \A c2 \in {cap + 1, cap + 5} : Len(List(Texts, c2).s) >= Len(s)
        /\ s # "" => SubSeq(s, Len(s), Len(s)) = "\n"
Laws ==
    CASE Kind = "digits" -> LawDigits
      [] Kind = "nib" -> LawNib
      [] Kind = "chars" -> LawChars
      [] Kind = "ctlv" -> LawCtlv
      [] Kind = "asrpd" -> LawAsrpd
      [] Kind = "cvml" -> LawCvml
      [] Kind = "aid" -> LawAid
      [] Kind = "capdu" -> LawCapdu
      [] Kind = "iad" -> LawIad
      [] Kind = "tpd" -> LawTpd
      [] Kind = "lists" -> LawLists
      [] Kind = "amount" -> LawAmount
Inv == Laws /\ Emitted
=============================================================================
