------------------------------ MODULE Describe ------------------------------
(* Human readable texts of EMV values: what each decoder answers.           *)
(* A text written to a buffer of cap octets keeps its first cap - 1         *)
(* characters; lists of texts hold one text per line, and stop adding when  *)
(* fewer than three octets are left.                                        *)
(* Answers are [r, s]: r is the sign of the result (0 success, negative     *)
(* caller error, positive malformed value) and s the text when r = 0.       *)
EXTENDS Tables, Fmt, Dol, Ttl, IOUtils, Json

\* Names from the ISO and merchant category registers, and the 256 characters
Data == JsonDeserialize(IOEnv.TEXT)
Chr(c) == Data.chr[c + 1]
RECURSIVE TextOf(_)
TextOf(b) == IF b = <<>> THEN "" ELSE Chr(b[1]) \o TextOf(Tail(b))
CStr(b) == LET z == {i \in 1..Len(b) : b[i] = 0} IN
           TextOf(IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1))
NameIn(tab, key) == IF key \in DOMAIN tab THEN tab[key] ELSE ""

Good(t) == [r |-> 0, s |-> t]
Bad == [r |-> -1, s |-> ""]
Malformed == [r |-> 1, s |-> ""]

RECURSIVE AddTexts(_, _)
AddTexts(ts, room) ==
    IF ts = <<>> \/ room < 3 THEN ""
    ELSE LET t == Cut(Head(ts), room - 1) IN t \o "\n" \o AddTexts(Tail(ts), room - Len(t) - 1)
List(ts, cap) == Good(AddTexts(ts, cap))

\* ISO 7816 lists leave out the texts that do not fit
RECURSIVE FitTexts(_, _)
FitTexts(ts, room) ==
    IF ts = <<>> THEN ""
    ELSE IF Len(Head(ts)) + 2 > room THEN FitTexts(Tail(ts), room)
    ELSE Head(ts) \o "\n" \o FitTexts(Tail(ts), room - Len(Head(ts)) - 1)

Pad2(n) == IF n < 10 THEN "0" \o Str(n) ELSE Str(n)
RECURSIVE DigitsText(_)
DigitsText(ds) == IF ds = <<>> THEN "" ELSE Str(Head(ds)) \o DigitsText(Tail(ds))
RECURSIVE NoLeadingZeros(_)
NoLeadingZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN NoLeadingZeros(Tail(ds)) ELSE ds
U32Text(u) == DigitsText(NoLeadingZeros(DecDigits(u, 10)))
Entry(tab, key) == LET S == {i \in 1..Len(tab) : tab[i][1] = key} IN
                   IF S = {} THEN "" ELSE tab[CHOOSE i \in S : TRUE][2]

-----------------------------------------------------------------------------
(* Plain values *)
AllIn(b, P(_)) == \A i \in 1..Len(b) : P(b[i])
IsCcs(c) == c >= 32 /\ c <= 126
Chars(b, cap, P(_)) ==
    IF b = <<>> \/ cap = 0 \/ cap < Len(b) + 1 THEN Bad
    ELSE IF AllIn(b, P) THEN Good(TextOf(b)) ELSE Malformed
\* digits up to the padding nibble F
RECURSIVE UpToPad(_)
UpToPad(ns) == IF ns = <<>> \/ ns[1] = 15 THEN <<>> ELSE <<ns[1]>> \o UpToPad(Tail(ns))
CnText(b, cap) ==
    IF b = <<>> \/ cap = 0 \/ cap < 2 * Len(b) + 1 THEN Bad
    ELSE LET d == UpToPad(Nibbles(b)) IN
         IF \E i \in 1..Len(d) : d[i] > 9 THEN Malformed ELSE Good(DigitsText(d))
NText(b, cap) ==
    IF b = <<>> THEN Bad
    ELSE IF \E i \in 1..(2 * Len(b)) : Nibbles(b)[i] > 9 THEN Malformed
    ELSE LET t == DigitsText(NoLeadingZeros(Nibbles(b))) IN
         IF cap < 2 \/ cap < Len(t) + 1 THEN Bad ELSE Good(t)
AmountText(b, cap) ==
    IF Len(b) > 4 THEN Bad
    ELSE LET t == U32Text(U32FromBytes(b)) IN
         IF cap < 2 \/ cap < Len(t) + 1 THEN Bad ELSE Good(t)
DateTime(b, cap, need, Form(_)) ==
    IF Len(b) # 3 THEN Malformed ELSE IF cap < need THEN Bad
    ELSE IF \E i \in 1..6 : Nibbles(b)[i] > 9 THEN Malformed ELSE Good(Form(b))
TwoDigits(x) == Str(HiNib(x)) \o Str(LoNib(x))
DateForm(b) == "20" \o TwoDigits(b[1]) \o "-" \o TwoDigits(b[2]) \o "-" \o TwoDigits(b[3])
TimeForm(b) == TwoDigits(b[1]) \o ":" \o TwoDigits(b[2]) \o ":" \o TwoDigits(b[3])
Track2Chars == "0123456789:;<=>?"
RECURSIVE Track2Text(_)
Track2Text(ds) == IF ds = <<>> THEN "" ELSE SubSeq(Track2Chars, ds[1] + 1, ds[1] + 1) \o Track2Text(Tail(ds))
Track2(b, cap) ==
    IF cap < 2 * Len(b) + 1 THEN Bad ELSE Good(Track2Text(UpToPad(Nibbles(b))))

\* Pack a decimal text (its character codes) into format cn or n octets
RECURSIVE PackNibbles(_)
PackNibbles(ns) == IF ns = <<>> THEN <<>> ELSE <<ns[1] * 16 + ns[2]>> \o PackNibbles(SubSeq(ns, 3, Len(ns)))
PackCn(t, len) ==
    IF len = 0 THEN [r |-> -1, b |-> <<>>]
    ELSE LET d == SubSeq(t, 1, Min2(Len(t), 2 * len)) IN
         IF ~AllIn(d, IsDigit) THEN [r |-> 1, b |-> <<>>]
         ELSE [r |-> 0, b |-> PackNibbles([i \in 1..(2 * len) |-> IF i <= Len(d) THEN d[i] - 48 ELSE 15])]
PackN(t, len) ==
    IF len = 0 THEN [r |-> -1, b |-> <<>>]
    ELSE LET n == Min2(Len(t), 2 * len)
             d == SubSeq(t, Len(t) - n + 1, Len(t)) IN
         IF ~AllIn(d, IsDigit) THEN [r |-> 1, b |-> <<>>]
         ELSE [r |-> 0, b |-> PackNibbles([i \in 1..(2 * len) |-> IF i <= 2 * len - n THEN 0 ELSE d[i - (2 * len - n)] - 48])]

-----------------------------------------------------------------------------
(* Registers: an unknown code has the empty text *)
Register(b, cap, n, tab, Key(_)) ==
    IF Len(b) # n THEN Malformed ELSE Good(Cut(NameIn(tab, Key(b)), cap))
NumKey(b) == U32Text(NToUint(b).u)
Numeric(b, cap, tab) ==
    IF Len(b) # 2 THEN Malformed ELSE IF ~NToUint(b).ok THEN Malformed
    ELSE Good(Cut(NameIn(tab, NumKey(b)), cap))
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LangKey(b) == CStr(<<Lower(b[1]), Lower(b[2])>>)
Pairs(b) == [i \in 1..(Len(b) \div 2) |-> <<b[2 * i - 1], b[2 * i]>>]
OrUnknown(t) == IF t = "" THEN "Unknown" ELSE t
RefCurrencies(b, cap) ==
    IF Len(b) % 2 = 1 THEN Malformed
    ELSE LET ps == Pairs(b) IN
         IF \E i \in 1..Len(ps) : ~NToUint(ps[i]).ok THEN Malformed
         ELSE List([i \in 1..Len(ps) |-> OrUnknown(Cut(NameIn(Data.currency, NumKey(ps[i])), 128))], cap)
Languages(b, cap) ==
    IF Len(b) % 2 = 1 THEN Malformed
    ELSE LET ps == Pairs(b) IN
         List([i \in 1..Len(ps) |-> OrUnknown(Cut(NameIn(Data.language2, LangKey(ps[i])), 128))], cap)

-----------------------------------------------------------------------------
(* Single octets *)
Named(x, tab, cap) ==
    LET S == {i \in 1..Len(tab) : tab[i][1] = x} IN
    IF S = {} THEN Malformed ELSE Good(Cut(tab[CHOOSE i \in S : TRUE][2], cap))
PosEntryModes == <<
    <<0, "Unknown">>, <<1, "Manual PAN entry">>, <<2, "Magnetic stripe">>, <<3, "Optical Code">>, <<4, "OCR">>,
    <<5, "Integrated circuit card (ICC). CVV can be checked.">>, <<7, "Auto entry via contactless EMV">>,
    <<16, "Merchant has Cardholder Credentials on File">>,
    <<128, "Fallback from integrated circuit card (ICC) to magnetic stripe">>,
    <<144, "Magnetic stripe as read from track 2. CVV can be checked.">>,
    <<145, "Auto entry via contactless magnetic stripe">>,
    <<149, "Integrated circuit card (ICC). CVV may not be checked.">>, <<153, "Same as original transaction">>>>
TxnTypes == <<<<0, "Goods and services">>, <<1, "Cash">>, <<9, "Cashback">>, <<32, "Refund">>, <<48, "Inquiry">>>>
AccountTypes == <<<<0, "Default">>, <<16, "Savings">>, <<32, "Cheque/Debit">>, <<48, "Credit">>>>
ClReaderCaps(x) ==
    CASE (x & 200) = 0 -> "Deprecated" [] (x & 200) = 64 -> "Mag-stripe CVM Not Required"
      [] (x & 200) = 72 -> "Mag-stripe CVM Required" [] (x & 200) = 128 -> "Deprecated - EMV and Mag-stripe"
      [] (x & 200) = 192 -> "EMV and Mag-stripe CVM Not Required" [] (x & 200) = 200 -> "EMV and Mag-stripe CVM Required"
      [] OTHER -> "Not Available for Use"

-----------------------------------------------------------------------------
(* Application identifiers *)
AidInfo(b) ==
    IF b = <<>> THEN [r |-> -1, scheme |-> "", product |-> ""]
    ELSE IF Len(b) \notin 5..16 THEN [r |-> 1, scheme |-> "", product |-> ""]
    ELSE LET S == {i \in 1..Len(Aids) : IsPrefixOf(Aids[i][1], b)} IN
         IF S = {} THEN [r |-> -1, scheme |-> "", product |-> ""]
         ELSE LET a == Aids[CHOOSE i \in S : TRUE]
                  P == {j \in 1..Len(a[4]) : IsPrefixOf(a[4][j][1], From(b, 5))}
              IN [r |-> 0, scheme |-> a[2],
                  product |-> IF P = {} THEN a[3] ELSE a[4][CHOOSE j \in P : TRUE][2]]
AidText(b, cap) ==
    LET a == AidInfo(b) IN
    IF a.r # 0 THEN [r |-> a.r, s |-> ""]
    ELSE Good(Cut(IF a.product = "UNKNOWN" THEN Entry(SchemeNames, a.scheme) ELSE Entry(ProductNames, a.product), cap))

-----------------------------------------------------------------------------
(* Application selection registered proprietary data: identifier, length, value *)
AsrpdName(x, y) ==
    CASE x = 0 /\ y = 1 -> "European Cards Stakeholders Group"
      [] x = 0 /\ y = 3 -> "Technical Cooperation ep2 Association"
      [] OTHER -> "Unknown ASRPD identifier"
RECURSIVE AsrpdItems(_)
AsrpdItems(b) ==
    IF b = <<>> THEN [ok |-> TRUE, ts |-> <<>>]
    ELSE IF Len(b) < 3 THEN [ok |-> FALSE, ts |-> <<>>]
    ELSE IF 3 + b[3] > Len(b) THEN [ok |-> FALSE, ts |-> <<>>]
    ELSE LET rest == AsrpdItems(From(b, 3 + b[3])) IN
         [ok |-> rest.ok, ts |-> <<AsrpdName(b[1], b[2])>> \o rest.ts]
Asrpd(b, cap) == LET a == AsrpdItems(b) IN IF a.ok THEN List(a.ts, cap) ELSE Malformed

AflEntryText(e) ==
    "SFI " \o Str(e.sfi) \o ", record " \o Str(e.first)
    \o (IF e.first = e.last THEN "" ELSE " to " \o Str(e.last))
    \o (IF e.oda = 0 THEN ""
        ELSE ", " \o Str(e.oda) \o (IF e.oda > 1 THEN " records" ELSE " record") \o " used for offline data authentication")
AflText(b, cap) ==
    IF AflInit(b) # 0 THEN [r |-> Sign(AflInit(b)), s |-> ""]
    ELSE LET a == AflItems(b) IN
         IF ~a.ok THEN Malformed
         ELSE List([i \in 1..Len(a.items) |-> AflEntryText(a.items[i])], cap)

-----------------------------------------------------------------------------
(* Cardholder verification *)
CvmNames == <<"Fail CVM processing", "Plaintext PIN verification performed by ICC", "Enciphered PIN verified online",
    "Plaintext PIN verification performed by ICC and signature", "Enciphered PIN verification performed by ICC",
    "Enciphered PIN verification performed by ICC and signature", "Facial biometric verified offline (by ICC)",
    "Facial biometric verified online", "Finger biometric verified offline (by ICC)", "Finger biometric verified online",
    "Palm biometric verified offline (by ICC)", "Palm biometric verified online", "Iris biometric verified offline (by ICC)",
    "Iris biometric verified online", "Voice biometric verified offline (by ICC)", "Voice biometric verified online">>
CvmName(x) ==
    LET c == x & 63 IN
    CASE c <= 15 -> CvmNames[c + 1] [] c = 30 -> "Signature (paper)" [] c = 31 -> "No CVM required"
      [] c = 63 -> "Invalid CV Rule" [] OTHER -> "Unknown CVM"
InCurrency(rel, v) == "If transaction is in the application currency and is " \o rel \o " " \o v \o " value"
CondName(x, X, Y) ==
    CASE x = 0 -> "Always" [] x = 1 -> "If unattended cash"
      [] x = 2 -> "If not unattended cash and not manual cash and not purchase with cashback"
      [] x = 3 -> "If terminal supports the CVM" [] x = 4 -> "If manual cash" [] x = 5 -> "If purchase with cashback"
      [] x = 6 -> InCurrency("under", X) [] x = 7 -> InCurrency("over", X)
      [] x = 8 -> InCurrency("under", Y) [] x = 9 -> InCurrency("over", Y)
      [] OTHER -> "Unknown condition"
CvmListInit(b) ==
    CASE b = <<>> -> -1 [] b # <<>> /\ (Len(b) % 2 = 1 \/ Len(b) < 10 \/ Len(b) > 252) -> 1 [] OTHER -> 0
CvmX(b) == U32FromBytes(SubSeq(b, 1, 4))
CvmY(b) == U32FromBytes(SubSeq(b, 5, 8))
CvmRules(b) == Pairs(From(b, 8))
CvmList(b, cap) ==
    IF CvmListInit(b) # 0 THEN [r |-> CvmListInit(b), s |-> ""]
    ELSE LET rs == CvmRules(b) IN
         List([i \in 1..Len(rs) |->
                 CondName(rs[i][2], U32Text(CvmX(b)), U32Text(CvmY(b))) \o "; " \o CvmName(rs[i][1]) \o "; "
                 \o (IF Bit(rs[i][1], 6) = 1 THEN "Apply succeeding CV Rule if this CVM is unsuccessful"
                     ELSE "Fail cardholder verification if this CVM is unsuccessful")], cap)
CvmResults(b, cap) ==
    IF Len(b) # 3 THEN Malformed
    ELSE List(<<"CVM Performed: " \o (IF b[1] = 63 THEN "CVM not performed" ELSE CvmName(b[1])),
                "CVM Condition: " \o CondName(b[2], "X", "Y"),
                "CVM Result: " \o (CASE b[3] = 0 -> "Unknown" [] b[3] = 1 -> "Failed" [] b[3] = 2 -> "Successful"
                                     [] OTHER -> Str(b[3]))>>, cap)

-----------------------------------------------------------------------------
(* Issuer application data *)
IsCcd(b) == Len(b) = 32 /\ b[1] = 15 /\ b[2] \in {165, 166} /\ b[17] = 15
IsMchip(b) == Len(b) >= 18 /\ HiNib(b[2]) = 1 /\ (b[2] & 10) = 0
IsVsdc013(b) == Len(b) >= 7 /\ b[1] = 6 /\ b[4] = 3
IsVsdc24(b) == Len(b) = 32 /\ b[1] = 31 /\ HiNib(b[9]) = 0
IadFormat(b) ==
    CASE b = <<>> -> "INVALID"
      [] b # <<>> /\ IsCcd(b) -> "CCD"
      [] b # <<>> /\ ~IsCcd(b) /\ IsMchip(b) /\ Len(b) = 18 -> "MCHIP4"
      [] b # <<>> /\ ~IsCcd(b) /\ IsMchip(b) /\ Len(b) \in {20, 26, 28} -> "MCHIP_ADVANCE"
      [] OTHER ->
           IF IsVsdc013(b) THEN (IF HiNib(b[3]) \in {0, 1, 3} THEN "VSDC_" \o Str(HiNib(b[3])) ELSE "INVALID")
           ELSE IF IsVsdc24(b) THEN (IF HiNib(b[2]) \in {2, 4} THEN "VSDC_" \o Str(HiNib(b[2])) ELSE "INVALID")
           ELSE "UNKNOWN"
Dki(x) == "Derivation Key Index (DKI): " \o Hex2(x)
IadTexts(b) ==
    LET f == IadFormat(b) IN
    CASE f = "CCD" ->
           <<"Application: CCD-Compliant", "IAD Format: CCD Version 4.1",
             IF b[2] = 165 THEN "Cryptogram Version: TDES" ELSE "Cryptogram Version: AES", Dki(b[3])>>
           \o RowsTexts(CcdCvrRows, From(b, 3))
      [] f \in {"MCHIP4", "MCHIP_ADVANCE"} ->
           <<IF f = "MCHIP4" THEN "Application: M/Chip 4" ELSE "Application: M/Chip Advance", Dki(b[1]),
             "Cryptogram Version Number (CVN): " \o Hex2(b[2]),
             IF (b[2] & 6) = 0 THEN "Cryptogram: Mastercard Proprietary SKD session key" ELSE "Cryptogram: EMV CSK session key",
             IF Bit(b[2], 0) = 1 THEN "Cryptogram: Counter included in AC data" ELSE "Cryptogram: Counters not included in AC data">>
           \o RowsTexts(IF f = "MCHIP4" THEN Mchip4CvrRows ELSE MchipAdvCvrRows, From(b, 2))
      [] f \in {"VSDC_0", "VSDC_1", "VSDC_3"} ->
           <<"Application: Visa Smart Debit/Credit (VSDC)", "IAD Format: " \o Str(HiNib(b[3])), Dki(b[2]),
             "Cryptogram Version Number (CVN): " \o Hex2(b[3]) \o " (CVN" \o Pad2(b[3]) \o ")">>
           \o RowsTexts(Vsdc013CvrRows, From(b, 3))
      [] f \in {"VSDC_2", "VSDC_4"} ->
           <<"Application: Visa Smart Debit/Credit (VSDC)", "IAD Format: " \o Str(HiNib(b[2])),
             "Cryptogram Version Number (CVN): " \o Hex2(b[2]) \o " (CVN'" \o Hex2(b[2]) \o "')", Dki(b[3])>>
           \o RowsTexts(Vsdc24CvrRows, From(b, 3))
      [] OTHER -> <<"Unknown IAD format">>
Iad(b, cap) ==
    IF Len(b) > 32 THEN Malformed ELSE IF IadFormat(b) = "INVALID" THEN Bad ELSE List(IadTexts(b), cap)

-----------------------------------------------------------------------------
(* Issuer authentication data *)
Arpc(b, n) == "Authorisation Response Cryptogram (ARPC): " \o HexText(SubSeq(b, 1, n))
IssAuthTexts(b) ==
    LET arc == Len(b) = 10 /\ IsAlnum(b[9]) /\ IsAlnum(b[10])
        arctext == "Authorisation Response Code: " \o TextOf(SubSeq(b, 9, 10)) IN
    CASE arc -> <<Arpc(b, 8), arctext>>
      [] Len(b) = 10 /\ ~arc /\ HiNib(b[9]) = 0 -> <<Arpc(b, 8), "M/Chip ARPC Response Code: " \o HexText(SubSeq(b, 9, 10))>>
      [] ~arc /\ ~(Len(b) = 10 /\ HiNib(b[9]) = 0) /\ (b[5] & 112) = 0 /\ b[7] = 0 ->
           <<Arpc(b, 4)>> \o RowsTexts(CsuRows, SubSeq(b, 5, 8))
           \o (IF Len(b) > 8 /\ b[5] >= 128 THEN <<"Proprietary Authentication Data: " \o Str(Len(b) - 8) \o " bytes">> ELSE <<>>)
      [] OTHER -> <<>>
IssAuth(b, cap) == IF Len(b) \notin 8..32 THEN Malformed ELSE List(IssAuthTexts(b), cap)

ArcText(b, cap) ==
    IF cap < 3 THEN Bad
    ELSE IF Len(b) # 2 THEN Malformed
    ELSE IF ~AllIn(b, IsAlnum) THEN Malformed
    ELSE LET d == Entry(ResponseCodes, TextOf(b)) IN
         Good(IF cap < 10 \/ d = "" THEN TextOf(b) ELSE TextOf(b) \o Cut(" - " \o d, cap - 2))

-----------------------------------------------------------------------------
(* Mastercard third party data *)
Concessions == <<"01 - Senior Citizen, potentially eligible for senior citizen discounts",
    "02 - Student, potentially eligible for student-based discounts",
    "03 - Active military and veterans, potentially eligible for service member discounts",
    "04 - Low Income household, potentially eligible for means-based discounts",
    "05 - Disability, eligible for paratransit and other disability discounts",
    "06 - Minor Child, potentially enables free travel for under 16 and young kids",
    "07 - Transit Staff, potentially enables free travel for transit staff",
    "08 - City/Government/Preferred Employees, potentially enables discounted travel for federal and preferred employees">>
FleetTexts(p) ==
    (CASE p[3] = 0 -> <<>> [] p[3] = 1 -> <<"Product Restriction Code: Good for fuel and other products">>
       [] p[3] = 2 -> <<"Product Restriction Code: Good for fuel only">> [] OTHER -> <<"Product Restriction Code: RFU">>)
    \o RowsTexts(<<Flag(4, 8, "Product Type Code: Prompt for Odometer"), Flag(4, 4, "Product Type Code: Prompt for Driver Number"),
                   Flag(4, 2, "Product Type Code: Prompt for Vehicle Number"), Flag(4, 1, "Product Type Code: Prompt for ID Number"),
                   Flag(4, 240, "Product Type Code: RFU")>>, p)
    \o (CASE p[5] = 0 -> <<>> [] p[5] = 128 -> <<"Card Type: Driver card">> [] p[5] = 64 -> <<"Card Type: Vehicle card">>
          [] OTHER -> <<"Card Type: RFU">>)
TransitTexts(p) ==
    RowsTexts(<<Flag(3, 128, "Transit: Deferred Authorization Not Supported"), Flag(3, 127, "Transit: RFU")>>, p)
    \o <<"Concession Code: " \o (IF p[4] \in 1..8 THEN Concessions[p[4]] ELSE "RFU")>>
TpdCountry(b) ==
    LET t == IF NToUint(SubSeq(b, 1, 2)).ok THEN NameIn(Data.country, NumKey(SubSeq(b, 1, 2))) ELSE "" IN
    "Country: " \o OrUnknown(Cut(t, 128))
DeviceText(b) ==
    LET code == CStr(SubSeq(b, 5, 6))
        d == IF Len(code) = 2 THEN Entry(DeviceTypes, code) ELSE "" IN
    "Device Type: " \o code \o (IF d = "" THEN "" ELSE " - " \o d)
ThirdParty(b, cap) ==
    IF Len(b) \notin 5..32 THEN Malformed
    ELSE LET device == b[3] < 128
             id == (b[3] % 128) * 256 + b[4]
             ext == id = 3
             unused == b[3] = 0 /\ b[4] = 0
             p == From(b, IF device THEN 6 ELSE 4)        \* proprietary data
             head == <<TpdCountry(b),
                       "Unique Identifier: " \o (CASE unused -> "Proprietary Data not used" [] ext -> "Mastercard Product Extension"
                                                   [] OTHER -> "Unknown")>>
                     \o (IF device THEN <<DeviceText(b)>> ELSE <<>>)
         IN IF device /\ Len(b) < 7 THEN Malformed
            ELSE IF unused /\ p # <<0>> THEN Malformed
            ELSE IF ext THEN
                IF Len(p) < 2 THEN Malformed
                ELSE IF p[1] = 0 /\ p[2] = 1 THEN
                    (IF Len(p) # 8 THEN Malformed ELSE List(head \o <<"Product Identifier: Fleet Card">> \o FleetTexts(p), cap))
                ELSE IF p[1] = 0 /\ p[2] = 2 THEN
                    (IF Len(p) # 5 THEN Malformed ELSE List(head \o <<"Product Identifier: Transit">> \o TransitTexts(p), cap))
                ELSE List(head \o <<"Product Identifier: Unknown">>, cap)
            ELSE List(head \o (IF p[1] = 0 THEN <<"Proprietary Data: Not used">> ELSE <<>>), cap)

FormFactor(b, cap) ==
    IF Len(b) # 4 THEN Malformed
    ELSE IF b[1] \div 32 # 1 THEN List(<<"Form Factor Indicator (FFI): Version Number " \o Str(b[1] \div 32)>>, cap)
    ELSE List(RowsTexts(FfiRows, b), cap)

BitField(rows, n, b, cap) == IF Len(b) # n THEN Malformed ELSE List(RowsTexts(rows, b), cap)

-----------------------------------------------------------------------------
(* Command texts *)
HexNum(b) == HexText(b)
Occurrences == <<"first", "last", "next", "previous">>
IsPrintable(c) == c >= 32 /\ c <= 126
SelectText(b) ==
    LET k == CapduCase(b)
        mf == b[3] = 0 /\ b[4] = 0
        data == Slice(b, 5, b[5]) IN
    IF k \notin {"2S", "4S"} THEN Null
    ELSE IF mf /\ (k = "2S" \/ data = <<63, 0>>) THEN "SELECT Master File"
    ELSE IF k = "2S" THEN Null
    ELSE "SELECT " \o Occurrences[(b[4] % 4) + 1] \o " "
         \o (IF AllIn(data, IsPrintable) THEN TextOf(data) ELSE HexText(data))
RecordText(b) ==
    LET k == CapduCase(b)
        number == Bit(b[4], 2) = 1
        m == b[4] % 4
        rec == IF b[3] = 0 THEN "current record"
               ELSE IF number THEN "record number " \o Str(b[3]) ELSE "record identifier " \o Str(b[3])
        pre == "READ RECORD from short EF " \o Str(b[4] \div 8) \o ", " IN
    IF ~((b[2] = 178 /\ k \in {"2S", "2E"}) \/ (b[2] = 179 /\ k \in {"4S", "4E"})) THEN Null
    ELSE IF b[3] = 255 THEN Null
    ELSE IF ~number THEN pre \o Occurrences[m + 1] \o " occurence of " \o rec
    ELSE CASE m = 0 -> pre \o rec
           [] m = 1 -> pre \o "all records from " \o rec \o " up to last"
           [] m = 2 -> pre \o "all records from the last up to " \o rec
           [] OTHER -> Null
PutDataText(b) ==
    LET k == CapduCase(b)
        p1 == b[3]
        p2 == b[4] IN
    IF k = "3E" THEN "PUT DATA" ELSE IF k # "3S" THEN Null
    ELSE IF b[2] % 2 = 0 THEN
        CASE p1 = 0 /\ p2 \in 64..254 -> "PUT DATA for BER-TLV field " \o Hex2(p2)
          [] p1 = 1 -> "PUT DATA for proprietary identifier " \o Hex2(p2)
          [] p1 = 2 /\ p2 \in 1..254 -> "PUT DATA for SIMPLE-TLV field " \o Hex2(p2)
          [] p1 >= 64 -> "PUT DATA for BER-TLV field " \o Hex2(p1) \o Hex2(p2)
          [] OTHER -> "PUT DATA"
    ELSE CASE p1 = 0 /\ p2 \in 1..30 -> "PUT DATA for short EF " \o Str(p2)
           [] p1 = 63 /\ p2 = 255 -> "PUT DATA for current DF"
           [] p1 = 0 /\ p2 = 0 -> "PUT DATA"
           [] OTHER -> "PUT DATA for file " \o Hex2(p1) \o Hex2(p2)
InsNames == <<
    <<4, "DEACTIVATE FILE">>, <<12, "ERASE RECORD">>, <<14, "ERASE BINARY">>, <<15, "ERASE BINARY">>,
    <<16, "PERFORM SCQL OPERATION">>, <<18, "PERFORM TRANSACTION OPERATION">>, <<20, "PERFORM USER OPERATION">>,
    <<32, "VERIFY">>, <<33, "VERIFY">>, <<34, "MANAGE SECURITY ENVIRONMENT">>, <<36, "CHANGE REFERENCE DATA">>,
    <<38, "DISABLE VERIFICATION REQUIREMENT">>, <<40, "ENABLE VERIFICATION REQUIREMENT">>, <<42, "PERFORM SECURITY OPERATION">>,
    <<44, "RESET RETRY COUNTER">>, <<68, "ACTIVATE FILE">>, <<70, "GENERATE ASYMMETRIC KEY PAIR">>, <<112, "MANAGE CHANNEL">>,
    <<130, "EXTERNAL AUTHENTICATE">>, <<132, "GET CHALLENGE">>, <<134, "GENERAL AUTHENTICATE">>, <<135, "GENERAL AUTHENTICATE">>,
    <<136, "INTERNAL AUTHENTICATE">>, <<160, "SEARCH BINARY">>, <<161, "SEARCH BINARY">>, <<162, "SEARCH RECORD">>,
    <<176, "READ BINARY">>, <<177, "READ BINARY">>, <<192, "GET RESPONSE">>, <<194, "ENVELOPE">>, <<195, "ENVELOPE">>,
    <<202, "GET DATA">>, <<203, "GET DATA">>, <<208, "WRITE BINARY">>, <<209, "WRITE BINARY">>, <<210, "WRITE RECORD">>,
    <<214, "UPDATE BINARY">>, <<215, "UPDATE BINARY">>, <<220, "UPDATE RECORD">>, <<221, "UPDATE RECORD">>,
    <<224, "CREATE FILE">>, <<226, "APPEND RECORD">>, <<228, "DELETE FILE">>, <<230, "TERMINATE DF">>, <<232, "TERMINATE EF">>,
    <<254, "TERMINATE CARD USAGE">>>>
IsoCapduText(b) ==        \* Null when the command cannot be described
    IF Len(b) < 4 \/ b[1] >= 128 THEN Null
    ELSE CASE b[2] = 164 -> SelectText(b)
           [] b[2] \in {178, 179} -> RecordText(b)
           [] b[2] \in {218, 219} -> PutDataText(b)
           [] OTHER -> LET t == Entry(InsNames, b[2]) IN IF t = "" THEN Null ELSE t
IsoCapdu(b, cap) ==
    LET t == IsoCapduText(b) IN [t |-> IF b = <<>> \/ cap = 0 \/ t = Null THEN Null ELSE Cut(t, cap)]
EmvInsNames == <<<<30, "APPLICATION BLOCK">>, <<24, "APPLICATION UNBLOCK">>, <<22, "CARD BLOCK">>, <<174, "GENERATE AC">>,
    <<168, "GET PROCESSING OPTIONS">>, <<36, "PIN CHANGE/UNBLOCK">>>>
EmvCapdu(b, cap) ==
    IF Len(b) < 4 THEN Bad
    ELSE IF b[1] = 255 THEN Malformed
    ELSE IF b[1] < 128 THEN (LET t == IsoCapduText(b) IN IF t = Null THEN Malformed ELSE Good(Cut(t, cap)))
    ELSE IF b[2] = 202 THEN Good(Cut("GET DATA field " \o Hex2(b[3]) \o Hex2(b[4]), cap))
    ELSE LET t == Entry(EmvInsNames, b[2]) IN IF t = "" THEN Malformed ELSE Good(Cut(t, cap))

-----------------------------------------------------------------------------
(* Status words (ISO 7816-4:2005 5.1.3) *)
Sw62 == <<<<0, "State of non-volatile memory is unchanged">>, <<129, "Part of returned data may be corrupted">>,
    <<130, "End of file or record reached before reading Ne bytes">>, <<131, "Selected file deactivated">>,
    <<132, "File control information not formatted according to ISO 7816-4:2005, 5.3.3">>,
    <<133, "Selected file in termination state">>, <<134, "No input data available from a sensor on the card">>>>
Sw63 == <<<<0, "State of non-volatile memory has changed">>, <<129, "File filled up by the last write">>>>
Sw64 == <<<<0, "State of non-volatile memory is unchanged">>, <<1, "Immediate response required by card">>>>
Sw65 == <<<<0, "State of non-volatile memory has changed">>, <<129, "Memory failure">>>>
Sw68 == <<<<0, "Functions in CLA not supported">>, <<129, "Logical channel not supported">>, <<130, "Secure messaging not supported">>,
    <<131, "Last command of the chain expected">>, <<132, "Command chaining not supported">>>>
Sw69 == <<<<0, "Command not allowed">>, <<129, "Command incompatible with file structure">>, <<130, "Security status not satisfied">>,
    <<131, "Authentication method blocked">>, <<132, "Reference data not usable">>, <<133, "Conditions of use not satisfied">>,
    <<134, "Command not allowed (no current EF)">>, <<135, "Expected secure messaging data objects missing">>,
    <<136, "Incorrect secure messaging data objects">>>>
Sw6A == <<<<0, "Wrong parameters P1-P2">>, <<128, "Incorrect parameters in the command data field">>, <<129, "Function not supported">>,
    <<130, "File or application not found">>, <<131, "Record not found">>, <<132, "Not enough memory space in the file">>,
    <<133, "Nc inconsistent with TLV structure">>, <<134, "Incorrect parameters P1-P2">>, <<135, "Nc inconsistent with parameters P1-P2">>,
    <<136, "Referenced data or reference data not found">>, <<137, "File already exists">>, <<138, "DF name already exists">>>>
SwPick(tab, x) == LET t == Entry(tab, x) IN IF t = "" THEN "Unknown" ELSE t
Queries(tab, x) == IF Entry(tab, x) = "" /\ x \in 2..128 THEN "Card-originated query of " \o Str(x) \o " bytes" ELSE SwPick(tab, x)
SwText(a, x) ==
    CASE a = 144 /\ x = 0 -> "Normal"
      [] a = 97 -> "Normal: " \o Str(x) \o " data bytes remaining"
      [] HiNib(a) \notin {6, 9} \/ a = 96 -> "Invalid"
      [] (HiNib(a) = 9 /\ ~(a = 144 /\ x = 0)) \/ (a \in {103, 107, 109, 110, 111} /\ x # 0) -> "Proprietary"
      [] a = 98 -> "Warning: " \o Queries(Sw62, x)
      [] a = 99 -> "Warning: " \o (IF HiNib(x) = 12 THEN "Counter is " \o Str(x % 16) ELSE SwPick(Sw63, x))
      [] a = 100 -> "Execution error: " \o Queries(Sw64, x)
      [] a = 101 -> "Execution error: " \o SwPick(Sw65, x)
      [] a = 102 -> "Execution error: Security error 0x" \o Hex2(x)
      [] a = 103 /\ x = 0 -> "Checking error: Wrong length"
      [] a = 104 -> "Checking error: " \o SwPick(Sw68, x)
      [] a = 105 -> "Checking error: " \o SwPick(Sw69, x)
      [] a = 106 -> "Checking error: " \o SwPick(Sw6A, x)
      [] a = 107 /\ x = 0 -> "Checking error: Wrong parameters P1-P2"
      [] a = 108 -> "Checking error: Wrong Le field (" \o Str(x) \o " data bytes available)"
      [] a = 109 /\ x = 0 -> "Checking error: Instruction code not supported or invalid"
      [] a = 110 /\ x = 0 -> "Checking error: Class not supported"
      [] a = 111 /\ x = 0 -> "Checking error: No precise diagnosis"

LcsText(x) ==
    CASE x = 0 -> "No information given" [] x = 1 -> "Creation state" [] x = 3 -> "Initialisation state"
      [] x \in {5, 7} -> "Operational state (activated)" [] x \in {4, 6} -> "Operational state (deactivated)"
      [] x \in 12..15 -> "Termination state" [] OTHER -> "Proprietary"

CardServiceRows == <<
    Flag(1, 128, "Application selection: by full DF name"), Flag(1, 64, "Application selection: by partial DF name"),
    Flag(1, 32, "BER-TLV data objects available in EF.DIR"), Flag(1, 16, "BER-TLV data objects available in EF.ATR"),
    Pick(1, 14, <<<<8, "EF.DIR and EF.ATR access services: by READ BINARY command (transparent structure)">>,
                  <<0, "EF.DIR and EF.ATR access services: by READ RECORD(S) command (record structure)">>,
                  <<4, "EF.DIR and EF.ATR access services: by GET DATA command (TLV structure)">>>>,
         <<"EF.DIR and EF.ATR access services: Unknown value">>),
    Two(1, 1, "Card without MF", "Card with MF")>>
CardCaps1 == <<
    Flag(1, 128, "DF selection: by full DF NAME"), Flag(1, 64, "DF selection: by partial DF NAME"), Flag(1, 32, "DF selection: by path"),
    Flag(1, 16, "DF selection: by file identifier"), Flag(1, 8, "DF selection: implicit"), Flag(1, 4, "Short EF identifier supported"),
    Flag(1, 2, "Record number supported"), Flag(1, 1, "Record identifier supported")>>
CardCaps2 == <<
    Flag(2, 128, "EFs of TLV structure supported"),
    Pick(2, 96, <<<<0, "Behaviour of write functions: one-time write">>, <<32, "Behaviour of write functions: proprietary">>,
                  <<64, "Behaviour of write functions: write OR">>, <<96, "Behaviour of write functions: write AND">>>>, <<>>),
    Two(2, 16, "FF as first byte of BER-TLV tag is valid", "FF as first byte of BER-TLV tag is invalid / padding")>>
DataUnit(x) == IF x % 16 = 0 THEN <<>> ELSE <<"Data unit size: " \o Str(2 ^ ((x % 16) - 1)) \o " bytes">>
CardCaps3 == <<
    Flag(3, 128, "Command chaining"), Flag(3, 64, "Extended Lc and Le fields")>>
Channels(x) == (x \div 8) % 4
ChannelTexts(x) ==
    <<CASE Channels(x) = 2 -> "Logical channel number assignment: by the card"
        [] Channels(x) = 1 -> "Logical channel number assignment: by the interface device"
        [] Channels(x) = 0 -> "No logical channel" [] OTHER -> "",
      "Maximum number of logical channels: " \o (IF x % 8 = 7 THEN "8 or more" ELSE Str((x % 8) + 1))>>
CardCaps(b, cap) ==
    IF Len(b) >= 3 /\ Channels(b[3]) = 3 THEN Bad
    ELSE Good(FitTexts(RowsTexts(CardCaps1, b)
                       \o (IF Len(b) < 2 THEN <<>> ELSE RowsTexts(CardCaps2, b) \o DataUnit(b[2]))
                       \o (IF Len(b) < 3 THEN <<>> ELSE RowsTexts(CardCaps3, b) \o ChannelTexts(b[3])), cap))

CardCapsAnswer(b, cap) ==
    LET d == IF b = <<>> THEN Bad ELSE CardCaps(b, Max2(cap, 0)) IN
    IF d.r = 0 /\ cap > 0 THEN d ELSE [r |-> d.r]

(* COMPACT-TLV: tag and length share one octet *)
CompactNames == <<<<1, "Country code">>, <<2, "Issuer identification number">>, <<3, "Card service data">>, <<4, "Initial access data">>,
    <<5, "Card issuer data">>, <<6, "Pre-issuing data">>, <<7, "Card capabilities">>, <<8, "Status indicator">>,
    <<15, "Application identifier (AID)">>>>
CompactTlv(b) ==
    LET c == Compact(b) IN
    [r |-> IF b = <<>> \/ ~c.ok THEN -1 ELSE 0,
     items |-> [i \in 1..Len(c.items) |-> [tag |-> c.items[i].tag, val |-> c.items[i].val,
                                           name |-> SwPick(CompactNames, c.items[i].tag)]]]

-----------------------------------------------------------------------------
(* Decoders by name: each takes octets and a capacity.  Without a buffer    *)
(* most have nothing to say (0); some require one.                          *)
ByteFns == {"termtype", "posentry", "txntype", "acctype", "cid", "clcaps"}
NeedBuffer == {"termtype", "termcaps", "addlcaps", "aip", "afltxt", "cvmlist", "refcur", "langpref", "cid",
               "a", "an", "anssp", "ansccs", "cn"}
Decode(k, b, cap) ==
    CASE k = "termtype" -> IF b[1] = 0 THEN Bad ELSE List(RowsTexts(TermTypeRows, b), cap)
      [] k = "posentry" -> Named(b[1], PosEntryModes, cap)
      [] k = "txntype" -> Named(b[1], TxnTypes, cap)
      [] k = "acctype" -> Named(b[1], AccountTypes, cap)
      [] k = "cid" -> List(RowsTexts(CidRows, b), cap)
      [] k = "clcaps" -> Good(Cut(ClReaderCaps(b[1]), cap))
      [] k = "termcaps" -> BitField(TermCapsRows, 3, b, cap)
      [] k = "addlcaps" -> BitField(AddlTermCapsRows, 5, b, cap)
      [] k = "aip" -> BitField(AipRows, 2, b, cap)
      [] k = "auc" -> BitField(AucRows, 2, b, cap)
      [] k = "tvr" -> BitField(TvrRows, 5, b, cap)
      [] k = "tsi" -> BitField(TsiRows, 2, b, cap)
      [] k = "trmd" -> BitField(TrmdRows, 8, b, cap)
      [] k = "ttq" -> BitField(TtqRows, 4, b, cap)
      [] k = "ctq" -> BitField(CtqRows, 2, b, cap)
      [] k = "enhcl" -> BitField(EnhClRows, 4, b, cap)
      [] k = "ffi" -> FormFactor(b, cap)
      [] k = "tpd" -> ThirdParty(b, cap)
      [] k = "aid" -> AidText(b, cap)
      [] k = "asrpd" -> Asrpd(b, cap)
      [] k = "afltxt" -> AflText(b, cap)
      [] k = "track2" -> Track2(b, cap)
      [] k = "refcur" -> RefCurrencies(b, cap)
      [] k = "langpref" -> Languages(b, cap)
      [] k = "cvmlist" -> CvmList(b, cap)
      [] k = "cvmres" -> CvmResults(b, cap)
      [] k = "iad" -> Iad(b, cap)
      [] k = "issauth" -> IssAuth(b, cap)
      [] k = "arc" -> ArcText(b, cap)
      [] k = "capdu" -> EmvCapdu(b, cap)
      [] k = "a" -> Chars(b, cap, IsAlpha)
      [] k = "an" -> Chars(b, cap, IsAlnum)
      [] k = "anssp" -> Chars(b, cap, IsAlnumSpace)
      [] k = "ansccs" -> Chars(b, cap, IsCcs)
      [] k = "cn" -> CnText(b, cap)
      [] k = "n" -> NText(b, cap)
      [] k = "amount" -> AmountText(b, cap)
      [] k = "date" -> DateTime(b, cap, 11, DateForm)
      [] k = "time" -> DateTime(b, cap, 9, TimeForm)
      [] k = "mcc" -> Numeric(b, cap, Data.mcc)
      \* reached through the field descriptions only
      [] k = "country" -> Numeric(b, cap, Data.country)
      [] k = "currency" -> Numeric(b, cap, Data.currency)
      [] k = "country2" -> Register(b, cap, 2, Data.country2, CStr)
      [] k = "country3" -> Register(b, cap, 3, Data.country3, CStr)
\* cap = -1: no buffer given (NULL)
Describe(k, b, cap0) ==
    LET cap == Max2(cap0, 0) IN
    IF k \notin ByteFns /\ b = <<>> THEN Bad
    ELSE IF k = "n" /\ cap0 = -1 THEN Bad
    ELSE IF cap = 0 /\ k # "n" THEN (IF k \in NeedBuffer THEN Bad ELSE Good(""))
    ELSE Decode(k, b, cap)
StrAnswer(k, b, cap) ==
    LET d == Describe(k, b, cap) IN
    IF d.r = 0 /\ cap > 0 THEN [r |-> 0, s |-> d.s] ELSE [r |-> d.r]

-----------------------------------------------------------------------------
(* Field information: name, description, format and the value's text.  A    *)
(* value may be absent (null) with a length, as in a data object list.      *)
Pse == <<49, 80, 65, 89, 46, 83, 89, 83, 46, 68, 68, 70, 48, 49>>
Ppse == <<50, 80, 65, 89, 46, 83, 89, 83, 46, 68, 68, 70, 48, 49>>
ClCapsDesc == "A proprietary data element with bits 8, 7, and 4 only used to indicate a terminal's capability to support Kernel 4 mag-stripe or EMV contactless. This data element is OR'd with Terminal Type, Tag '9F35', resulting in a modified Tag '9F35', which is passed to the card when requested."
TpdDesc == "The Third Party data object may be used to carry specific product information to be optionally used by the terminal in processing transactions."
FfiDesc == "Indicates the form factor of the consumer payment device and thetype of contactless interface over which the transaction was conducted. This information is made available to the issuer host."
EnhClDesc == "Proprietary Data Element for managing Contactless transactions and includes Contactless terminal capabilities (static) and contactless Mobile transaction (dynamic data) around CVM"
Noname == [name |-> Null, desc |-> Null, fmt |-> "B", act |-> "unknown", vfmt |-> "", max |-> 0]
ValLen(i) == IF i.nul = 1 THEN i.len ELSE Len(i.b)
InfoOf(i) ==
    LET S == {j \in 1..Len(InfoTable) : Tg(InfoTable[j].t) = i.tag}
        e == IF S = {} THEN Noname ELSE InfoTable[CHOOSE j \in S : TRUE]
        pick(n, d, a) == [name |-> n, desc |-> d, fmt |-> "B", act |-> a, vfmt |-> "", max |-> 0]
        v == i.b IN
    CASE i.tag = Tg(40806) /\ ValLen(i) # 4 -> Noname                          \* 9F66
      [] i.tag = Tg(40813) ->                                                  \* 9F6D
           IF ValLen(i) # 1 THEN Noname
           ELSE pick("Contactless Reader Capabilities", ClCapsDesc, "clcaps")
      [] i.tag = Tg(40814) ->                                                  \* 9F6E
           CASE ValLen(i) \in 5..32 -> pick("Third Party Data", TpdDesc, "tpd")
             [] i.nul = 0 /\ Len(v) = 4 /\ v[1] \div 32 = 1 /\ v[3] = 0 /\ v[4] = 0 ->
                  pick("Form Factor Indicator (FFI)", FfiDesc, "ffi")
             [] i.nul = 0 /\ Len(v) = 4 /\ (v[1] & 59) = 24 /\ v[2] >= 128 /\ LoNib(v[2]) = 0 /\ v[3] % 64 = 0
                /\ (v[4] & 24) = 0 /\ v[4] % 8 # 0 ->
                  pick("Enhanced Contactless Reader Capabilities", EnhClDesc, "enhcl")
             [] OTHER -> Noname
      [] OTHER -> e
\* The value by its format; on failure the text is empty
PlainValue(tag, vfmt, max, v, nul, len, cap) ==
    IF cap = 0 THEN Good("")
    ELSE IF max # 0 /\ ((vfmt \in {"A", "AN", "ANS"} /\ len > max) \/ (vfmt \in {"CN", "N"} /\ len > (max + 1) \div 2) \/ cap < max + 1) THEN Bad
    ELSE IF nul \/ len = 0 THEN Bad
    ELSE CASE vfmt = "A" -> Chars(v, cap, IsAlpha)
           [] vfmt = "AN" -> Chars(v, cap, IsAlnum)
           [] vfmt = "ANS" /\ tag = Tg(80) -> Chars(v, cap, IsAlnumSpace)
           [] vfmt = "ANS" /\ tag = Tg(40722) -> Good(CStr(v))              \* 9F12: in its own code page
           [] vfmt = "ANS" /\ tag \notin {Tg(80), Tg(40722)} -> Chars(v, cap, IsCcs)
           [] vfmt = "CN" -> CnText(v, cap)
           [] vfmt = "N" -> NText(v, cap)
TagInfo(i) ==
    LET e == InfoOf(i)
        cap == Max2(i.cap, 0)
        nul == i.nul = 1 \/ i.b = <<>>
        len == ValLen(i)
        plain == PlainValue(i.tag, e.vfmt, e.max, i.b, nul, len, cap)
        country == Describe(e.act, i.b, i.cap)
        val == CASE e.act = "unknown" -> Malformed
                 [] e.act = "none" -> Good("")
                 [] e.act = "val" -> plain
                 [] e.act = "dfname" -> IF i.b \in {Pse, Ppse} THEN Good(IF cap > Len(i.b) THEN TextOf(i.b) ELSE "")
                                        ELSE Describe("aid", i.b, i.cap)
                 [] e.act \in {"country2", "country3"} ->
                      IF country.r = 0 /\ (cap = 0 \/ country.s # "") THEN country
                      ELSE PlainValue(i.tag, "A", IF e.act = "country2" THEN 2 ELSE 3, i.b, nul, len, cap)
                 [] e.act \in ByteFns -> IF nul THEN Good("") ELSE Describe(e.act, <<i.b[1]>>, i.cap)
                 [] OTHER -> Describe(e.act, i.b, i.cap)
        base == [name |-> e.name, desc |-> e.desc, fmt |-> e.fmt, r |-> val.r]
    IN IF cap > 0 /\ (val.r = 0 \/ e.act \in {"unknown", "val"}) THEN base @@ [s |-> val.s]
       ELSE base
=============================================================================
