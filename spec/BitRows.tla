------------------------------ MODULE BitRows -------------------------------
(* The meaning of every bit of the EMV bit-field data elements, as rows.    *)
(* EMV 4.4 Book 3 Annex C, Book 4 Annex A; contactless Books C-2, C-3, C-4; *)
(* M/Chip, VCPS and CCD issuer application data.  Byte 1 is the first byte. *)
EXTENDS Atr

Row(k, i, m, t, u, v) == [k |-> k, i |-> i, m |-> m, t |-> t, u |-> u, v |-> v]
AnyRow(ms, t) == Row("any", 0, ms, t, "", <<>>)          \* any of these bits: t
NoneRow(ms, t) == Row("none", 0, ms, t, "", <<>>)        \* none of these bits: t
Flag(i, m, t) == AnyRow(<<<<i, m>>>>, t)
Zero(i, t) == NoneRow(<<<<i, 255>>>>, t)
Two(i, m, t, u) == Row("two", i, m, t, u, <<>>)          \* t if set, else u
Pick(i, m, vs, other) == Row("pick", i, m, "", other, vs) \* by the value of the field
NumRow(i, m, pre, post) == Row("num", i, m, pre, post, <<>>)   \* number, unless zero
AlwaysNum(i, m, pre) == Row("always", i, m, pre, "", <<>>)
HexRow(i, m, pre) == Row("hex", i, m, pre, "", <<>>)     \* two hex digits, unless zero
IfElse(i, m, n, t, u) == Row("ifelse", i, m, t, u, n)    \* t if m set, else u if n set

HexDigits == "0123456789ABCDEF"
HexChar(d) == SubSeq(HexDigits, d + 1, d + 1)
Hex2(b) == HexChar(HiNib(b)) \o HexChar(LoNib(b))
RECURSIVE HexText(_)
HexText(b) == IF b = <<>> THEN "" ELSE Hex2(b[1]) \o HexText(Tail(b))

\* The value of the field of byte x under mask m, right aligned
FieldVal(x, m) == (x & m) \div (CHOOSE p \in {1, 2, 4, 8, 16, 32, 64, 128} : (m & p) # 0 /\ (m % p) = 0)
AnySet(b, ms) == \E j \in 1..Len(ms) : (b[ms[j][1]] & ms[j][2]) # 0
RowTexts(r, b) ==
    LET one(t) == IF t = "" THEN <<>> ELSE <<t>> IN
    CASE r.k = "any" -> IF AnySet(b, r.m) THEN <<r.t>> ELSE <<>>
      [] r.k = "none" -> IF AnySet(b, r.m) THEN <<>> ELSE <<r.t>>
      [] r.k = "two" -> IF (b[r.i] & r.m) # 0 THEN <<r.t>> ELSE <<r.u>>
      [] r.k = "pick" -> LET x == b[r.i] & r.m
                             S == {j \in 1..Len(r.v) : r.v[j][1] = x} IN
                         IF S = {} THEN r.u ELSE one(r.v[CHOOSE j \in S : TRUE][2])
      [] r.k = "num" -> IF (b[r.i] & r.m) = 0 THEN <<>> ELSE <<r.t \o Str(FieldVal(b[r.i], r.m)) \o r.u>>
      [] r.k = "always" -> <<r.t \o Str(FieldVal(b[r.i], r.m))>>
      [] r.k = "hex" -> IF (b[r.i] & r.m) = 0 THEN <<>> ELSE <<r.t \o Hex2(b[r.i] & r.m)>>
      [] r.k = "ifelse" -> IF (b[r.i] & r.m) # 0 THEN <<r.t>> ELSE IF (b[r.i] & r.v) # 0 THEN <<r.u>> ELSE <<>>
RECURSIVE RowsTexts(_, _)
RowsTexts(rs, b) == IF rs = <<>> THEN <<>> ELSE RowTexts(Head(rs), b) \o RowsTexts(Tail(rs), b)

-----------------------------------------------------------------------------
TermTypeRows == <<
    Pick(1, 48, <<
        <<16, "Operational Control: Financial Institution">>,
        <<32, "Operational Control: Merchant">>,
        <<48, "Operational Control: Cardholder">>>>, <<"Operational Control: Unknown">>),
    Pick(1, 7, <<
        <<1, "Environment: Attended, online only">>,
        <<2, "Environment: Attended, offline with online capability">>,
        <<3, "Environment: Attended, offline only">>,
        <<4, "Environment: Unattended, online only">>,
        <<5, "Environment: Unattended, offline with online capability">>,
        <<6, "Environment: Unattended, offline only">>>>, <<"Environment: Unknown">>)>>

TermCapsRows == <<
    Zero(1, "Card Data Input Capability: None"),
    Flag(1, 128, "Card Data Input Capability: Manual key entry"),
    Flag(1, 64, "Card Data Input Capability: Magnetic stripe"),
    Flag(1, 32, "Card Data Input Capability: IC with contacts"),
    Flag(1, 31, "Card Data Input Capability: RFU"),
    Zero(2, "CVM Capability: None"),
    Flag(2, 128, "CVM Capability: Plaintext PIN for ICC verification"),
    Flag(2, 64, "CVM Capability: Enciphered PIN for online verification"),
    Flag(2, 32, "CVM Capability: Signature"),
    Flag(2, 16, "CVM Capability: Enciphered PIN for offline verification (RSA ODE)"),
    Flag(2, 8, "CVM Capability: No CVM required"),
    Flag(2, 4, "CVM Capability: Online Biometric"),
    Flag(2, 2, "CVM Capability: Offline Biometric"),
    Flag(2, 1, "CVM Capability: Enciphered PIN for offline verification (ECC ODE)"),
    Zero(3, "Security Capability: None"),
    Flag(3, 128, "Security Capability: Static Data Authentication (SDA)"),
    Flag(3, 64, "Security Capability: Dynamic Data Authentication (DDA)"),
    Flag(3, 32, "Security Capability: Card capture"),
    Flag(3, 8, "Security Capability: Combined DDA/Application Cryptogram Generation (CDA)"),
    Flag(3, 4, "Security Capability: Extended Data Authentication (XDA)"),
    Flag(3, 19, "Security Capability: RFU")>>

AddlTermCapsRows == <<
    NoneRow(<<<<1, 255>>, <<2, 255>>>>, "Transaction Type Capability: None"),
    Flag(1, 128, "Transaction Type Capability: Cash"),
    Flag(1, 64, "Transaction Type Capability: Goods"),
    Flag(1, 32, "Transaction Type Capability: Services"),
    Flag(1, 16, "Transaction Type Capability: Cashback"),
    Flag(1, 8, "Transaction Type Capability: Inquiry"),
    Flag(1, 4, "Transaction Type Capability: Transfer"),
    Flag(1, 2, "Transaction Type Capability: Payment"),
    Flag(1, 1, "Transaction Type Capability: Administrative"),
    Flag(2, 128, "Transaction Type Capability: Cash deposit"),
    Flag(2, 127, "Transaction Type Capability: RFU"),
    Zero(3, "Terminal Data Input Capability: None"),
    Flag(3, 128, "Terminal Data Input Capability: Numeric keys"),
    Flag(3, 64, "Terminal Data Input Capability: Alphabetic and special characters keys"),
    Flag(3, 32, "Terminal Data Input Capability: Command keys"),
    Flag(3, 16, "Terminal Data Input Capability: Function keys"),
    Flag(3, 15, "Terminal Data Input Capability: RFU"),
    NoneRow(<<<<4, 240>>>>, "Terminal Data Input Capability: No print, electronic or display output"),
    Flag(4, 128, "Terminal Data Output Capability: Print or electronic, attendant"),
    Flag(4, 64, "Terminal Data Output Capability: Print or electronic, cardholder"),
    Flag(4, 32, "Terminal Data Output Capability: Display, attendant"),
    Flag(4, 16, "Terminal Data Output Capability: Display cardholder"),
    Flag(4, 2, "Terminal Data Output Capability: Code table 10"),
    Flag(4, 1, "Terminal Data Output Capability: Code table 9"),
    Flag(4, 12, "Terminal Data Output Capability: RFU"),
    Flag(5, 128, "Terminal Data Output Capability: Code table 8"),
    Flag(5, 64, "Terminal Data Output Capability: Code table 7"),
    Flag(5, 32, "Terminal Data Output Capability: Code table 6"),
    Flag(5, 16, "Terminal Data Output Capability: Code table 5"),
    Flag(5, 8, "Terminal Data Output Capability: Code table 4"),
    Flag(5, 4, "Terminal Data Output Capability: Code table 3"),
    Flag(5, 2, "Terminal Data Output Capability: Code table 2"),
    Flag(5, 1, "Terminal Data Output Capability: Code table 1")>>

AipRows == <<
    Flag(1, 128, "Extended Data Authentication (XDA) is supported"),
    Flag(1, 64, "Static Data Authentication (SDA) is supported"),
    Flag(1, 32, "Dynamic Data Authentication (DDA) is supported"),
    Flag(1, 16, "Cardholder verification is supported"),
    Flag(1, 8, "Terminal risk management is to be performed"),
    Flag(1, 4, "Issuer authentication is supported"),
    Flag(1, 2, "On device cardholder verification is supported"),
    Flag(1, 1, "Combined DDA/Application Cryptogram Generation (CDA) is supported"),
    Flag(2, 128, "Contactless EMV mode is supported"),
    Flag(2, 64, "Mobile phone"),
    Flag(2, 32, "Contactless transaction"),
    Flag(2, 30, "RFU"),
    Flag(2, 1, "Relay Resistance Protocol (RRP) is supported")>>

AucRows == <<
    Flag(1, 128, "Valid for domestic cash transactions"),
    Flag(1, 64, "Valid for international cash transactions"),
    Flag(1, 32, "Valid for domestic goods"),
    Flag(1, 16, "Valid for international goods"),
    Flag(1, 8, "Valid for domestic services"),
    Flag(1, 4, "Valid for international services"),
    Flag(1, 2, "Valid at ATMs"),
    Flag(1, 1, "Valid at terminals other than ATMs"),
    Flag(2, 128, "Domestic cashback allowed"),
    Flag(2, 64, "International cashback allowed"),
    Flag(2, 63, "RFU")>>

TvrRows == <<
    Flag(1, 128, "Offline data authentication was not performed"),
    Flag(1, 64, "Static Data Authentication (SDA) failed"),
    Flag(1, 32, "Integrated circuit card (ICC) data missing"),
    Flag(1, 16, "Card appears on terminal exception file"),
    Flag(1, 8, "Dynamic Data Authentication (DDA) failed"),
    Flag(1, 4, "Combined DDA/Application Cryptogram Generation (CDA) failed"),
    Flag(1, 2, "Static Data Authentication (SDA) selected"),
    Flag(1, 1, "Extended Data Authentication (XDA) selected"),
    Flag(2, 128, "ICC and terminal have different application versions"),
    Flag(2, 64, "Expired application"),
    Flag(2, 32, "Application not yet effective"),
    Flag(2, 16, "Requested service not allowed for card product"),
    Flag(2, 8, "New card"),
    Flag(2, 4, "RFU"),
    Flag(2, 2, "Biometric performed and successful"),
    Flag(2, 1, "Biometric template format not supported"),
    Flag(3, 128, "Cardholder verification was not successful"),
    Flag(3, 64, "Unrecognised CVM"),
    Flag(3, 32, "PIN Try Limit exceeded"),
    Flag(3, 16, "PIN entry required and PIN pad not present or not working"),
    Flag(3, 8, "PIN entry required, PIN pad present, but PIN was not entered"),
    Flag(3, 4, "Online CVM captured"),
    Flag(3, 2, "Biometric required but Biometric capture device not working"),
    Flag(3, 1, "Biometric required, Biometric capture device present, but Biometric Subtype entry was bypassed"),
    Flag(4, 128, "Transaction exceeds floor limit"),
    Flag(4, 64, "Lower consecutive offline limit exceeded"),
    Flag(4, 32, "Upper consecutive offline limit exceeded"),
    Flag(4, 16, "Transaction selected randomly for online processing"),
    Flag(4, 8, "Merchant forced transaction online"),
    Flag(4, 4, "Biometric Try Limit exceeded"),
    Flag(4, 2, "A selected Biometric Type not supported"),
    Flag(4, 1, "XDA signature verification failed"),
    Flag(5, 128, "Default TDOL used"),
    Flag(5, 64, "Issuer authentication failed"),
    Flag(5, 32, "Script processing failed before final GENERATE AC"),
    Flag(5, 16, "Script processing failed after final GENERATE AC"),
    Flag(5, 4, "CA ECC key missing"),
    Flag(5, 2, "ECC key recovery failed"),
    Flag(5, 9, "Reserved for use by the EMV Contactless Specifications")>>

TsiRows == <<
    Flag(1, 128, "Offline data authentication was performed"),
    Flag(1, 64, "Cardholder verification was performed"),
    Flag(1, 32, "Card risk management was performed"),
    Flag(1, 16, "Issuer authentication was performed"),
    Flag(1, 8, "Terminal risk management was performed"),
    Flag(1, 4, "Script processing was performed"),
    AnyRow(<<<<1, 3>>, <<2, 255>>>>, "RFU")>>

CidRows == <<
    Pick(1, 192, <<
        <<0, "Application Cryptogram (AC) type: Application Authentication Cryptogram (AAC)">>,
        <<64, "Application Cryptogram (AC) type: Transaction Certificate (TC)">>,
        <<128, "Application Cryptogram (AC) type: Authorisation Request Cryptogram (ARQC)">>>>, <<"Application Cryptogram (AC) type: RFU">>),
    HexRow(1, 48, "Payment System-specific cryptogram: 0x"),
    IfElse(1, 8, 7, "Advice required", "No advice required"),
    Pick(1, 7, <<
        <<0, "">>,
        <<1, "Advice: Service not allowed">>,
        <<2, "Advice: PIN Try Limit exceeded">>,
        <<3, "Advice: Issuer authentication failed">>>>, <<"Advice: RFU">>)>>

CcdCvrRows == <<
    Pick(1, 192, <<
        <<0, "Card Verification Results (CVR): Second GENERATE AC returned AAC">>,
        <<64, "Card Verification Results (CVR): Second GENERATE AC returned TC">>,
        <<128, "Card Verification Results (CVR): Second GENERATE AC Not Requested">>,
        <<192, "Card Verification Results (CVR): Second GENERATE AC RFU">>>>, <<>>),
    Pick(1, 48, <<
        <<0, "Card Verification Results (CVR): First GENERATE AC returned AAC">>,
        <<16, "Card Verification Results (CVR): First GENERATE AC returned TC">>,
        <<32, "Card Verification Results (CVR): First GENERATE AC returned ARQC">>,
        <<48, "Card Verification Results (CVR): First GENERATE AC RFU">>>>, <<>>),
    Flag(1, 8, "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Performed"),
    Flag(1, 4, "Card Verification Results (CVR): Offline Dynamic Data Authentication (DDA) Performed"),
    Flag(1, 2, "Card Verification Results (CVR): Issuer Authentication Not Performed"),
    Flag(1, 1, "Card Verification Results (CVR): Issuer Authentication Failed"),
    AlwaysNum(2, 240, "Card Verification Results (CVR): PIN Try Counter is "),
    Flag(2, 8, "Card Verification Results (CVR): Offline PIN Verification Performed"),
    Flag(2, 4, "Card Verification Results (CVR): Offline PIN Verification Performed and PIN Not Successfully Verified"),
    Flag(2, 2, "Card Verification Results (CVR): PIN Try Limit Exceeded"),
    Flag(2, 1, "Card Verification Results (CVR): Last Online Transaction Not Completed"),
    Flag(3, 128, "Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded"),
    Flag(3, 64, "Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded"),
    Flag(3, 32, "Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded"),
    Flag(3, 16, "Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded"),
    Flag(3, 8, "Card Verification Results (CVR): Issuer-discretionary bit 1"),
    Flag(3, 4, "Card Verification Results (CVR): Issuer-discretionary bit 2"),
    Flag(3, 2, "Card Verification Results (CVR): Issuer-discretionary bit 3"),
    Flag(3, 1, "Card Verification Results (CVR): Issuer-discretionary bit 4"),
    NumRow(4, 240, "Card Verification Results (CVR): ", " Successfully Processed Issuer Script Commands Containing Secure Messaging"),
    Flag(4, 8, "Card Verification Results (CVR): Issuer Script Processing Failed"),
    Flag(4, 4, "Card Verification Results (CVR): Offline Data Authentication Failed on Previous Transaction"),
    Flag(4, 2, "Card Verification Results (CVR): Go Online on Next Transaction Was Set"),
    Flag(4, 1, "Card Verification Results (CVR): Unable to go Online"),
    Flag(5, 255, "Card Verification Results (CVR): RFU")>>

Mchip4CvrRows == <<
    Pick(1, 192, <<
        <<0, "Card Verification Results (CVR): Second GENERATE AC returned AAC">>,
        <<64, "Card Verification Results (CVR): Second GENERATE AC returned TC">>,
        <<128, "Card Verification Results (CVR): Second GENERATE AC Not Requested">>,
        <<192, "Card Verification Results (CVR): Second GENERATE AC RFU">>>>, <<>>),
    Pick(1, 48, <<
        <<0, "Card Verification Results (CVR): First GENERATE AC returned AAC">>,
        <<16, "Card Verification Results (CVR): First GENERATE AC returned TC">>,
        <<32, "Card Verification Results (CVR): First GENERATE AC returned ARQC">>,
        <<48, "Card Verification Results (CVR): First GENERATE AC RFU">>>>, <<>>),
    Flag(1, 8, "Card Verification Results (CVR): Date Check Failed"),
    Flag(1, 4, "Card Verification Results (CVR): Offline PIN Verification Performed"),
    Flag(1, 2, "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed"),
    Flag(1, 1, "Card Verification Results (CVR): Offline PIN Verification Successful"),
    Flag(2, 128, "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned"),
    Flag(2, 64, "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC"),
    Flag(2, 32, "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC"),
    Flag(2, 16, "Card Verification Results (CVR): Issuer Authentication Performed"),
    Flag(2, 8, "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)"),
    Flag(2, 4, "Card Verification Results (CVR): Offline Change PIN Result Successful"),
    Flag(2, 3, "Card Verification Results (CVR): Issuer Discretionary"),
    NumRow(3, 240, "Card Verification Results (CVR): Script Counter is ", ""),
    NumRow(3, 15, "Card Verification Results (CVR): PIN Try Counter is ", ""),
    Flag(4, 128, "Card Verification Results (CVR): Last Online Transaction Not Completed"),
    Flag(4, 64, "Card Verification Results (CVR): Unable To Go Online"),
    Flag(4, 32, "Card Verification Results (CVR): Offline PIN Verification Not Performed"),
    Flag(4, 16, "Card Verification Results (CVR): Offline PIN Verification Failed"),
    Flag(4, 8, "Card Verification Results (CVR): PTL Exceeded"),
    Flag(4, 4, "Card Verification Results (CVR): International Transaction"),
    Flag(4, 2, "Card Verification Results (CVR): Domestic Transaction"),
    Flag(4, 1, "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK"),
    Flag(5, 128, "Card Verification Results (CVR): Lower Consecutive Offline Limit Exceeded"),
    Flag(5, 64, "Card Verification Results (CVR): Upper Consecutive Offline Limit Exceeded"),
    Flag(5, 32, "Card Verification Results (CVR): Lower Cumulative Offline Limit Exceeded"),
    Flag(5, 16, "Card Verification Results (CVR): Upper Cumulative Offline Limit Exceeded"),
    Flag(5, 8, "Card Verification Results (CVR): Go Online On Next Transaction Was Set"),
    Flag(5, 4, "Card Verification Results (CVR): Issuer Authentication Failed"),
    Flag(5, 2, "Card Verification Results (CVR): Script Received"),
    Flag(5, 1, "Card Verification Results (CVR): Script Failed"),
    Flag(6, 128, "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded"),
    Flag(6, 64, "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded"),
    Flag(6, 32, "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded"),
    Flag(6, 16, "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded"),
    Flag(6, 8, "Card Verification Results (CVR): MTA Limit Exceeded"),
    Flag(6, 4, "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded"),
    Flag(6, 2, "Card Verification Results (CVR): Match Found In Additional Check Table"),
    Flag(6, 1, "Card Verification Results (CVR): No Match Found In Additional Check Table")>>

MchipAdvCvrRows == <<
    Pick(1, 192, <<
        <<0, "Card Verification Results (CVR): Second GENERATE AC returned AAC">>,
        <<64, "Card Verification Results (CVR): Second GENERATE AC returned TC">>,
        <<128, "Card Verification Results (CVR): Second GENERATE AC Not Requested">>,
        <<192, "Card Verification Results (CVR): Second GENERATE AC RFU">>>>, <<>>),
    Pick(1, 48, <<
        <<0, "Card Verification Results (CVR): First GENERATE AC returned AAC">>,
        <<16, "Card Verification Results (CVR): First GENERATE AC returned TC">>,
        <<32, "Card Verification Results (CVR): First GENERATE AC returned ARQC">>,
        <<48, "Card Verification Results (CVR): First GENERATE AC RFU">>>>, <<>>),
    Flag(1, 8, "Card Verification Results (CVR): Date Check Failed"),
    Flag(1, 4, "Card Verification Results (CVR): Offline PIN Verification Performed"),
    Flag(1, 2, "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed"),
    Flag(1, 1, "Card Verification Results (CVR): Offline PIN Verification Successful"),
    Flag(2, 128, "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned"),
    Flag(2, 64, "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC"),
    Flag(2, 32, "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC"),
    Flag(2, 16, "Card Verification Results (CVR): Issuer Authentication Performed"),
    Flag(2, 8, "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)"),
    Flag(2, 4, "Card Verification Results (CVR): Offline Change PIN Result Successful"),
    Flag(2, 3, "Card Verification Results (CVR): Issuer Discretionary"),
    NumRow(3, 240, "Card Verification Results (CVR): Script Counter is ", ""),
    NumRow(3, 15, "Card Verification Results (CVR): PIN Try Counter is ", ""),
    Flag(4, 128, "Card Verification Results (CVR): Last Online Transaction Not Completed"),
    Flag(4, 64, "Card Verification Results (CVR): Unable To Go Online"),
    Flag(4, 32, "Card Verification Results (CVR): Offline PIN Verification Not Performed"),
    Flag(4, 16, "Card Verification Results (CVR): Offline PIN Verification Failed"),
    Flag(4, 8, "Card Verification Results (CVR): PTL Exceeded"),
    Flag(4, 4, "Card Verification Results (CVR): International Transaction"),
    Flag(4, 2, "Card Verification Results (CVR): Domestic Transaction"),
    Flag(4, 1, "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK"),
    Flag(5, 128, "Card Verification Results (CVR): Lower Consecutive Counter 1 Limit Exceeded"),
    Flag(5, 64, "Card Verification Results (CVR): Upper Consecutive Counter 1 Limit Exceeded"),
    Flag(5, 32, "Card Verification Results (CVR): Lower Cumulative Accumulator Limit Exceeded"),
    Flag(5, 16, "Card Verification Results (CVR): Upper Cumulative Accumulator Limit Exceeded"),
    Flag(5, 8, "Card Verification Results (CVR): Go Online On Next Transaction Was Set"),
    Flag(5, 4, "Card Verification Results (CVR): Issuer Authentication Failed"),
    Flag(5, 2, "Card Verification Results (CVR): Script Received"),
    Flag(5, 1, "Card Verification Results (CVR): Script Failed"),
    Flag(6, 128, "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded"),
    Flag(6, 64, "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded"),
    Flag(6, 32, "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded"),
    Flag(6, 16, "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded"),
    Flag(6, 8, "Card Verification Results (CVR): MTA Limit Exceeded"),
    Flag(6, 4, "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded"),
    Flag(6, 2, "Card Verification Results (CVR): Match Found In Additional Check Table"),
    Flag(6, 1, "Card Verification Results (CVR): No Match Found In Additional Check Table")>>

Vsdc013CvrRows == <<
    Pick(2, 192, <<
        <<0, "Card Verification Results (CVR): Second GENERATE AC returned AAC">>,
        <<64, "Card Verification Results (CVR): Second GENERATE AC returned TC">>,
        <<128, "Card Verification Results (CVR): Second GENERATE AC Not Requested">>,
        <<192, "Card Verification Results (CVR): Second GENERATE AC RFU">>>>, <<>>),
    Pick(2, 48, <<
        <<0, "Card Verification Results (CVR): First GENERATE AC returned AAC">>,
        <<16, "Card Verification Results (CVR): First GENERATE AC returned TC">>,
        <<32, "Card Verification Results (CVR): First GENERATE AC returned ARQC">>,
        <<48, "Card Verification Results (CVR): First GENERATE AC RFU">>>>, <<>>),
    Flag(2, 8, "Card Verification Results (CVR): Issuer Authentication performed and failed"),
    Flag(2, 4, "Card Verification Results (CVR): Offline PIN verification performed"),
    Flag(2, 2, "Card Verification Results (CVR): Offline PIN verification failed"),
    Flag(2, 1, "Card Verification Results (CVR): Unable to go online"),
    Flag(3, 128, "Card Verification Results (CVR): Last online transaction not completed"),
    Flag(3, 64, "Card Verification Results (CVR): PIN Try Limit exceeded"),
    Flag(3, 32, "Card Verification Results (CVR): Exceeded velocity checking counters"),
    Flag(3, 16, "Card Verification Results (CVR): New card"),
    Flag(3, 8, "Card Verification Results (CVR): Issuer Authentication failure on last online transaction"),
    Flag(3, 4, "Card Verification Results (CVR): Issuer Authentication not performed after online authorization"),
    Flag(3, 2, "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded"),
    Flag(3, 1, "Card Verification Results (CVR): Offline static data authentication failed on last transaction"),
    NumRow(4, 240, "Card Verification Results (CVR): Script Counter is ", ""),
    Flag(4, 8, "Card Verification Results (CVR): Issuer Script processing failed"),
    Flag(4, 4, "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction"),
    Flag(4, 2, "Card Verification Results (CVR): Offline dynamic data authentication performed"),
    Flag(4, 1, "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card")>>

Vsdc24CvrRows == <<
    Zero(1, "No CDCVM"),
    Pick(1, 240, <<
        <<16, "Card Verification Results (CVR): Visa Mobile Payment Application (VMPA)">>,
        <<32, "Card Verification Results (CVR): MG">>,
        <<48, "Card Verification Results (CVR): Co-residing SE app">>,
        <<64, "Card Verification Results (CVR): TEE app">>,
        <<80, "Card Verification Results (CVR): Mobile Application">>,
        <<96, "Card Verification Results (CVR): Terminal">>,
        <<112, "Card Verification Results (CVR): Verified in the cloud">>,
        <<128, "Card Verification Results (CVR): Verified by the mobile device OS">>>>, <<>>),
    Pick(1, 15, <<
        <<1, "Card Verification Results (CVR): Passcode">>,
        <<2, "Card Verification Results (CVR): Finger biometric">>,
        <<3, "Card Verification Results (CVR): Mobile device pattern">>,
        <<4, "Card Verification Results (CVR): Facial biometric">>,
        <<5, "Card Verification Results (CVR): Iris biometric">>,
        <<6, "Card Verification Results (CVR): Voice biometric">>,
        <<7, "Card Verification Results (CVR): Palm biometric">>,
        <<13, "Card Verification Results (CVR): Signature">>,
        <<14, "Card Verification Results (CVR): Online PIN">>>>, <<>>),
    Pick(2, 192, <<
        <<0, "Card Verification Results (CVR): Second GENERATE AC returned AAC">>,
        <<64, "Card Verification Results (CVR): Second GENERATE AC returned TC">>,
        <<128, "Card Verification Results (CVR): Second GENERATE AC Not Requested">>,
        <<192, "Card Verification Results (CVR): Second GENERATE AC RFU">>>>, <<>>),
    Pick(2, 48, <<
        <<0, "Card Verification Results (CVR): GPO returned AAC">>,
        <<16, "Card Verification Results (CVR): GPO returned TC">>,
        <<32, "Card Verification Results (CVR): GPO returned ARQC">>,
        <<48, "Card Verification Results (CVR): GPO RFU">>>>, <<>>),
    Flag(2, 8, "Card Verification Results (CVR): Issuer Authentication performed and failed"),
    Flag(2, 4, "Card Verification Results (CVR): CDCVM successfully performed"),
    Flag(2, 2, "Card Verification Results (CVR): RFU"),
    Flag(2, 1, "Card Verification Results (CVR): Unable to go online"),
    Flag(3, 128, "Card Verification Results (CVR): Last online transaction not completed"),
    Flag(3, 64, "Card Verification Results (CVR): PIN Try Limit exceeded"),
    Flag(3, 32, "Card Verification Results (CVR): Exceeded velocity checking counters"),
    Flag(3, 16, "Card Verification Results (CVR): New card"),
    Flag(3, 8, "Card Verification Results (CVR): Issuer Authentication failure on last online transaction"),
    Flag(3, 4, "Card Verification Results (CVR): Issuer Authentication not performed after online authorization"),
    Flag(3, 2, "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded"),
    Flag(3, 1, "Card Verification Results (CVR): Offline static data authentication failed on last transaction"),
    NumRow(4, 240, "Card Verification Results (CVR): Script Counter is ", ""),
    Flag(4, 8, "Card Verification Results (CVR): Issuer Script processing failed"),
    Flag(4, 4, "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction"),
    Flag(4, 2, "Card Verification Results (CVR): Offline dynamic data authentication performed"),
    Flag(4, 1, "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card"),
    Flag(5, 128, "Card Verification Results (CVR): Consumer Device is not in debug mode"),
    Flag(5, 64, "Card Verification Results (CVR): Consumer Device is not a rooted device"),
    Flag(5, 32, "Card Verification Results (CVR): Mobile Application is not hooked"),
    Flag(5, 16, "Card Verification Results (CVR): Mobile Application integrity is intact"),
    Flag(5, 8, "Card Verification Results (CVR): Consumer Device has data connectivity"),
    Flag(5, 4, "Card Verification Results (CVR): Consumer Device is genuine"),
    Flag(5, 2, "Card Verification Results (CVR): CDCVM successfully performed"),
    Flag(5, 1, "Card Verification Results (CVR): Secure Messaging uses EMV Session key-based derivation")>>

CsuRows == <<
    Flag(1, 128, "Card Status Update (CSU): Proprietary Authentication Data Included"),
    NumRow(1, 15, "Card Status Update (CSU): PIN Try Counter = ", ""),
    Flag(2, 128, "Card Status Update (CSU): Issuer Approves Online Transaction"),
    Flag(2, 64, "Card Status Update (CSU): Card Block"),
    Flag(2, 32, "Card Status Update (CSU): Application Block"),
    Flag(2, 16, "Card Status Update (CSU): Update PIN Try Counter"),
    Flag(2, 8, "Card Status Update (CSU): Set Go Online on Next Transaction"),
    Flag(2, 4, "Card Status Update (CSU): CSU Created by Proxy for the Issuer"),
    Pick(2, 3, <<
        <<0, "Card Status Update (CSU): Do Not Update Offline Counters">>,
        <<1, "Card Status Update (CSU): Set Offline Counters to Upper Offline Limits">>,
        <<2, "Card Status Update (CSU): Reset Offline Counters to Zero">>,
        <<3, "Card Status Update (CSU): Add Transaction to Offline Counter">>>>, <<>>),
    HexRow(4, 255, "Card Status Update (CSU): Issuer Discretionary 0x"),
    AnyRow(<<<<1, 112>>, <<3, 255>>>>, "Card Status Update (CSU): RFU")>>

TrmdRows == <<
    Flag(1, 128, "Restart supported"),
    Flag(1, 64, "Enciphered PIN verified online (Contactless)"),
    Flag(1, 32, "Signature (paper) (Contactless)"),
    Flag(1, 16, "Enciphered PIN verification performed by ICC (Contactless)"),
    Flag(1, 8, "No CVM required (Contactless)"),
    Flag(1, 4, "CDCVM (Contactless)"),
    Flag(1, 2, "Plaintext PIN verification performed by ICC (Contactless)"),
    Flag(1, 1, "Present and Hold supported"),
    Flag(2, 128, "CVM Limit exceeded"),
    Flag(2, 64, "Enciphered PIN verified online (Contact)"),
    Flag(2, 32, "Signature (paper) (Contact)"),
    Flag(2, 16, "Enciphered PIN verification performed by ICC (Contact)"),
    Flag(2, 8, "No CVM required (Contact)"),
    Flag(2, 4, "CDCVM (Contact)"),
    Flag(2, 2, "Plaintext PIN verification performed by ICC (Contact)"),
    Flag(3, 128, "Mag-stripe mode contactless transactions not supported"),
    Flag(3, 64, "EMV mode contactless transactions not supported"),
    Flag(3, 32, "CDCVM without CDA supported"),
    Flag(4, 128, "CDCVM bypass requested"),
    Flag(4, 64, "SCA exempt"),
    AnyRow(<<<<2, 1>>, <<3, 31>>, <<4, 63>>, <<5, 255>>, <<6, 255>>, <<7, 255>>, <<8, 255>>>>, "RFU")>>

TtqRows == <<
    Two(1, 128, "Mag-stripe mode supported", "Mag-stripe mode not supported"),
    Flag(1, 64, "RFU"),
    Two(1, 32, "EMV mode supported", "EMV mode not supported"),
    Two(1, 16, "EMV contact chip supported", "EMV contact chip not supported"),
    Two(1, 8, "Offline-only reader", "Online capable reader"),
    Two(1, 4, "Online PIN supported", "Online PIN not supported"),
    Two(1, 2, "Signature supported", "Signature not supported"),
    Two(1, 1, "Offline Data Authentication for Online Authorizations supported", "Offline Data Authentication for Online Authorizations not supported"),
    Two(2, 128, "Online cryptogram required", "Online cryptogram not required"),
    Two(2, 64, "CVM required", "CVM not required"),
    Two(2, 32, "(Contact Chip) Offline PIN supported", "(Contact Chip) Offline PIN not supported"),
    Flag(2, 31, "RFU"),
    Two(3, 128, "Issuer Update Processing supported", "Issuer Update Processing not supported"),
    Two(3, 64, "Consumer Device CVM supported", "Consumer Device CVM not supported"),
    Flag(3, 8, "Consumer Device CVM required"),
    Flag(3, 55, "RFU"),
    Flag(4, 128, "fDDA v1.0 Supported"),
    Flag(4, 127, "RFU")>>

CtqRows == <<
    Flag(1, 128, "Online PIN Required"),
    Flag(1, 64, "Signature Required"),
    Flag(1, 32, "Go Online if Offline Data Authentication Fails and Reader is online capable"),
    Flag(1, 16, "Switch Interface if Offline Data Authentication fails and Reader supports contact chip"),
    Flag(1, 8, "Go Online if Application Expired"),
    Flag(1, 4, "Switch Interface for Cash Transactions"),
    Flag(1, 2, "Switch Interface for Cashback Transactions"),
    Flag(1, 1, "Not valid for contactless ATM transactions"),
    Flag(2, 128, "Consumer Device CVM Performed"),
    Flag(2, 64, "Card supports Issuer Update Processing at the POS"),
    Flag(2, 63, "RFU")>>

FfiRows == <<
    Pick(1, 31, <<
        <<0, "Consumer Payment Device Form Factor: Card">>,
        <<1, "Consumer Payment Device Form Factor: Mini-card">>,
        <<2, "Consumer Payment Device Form Factor: Non-card Form Factor">>,
        <<3, "Consumer Payment Device Form Factor: Consumer mobile phone">>,
        <<4, "Consumer Payment Device Form Factor: Wrist-worn device">>>>, <<"Consumer Payment Device Form Factor: Unknown">>),
    Flag(2, 128, "Consumer Payment Device Features: Passcode Capable"),
    Flag(2, 64, "Consumer Payment Device Features: Signature Panel"),
    Flag(2, 32, "Consumer Payment Device Features: Hologram"),
    Flag(2, 16, "Consumer Payment Device Features: CVV2"),
    Flag(2, 8, "Consumer Payment Device Features: Two-way Messaging"),
    Flag(2, 4, "Consumer Payment Device Features: Cloud Based Payment Credentials"),
    Flag(2, 2, "Consumer Payment Device Features: Biometric Cardholder Verification Capable"),
    Flag(2, 1, "Consumer Payment Device Features: RFU"),
    Flag(3, 255, "Form Factor Indicator (FFI) byte 3: RFU"),
    Pick(4, 15, <<
        <<0, "Payment Transaction Technology: Proximity Contactless interface using ISO 14443 (including NFC)">>,
        <<1, "Payment Transaction Technology: Not used in VCPS">>>>, <<"Payment Transaction Technology: Unknown">>),
    Flag(4, 240, "Payment Transaction Technology: RFU")>>

EnhClRows == <<
    Flag(1, 128, "Contact mode supported"),
    Flag(1, 64, "Contactless Mag-Stripe Mode supported"),
    Flag(1, 32, "Contactless EMV full online mode supported (legacy feature and no longer supported)"),
    Flag(1, 16, "Contactless EMV partial online mode supported"),
    Flag(1, 8, "Contactless Mobile Supported"),
    Flag(1, 4, "Try Another Interface after a decline"),
    Flag(1, 3, "RFU"),
    Flag(2, 128, "Mobile CVM supported"),
    Flag(2, 64, "Online PIN supported"),
    Flag(2, 32, "Signature supported"),
    Flag(2, 16, "Plaintext Offline PIN supported"),
    Flag(2, 15, "RFU"),
    Flag(3, 128, "Reader is offline only"),
    Flag(3, 64, "CVM Required"),
    Flag(3, 63, "RFU"),
    Flag(4, 128, "Terminal exempt from No CVM checks"),
    Flag(4, 64, "Delayed Authorisation Terminal"),
    Flag(4, 32, "Transit Terminal"),
    Flag(4, 24, "RFU"),
    Pick(4, 7, <<
        <<1, "C-4 kernel version 2.2 - 2.3">>,
        <<2, "C-4 kernel version 2.4 - 2.6">>,
        <<3, "C-4 kernel version 2.7">>>>, <<"C-4 kernel version unknown">>)>>
=============================================================================
