-------------------------------- MODULE Atr --------------------------------
(* Answer To Reset (ISO 7816-3:2006 8, ISO 7816-4:2005 8.1.1) and the ATRs  *)
(* EMV accepts (EMV Level 1 Contact Interface 8.3).                         *)
EXTENDS Bytes, TLC

AtrMin == 2
AtrMax == 33
None == -1

-----------------------------------------------------------------------------
(* Interface bytes.  A group is the (up to four) bytes TAi TBi TCi TDi that *)
(* T0 or TD(i-1) announces; None stands for an absent byte.                 *)
Announces(y, n) == Bit(y, 4 + n) = 1             \* n = 0..3 for TA..TD
GroupAt(b, y, at) ==      \* at: number of bytes consumed so far
    LET pos(n) == at + Cardinality({m \in 0..n : Announces(y, m)})
        get(n) == IF ~Announces(y, n) THEN None
                  ELSE IF pos(n) > Len(b) THEN None ELSE b[pos(n)]
    IN [A |-> get(0), B |-> get(1), C |-> get(2), D |-> get(3), end |-> pos(3)]
RECURSIVE Groups(_, _, _, _)
Groups(b, y, at, gs) ==
    LET g == GroupAt(b, y, at) IN
    IF g.end > Len(b) THEN [ok |-> FALSE, gs |-> Append(gs, g), end |-> g.end]
    ELSE IF g.D = None \/ Len(gs) = 3 THEN [ok |-> TRUE, gs |-> Append(gs, g), end |-> g.end]
    ELSE Groups(b, g.D, g.end, Append(gs, g))
NoGroup == [A |-> None, B |-> None, C |-> None, D |-> None, end |-> 0]
Four(gs) == [i \in 1..4 |-> IF i <= Len(gs) THEN gs[i] ELSE NoGroup]

T(d) == LoNib(d)
\* The protocol (or T=15 for global) the interface bytes of group i >= 3 belong to
ProtOf(g, i) == T(g[i - 1].D)

Di(ta1) == LET d == LoNib(ta1) IN
           IF d = 0 \/ d > 9 THEN None ELSE <<1, 2, 4, 8, 16, 32, 64, 12, 20>>[d]
Fi(ta1) == LET f == HiNib(ta1) IN
           IF f \in {7, 8, 14, 15} THEN None
           ELSE <<372, 372, 558, 744, 1116, 1488, 1860, 0, 0, 512, 768, 1024, 1536, 2048>>[f + 1]
Fmax10(ta1) == LET f == HiNib(ta1) IN    \* MHz times 10
           <<40, 50, 60, 80, 120, 160, 200, 0, 0, 50, 75, 100, 150, 200>>[f + 1]

ValidA1(x) == Di(x) # None /\ Fi(x) # None
PI1(x) == x % 32
II(x) == (x \div 32) % 4
ValidB1(x) == x = 0 \/ (PI1(x) \in 5..25 /\ II(x) # 3)
Later(g, f) == {i \in 3..4 : (CASE f = "A" -> g[i].A [] f = "B" -> g[i].B [] f = "C" -> g[i].C) # None}
Valid(g) ==
    /\ g[1].A # None => ValidA1(g[1].A)
    /\ g[1].B # None => ValidB1(g[1].B)
    /\ g[1].D # None => T(g[1].D) \in {0, 1}
    /\ \A i \in 2..4 : g[i].D # None => T(g[i].D) \in {0, 1, 15}
    /\ g[2].B # None => g[1].B # 0 /\ g[2].B \in 50..250
    /\ g[2].C # None => g[2].C # 0
    /\ \A i \in Later(g, "A") :
         /\ ProtOf(g, i) = 15 => g[i].A % 64 \in 1..7
         /\ ProtOf(g, i) = 1 => g[i].A \notin {0, 255}
    /\ \A i \in Later(g, "B") : ProtOf(g, i) = 1 => HiNib(g[i].B) <= 9
    /\ g[4].D # None => HiNib(g[4].D) = 0

\* Value of the last byte of kind f (group 3 or later) for protocol p, else the default
LastOf(g, f, p, dflt) ==
    LET S == {i \in Later(g, f) : ProtOf(g, i) = p} IN
    IF S = {} THEN dflt
    ELSE LET i == CHOOSE x \in S : \A y \in S : y <= x IN
         CASE f = "A" -> g[i].A [] f = "B" -> g[i].B [] f = "C" -> g[i].C
Dflt(x, d) == IF x = None THEN d ELSE x

\* A check character follows unless T=0 is the only protocol indicated
TckNeeded(g) == \E i \in 1..4 : g[i].D # None /\ T(g[i].D) # 0
RECURSIVE XorAll(_, _)
XorAll(b, x) == IF b = <<>> THEN x ELSE XorAll(Tail(b), x ^^ Head(b))

-----------------------------------------------------------------------------
(* Historical bytes after the category indicator: COMPACT-TLV objects.      *)
RECURSIVE CompactItems(_, _)
CompactItems(b, acc) ==
    IF b = <<>> THEN [ok |-> TRUE, items |-> acc]
    ELSE LET n == LoNib(b[1]) IN
         IF Len(b) - 1 < n THEN [ok |-> FALSE, items |-> acc]
         ELSE CompactItems(From(b, n + 1), Append(acc, [tag |-> HiNib(b[1]), val |-> Slice(b, 1, n)]))
Compact(b) == CompactItems(b, <<>>)
StatusItems(items) == SelectSeq(items, LAMBDA x : x.tag = 8)

\* hist: all historical bytes, category indicator first
Hist(hist) ==
    LET t1 == hist[1]
        rest == Tail(hist)
        n == Len(rest)
        body == IF t1 = 0 THEN SubSeq(rest, 1, n - 3) ELSE rest
        c == Compact(body)
        ss == StatusItems(c.items)
        si == IF ss # <<>> THEN <<ss[Len(ss)].val>>
              ELSE IF t1 = 0 THEN <<SubSeq(rest, n - 2, n)>> ELSE <<>>
    IN IF t1 \notin {0, 128} THEN [ok |-> TRUE, bytes |-> rest, si |-> <<>>]
       ELSE IF t1 = 0 /\ n < 3 THEN [ok |-> FALSE, bytes |-> <<>>, si |-> <<>>]
       ELSE [ok |-> c.ok, bytes |-> body, si |-> si]
Status(si) ==
    IF si = <<>> THEN <<0, 0, 0>>
    ELSE LET v == si[1] IN
         CASE Len(v) = 1 -> <<v[1], 0, 0>>
           [] Len(v) = 2 -> <<0, v[1], v[2]>>
           [] Len(v) = 3 -> v
           [] OTHER -> <<0, 0, 0>>

-----------------------------------------------------------------------------
AtrBad == [r |-> 1]
\* Everything a caller learns from an ATR
AtrParse(b) ==
    IF Len(b) \notin AtrMin..AtrMax \/ b[1] \notin {59, 63} THEN AtrBad
    ELSE
    LET y1 == b[2]
        k == LoNib(y1)
        G == Groups(b, y1, 2, <<>>)
        g == Four(G.gs)
    IN
    IF ~G.ok \/ ~Valid(g) \/ G.end + k > Len(b) THEN AtrBad
    ELSE
    LET hist == Slice(b, G.end, k)
        h == IF k = 0 THEN [ok |-> TRUE, bytes |-> <<>>, si |-> <<>>] ELSE Hist(hist)
        tckAt == G.end + k + 1
        needed == TckNeeded(g)
    IN
    IF ~h.ok \/ (needed /\ (tckAt > Len(b) \/ XorAll(SubSeq(b, 2, tckAt), 0) # 0)) THEN AtrBad
    ELSE
    LET a1 == Dflt(g[1].A, 17)
        b1 == Dflt(g[1].B, 37)
        vpp == b1 # 0
        n == Dflt(g[1].C, 0)
        p == IF g[1].D = None THEN 0 ELSE T(g[1].D)
        a2 == g[2].A
        wi == Dflt(g[2].C, 10)
        a15 == LastOf(g, "A", 15, 1)
        b15 == LastOf(g, "B", 15, 0)
        tb == LastOf(g, "B", 1, 77)
        bwi == HiNib(tb)
        unit == (2 ^ bwi) * 357120             \* 2^BWI x 960 x 372
        d == Di(a1)
        f == Fi(a1)
        gt == IF n # 255 THEN 12 + n ELSE IF p = 0 THEN 12 ELSE 11
        st == Status(h.si)
    IN [r |-> 0, TS |-> b[1], T0 |-> y1, K |-> k,
        TA |-> [i \in 1..4 |-> g[i].A], TB |-> [i \in 1..4 |-> g[i].B],
        TC |-> [i \in 1..4 |-> g[i].C], TD |-> [i \in 1..4 |-> g[i].D],
        T1 |-> IF k = 0 THEN 0 ELSE hist[1], hist |-> h.bytes, si |-> h.si,
        LCS |-> st[1], SW1 |-> st[2], SW2 |-> st[3],
        TCK |-> IF needed THEN b[tckAt] ELSE 0,
        Di |-> d, Fi |-> f, f10 |-> Fmax10(a1),
        vppc |-> IF vpp THEN 1 ELSE 0,
        coarse |-> IF vpp THEN PI1(b1) * 1000 ELSE 5000,
        vpp |-> IF g[2].B # None THEN g[2].B * 100 ELSE IF vpp THEN PI1(b1) * 1000 ELSE 5000,
        ipp |-> IF vpp THEN <<25, 50, 100>>[II(b1) + 1] ELSE 50,
        N |-> n, GT |-> gt, p |-> p,
        spec |-> IF a2 = None THEN <<>> ELSE <<LoNib(a2), Bit(a2, 4), 1 - Bit(a2, 7)>>,
        cls |-> a15 % 64, clk |-> a15 \div 64,
        spu |-> IF b15 = 0 THEN 0 ELSE IF b15 < 128 THEN 1 ELSE 2,
        WI |-> wi, WT |-> wi * 960 * d,
        CGT |-> IF n # 255 THEN gt ELSE 11,
        IFSI |-> LastOf(g, "A", 1, 32), CWI |-> LoNib(tb), CWT |-> 11 + 2 ^ LoNib(tb),
        BWI |-> bwi, BWT |-> 11 + (unit \div f) * d + ((unit % f) * d) \div f,
        edc |-> LastOf(g, "C", 1, 0) % 2]

-----------------------------------------------------------------------------
(* The ATRs EMV accepts; a is the result of AtrParse. *)
EmvTA1(a) ==
    a.TA[1] # None =>
      IF a.TA[2] # None THEN Bit(a.TA[2], 4) = 1 \/ a.TA[1] \in 17..19
      ELSE HiNib(a.TA[1]) # 0 /\ LoNib(a.TA[1]) >= 3
EmvTA2(a) == a.TA[2] # None => LoNib(a.TA[2]) = a.p /\ Bit(a.TA[2], 4) = 0
EmvTC2(a) == a.TC[2] # None => a.p = 0 /\ a.TC[2] = 10
EmvTD2(a) == IF a.TD[2] = None THEN a.p = 0
             ELSE T(a.TD[2]) = IF a.p = 0 THEN 15 ELSE 1
EmvT1(a) ==
    a.p = 1 =>
      /\ a.TA[3] # None => a.TA[3] >= 16
      /\ a.TB[3] # None /\ HiNib(a.TB[3]) <= 4 /\ LoNib(a.TB[3]) <= 5
      /\ a.TC[3] # None => a.TC[3] = 0
EmvAccepts(a) ==
    /\ a.r = 0
    /\ EmvTA1(a)
    /\ a.TC[1] # None => a.TC[1] \in {0, 255}
    /\ EmvTA2(a) /\ EmvTC2(a) /\ EmvTD2(a) /\ EmvT1(a)
\* 0, an invalid parameter (an empty ATR), or the outcome "card error"
EmvAtr(b) == IF b = <<>> THEN -2 ELSE IF EmvAccepts(AtrParse(b)) THEN 0 ELSE 1

-----------------------------------------------------------------------------
(* Texts *)
Str(n) == ToString(n)
Cut(s, cap) == IF Len(s) < cap THEN s ELSE SubSeq(s, 1, cap - 1)
Null == "~"
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

YText(a, i) ==
    IF i > 4 THEN ""
    ELSE LET has(x, s) == IF x[i] = None THEN <<>> ELSE <<s \o Str(i)>> IN
         "Y" \o Str(i) \o "=" \o Join(has(a.TA, "TA") \o has(a.TB, "TB") \o has(a.TC, "TC") \o has(a.TD, "TD"), ",")
TsText(a) == IF a.TS = 59 THEN "Direct convention" ELSE "Inverse convention"
T0Text(a) == YText(a, 1) \o "; K=" \o Str(a.K)
ClockText == <<"Not supported", "State L", "State H", "No preference">>
TaText(a, i) ==
    CASE i = 1 -> LET cyc == a.Fi \div a.Di IN
                  "Fi=" \o Str(a.Fi) \o "; Di=" \o Str(a.Di) \o "; " \o Str(cyc) \o " cycles/ETU @ max "
                  \o Str(a.f10 \div 10) \o "." \o Str(a.f10 % 10) \o "MHz; max " \o Str((a.f10 * 100000) \div cyc) \o " bit/s"
      [] i = 2 -> IF a.spec = <<>> THEN "Negotiable mode"
                  ELSE "Specific mode (" \o (IF a.spec[3] = 1 THEN "mutable" ELSE "immutable") \o "); ETU"
                       \o (IF a.spec[2] = 1 THEN " is implicit" ELSE "=Fi/Di") \o "; protocol T=" \o Str(a.spec[1])
      [] OTHER ->
           IF a.TA[i] = None THEN "Unimplemented"
           ELSE CASE T(a.TD[i - 1]) = 15 ->
                       "Clock stop: " \o ClockText[a.clk + 1] \o "; Class: "
                       \o Join((IF Bit(a.cls, 0) = 1 THEN <<"A (5V)">> ELSE <<>>)
                               \o (IF Bit(a.cls, 1) = 1 THEN <<"B (3V)">> ELSE <<>>)
                               \o (IF Bit(a.cls, 2) = 1 THEN <<"C (1.8V)">> ELSE <<>>), ", ")
                  [] T(a.TD[i - 1]) = 1 -> "IFSI=" \o Str(a.IFSI)
                  [] OTHER -> "Unimplemented"
TbText(a, i) ==
    CASE i = 1 -> IF a.TB[1] # None /\ a.vppc = 1
                  THEN "Vpp is connected; Vpp=" \o Str(a.coarse) \o "mV; Ipp=" \o Str(a.ipp) \o "mA"
                  ELSE "Vpp is not connected"
      [] i = 2 -> IF a.TB[1] # None /\ a.TB[2] # None /\ a.vppc = 1 THEN "Vpp=" \o Str(a.vpp) \o "mV"
                  ELSE "Vpp is not connected"
      [] OTHER ->
           IF a.TB[i] = None THEN "Unimplemented"
           ELSE CASE T(a.TD[i - 1]) = 15 -> <<"SPU not used", "Standard usage of SPU", "Proprietary usage of SPU">>[a.spu + 1]
                  [] T(a.TD[i - 1]) = 1 -> "CWT=" \o Str(a.CWT) \o "; BWT=" \o Str(a.BWT)
                  [] OTHER -> "Unimplemented"
TcText(a, i) ==
    CASE i = 1 -> "N=" \o Str(a.N) \o "; GT=" \o Str(a.GT)
      [] i = 2 -> "WI=" \o Str(a.WI) \o "; WT=" \o Str(a.WT)
      [] OTHER -> IF a.TC[i] # None /\ T(a.TD[i - 1]) = 1
                  THEN IF a.edc = 1 THEN "Cyclic Redundancy Check (CRC)" ELSE "Longitudinal Redundancy Check (LRC)"
                  ELSE "Unimplemented"
TdText(a, i, cap) ==
    IF a.TD[i] = None THEN Null
    ELSE Cut(YText(a, i + 1) \o (IF T(a.TD[i]) = 15 THEN "; Global (T=15)" ELSE "; Protocol T=" \o Str(T(a.TD[i]))), cap)
T1Text(a) ==
    IF a.K = 0 THEN Null
    ELSE CASE a.T1 = 0 -> "COMPACT-TLV followed by mandatory status indicator"
           [] a.T1 = 16 -> "DIR data reference"
           [] a.T1 = 128 -> "COMPACT-TLV including optional status indicator"
           [] a.T1 \in 129..143 -> "RFU"
           [] OTHER -> "Proprietary"
AtrTexts(a, cap) ==
    IF a.r # 0 THEN [r |-> 1]
    ELSE [r |-> 0, TS |-> TsText(a), T0 |-> Cut(T0Text(a), cap),
          TA |-> [i \in 1..4 |-> Cut(TaText(a, i), cap)], TB |-> [i \in 1..4 |-> Cut(TbText(a, i), cap)],
          TC |-> [i \in 1..4 |-> Cut(TcText(a, i), cap)], TD |-> [i \in 1..4 |-> TdText(a, i, cap)],
          T1 |-> T1Text(a)]
=============================================================================
