-------------------------------- MODULE Print -------------------------------
(* What the tools print.  A print-out is a sequence of lines; a line is     *)
(* <<text>>, or <<text, indent>> when what follows text on this line, and   *)
(* in list items below it, is left open (the field's value has no valid     *)
(* text).                                                                   *)
EXTENDS Pure, Registers

RECURSIVE SpHex(_)                             \* " AA BB", split in halves to keep the depth low
SpHex(b) == IF b = <<>> THEN "" ELSE IF Len(b) = 1 THEN " " \o Hex2(b[1])
            ELSE LET m == Len(b) \div 2 IN SpHex(SubSeq(b, 1, m)) \o SpHex(From(b, m))
RECURSIVE PkHex(_)
PkHex(b) == IF b = <<>> THEN "" ELSE IF Len(b) = 1 THEN Hex2(b[1])
            ELSE LET m == Len(b) \div 2 IN PkHex(SubSeq(b, 1, m)) \o PkHex(From(b, m))
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
TagText(t) == LET b == U32ToBytes(t)
                  n == CHOOSE k \in 0..3 : (k = 3 \/ b[k + 1] # 0) /\ \A j \in 1..k : b[j] = 0
              IN PkHex(From(b, n))

\* The pieces of a text between newlines
RECURSIVE Pieces(_, _, _)
Pieces(s, at, ks) == IF ks = <<>> THEN <<SubSeq(s, at, Len(s))>>
                     ELSE <<SubSeq(s, at, ks[1] - 1)>> \o Pieces(s, ks[1] + 1, Tail(ks))
NewlinesOf(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : SubSeq(s, i, i) = "\n")
SplitText(s) == Pieces(s, 1, NewlinesOf(s))
Closed(s) == LET p == SplitText(s) IN [i \in 1..Len(p) |-> <<p[i]>>]
\* Items of a list text: empty pieces are not items
ItemsOf(s) == SelectSeq(SplitText(s), LAMBDA x : x # "")
Bullets(s, ind) == LET p == ItemsOf(s) IN [i \in 1..Len(p) |-> <<ind \o "- " \o p[i]>>]
EndsNl(s) == s # "" /\ SubSeq(s, Len(s), Len(s)) = "\n"

Named1(t, name) == TagText(t) \o (IF name = Null THEN "" ELSE " | " \o name)
FieldHead(t, name, n) == Named1(t, name) \o " : [" \o Str(n) \o "]"
NameOf(t, n) == InfoOf([tag |-> t, nul |-> 1, len |-> n, b |-> <<>>]).name

DolLines(b, prefix, d) ==
    LET items == DolItems(b).items IN
    << <<Rep(prefix, d) \o "Data Object List:">> >>
    \o [i \in 1..Len(items) |-> <<Rep(prefix, d + 1) \o Named1(items[i].tag, NameOf(items[i].tag, items[i].len))
                                    \o " [" \o Str(items[i].len) \o "]">>]
RECURSIVE TagsOf(_)
TagsOf(b) == LET t == TagDecode(b) IN IF t.r <= 0 THEN <<>> ELSE <<t.tag>> \o TagsOf(From(b, t.r))
TagListLines(b, prefix, d) ==
    LET ts == TagsOf(b) IN
    << <<Rep(prefix, d) \o "Tag List:">> >>
    \o [i \in 1..Len(ts) |-> <<Rep(prefix, d + 1) \o Named1(ts[i], NameOf(ts[i], 0))>>]

-----------------------------------------------------------------------------
(* Primitive fields *)
ValueCap == 2048
EmvPrimitive(t, b, prefix, d) ==
    LET i == [tag |-> t, cap |-> ValueCap, nul |-> 0, len |-> Len(b), b |-> b]
        info == TagInfo(i)
        line == Rep(prefix, d) \o FieldHead(t, info.name, Len(b)) \o SpHex(b)
    IN IF "s" \notin DOMAIN info THEN << <<line, Rep(prefix, d + 1)>> >>
       ELSE IF info.s = "" THEN
            << <<line>> >>
            \o (CASE info.fmt = "DOL" -> DolLines(b, prefix, d + 1)
                  [] info.fmt = "TAG_LIST" -> TagListLines(b, prefix, d + 1)
                  [] OTHER -> <<>>)
       ELSE IF EndsNl(info.s) THEN << <<line>> >> \o Bullets(info.s, Rep(prefix, d + 1))
       ELSE IF info.fmt \in {"A", "AN", "ANS"} THEN Closed(line \o " \"" \o info.s \o "\"")
       ELSE Closed(line \o " (" \o info.s \o ")")

BerStrings == {7, 12} \cup 18..28 \cup {30}
ArcsText(arcs) == Join([i \in 1..Len(arcs) |-> U32Text(arcs[i])], " ")
BerPrimitive(t, b, prefix, d) ==
    LET line == Rep(prefix, d) \o TagText(t) \o " : [" \o Str(Len(b)) \o "]" \o SpHex(b)
        oid == ExpectOid(b)
    IN IF t \in {Tg(x) : x \in BerStrings}
       THEN Closed(line \o " \"" \o (IF Len(b) < 1024 THEN CStr(b) ELSE "...") \o "\"")
       ELSE IF t = Tg(6) /\ oid.r = 0 THEN << <<line \o " {" \o ArcsText(oid.arcs) \o "}">> >>
       ELSE << <<line>> >>

(* Data as a tree: every field on its own line, templates followed by their *)
(* content one level deeper, up to the first octet that is not valid.       *)
IsPadding(len, rest) == (len % 8 = 0 /\ rest < 8) \/ (len % 16 = 0 /\ rest < 16)
RECURSIVE Walk(_, _, _, _, _)
Walk(how, b, o, d, acc) ==
    LET e == BerDecode(From(b, o))
        ind == Rep(how.prefix, d)
        rest == Len(b) - o
    IN
    IF e.r = 0 THEN [ls |-> acc, n |-> o, bad |-> FALSE]
    ELSE IF e.r < 0 THEN
         IF how.pad /\ IsPadding(Len(b), rest)
         THEN [ls |-> Append(acc, <<ind \o "Padding : [" \o Str(rest) \o "]" \o SpHex(From(b, o))>>), n |-> Len(b), bad |-> FALSE]
         ELSE [ls |-> acc, n |-> o, bad |-> TRUE]
    ELSE IF IsCons(e.flags) THEN
         LET name == IF how.emv THEN InfoOf([tag |-> e.tag, nul |-> 0, len |-> Len(e.val), b |-> e.val]).name ELSE Null
             sub == Walk(how, e.val, 0, d + 1, <<>>)
             here == acc \o << <<ind \o FieldHead(e.tag, name, Len(e.val))>> >> \o sub.ls
         IN IF sub.bad THEN [ls |-> here, n |-> o + e.off + sub.n, bad |-> TRUE]
            ELSE Walk(how, b, o + e.r, d, here)
    ELSE Walk(how, b, o + e.r, d,
              acc \o (IF how.emv THEN EmvPrimitive(e.tag, e.val, how.prefix, d) ELSE BerPrimitive(e.tag, e.val, how.prefix, d)))
TreeLines(how, b, d) ==
    LET w == Walk(how, b, 0, d, <<>>) IN
    IF ~w.bad THEN w.ls
    ELSE Append(w.ls, <<"BER decoding error -1 at offset " \o Str(w.n) \o "; remaining invalid data:" \o SpHex(From(b, w.n))>>)
Emv(prefix, pad) == [emv |-> TRUE, prefix |-> prefix, pad |-> pad]
Plain(prefix, pad) == [emv |-> FALSE, prefix |-> prefix, pad |-> pad]

\* One field
TlvLines(e, d) ==
    IF ~IsCons(e.flags) THEN EmvPrimitive(e.tag, e.val, "  ", d)
    ELSE << <<Rep("  ", d) \o FieldHead(e.tag, InfoOf([tag |-> e.tag, nul |-> 0, len |-> Len(e.val), b |-> e.val]).name, Len(e.val))>> >>
         \o TreeLines(Emv("  ", FALSE), e.val, d + 1)
RECURSIVE ListLines(_)
ListLines(l) == IF l = <<>> THEN <<>> ELSE EmvPrimitive(l[1].t, l[1].v, "  ", 1) \o ListLines(Tail(l))

-----------------------------------------------------------------------------
(* Other data *)
BufLines(name, b) == Closed((IF name = Null THEN "" ELSE name \o ": ") \o PkHex(b))
CapduLine(b) == IF b = <<>> THEN "(null)"
                ELSE LET t == EmvCapdu(b, 1024) IN PkHex(b) \o (IF t.r = 0 THEN " (" \o t.s \o ")" ELSE "")
RapduLine(b) == IF b = <<>> THEN "(null)"
                ELSE PkHex(b) \o (IF Len(b) < 2 THEN "" ELSE " (" \o SwText(b[Len(b) - 1], b[Len(b)]) \o ")")
SwLine(a, x) == "SW1SW2: " \o Hex2(a) \o Hex2(x) \o " (" \o SwText(a, x) \o ")"

AppLine(a) == "Application: " \o PkHex(a.aid) \o ", " \o CStr(a.name)
              \o (IF a.prio = 0 THEN "" ELSE ", Priority " \o Str(a.prio))
              \o (IF a.conf = 0 THEN "" ELSE ", Cardholder confirmation required")

Byte0x(x) == "0x" \o Hex2(x)
AtrGroup(a, t, i) ==
    LET row(n, v, txt) == IF v # None THEN << <<"  " \o n \o Str(i) \o " = " \o Byte0x(v) \o ": " \o txt>> >>
                          ELSE IF i < 3 THEN << <<"  " \o n \o Str(i) \o " absent: " \o txt>> >> ELSE <<>>
    IN (IF i < 3 \/ {a.TA[i], a.TB[i], a.TC[i], a.TD[i]} # {None} THEN << <<"  ----">> >> ELSE <<>>)
       \o row("TA", a.TA[i], t.TA[i]) \o row("TB", a.TB[i], t.TB[i]) \o row("TC", a.TC[i], t.TC[i])
       \o (IF a.TD[i] # None THEN << <<"  TD" \o Str(i) \o " = " \o Byte0x(a.TD[i]) \o ": " \o t.TD[i]>> >> ELSE <<>>)
CompactLines(it) ==
    << <<"  " \o SwPick(CompactNames, it.tag) \o " (0x" \o HexChar(it.tag) \o "): [" \o Str(Len(it.val)) \o "] "
         \o (IF it.val = <<>> THEN "" ELSE LET h == SpHex(it.val) IN SubSeq(h, 2, Len(h)))>> >>
    \o (CASE it.tag = 3 /\ it.val # <<>> -> Bullets(FitTexts(RowsTexts(CardServiceRows, it.val), 1024), "    ")
          [] it.tag = 7 /\ it.val # <<>> ->
               LET c == CardCaps(it.val, 1024) IN IF c.r = 0 THEN Bullets(c.s, "    ") ELSE <<>>
          [] OTHER -> <<>>)
RECURSIVE CompactAll(_)
CompactAll(its) == IF its = <<>> THEN <<>> ELSE CompactLines(its[1]) \o CompactAll(Tail(its))
HistLines(a, t) ==
    << <<"  T1  = " \o Byte0x(a.T1) \o ": " \o t.T1>> >>
    \o (IF a.T1 \notin {0, 128} THEN << <<"  Historical bytes: " \o PkHex(a.hist)>> >>
        ELSE IF a.hist = <<>> THEN << <<"Failed to parse ATR historical bytes">> >>
        ELSE CompactAll(Compact(a.hist).items))
StatusLines(a) ==
    IF a.si = <<>> THEN <<>>
    ELSE << <<"  ----">>, <<"  LCS = " \o Hex2(a.LCS) \o ": " \o LcsText(a.LCS)>> >>
         \o (IF a.SW1 = 0 /\ a.SW2 = 0 THEN <<>>
             ELSE << <<"  SW  = " \o Hex2(a.SW1) \o Hex2(a.SW2) \o ": (" \o SwText(a.SW1, a.SW2) \o ")">> >>)
AtrLines(b) ==
    LET a == AtrParse(b)
        t == AtrTexts(a, 1024)
    IN << <<"ATR: " \o PkHex(b)>>, <<"  TS  = " \o Byte0x(a.TS) \o ": " \o t.TS>>, <<"  T0  = " \o Byte0x(a.T0) \o ": " \o t.T0>> >>
       \o AtrGroup(a, t, 1) \o AtrGroup(a, t, 2) \o AtrGroup(a, t, 3) \o AtrGroup(a, t, 4)
       \o (IF a.K = 0 THEN <<>> ELSE << <<"  ----">> >> \o HistLines(a, t) \o StatusLines(a))
       \o << <<"  ----">>, <<"  TCK = " \o Byte0x(a.TCK)>> >>

\* A log entry
SourceName(s) == CASE s = 1 -> "TTL" [] s = 2 -> "TAL" [] s = 4 -> "EMV" [] s = 8 -> "APP" [] OTHER -> "???"
LevelName(l) == CASE l = 1 -> "ERROR" [] l = 2 -> "INFO" [] l = 3 -> "CARD" [] l = 4 -> "TRACE" [] OTHER -> "????"
RECURSIVE ZeroPad(_, _)
ZeroPad(s, n) == IF Len(s) >= n THEN s ELSE ZeroPad("0" \o s, n)
EntryLines(pre, type, s, b) ==
    CASE type = 1 -> Closed(pre \o s)
      [] type = 3 -> << <<pre \o s \o ": " \o PkHex(b)>> >> \o TreeLines(Emv("  ", FALSE), b, 1)
      [] type = 4 -> LET ls == AtrLines(b) IN << <<pre \o ls[1][1]>> >> \o Tail(ls)
      [] type = 5 -> << <<pre \o s \o ": " \o CapduLine(b)>> >>
      [] type = 6 -> << <<pre \o s \o ": " \o RapduLine(b)>> >>
      [] OTHER -> << <<pre \o s \o ": " \o PkHex(b)>> >>
DebugPrefix(verbose, ts, src, lvl) ==
    IF verbose = 0 THEN "[" \o SourceName(src) \o "] "
    ELSE "[" \o ZeroPad(U32Text(ts), 10) \o "," \o SourceName(src) \o "," \o LevelName(lvl) \o "] "

-----------------------------------------------------------------------------
(* Does what was printed agree?  got ends with what follows the last newline *)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
IsItem(s, ind) == StartsWith(s, ind \o "- ")
RECURSIVE LinesAgree(_, _, _, _)
LinesAgree(got, i, want, j) ==
    IF j > Len(want) THEN i = Len(got) /\ got[i] = ""
    ELSE IF i > Len(got) THEN FALSE
    ELSE IF Len(want[j]) = 1 THEN got[i] = want[j][1] /\ LinesAgree(got, i + 1, want, j + 1)
    ELSE /\ StartsWith(got[i], want[j][1])
         /\ LET S == {k \in (i + 1)..(Len(got) + 1) :
                        k > Len(got) \/ ~IsItem(got[k], want[j][2])}
            IN LinesAgree(got, CHOOSE k \in S : \A x \in S : k <= x, want, j + 1)
OutAgrees(got, want) == want.any \/ LinesAgree(got, 1, want.ls, 1)
Printed(ls) == [any |-> FALSE, ls |-> ls]
Anything == [any |-> TRUE, ls |-> <<>>]

PrintOf(i) ==
    CASE i.k = "ber" -> TreeLines(Plain(i.prefix, i.pad = 1), i.b, i.d)
      [] i.k = "emv" -> TreeLines(Emv(i.prefix, i.pad = 1), i.b, i.d)
      [] i.k = "tlv" -> LET e == BerDecode(i.b) IN IF e.r <= 0 THEN <<>> ELSE TlvLines(e, 0)
      [] i.k = "list" -> ListLines(ParseFlat(i.b).list)
      [] i.k = "dol" -> DolLines(i.b, i.prefix, i.d)
      [] i.k = "tags" -> TagListLines(i.b, i.prefix, i.d)
      [] i.k = "atr" -> IF AtrParse(i.b).r = 0 THEN AtrLines(i.b) ELSE <<>>
      [] i.k = "capdu" -> << <<CapduLine(i.b)>> >>
      [] i.k = "rapdu" -> << <<RapduLine(i.b)>> >>
      [] i.k = "sw" -> << <<SwLine(i.b[1], i.b[2])>> >>
      [] i.k = "buf" -> BufLines(IF i.prefix = "" THEN Null ELSE i.prefix, i.b)
      [] i.k = "strs" -> Bullets(CStr(i.b), Rep(i.prefix, i.d))
      [] i.k = "app" -> LET a == AppFromFci(i.b) IN IF a.ok THEN << <<AppLine(a)>> >> ELSE <<>>
      [] i.k = "dbg" -> IF i.type = 4 /\ AtrParse(i.b).r # 0 THEN <<>>
                        ELSE EntryLines(DebugPrefix(i.pad, i.ts, i.src, i.lvl), i.type, i.prefix, i.b)
=============================================================================
