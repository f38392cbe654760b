--------------------------------- MODULE Cli --------------------------------
(* The command line tool emv-decode: options, INPUT, exit status, output.   *)
(* i = [opts, args, in, iso, mcc]: options by name in their order, the      *)
(* arguments as octets, standard input, and the registers in place of the   *)
(* preloaded ones ("" for none).  The answer is [st, out, err]: exit        *)
(* status, what is printed, and whether something is said on standard error *)
(* (AnyErr: left open).                                                     *)
EXTENDS Print

AnyErr == 2
CliOut(ls) == [st |-> 0, out |-> Printed(ls), err |-> 0]
CliSays == [st |-> 0, out |-> Printed(<<>>), err |-> 1]      \* a complaint, yet a successful run
CliUsage == [st |-> 64, out |-> Printed(<<>>), err |-> 1]
CliOpen(st) == [st |-> st, out |-> Anything, err |-> AnyErr]

\* Modes which print a field's text: kind of text, least and most octets, room, lines are a list
Field(k, lo, hi, cap) == [k |-> k, lo |-> lo, hi |-> hi, cap |-> cap]
NoField == Field("", 0, 0, 0)
FieldOf(o) ==
    CASE o \in {"mcc", "9F15"} -> Field("mcc", 2, 2, 1024)
      [] o \in {"term-type", "9F35"} -> Field("termtype", 1, 1, 1024)
      [] o \in {"term-caps", "9F33"} -> Field("termcaps", 3, 3, 1024)
      [] o \in {"addl-term-caps", "9F40"} -> Field("addlcaps", 5, 5, 1024)
      [] o \in {"cvm-list", "8E"} -> Field("cvmlist", 0, 100000, 2048)
      [] o \in {"cvm-results", "9F34"} -> Field("cvmres", 3, 3, 1024)
      [] o \in {"tvr", "95"} -> Field("tvr", 5, 5, 2048)
      [] o \in {"tsi", "9B"} -> Field("tsi", 2, 2, 2048)
      [] o \in {"issuer-app-data", "9F10"} -> Field("iad", 0, 32, 2048)
      [] o \in {"ttq", "9F66"} -> Field("ttq", 4, 4, 2048)
      [] o \in {"ctq", "9F6C"} -> Field("ctq", 2, 2, 2048)
      [] o \in {"amex-cl-reader-caps", "9F6D"} -> Field("clcaps", 1, 1, 1024)
      [] o = "mastercard-third-party-data" -> Field("tpd", 5, 32, 2048)
      [] o = "visa-ffi" -> Field("ffi", 4, 4, 2048)
      [] o = "amex-enh-cl-reader-caps" -> Field("enhcl", 4, 4, 2048)
      [] o \in {"terminal-risk-management-data", "9F1D"} -> Field("trmd", 8, 8, 2048)
      [] OTHER -> NoField
OneLine == {"mcc", "clcaps"}
Latin == 1..15 \ {12}
PageOf(o) == IF \E n \in Latin : o = "iso8859-" \o ToString(n) THEN CHOOSE n \in Latin : o = "iso8859-" \o ToString(n) ELSE 0
LookUps == {"country", "iso3166-1", "currency", "iso4217", "language", "iso639"}
DataModes == {"atr", "sw1sw2", "ber", "tlv", "dol", "tag-list"}
IsMode(o) == o \in DataModes \cup LookUps \/ PageOf(o) # 0 \/ FieldOf(o) # NoField
Finishes == {"version", "iso8859-x", "help", "usage"}

\* Options are judged in their order, before any argument
RECURSIVE Options(_, _, _)
Options(os, mode, pad) ==
    IF os = <<>> THEN [kind |-> "go", mode |-> mode, pad |-> pad]
    ELSE LET o == Head(os) IN
         IF o \in Finishes THEN [kind |-> "done", mode |-> o, pad |-> pad]
         ELSE IF o = "ignore-padding" THEN Options(Tail(os), mode, TRUE)
         ELSE IF ~IsMode(o) \/ mode # "" THEN [kind |-> "usage", mode |-> mode, pad |-> pad]
         ELSE Options(Tail(os), o, pad)

\* Hexadecimal input; white space between digits is skipped
IsBlank(c) == c = 32 \/ c \in 9..13
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c < 97 THEN c - 55 ELSE c - 87
HexArg(a) ==
    LET ds == SelectSeq(a, LAMBDA c : ~IsBlank(c)) IN
    IF Len(a) < 2 \/ (\E j \in 1..Len(ds) : ~IsHex(ds[j])) \/ Len(ds) % 2 = 1 THEN [kind |-> "usage", b |-> <<>>]
    ELSE IF IsBlank(a[Len(a)]) THEN [kind |-> "open", b |-> <<>>]
    ELSE [kind |-> "ok", b |-> [k \in 1..(Len(ds) \div 2) |-> 16 * HexVal(ds[2 * k - 1]) + HexVal(ds[2 * k])]]
\* The data of the last argument; standard input can be read once
RECURSIVE DataArgs(_, _, _)
DataArgs(as, in, b) ==
    IF as = <<>> THEN [kind |-> "ok", b |-> b]
    ELSE IF Head(as) = <<45>> THEN IF in = <<>> THEN [kind |-> "usage", b |-> <<>>] ELSE DataArgs(Tail(as), <<>>, in)
    ELSE LET h == HexArg(Head(as)) IN IF h.kind # "ok" THEN h ELSE DataArgs(Tail(as), in, h.b)

-----------------------------------------------------------------------------
(* Registers: the preloaded ones, or the files named instead *)
InMap(map, x) == IF x \in DOMAIN map THEN map[x] ELSE Null
Regs(i) == LET a == IsoLoad(NoRegisters, Data.sets[i.iso]) IN
           IF a.r # 0 THEN a ELSE MccLoad(a.st, Data.sets[i.mcc])
Alpha(i, mode, x) ==
    LET n == Len(x)
        key == CStr(x)
        f == IF n = 2 THEN "alpha_2" ELSE "alpha_3"
        st == Regs(i).st IN
    IF i.iso # "" THEN
         CASE mode = "country" -> LookIn(st.c, f, key)
           [] mode = "currency" -> LookIn(st.k, f, key)
           [] mode = "language" -> LookIn(st.l, f, key)
    ELSE CASE mode = "country" -> InMap(IF n = 2 THEN Data.country2 ELSE Data.country3, key)
           [] mode = "currency" -> InMap(Data.currency3, key)
           [] mode = "language" -> InMap(IF n = 2 THEN Data.language2 ELSE Data.language3, key)
Numbered(i, mode, k) ==
    LET st == Regs(i).st IN
    IF i.iso # "" THEN LookIn(IF mode = "country" THEN st.c ELSE st.k, "numeric", k)
    ELSE InMap(IF mode = "country" THEN Data.country ELSE Data.currency, k)
\* A decimal number: blanks, a sign, digits, nothing else
RECURSIVE Unblank(_)
Unblank(x) == IF x # <<>> /\ IsBlank(x[1]) THEN Unblank(Tail(x)) ELSE x
RECURSIVE Value10(_, _)
Value10(x, v) == IF x = <<>> THEN v ELSE Value10(Tail(x), v * 10 + x[1] - 48)
Decimal(x) == LET u == Unblank(x)
                  d == IF u # <<>> /\ u[1] = 43 THEN Tail(u) ELSE u IN
              IF d = <<>> \/ \E j \in 1..Len(d) : ~IsDigit(d[j]) THEN [ok |-> FALSE, v |-> 0] ELSE [ok |-> TRUE, v |-> Value10(d, 0)]
Answered(n) == IF n = Null THEN CliSays ELSE IF n = Open THEN CliOpen(0) ELSE CliOut(Closed(n))
LookUp(i, mode, x) ==
    IF Len(x) \notin (IF mode = "currency" THEN {3} ELSE {2, 3}) THEN CliSays
    ELSE LET a == Alpha(i, mode, x)
             d == Decimal(x) IN
         IF a # Null THEN Answered(a)
         ELSE IF mode = "language" THEN CliSays
         ELSE IF ~d.ok THEN CliSays
         ELSE Answered(Numbered(i, mode, ToString(d.v)))

\* What is printed without anything being added
Verbatim(s) == IF s = "" THEN <<>> ELSE IF EndsNl(s) THEN Closed(SubSeq(s, 1, Len(s) - 1)) ELSE Closed(s)
FieldMode(i, fd, b) ==
    IF Len(b) \notin fd.lo..fd.hi THEN CliSays
    ELSE IF fd.k = "mcc" /\ i.iso # "" THEN
         LET v == NToUint(b) IN IF ~v.ok THEN CliSays ELSE Answered(LookMcc(Regs(i).st.m, ToString(v.u[2])))
    ELSE LET t == StrAnswer(fd.k, b, fd.cap) IN
         IF t.r # 0 THEN CliSays
         ELSE IF fd.k \in OneLine THEN IF t.s = "" /\ fd.k = "mcc" THEN CliSays ELSE CliOut(Closed(t.s))
         ELSE IF t.s # "" /\ ~EndsNl(t.s) THEN CliOpen(0)
         ELSE CliOut(Verbatim(t.s))
Decoded(i, mode, pad, b) ==
    CASE mode = "atr" -> IF Len(b) \notin 2..33 \/ AtrParse(b).r # 0 THEN CliSays ELSE CliOut(AtrLines(b))
      [] mode = "sw1sw2" -> IF Len(b) # 2 THEN CliSays ELSE CliOut(<< <<SwLine(b[1], b[2])>> >>)
      [] mode = "ber" -> CliOut(TreeLines(Plain("  ", pad), b, 0))
      [] mode = "tlv" -> CliOut(TreeLines(Emv("  ", pad), b, 0))
      [] mode = "dol" -> CliOut(DolLines(b, "  ", 0))
      [] mode = "tag-list" -> CliOut(TagListLines(b, "  ", 0))
      [] PageOf(mode) # 0 ->
           LET x == ToUtf8(PageOf(mode), b, 2048) IN
           IF x.r # 0 THEN CliOpen(0) ELSE CliOut(Closed(CStr(x.s)))
      [] OTHER -> FieldMode(i, FieldOf(mode), b)

Canon(o) == CASE o = "iso3166-1" -> "country" [] o = "iso4217" -> "currency" [] o = "iso639" -> "language" [] OTHER -> o
\* Files that cannot be used stop the tool; missing ones are only mentioned
WithRegisters(i, ans) ==
    LET r == IF i.iso = "" THEN 0 ELSE Regs(i).r IN
    IF r < 0 THEN [st |-> 2, out |-> Printed(<<>>), err |-> 1]
    ELSE IF r > 0 THEN [ans EXCEPT !.err = 1]
    ELSE ans
CliRun(i) ==
    LET o == Options(i.opts, "", FALSE)
        d == DataArgs(i.args, i.in, <<>>) IN
    IF i.opts = <<>> /\ i.args = <<>> /\ i.iso = "" THEN CliOpen(1)          \* help
    ELSE IF o.kind = "done" THEN CliOpen(0)
    ELSE IF o.kind = "usage" \/ i.args = <<>> THEN CliUsage
    ELSE IF o.mode \in LookUps THEN WithRegisters(i, LookUp(i, Canon(o.mode), i.args[Len(i.args)]))
    ELSE IF d.kind = "usage" THEN CliUsage
    ELSE IF d.kind = "open" THEN CliOpen(-1)
    ELSE WithRegisters(i, IF o.mode = "" THEN CliOpen(0) ELSE Decoded(i, o.mode, o.pad, d.b))

CliAgrees(k, got, want) ==
    CASE k = "st" -> want = -1 \/ got = want
      [] k = "out" -> OutAgrees(got, want)
      [] k = "err" -> want = AnyErr \/ got = want
=============================================================================
