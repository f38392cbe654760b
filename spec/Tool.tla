-------------------------------- MODULE Tool --------------------------------
(* The command line tool emv-tool: one transaction, from its options to the *)
(* release of the card reader.                                              *)
(*                                                                          *)
(* One variable t holds the tool: its options o, the PC/SC layer p, the     *)
(* kernel session s, what is left of standard input in, and what it has     *)
(* said since its last request: lines ls, then the unfinished line part.    *)
(* ToolStart(i) begins, ToolStrings(t, r) is the answer to loading the      *)
(* registers, ToolAnswer(t, o) the resource manager's answer to t.p.want;   *)
(* ToolMove(t) is a step of its own, when ToolMoves(t).  At "exit" it ends  *)
(* with status t.st.                                                        *)
EXTENDS Cli, Log

P == INSTANCE Pcsc

-----------------------------------------------------------------------------
(* Options: in their order, the last one of a kind counts *)
Inquiry == 48   Cashback == 9
SourceNames == <<"TTL", "TAL", "EMV", "APP">>
LevelNames == <<"NONE", "ERROR", "INFO", "CARD", "TRACE", "ALL">>
ToolOpts0 == [type |-> 0, amount |-> <<0, 0>>, other |-> <<0, 0>>, verb |-> 0, mask |-> 255, level |-> LvlInfo,
              iso |-> <<>>, mcc |-> <<>>, args |-> FALSE, end |-> ""]
UpperStr(b) == CStr([j \in 1..Len(b) |-> IF b[j] \in 97..122 THEN b[j] - 32 ELSE b[j]])

AllDigits(b) == \A j \in 1..Len(b) : IsDigit(b[j])
IsSign(c) == c \in {43, 45}
RECURSIVE Amount(_, _)                         \* <<-1>>: does not fit
Amount(b, u) == IF b = <<>> THEN u
                ELSE LET lo == u[2] * 10 + b[1] - 48
                         hi == u[1] * 10 + lo \div 65536
                     IN IF hi > 65535 THEN <<-1>> ELSE Amount(Tail(b), <<hi, lo % 65536>>)
AmountOf(b) == IF b = <<>> THEN [end |-> "usage", u |-> <<>>]
               ELSE IF AllDigits(b) THEN
                    LET u == Amount(b, <<0, 0>>) IN [end |-> IF u = <<-1>> THEN "usage" ELSE "", u |-> u]
               ELSE [end |-> IF IsBlank(b[1]) \/ IsSign(b[1]) THEN "open" ELSE "usage", u |-> <<>>]

\* Names between commas
RECURSIVE Commas(_, _)
Commas(b, acc) == IF b = <<>> THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
                  ELSE IF b[1] = 44 THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>) \o Commas(Tail(b), <<>>)
                  ELSE Commas(Tail(b), Append(acc, b[1]))
SourceBits(x) == LET n == UpperStr(x) IN
    IF n = "ALL" THEN 0..7 ELSE {j \in 0..3 : SourceNames[j + 1] = n}
MaskOf(b) == LET cs == Commas(b, <<>>)
                 bits == UNION {SourceBits(cs[j]) : j \in 1..Len(cs)}
             IN IF \E j \in 1..Len(cs) : SourceBits(cs[j]) = {} THEN -1
                ELSE SumSeq([j \in 1..8 |-> IF j - 1 \in bits THEN 2 ^ (j - 1) ELSE 0])

Takes == {"txn-type", "txn-amount", "txn-amount-other", "debug-source", "debug-level", "isocodes-path", "mcc-json"}
ToolOpt(o, x) ==
    LET a == AmountOf(x.v)
        stop(e) == [o EXCEPT !.end = e]
    IN
    IF o.end # "" THEN o
    ELSE IF x.n = "" THEN [o EXCEPT !.args = TRUE]
    ELSE IF x.n \notin Takes \cup {"debug-verbose", "version", "help", "usage"} \/ x.has # (x.n \in Takes) THEN stop("usage")
    ELSE
    CASE x.n = "txn-type" ->
           IF Len(x.v) # 2 THEN stop("usage")
           ELSE IF AllDigits(x.v) THEN [o EXCEPT !.type = 16 * (x.v[1] - 48) + x.v[2] - 48]
           ELSE stop(IF IsHex(x.v[2]) /\ (IsHex(x.v[1]) \/ IsBlank(x.v[1]) \/ IsSign(x.v[1])) THEN "open" ELSE "usage")
      [] x.n = "txn-amount" -> IF a.end # "" THEN stop(a.end) ELSE [o EXCEPT !.amount = a.u]
      [] x.n = "txn-amount-other" -> IF a.end # "" THEN stop(a.end) ELSE [o EXCEPT !.other = a.u]
      [] x.n = "debug-verbose" -> [o EXCEPT !.verb = 1]
      [] x.n = "debug-source" -> LET m == MaskOf(x.v) IN IF m < 0 THEN stop("usage") ELSE [o EXCEPT !.mask = m]
      [] x.n = "debug-level" ->
           LET m == {j \in 1..6 : LevelNames[j] = UpperStr(x.v)} IN
           IF m = {} THEN stop("usage") ELSE [o EXCEPT !.level = (CHOOSE j \in m : TRUE) - 1]
      [] x.n = "isocodes-path" -> [o EXCEPT !.iso = x.v]
      [] x.n = "mcc-json" -> [o EXCEPT !.mcc = x.v]
      [] OTHER -> stop("shown")
ToolOpts(os) == LET o == FoldLeft(ToolOpt, ToolOpts0, os) IN
                IF o.end = "" /\ o.args THEN [o EXCEPT !.end = "usage"] ELSE o

-----------------------------------------------------------------------------
(* What the terminal is configured to be, and the transaction *)
F(t, v) == TlvRec(Tg(t), v, 0)
TermConfig ==
    << F(40705, <<0, 1, 35, 69, 103, 137>>),                     \* 9F01 Acquirer
       F(40730, <<5, 40>>),                                      \* 9F1A Netherlands
       F(40731, <<0, 0, 3, 232>>),                               \* 9F1B floor limit
       F(40726, <<48, 57, 56, 55, 54, 53, 52, 51, 50, 49, 32, 32, 32, 32, 32>>),   \* 9F16
       F(40732, <<84, 73, 68, 49, 50, 51, 52, 53>>),             \* 9F1C
       F(40734, <<49, 50, 51, 52, 53, 54, 55, 56>>),             \* 9F1E
       F(40782, <<65, 67, 77, 69, 32, 80, 101, 97, 110, 117, 116, 115>>),          \* 9F4E
       F(40755, <<32, 248, 200>>),                               \* 9F33
       F(40757, <<34>>),                                         \* 9F35
       F(40768, <<250, 0, 240, 163, 255>>) >>                    \* 9F40
TermAids ==
    << TlvRec(T9F06, <<160, 0, 0, 0, 3, 16>>, 1), TlvRec(T9F06, <<160, 0, 0, 0, 3, 32, 16>>, 0),
       TlvRec(T9F06, <<160, 0, 0, 0, 3, 32, 32>>, 0), TlvRec(T9F06, <<160, 0, 0, 0, 4, 16>>, 1),
       TlvRec(T9F06, <<160, 0, 0, 0, 4, 48>>, 1) >>

ConfigLines == ListLines(TermConfig)
AidLines == ListLines(TermAids)

Bcd(n) == 16 * ((n \div 10) % 10) + (n % 10)
\* Proleptic Gregorian date of a day number, 0 = 1970-01-01
Civil(days) ==
    LET z == days + 719468
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [y |-> yoe + 400 * era + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
TxnParams(o, ts) ==
    LET c == Civil(ts \div 86400)
        x == ts % 86400
    IN << F(40769, <<0, 0, 0, 66>>),                             \* 9F41: 42nd transaction
          F(154, <<Bcd(c.y), Bcd(c.m), Bcd(c.d)>>),              \* 9A
          F(40737, <<Bcd(x \div 3600), Bcd((x \div 60) % 60), Bcd(x % 60)>>),   \* 9F21
          F(24362, <<9, 120>>), F(24374, <<2>>),                 \* 5F2A Euro, 5F36
          F(156, <<o.type>>),                                    \* 9C
          F(40706, UintToN(o.amount, 6)), F(129, UintToB(o.amount, 4)),        \* 9F02, 81
          F(40707, UintToN(o.other, 6)), F(40708, UintToB(o.other, 4)) >>      \* 9F03, 9F04

-----------------------------------------------------------------------------
(* Texts *)
ErrorText(r) == IF r = ErrInternal THEN "Internal error" ELSE "Invalid function parameter"
OutcomeText(r) == CASE r = OutCardError -> "Card error" [] r = OutCardBlocked -> "Card blocked"
                    [] r = OutTryAgain -> "Try again" [] OTHER -> "Not accepted"
BitOf(st, b) == (st \div b) % 2 = 1
StateText(r, v) ==
    CASE r # 0 -> Null
      [] BitOf(v[1], 8) -> "Status unavailable"
      [] BitOf(v[1], 16) -> "No card"
      [] BitOf(v[1], 32) -> IF BitOf(v[1], 512) THEN "Unresponsive card"
                            ELSE IF BitOf(v[1], 1024) THEN "Unpowered card" ELSE "Card present"
      [] OTHER -> Null
OrText(s, x) == IF s = Null THEN x ELSE s

FeatureNames == << <<6, "PIN verification">>, <<7, "PIN modification">>, <<8, "MCT direct">>, <<9, "MCT universal">> >>
FeatureLines(r) ==
    LET fs == SelectSeq(FeatureNames, LAMBDA x : P!HasFeature(r, x[1])) IN
    IF fs = <<>> THEN <<>> ELSE << <<"\tFeatures: " \o Join([j \in 1..Len(fs) |-> fs[j][2]], ", ")>> >>
\* A property as a number: zero unless it has the right size
Num(r, tag, n) == LET x == P!Property(r, tag, n) IN
                  IF x.r # 0 \/ Len(x.v) # n THEN 0 ELSE IF n = 1 THEN x.v[1] ELSE x.v[1] + 256 * x.v[2]
Known(r, tag, n) == LET x == P!Property(r, tag, n) IN x.r = 0 /\ x.v # <<>>
LowHex(d) == SubSeq("0123456789abcdef", d + 1, d + 1)
HexN(n) == LowHex(n \div 4096) \o LowHex((n \div 256) % 16) \o LowHex((n \div 16) % 16) \o LowHex(n % 16)
PropertyLines(r) ==
    LET any == \E g \in {1, 4, 5, 6, 7, 11, 12} : P!Property(r, g, 256).r = 0
        lay == P!Property(r, 1, 2)
        a == IF lay.r # 0 \/ Len(lay.v) # 2 THEN <<>>
             ELSE IF lay.v = <<0, 0>> THEN <<"No LCD">> ELSE <<"LCD " \o Str(lay.v[1]) \o " x " \o Str(lay.v[2])>>
        c == Num(r, 4, 2)
        l == Num(r, 5, 2)
        b == IF c # 0 /\ l # 0 THEN <<"LCD " \o Str(c) \o " x " \o Str(l)>>
             ELSE IF Known(r, 4, 2) \/ Known(r, 5, 2) THEN <<"LCD">> ELSE <<>>
        lo == Num(r, 6, 1)
        hi == Num(r, 7, 1)
        d == IF hi # 0 THEN <<"PIN size " \o Str(lo) \o "-" \o Str(hi)>>
             ELSE IF lo # 0 THEN <<"PIN size " \o Str(lo) \o "+">> ELSE <<>>
        u == Num(r, 11, 2)
        w == Num(r, 12, 2)
        e == IF u # 0 /\ w # 0 THEN <<"USB device " \o HexN(u) \o ":" \o HexN(w)>> ELSE <<>>
    IN IF any THEN << <<"\tProperties: " \o Join(a \o b \o d \o e, ", ")>> >> ELSE <<>>

-----------------------------------------------------------------------------
(* Standard input: one line is an application's number, or it is not valid  *)
\* [kind, n, rest]
FirstLine(in) ==
    LET nl == {j \in 1..Len(in) : in[j] = 10}
        e == IF nl = {} THEN Len(in) + 1 ELSE CHOOSE j \in nl : \A x \in nl : j <= x
    IN [b |-> SubSeq(in, 1, e - 1), rest |-> SubSeq(in, e + 1, Len(in))]
RECURSIVE Digits0(_)
Digits0(b) == IF b = <<>> \/ ~IsDigit(b[1]) THEN <<>> ELSE <<b[1]>> \o Digits0(Tail(b))
Choice(in, n) ==
    LET x == FirstLine(in)
        u == Unblank(x.b)
        d == Digits0(IF u # <<>> /\ u[1] = 43 THEN Tail(u) ELSE u)
        v == IF Len(x.b) > 3 \/ d = <<>> THEN 0 ELSE Value10(d, 0)
    IN IF in = <<>> THEN [kind |-> "none", n |-> 0, rest |-> <<>>]
       ELSE IF v \in 1..n THEN [kind |-> "app", n |-> v - 1, rest |-> x.rest]
       ELSE [kind |-> "invalid", n |-> 0, rest |-> x.rest]

-----------------------------------------------------------------------------
(* The transaction *)
\* q: lines, the first one after what was said already
Say(t, q) == [t EXCEPT !.ls = @ \o (IF t.part = "" THEN q ELSE <<<<t.part \o q[1][1]>>>> \o Tail(q)), !.part = ""]
L1(s) == <<<<s>>>>
Blank == L1("")
Exit(t, st, err) == [t EXCEPT !.at = "exit", !.st = st, !.err = err]
ExitOpen(t, st, err) == [Exit(t, st, err) EXCEPT !.any = TRUE]
Heard(t) == [t EXCEPT !.ls = <<>>, !.part = ""]
Here(t) == t.p.rs[t.k]

\* A function of the PC/SC layer, and of the current reader
Use(t, at, ev) == [t EXCEPT !.at = at, !.p = P!PcscCall(t.p, ev)]
Reading(t, at, op) == Use(t, at, [op |-> op, idx |-> t.k - 1])
Leave(t) == Use(t, "rel", [op |-> "prel"])
Stop(t, s) == Leave(Say(t, L1(s)))

\* Describe the next reader, or wait for a card
NextReader(t, said) ==
    LET k == t.k + 1 IN
    IF k > Len(t.p.rs) THEN
        Use(Say([t EXCEPT !.k = 0], said \o Blank \o L1("Present card")), "wait", [op |-> "wait", idx |-> -1, timeout |-> <<0, 5000>>])
    ELSE LET r == t.p.rs[k] IN
         Reading([Say([t EXCEPT !.k = k], said \o L1("Reader " \o Str(k - 1) \o ": " \o CStr(r.name)) \o FeatureLines(r) \o PropertyLines(r))
                    EXCEPT !.part = "\tState: "], "rstate", "state")

\* An operation of the kernel
Kernel(t, ev) ==
    LET s2 == CASE ev.op = "build" -> CallBuild(t.s)
                [] ev.op = "select" -> CallSelect(t.s, ev.idx)
                [] ev.op = "init" -> CallInit(t.s, 5)
                [] ev.op = "read" -> CallRead(t.s)
    IN [t EXCEPT !.at = "kernel", !.s = s2, !.log = @ \o Visible(t.f, LogCall(ev, t.s, s2))]
KernelAnswer(t, rr, rx) ==
    LET s2 == ExchangeStep(t.s, rr, rx) IN
    [t EXCEPT !.at = "kernel", !.s = s2, !.log = @ \o Visible(t.f, LogAnswer(t.s, rr, rx, s2))]

\* r, v: result and value of the function that was used at t.at
After(t, r, v) ==
    CASE t.at = "pinit" ->
           IF r # 0 THEN Stop(t, "PC/SC initialisation failed")
           ELSE IF t.p.rs = <<>> THEN Stop(t, "No PC/SC readers detected")
           ELSE NextReader([t EXCEPT !.k = 0], Blank \o L1("PC/SC readers:"))
      [] t.at = "rstate" -> NextReader(t, L1(OrText(StateText(r, v), "Unknown")))
      [] t.at = "wait" ->
           IF r < 0 THEN Stop(t, "PC/SC error")
           ELSE IF r > 0 THEN Stop(t, "No card; exiting")
           ELSE Reading([t EXCEPT !.k = v[1] + 1, !.part = "Reader " \o Str(v[1]) \o ": " \o CStr(t.p.rs[v[1] + 1].name)], "cstate", "state")
      [] t.at = "cstate" ->
           Reading(Say(t, L1("; " \o OrText(StateText(r, v), "Unknown state")) \o L1("Card detected") \o Blank), "connect", "connect")
      [] t.at = "connect" ->
           IF r < 0 THEN Stop(t, "PC/SC reader activation failed")
           ELSE IF r = P!Contactless THEN Leave(Say(t, L1("Card activated") \o L1("Contactless not (yet) supported")))
           ELSE Reading(Say(t, L1("Card activated")), "atr", "atr")
      [] t.at = "atr" ->
           IF r # 0 THEN Stop(t, "Failed to retrieve ATR")
           ELSE LET a == EmvAtr(v) IN
                IF a < 0 THEN Stop(t, "ERROR: " \o ErrorText(a))
                ELSE IF a > 0 THEN Stop(t, "OUTCOME: " \o OutcomeText(a))
                ELSE Kernel(Say(t, Blank \o L1("Terminal config:") \o ConfigLines \o Blank \o L1("Supported AIDs:") \o AidLines
                                \o Blank \o L1("Transaction parameters:") \o ListLines(t.s.params) \o Blank \o L1("Build candidate list")), [op |-> "build"])
      [] t.at = "trx" -> KernelAnswer(t, IF r = 0 THEN 0 ELSE -1, v)
      [] t.at = "disc" ->
           IF r # 0 THEN Stop(t, "PC/SC reader deactivation failed")
           ELSE Leave(Say(t, Blank \o L1("Card deactivated")))
      [] t.at = "rel" -> Exit(t, 0, t.err)

\* r: result of the kernel's operation
AfterKernel(t, op, r) ==
    IF r < 0 THEN Stop(t, "ERROR: " \o ErrorText(r))
    ELSE IF (op = "select" /\ r = OutTryAgain) \/ (op = "init" /\ r = OutGpoNotAccepted /\ t.s.apps # <<>>)
         THEN [Say(t, L1("OUTCOME: " \o OutcomeText(r))) EXCEPT !.at = "menu"]
    ELSE IF r > 0 THEN Stop(t, "OUTCOME: " \o OutcomeText(r))
    ELSE
    CASE op = "build" ->
           LET req == SelectionRequired(t.s.apps) IN
           [Say(t, L1("Candidate applications:") \o [j \in 1..Len(t.s.apps) |-> <<AppLine(t.s.apps[j])>>]
                   \o (IF req THEN L1("Cardholder selection is required") ELSE <<>>)) EXCEPT !.need = req, !.at = "menu"]
      [] op = "select" -> Kernel(Say(t, Blank \o L1("Initiate application processing:")), [op |-> "init"])
      [] op = "init" -> Kernel(Say([t EXCEPT !.s.apps = <<>>], Blank \o L1("Read application data")), [op |-> "read"])
      [] op = "read" ->
           Reading(Say(t, Blank \o L1("ICC data:") \o ListLines(t.s.icc) \o Blank \o L1("Terminal data") \o ListLines(t.s.term)), "disc", "disconnect")

\* One line typed at the menu
Menu(t) ==
    IF ~t.need THEN Kernel(Say(t, Blank \o L1("Select first application:")), [op |-> "select", idx |-> 0])
    ELSE
    LET n == Len(t.s.apps)
        c == Choice(t.in, n)
        t1 == [Say(t, Blank \o L1("Select application:") \o [j \in 1..n |-> <<Str(j) \o " - " \o CStr(t.s.apps[j].name)>>])
                 EXCEPT !.part = "Enter number: ", !.in = c.rest]
    IN CASE c.kind = "none" -> Stop(t1, "No input; exiting")
         [] c.kind = "invalid" -> Say(t1, L1("Invalid input. Try again."))
         [] c.kind = "app" -> Kernel(t1, [op |-> "select", idx |-> c.n])

\* What the tool does by itself
ToolMoves(t) == t.at \notin {"none", "strings", "open", "exit"} /\ t.p.phase # "xfer"
ToolMove(t) ==
    CASE t.at = "menu" -> Menu(t)
      [] t.at = "kernel" /\ t.s.phase = "ret" -> AfterKernel([t EXCEPT !.s = ReturnStep(t.s)], t.s.op, t.s.ret)
      [] t.at = "kernel" -> Use(t, "trx", [op |-> "trx", idx |-> t.k - 1, cap |-> -1, tx |-> t.s.ttl.tx])
      [] OTHER -> After([t EXCEPT !.p = P!PcscReturn(t.p)], t.p.ret, t.p.out)

ToolStart(i) ==
    LET o == ToolOpts(i.opts)
        t == [at |-> "strings", o |-> o, ts |-> i.ts, in |-> i.in, p |-> P!Pcsc0, s |-> Session0("APDU", TermConfig, IF o.end = "" THEN TxnParams(o, i.ts) ELSE <<>>, TermAids),
              f |-> Filter(o.mask, o.level, TRUE), log |-> <<>>, ls |-> <<>>, part |-> "", k |-> 0, need |-> FALSE,
              st |-> 0, err |-> AnyErr, any |-> FALSE]
    IN
    IF i.opts = <<>> THEN ExitOpen(t, 1, AnyErr)
    ELSE IF o.end = "usage" THEN Exit(t, 64, 1)
    ELSE IF o.end = "shown" THEN ExitOpen(t, 0, AnyErr)
    ELSE IF o.end = "open" THEN [t EXCEPT !.at = "open"]
    ELSE IF o.type # Inquiry /\ o.amount = <<0, 0>> THEN ExitOpen(t, 1, 1)
    ELSE IF o.type = Cashback /\ o.other = <<0, 0>> THEN ExitOpen(t, 1, 1)
    ELSE t
ToolStrings(t, r) ==
    IF r < 0 THEN Exit(t, 2, 1)
    ELSE Use(IF r > 0 THEN [t EXCEPT !.err = 1] ELSE t, "pinit", [op |-> "pinit"])
ToolAnswer(t, o) == [Heard(t) EXCEPT !.p = P!PcscAnswer(t.p, o)]

\* Is this what the tool has said?
SaidAgrees(got, t) ==
    t.any \/ LET n == Len(got) IN
             n > 0 /\ got[n] = t.part /\ LinesAgree([got EXCEPT ![n] = ""], 1, t.ls, 1)
=============================================================================
