------------------------------ MODULE Strings ------------------------------
(* Every single-call operation: Expect(f, i) is the required answer.        *)
EXTENDS Oom, Cli, Log
Expect(f, i) ==
    CASE f \in CoreFns -> ExpectCore(f, i)
      [] f = "atr" -> AtrParse(i.b)
      [] f = "atrs" -> AtrTexts(AtrParse(i.b), i.cap)
      [] f = "emvatr" -> [r |-> EmvAtr(i.b)]
      [] f = "str" -> StrAnswer(i.k, i.b, i.cap)
      [] f = "info" -> TagInfo(i)
      [] f = "aidinfo" -> AidInfo(i.b)
      [] f = "iadfmt" -> [fmt |-> IadFormat(i.b)]
      [] f = "cvml" ->
           LET r == CvmListInit(i.b) IN
           [r |-> r, x |-> IF r = 0 THEN CvmX(i.b) ELSE <<0, 0>>, y |-> IF r = 0 THEN CvmY(i.b) ELSE <<0, 0>>,
            rules |-> IF r = 0 THEN CvmRules(i.b) ELSE <<>>, e |-> r]
      [] f = "ctlv" -> CompactTlv(i.b)
      [] f = "sw" -> [t |-> IF i.cap <= 0 THEN Null ELSE Cut(SwText(i.b[1], i.b[2]), i.cap)]
      [] f = "lcs" -> [t |-> LcsText(i.b[1])]
      [] f = "cardsvc" ->
           IF i.cap > 0 THEN [r |-> 0, s |-> FitTexts(RowsTexts(CardServiceRows, i.b), i.cap)] ELSE [r |-> 0]
      [] f = "cardcaps" -> CardCapsAnswer(i.b, i.cap)
      [] f = "isocapdu" -> IsoCapdu(i.b, Max2(i.cap, 0))
      [] f = "s2cn" -> PackCn(i.t, i.len)
      [] f = "iso" -> RegAnswers(i.ops)
      [] f = "dbgmsg" -> LogMsg(i)
      [] f = "dbgatr" ->
           LET good == AtrParse(i.b).r = 0 /\ Passes(Filter(i.mask, i.level, TRUE), SrcEmv, LvlCard) IN
           [n |-> B01(good), b |-> IF good THEN i.b ELSE <<>>]
      [] f = "s2n" -> PackN(i.t, i.len)
      [] f = "pr" -> [out |-> Printed(PrintOf(i))]
      [] f = "cli" -> CliRun(i)

\* Does an answer agree with the required one?
Agree(f, k, got, want) ==
    CASE f = "iso" -> AnswersAgree(got, want)
      [] f \in {"pr", "cli"} -> CliAgrees(k, got, want)
      [] OTHER -> got = want

\* Inputs the properties leave open: decimal numbers wider than 32 bits
TooWide(b) == Len(SelectSeq(Nibbles(b), LAMBDA d : TRUE)) > 9 /\
              \E k \in 1..(2 * Len(b) - 9) : Nibbles(b)[k] # 0
Unconstrained(f, i) == f = "n2u" /\ TooWide(i.b)
=============================================================================
