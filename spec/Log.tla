-------------------------------- MODULE Log --------------------------------
(* The debug log: what is reported to the integrator's log function, and    *)
(* which filter decides.  Content that belongs to the protocol (commands,   *)
(* transmissions, answers, responses) is specified completely; for other    *)
(* messages only the filter is.                                             *)
EXTENDS Session

SrcTtl == 1   SrcTal == 2   SrcEmv == 4   SrcApp == 8
LvlError == 1   LvlInfo == 2   LvlCard == 3   LvlTrace == 4
TypeMsg == 1   TypeData == 2   TypeTlv == 3   TypeAtr == 4
TypeCapdu == 5   TypeRapdu == 6   TypeCtpdu == 7   TypeRtpdu == 8
Protocol == TypeCapdu..TypeRtpdu
MsgMax == 1023

Filter(mask, level, func) == [mask |-> mask, level |-> level, func |-> func]
NoFilter == Filter(0, 0, FALSE)
Passes(f, src, lvl) == f.func /\ (f.mask & src) # 0 /\ lvl <= f.level

Ent(type, b) == [type |-> type, b |-> b]
CmdLog(capdu, ttl) == << Ent(TypeCapdu, capdu), Ent(TypeCtpdu, ttl.tx) >>

\* Protocol entries of the step from s to s2 which starts an operation
LogCall(ev, s, s2) ==
    LET refused(c) == IF c = <<>> THEN <<>> ELSE << Ent(TypeCapdu, c) >>
        started(c) == IF s2.phase = "xfer" THEN CmdLog(c, s2.ttl) ELSE refused(c)
    IN
    CASE ev.op = "trx" -> IF ev.cap < 2 THEN <<>> ELSE started(ev.capdu)
      [] ev.op = "cmd" -> IF s2.phase = "xfer" THEN started(
             CASE ev.k = "sel" -> SelectCmd(ev.data) [] ev.k = "next" -> SelectNextCmd(ev.data)
               [] ev.k = "gpo" -> GpoCmd(ev.nodata, ev.data) [] ev.k = "rec" -> ReadRecordCmd(ev.sfi, ev.rec)) ELSE <<>>
      [] OTHER -> IF s2.phase = "xfer" THEN CmdLog(TaskCmd(s2.task), s2.ttl) ELSE <<>>

\* ... and of the step from s to s2 which is the reader's answer (rr, rx)
LogAnswer(s, rr, rx, s2) ==
    LET t == TtlStep(s.ttl, rr, rx)
        got == IF rr = 0 /\ rx # <<>> THEN << Ent(TypeRtpdu, rx) >> ELSE <<>>
    IN
    got \o (IF ~t.done THEN << Ent(TypeCtpdu, t.tx) >>
            ELSE (IF t.r = 0 THEN << Ent(TypeRapdu, TtlRapdu(t)) >> ELSE <<>>)
                 \o (IF s2.phase = "xfer" THEN CmdLog(TaskCmd(s2.task), s2.ttl) ELSE <<>>))

\* A message given to the log directly, and the ATR
LogMsg(i) ==
    IF ~Passes(Filter(i.mask, i.level, i.func = 1), i.src, i.lvl) THEN [n |-> 0]
    ELSE [n |-> 1, src |-> i.src, lvl |-> i.lvl, type |-> i.type,
          s |-> IF Len(i.s) > MsgMax THEN SubSeq(i.s, 1, MsgMax) ELSE i.s, b |-> i.b]

Visible(f, q) == IF Passes(f, SrcTtl, LvlCard) THEN q ELSE <<>>
=============================================================================
