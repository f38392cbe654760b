------------------------------ MODULE Session ------------------------------
(* The EMV kernel session: a context, a candidate list and the operations   *)
(* an integrator performs on them, carried out over a card reader.          *)
(*                                                                          *)
(* One variable s holds the session.  Actions: Call(op) starts an           *)
(* operation, Exchange(rr, rx) is the reader's answer to the transmission   *)
(* s.ttl.tx, Return ends the operation with result s.ret.                   *)
EXTENDS Tal

\* enum emv_error_t / emv_outcome_t
ErrInternal == -1     ErrInvalidParam == -2
OutCardError == 1     OutCardBlocked == 2    OutNotAccepted == 3
OutTryAgain == 4      OutGpoNotAccepted == 5

T9F06 == Tg(40710)
T9F39 == Tg(40761)
T9B == Tg(155)
T95 == Tg(149)
T5F24 == Tg(24356)
T5A == Tg(90)
T8C == Tg(140)
T8D == Tg(141)
Mandatory == {T5F24, T5A, T8C, T8D}

RapduMax == 258

NoSel == [has |-> FALSE]
SelOf(a) == [has |-> TRUE, aid |-> a.aid, name |-> a.name, prio |-> a.prio, conf |-> a.conf,
             tlvs |-> a.tlvs]

(* phase: "idle" between operations; "xfer" waiting for the reader; "ret"   *)
(* the operation is about to return.                                        *)
Session0(mode, cfg, params, aids) ==
    [mode |-> mode, cfg |-> cfg, params |-> params, aids |-> aids, icc |-> <<>>, term |-> <<>>,
     sel |-> NoSel, apps |-> <<>>, phase |-> "idle", op |-> "", ret |-> 0, task |-> Task0,
     ttl |-> TtlInit0, sws |-> 0, rdata |-> <<>>]

Ret(s, r) == [s EXCEPT !.phase = "ret", !.ret = r]

TalOutcome(rc) == IF rc = TalCardBlocked THEN OutCardBlocked ELSE OutCardError
TalError(rc) == IF rc \in {TalInternal, TalInvalidParam} THEN ErrInternal ELSE OutCardError

-----------------------------------------------------------------------------
(* Operation results, once the current task is done *)
BuildFinal(s) ==
    IF s.apps = <<>> THEN Ret(s, OutNotAccepted)
    ELSE Ret([s EXCEPT !.apps = SortApps(s.apps)], 0)

TryAgain(s) == Ret(s, IF s.apps = <<>> THEN OutNotAccepted ELSE OutTryAgain)

ReadFinal(s, k) ==
    IF k.rc < 0 THEN Ret(s, TalError(k.rc))
    ELSE IF HasDup(k.out) THEN Ret(s, OutCardError)
    ELSE IF \E t \in Mandatory : ~Has(k.out, t) THEN Ret(s, OutCardError)
    ELSE Ret([s EXCEPT !.icc = s.icc \o k.out], 0)

(* Launch: run the session up to the next transmission or the return *)
RECURSIVE Launch(_)
Finish(s) ==
    LET k == s.task IN
    CASE s.op = "build" ->
           LET s1 == [s EXCEPT !.apps = k.apps] IN
           IF k.k = "pse" THEN
               IF k.rc < 0 THEN Ret(s1, TalOutcome(k.rc))
               ELSE IF s1.apps = <<>> THEN Launch([s1 EXCEPT !.task = FindTask(s.aids, <<>>)])
               ELSE BuildFinal(s1)
           ELSE IF k.rc # 0 THEN Ret(s1, TalOutcome(k.rc))
           ELSE BuildFinal(s1)
      [] s.op = "select" ->
           IF k.rc < 0 THEN Ret(s, TalOutcome(k.rc))
           ELSE IF k.rc > 0 THEN TryAgain(s)
           ELSE Ret([s EXCEPT !.sel = SelOf(k.apps[1])], 0)
      [] s.op = "init" ->
           IF k.rc < 0 THEN Ret(s, TalError(k.rc))
           ELSE IF k.rc = GpoConditions THEN Ret(s, OutGpoNotAccepted)
           ELSE Ret([s EXCEPT !.icc = s.sel.tlvs \o k.out, !.sel.tlvs = <<>>], 0)
      [] s.op = "read" -> ReadFinal(s, k)
      [] s.op \in {"tal_pse", "tal_find"} -> Ret([s EXCEPT !.apps = k.apps], k.rc)
      [] s.op = "tal_sel" ->
           Ret([s EXCEPT !.sel = IF k.rc = 0 THEN SelOf(k.apps[1]) ELSE s.sel], k.rc)
      [] s.op = "tal_gpo" -> Ret([s EXCEPT !.icc = s.icc \o k.out], k.rc)
      [] s.op = "tal_afl" -> Ret([s EXCEPT !.icc = k.out], k.rc)

Launch(s) ==
    IF s.task.done THEN Finish(s)
    ELSE LET c == TaskCmd(s.task) IN
         IF c = NoCmd THEN Launch([s EXCEPT !.task = TaskFail(s.task)])
         ELSE LET t == TtlStart(s.mode, c, RapduMax) IN
              IF t.done THEN Launch([s EXCEPT !.task = TaskFail(s.task)])
              ELSE [s EXCEPT !.phase = "xfer", !.ttl = t]

Begin(s, op, task) == Launch([s EXCEPT !.op = op, !.task = task])

-----------------------------------------------------------------------------
(* Operations of the kernel API *)
RemoveAt0(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))

\* Without a transport every exchange is refused before it starts
NoTtl(s) == s.mode = "NULL"

CallBuild(s) ==
    IF NoTtl(s) THEN Ret(s, OutCardError) ELSE Begin(s, "build", PseTask(s.aids, s.apps))

CallSelect(s, idx) ==
    LET s1 == [s EXCEPT !.sel = NoSel, !.op = "select"] IN
    IF idx >= Len(s.apps) THEN Ret(s1, ErrInvalidParam)
    ELSE LET a == s.apps[idx + 1]
             s2 == [s1 EXCEPT !.apps = RemoveAt0(s.apps, idx)]
         IN IF Len(a.aid) > 16 THEN TryAgain(s2)
            ELSE IF NoTtl(s) THEN Ret(s2, OutCardError)
            ELSE Begin(s2, "select", SelTask(a.aid))

TermFields(s, pos) ==
    << TlvRec(T9F39, <<pos>>, 0), TlvRec(T9F06, s.sel.aid, 0),
       TlvRec(T9B, Zeros(2), 0), TlvRec(T95, Zeros(5), 0) >>
CallInit(s, pos) ==
    IF ~s.sel.has \/ s.sel.tlvs = <<>> THEN Ret(s, ErrInvalidParam)
    ELSE
    LET s1 == [s EXCEPT !.icc = <<>>, !.term = TermFields(s, pos)]
        pdol == ValOf(s.sel.tlvs, T9F38)
        n == DolLen(pdol)
        d == DolBuild(pdol, <<s1.params, s1.cfg, s1.term>>, 255)
        data == <<131>> \o (IF n < 128 THEN <<n>> ELSE <<129, n>>) \o d.data
    IN
    IF Has(s.sel.tlvs, T9F38) THEN
        IF n < 0 \/ n > 252 THEN Ret(s1, OutCardError)
        ELSE IF NoTtl(s) THEN Ret(s1, ErrInternal)
        ELSE Begin(s1, "init", GpoTask(FALSE, data))
    ELSE IF NoTtl(s) THEN Ret(s1, ErrInternal)
    ELSE Begin(s1, "init", GpoTask(TRUE, <<>>))

CallRead(s) ==
    IF ~Has(s.icc, T94) THEN Ret(s, OutCardError)
    ELSE IF NoTtl(s) THEN Ret(s, ErrInternal)
    ELSE Begin(s, "read", AflTask(ValOf(s.icc, T94), <<>>))

CallReset(s) == Ret([s EXCEPT !.params = <<>>, !.icc = <<>>, !.term = <<>>, !.sel = NoSel], 0)
CallClear(s) ==
    Ret([s EXCEPT !.params = <<>>, !.icc = <<>>, !.term = <<>>, !.sel = NoSel,
                  !.cfg = <<>>, !.aids = <<>>, !.mode = "NULL"], 0)

(* Direct use of the application layer *)
CallTalPse(s) == Begin(s, "tal_pse", PseTask(s.aids, s.apps))
CallTalFind(s) == Begin(s, "tal_find", FindTask(s.aids, s.apps))
CallTalSel(s, aid) ==
    Begin([s EXCEPT !.sel = NoSel], "tal_sel", SelTask(aid))
CallTalGpo(s, nodata, data) == Begin(s, "tal_gpo", GpoTask(nodata, data))
CallTalAfl(s, afl) == Begin(s, "tal_afl", AflTask(afl, s.icc))

(* Direct use of the transport layer: a C-APDU and an R-APDU capacity *)
CallTrx(s, capdu, cap) ==
    LET t == TtlStart(s.mode, capdu, cap) IN
    IF t.done THEN Ret([s EXCEPT !.op = "trx", !.ttl = t], t.r)
    ELSE [s EXCEPT !.op = "trx", !.phase = "xfer", !.ttl = t]
\* Command helpers (op "cmd"): capacity is fixed, output excludes the status word
CallCmd(s, c) ==
    IF c = NoCmd THEN Ret([s EXCEPT !.op = "cmd"], -1)
    ELSE LET t == TtlStart(s.mode, c, RapduMax) IN
         IF t.done THEN Ret([s EXCEPT !.op = "cmd", !.ttl = t], t.r)
         ELSE [s EXCEPT !.op = "cmd", !.phase = "xfer", !.ttl = t]

-----------------------------------------------------------------------------
ExchangeStep(s, rr, rx) ==
    LET t == TtlStep(s.ttl, rr, rx)
        s1 == [s EXCEPT !.ttl = t]
    IN
    IF ~t.done THEN s1
    ELSE IF s.op \in {"trx", "cmd"} THEN
        IF t.r = 0 THEN Ret([s1 EXCEPT !.sws = t.sw,
                               !.rdata = IF s.op = "trx" THEN TtlRapdu(t) ELSE t.out], 0)
        ELSE Ret(s1, t.r)
    ELSE IF t.r = 0 THEN Launch([s1 EXCEPT !.task = TaskResp(s.task, t.sw, t.out)])
    ELSE Launch([s1 EXCEPT !.task = TaskFail(s.task)])

ReturnStep(s) == [s EXCEPT !.phase = "idle", !.op = "", !.task = Task0, !.ttl = TtlInit0,
                           !.ret = 0, !.sws = 0, !.rdata = <<>>]
=============================================================================
