-------------------------------- MODULE Tal --------------------------------
(* Terminal Application Layer: the multi-command exchanges of EMV 4.4       *)
(* Book 1, 12 and Book 3, 10, each as a small machine over (command sent,   *)
(* status word, response data).                                             *)
(*                                                                          *)
(* A task is a record.  While ~done, TaskCmd(k) is the next C-APDU (NoCmd   *)
(* when the parameters are outside the command's limits: nothing is sent    *)
(* and the transport has failed), TaskResp(k, sw, data) the task after a    *)
(* complete R-APDU and TaskFail(k) the task after a transport failure.      *)
EXTENDS Ttl, Dol, App

\* enum emv_tal_error_t / emv_tal_result_t
TalInternal == -1        TalInvalidParam == -2   TalTtlFailure == -3
TalCardBlocked == -4     TalGpoFailed == -5      TalGpoParse == -6
TalGpoField == -7        TalAflInvalid == -8     TalRecFailed == -9
TalRecInvalid == -10     TalRecParse == -11
PseNotFound == 1         PseBlocked == 2         PseSelectFailed == 3
PseSfiNotFound == 5      PseSfiInvalid == 6
AppNotFound == 9         AppBlocked == 10        AppSelectionFailed == 11
AppFciParse == 12        GpoConditions == 13     OdaRecordInvalid == 14

SwOk == 36864            \* 9000
SwBlocked == 27265       \* 6A81
SwNotFound == 27266      \* 6A82
SwNoRecord == 27267      \* 6A83
SwInvalidated == 25219   \* 6283
SwConditions == 27013    \* 6985

PseName == <<49, 80, 65, 89, 46, 83, 89, 83, 46, 68, 68, 70, 48, 49>>  \* 1PAY.SYS.DDF01

Task0 == [k |-> "none", done |-> TRUE, rc |-> 0, stage |-> "", aids |-> <<>>,
          apps |-> <<>>, list |-> <<>>, n |-> 0, i |-> 0, data |-> <<>>, nodata |-> FALSE,
          out |-> <<>>, oda |-> FALSE, afl |-> <<>>]
Done(k, rc) == [k EXCEPT !.done = TRUE, !.rc = rc]

-----------------------------------------------------------------------------
(* Payment System Environment directory (Book 1, 12.3.2).  A task that gave *)
(* up before reading the directory leaves the application list alone, a     *)
(* later failure empties it.                                                *)
PseTask(aids, apps) ==
    [Task0 EXCEPT !.k = "pse", !.done = FALSE, !.stage = "sel", !.aids = aids, !.apps = apps]

PseGiveUp(k, rc) == [Done(k, rc) EXCEPT !.apps = <<>>]

\* Supported applications of one directory record, in document order
AefApps(pselist, aids, rec) ==
    LET t == BerDecode(rec) IN
    IF t.r <= 0 \/ t.tag # Tg(112) THEN <<>>
    ELSE LET items == SelectSeq(BerItems(t.val).items, LAMBDA e : e.tag = Tg(97))
             cand == [i \in 1..Len(items) |-> AppFromPse(pselist, items[i].val)]
         IN SelectSeq(cand, LAMBDA a : a.ok /\ IsSupported(a.aid, aids))

PseNext(k) == IF k.n >= 255 THEN Done(k, 0) ELSE [k EXCEPT !.n = k.n + 1]

PseResp(k, sw, data) ==
    IF k.stage = "sel" THEN
        IF sw = SwBlocked THEN Done(k, TalCardBlocked)
        ELSE IF sw = SwNotFound THEN Done(k, PseNotFound)
        ELSE IF sw = SwInvalidated THEN Done(k, PseBlocked)
        ELSE IF sw # SwOk THEN Done(k, PseSelectFailed)
        ELSE LET p == ParseFlat(data).list IN             \* padding is tolerated
             IF ~Has(p, T88) THEN PseGiveUp(k, PseSfiNotFound)
             ELSE IF Len(ValOf(p, T88)) # 1 THEN PseGiveUp(k, PseSfiInvalid)
             ELSE [k EXCEPT !.stage = "rec", !.list = p, !.i = ValOf(p, T88)[1], !.n = 1]
    ELSE IF sw = SwNoRecord THEN Done(k, 0)
    ELSE IF sw # SwOk THEN PseNext(k)
    ELSE PseNext([k EXCEPT !.apps = k.apps \o AefApps(k.list, k.aids, data)])

-----------------------------------------------------------------------------
(* List of AIDs (Book 1, 12.3.3).  i = terminal AID being tried; stage      *)
(* "next" = a partial match was found and the card is asked for the next.   *)
FindAdvance(k) ==
    IF k.i >= Len(k.aids) THEN Done([k EXCEPT !.i = k.i + 1], 0)
    ELSE [k EXCEPT !.i = k.i + 1, !.stage = "first"]
FindTask(aids, apps) ==
    FindAdvance([Task0 EXCEPT !.k = "find", !.done = FALSE, !.aids = aids, !.apps = apps])

FindResp(k, sw, data) ==
    IF k.stage = "first" /\ sw = SwBlocked THEN Done(k, TalCardBlocked)
    ELSE IF sw \notin {SwOk, SwInvalidated} THEN FindAdvance(k)
    ELSE LET a == AppFromFci(data)
             add == IF sw = SwOk THEN [k EXCEPT !.apps = Append(k.apps, a)] ELSE k
         IN
         IF ~a.ok THEN FindAdvance(k)
         ELSE IF Len(a.aid) = Len(k.aids[k.i].v) THEN FindAdvance(add)
         ELSE IF k.aids[k.i].f = 1 THEN [add EXCEPT !.stage = "next"]
         ELSE FindAdvance(k)

-----------------------------------------------------------------------------
(* Final selection (Book 1, 12.4): the FCI must name exactly the AID that   *)
(* was selected.                                                            *)
SelTask(aid) ==
    LET k == [Task0 EXCEPT !.k = "selapp", !.done = FALSE, !.data = aid] IN
    IF Len(aid) < 5 \/ Len(aid) > 16 THEN Done(k, TalInvalidParam) ELSE k

SelResp(k, sw, data) ==
    IF sw = SwBlocked THEN Done(k, TalCardBlocked)
    ELSE IF sw = SwNotFound THEN Done(k, AppNotFound)
    ELSE IF sw = SwInvalidated THEN Done(k, AppBlocked)
    ELSE IF sw # SwOk THEN Done(k, AppSelectionFailed)
    ELSE LET a == AppFromFci(data) IN
         IF ~a.ok THEN Done(k, AppFciParse)
         ELSE IF a.aid # k.data THEN Done(k, AppSelectionFailed)
         ELSE [Done(k, 0) EXCEPT !.apps = <<a>>]

-----------------------------------------------------------------------------
(* GET PROCESSING OPTIONS (Book 3, 6.5.8.4): out = the fields to add to the *)
(* ICC data.                                                                *)
T82 == Tg(130)
T94 == Tg(148)
GpoTask(nodata, data) ==
    LET k == [Task0 EXCEPT !.k = "gpo", !.done = FALSE, !.data = data, !.nodata = nodata] IN
    IF ~nodata /\ (Len(data) < 2 \/ Len(data) > 255) THEN Done(k, TalInvalidParam) ELSE k

GpoFields(e) ==       \* fields of a decoded response template: [ok, list]
    IF e.tag = Tg(128) THEN
        IF Len(e.val) < 6 \/ (Len(e.val) - 2) % 4 # 0 THEN [ok |-> FALSE, list |-> <<>>]
        ELSE [ok |-> TRUE, list |-> << TlvRec(T82, SubSeq(e.val, 1, 2), 0),
                                       TlvRec(T94, From(e.val, 2), 0) >>]
    ELSE IF e.tag = Tg(119) THEN ParseFlat(e.val)
    ELSE [ok |-> TRUE, list |-> <<>>]

GpoResp(k, sw, data) ==
    IF sw = SwConditions THEN Done(k, GpoConditions)
    ELSE IF sw # SwOk THEN Done(k, TalGpoFailed)
    ELSE LET e == BerDecode(data) IN
         IF e.r <= 0 THEN Done(k, TalGpoParse)
         ELSE LET f == GpoFields(e) IN
              IF ~f.ok THEN Done(k, TalGpoParse)
              ELSE IF ~Has(f.list, T82) \/ ~Has(f.list, T94) THEN Done(k, TalGpoField)
              ELSE [Done(k, 0) EXCEPT !.out = f.list]

-----------------------------------------------------------------------------
(* Reading the records an AFL lists (Book 3, 10.2).  i = AFL entry, n =     *)
(* record number, out = fields read so far, oda = a record made offline     *)
(* data authentication impossible.                                          *)
AflEnd(k) == Done(k, IF k.oda THEN OdaRecordInvalid ELSE 0)
AflSeek(k, i) ==      \* go to the first record of entry i
    LET b == k.afl IN
    IF i > Len(b) \div 4 THEN AflEnd(k)
    ELSE LET e == SubSeq(b, 4 * i - 3, 4 * i) IN
         IF ~AflEntryOk(e) THEN Done(k, TalAflInvalid)
         ELSE [k EXCEPT !.i = i, !.n = e[2]]
AflTask(afl, list) ==
    LET k == [Task0 EXCEPT !.k = "afl", !.done = FALSE, !.afl = afl, !.out = list] IN
    IF afl = <<>> THEN Done(k, TalInvalidParam)
    ELSE IF AflInit(afl) # 0 THEN Done(k, TalAflInvalid)
    ELSE AflSeek(k, 1)

AflCur(k) == AflEntry(SubSeq(k.afl, 4 * k.i - 3, 4 * k.i))
AflNext(k) == IF k.n >= AflCur(k).last THEN AflSeek(k, k.i + 1) ELSE [k EXCEPT !.n = k.n + 1]

AflResp(k, sw, data) ==
    LET low == AflCur(k).sfi <= 10
        t == BerDecode(data)
        p == ParseFlat(data)
    IN
    IF sw # SwOk THEN Done(k, TalRecFailed)
    ELSE IF data = <<>> \/ data[1] # 112 THEN
        IF low THEN Done(k, TalRecInvalid) ELSE AflNext([k EXCEPT !.oda = TRUE])
    ELSE IF low /\ (t.r <= 0 \/ Len(t.val) + 3 < Len(data)) THEN Done(k, TalRecInvalid)
    ELSE IF ~p.ok THEN [Done(k, TalRecParse) EXCEPT !.out = k.out \o p.list]
    ELSE AflNext([k EXCEPT !.out = k.out \o p.list])

-----------------------------------------------------------------------------
TaskCmd(k) ==
    CASE k.k = "pse" -> IF k.stage = "sel" THEN SelectCmd(PseName) ELSE ReadRecordCmd(k.i, k.n)
      [] k.k = "find" -> IF k.stage = "first" THEN SelectCmd(k.aids[k.i].v)
                         ELSE SelectNextCmd(k.aids[k.i].v)
      [] k.k = "selapp" -> SelectCmd(k.data)
      [] k.k = "gpo" -> GpoCmd(k.nodata, k.data)
      [] k.k = "afl" -> ReadRecordCmd(AflCur(k).sfi, k.n)

TaskResp(k, sw, data) ==
    CASE k.k = "pse" -> PseResp(k, sw, data)
      [] k.k = "find" -> FindResp(k, sw, data)
      [] k.k = "selapp" -> SelResp(k, sw, data)
      [] k.k = "gpo" -> GpoResp(k, sw, data)
      [] k.k = "afl" -> AflResp(k, sw, data)

TaskFail(k) ==
    IF k.k = "pse" /\ k.stage = "rec" THEN PseGiveUp(k, TalTtlFailure)
    ELSE Done(k, TalTtlFailure)
=============================================================================
