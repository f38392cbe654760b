-------------------------------- MODULE Pcsc --------------------------------
(* The PC/SC abstraction: readers offered by the PC/SC resource manager,    *)
(* their features and properties, card presence, connections and exchanges. *)
(* PC/SC Part 3 Rev 2.01.09, 3.1.3.2.3.1 and 3.2.2.1.3; Part 10 Rev         *)
(* 2.02.09, 2.2 to 2.6.                                                     *)
(*                                                                          *)
(* One variable p holds the library.  PcscCall(p, ev) starts a function,    *)
(* PcscAnswer(p, o) is the resource manager's answer to the request p.want, *)
(* PcscReturn ends the function with p.ret.                                 *)
EXTENDS Bytes

\* Requests to the resource manager
ReqEst == [fn |-> "est", scope |-> 2]
ReqRel(c) == [fn |-> "rel", ctx |-> c]
ReqSize(c) == [fn |-> "list", ctx |-> c, buf |-> FALSE]
ReqList(c) == [fn |-> "list", ctx |-> c, buf |-> TRUE]
ReqConn(c, name, share, prots) == [fn |-> "conn", ctx |-> c, name |-> name, share |-> share, prots |-> prots]
ReqDisc(card, how) == [fn |-> "disc", card |-> card, how |-> how]
ReqCtrl(card, code) == [fn |-> "ctrl", card |-> card, code |-> code]
ReqStat(card) == [fn |-> "stat", card |-> card]
ReqWait(c, t, rs) == [fn |-> "gsc", ctx |-> c, timeout |-> t, rs |-> rs]
ReqTx(card, pci, tx, cap) == [fn |-> "tx", card |-> card, pci |-> pci, tx |-> tx, cap |-> cap]
NoReq == [fn |-> "none"]

ShareExclusive == 1   ShareDirect == 3
LeaveCard == 0        UnpowerCard == 2
T0 == 1   T1 == 2
StUnaware == 0   StIgnore == 1   StEmpty == 16   StPresent == 32
Infinite == <<65535, 65535>>
FeatureRequest == <<16896, 3400>>             \* CM_IOCTL_GET_FEATURE_REQUEST
FeatPin == 10   FeatDisplay == 17   FeatTlv == 18
MaxAtr == 33
GetUid == <<255, 202, 0, 0, 0>>
Unknown == 0   Contact == 1   Contactless == 2

-----------------------------------------------------------------------------
(* Reader features: records of tag, length 4, control code *)
FeatCount(b) == Len(b) \div 6
FeatTag(b, i) == b[6 * (i - 1) + 1]
FeatCode(b, i) == <<b[6 * (i - 1) + 3] * 256 + b[6 * (i - 1) + 4], b[6 * (i - 1) + 5] * 256 + b[6 * (i - 1) + 6]>>
FeatOk(b) == Len(b) % 6 = 0 /\ \A i \in 1..FeatCount(b) : b[6 * (i - 1) + 2] = 4
HasFeature(r, f) == \E i \in 1..FeatCount(r.feat) : FeatTag(r.feat, i) = f
FirstCode(b, f) ==
    LET m == {i \in 1..FeatCount(b) : FeatTag(b, i) = f} IN
    IF m = {} THEN <<>> ELSE FeatCode(b, CHOOSE i \in m : \A j \in m : i <= j)

\* Properties: TLV objects, then the fixed structures
RECURSIVE PropIn(_, _)
PropIn(b, tag) ==
    IF Len(b) < 2 THEN [r |-> 1, v |-> <<>>]
    ELSE IF b[2] > Len(b) - 2 THEN [r |-> IF b[1] = tag THEN -1 ELSE 1, v |-> <<>>]
    ELSE IF b[1] = tag THEN [r |-> 0, v |-> SubSeq(b, 3, 2 + b[2])]
    ELSE PropIn(From(b, 2 + b[2]), tag)
Property(r, tag, cap) ==
    LET p == PropIn(r.props, tag)
        found == CASE p.r # 1 -> p
                   [] tag = 1 /\ r.pin # <<>> -> [r |-> 0, v |-> SubSeq(r.pin, 1, 2)]
                   [] tag = 4 /\ r.disp # <<>> -> [r |-> 0, v |-> SubSeq(r.disp, 1, 2)]
                   [] tag = 5 /\ r.disp # <<>> -> [r |-> 0, v |-> SubSeq(r.disp, 3, 4)]
                   [] OTHER -> p
    IN IF found.r = 0 /\ Len(found.v) > cap THEN [r |-> -1, v |-> <<>>] ELSE found

-----------------------------------------------------------------------------
Reader(name) == [name |-> name, feat |-> <<>>, pin |-> <<>>, disp |-> <<>>, props |-> <<>>,
                 card |-> 0, prot |-> 0, atr |-> <<>>, type |-> Unknown]
Pcsc0 == [ctx |-> 0, rs |-> <<>>, phase |-> "idle", op |-> "", want |-> NoReq, at |-> "", k |-> 0,
          ret |-> 0, out |-> <<>>, tmp |-> 0, open |-> {}]

PRet(p, r) == [p EXCEPT !.phase = "ret", !.ret = r, !.want = NoReq, !.at = ""]
PRetV(p, r, v) == [PRet(p, r) EXCEPT !.out = v]
Ask(p, at, req) == [p EXCEPT !.phase = "xfer", !.want = req, !.at = at]

\* Names in a list of readers: each ended by a zero octet, the list by another
RECURSIVE NamesIn(_, _)
NamesIn(b, acc) ==
    IF b = <<>> THEN <<>>
    ELSE IF b[1] = 0 THEN (IF acc = <<>> THEN <<>> ELSE <<acc>> \o NamesIn(Tail(b), <<>>))
    ELSE NamesIn(Tail(b), Append(acc, b[1]))

\* Features of reader k, then the next one
Explore(p, k) ==
    IF k > Len(p.rs) THEN PRet(p, 0)
    ELSE Ask([p EXCEPT !.k = k], "fconn", ReqConn(p.ctx, p.rs[k].name, ShareDirect, 0))
\* Properties are fetched in this order, as far as the reader has them
PropAts == <<"pin", "disp", "props">>
PropFeats == <<FeatPin, FeatDisplay, FeatTlv>>
RECURSIVE NextProp(_, _)
NextProp(p, i) ==
    IF i > 3 THEN Ask(p, "fdisc", ReqDisc(p.tmp, LeaveCard))
    ELSE LET c == FirstCode(p.rs[p.k].feat, PropFeats[i]) IN
         IF c = <<>> THEN NextProp(p, i + 1) ELSE Ask(p, PropAts[i], ReqCtrl(p.tmp, c))
LeaveReader(p) == Ask(p, "fdisc", ReqDisc(p.tmp, LeaveCard))

\* May the ATR be the one a contactless reader makes up?
MadeUpAtr(a) == /\ Len(a) > 4 /\ a[1] = 59 /\ a[2] >= 128 /\ a[3] = 128 /\ a[4] = 1
                /\ Len(a) = 5 + (a[2] % 16)
Pci(r) == IF r.prot = T0 THEN "T0" ELSE IF r.prot = T1 THEN "T1" ELSE "none"
Gone(r) == [r EXCEPT !.card = 0, !.prot = 0, !.atr = <<>>, !.type = Unknown]

\* Functions of a reader; there is none at the index of an unknown reader
ReaderOps == {"has", "prop", "state", "connect", "disconnect", "atr", "trx"}
PcscCall(p, ev) ==
    LET q == [p EXCEPT !.op = ev.op, !.k = IF "idx" \in DOMAIN ev THEN ev.idx + 1 ELSE 0, !.out = <<>>]
        r == q.rs[q.k]
    IN
    CASE ev.op \in ReaderOps /\ q.k > Len(q.rs) -> PRet(q, IF ev.op = "has" THEN 0 ELSE -1)
      [] ev.op = "pinit" -> Ask(q, "est", ReqEst)
      [] ev.op = "prel" -> IF q.ctx = 0 THEN PRet(q, 0) ELSE Ask(q, "rel", ReqRel(q.ctx))
      [] ev.op = "names" -> PRetV(q, Len(q.rs), [i \in 1..Len(q.rs) |-> q.rs[i].name])
      [] ev.op = "has" -> PRet(q, IF HasFeature(r, ev.f) THEN 1 ELSE 0)
      [] ev.op = "prop" -> LET x == Property(r, ev.f, ev.cap) IN PRetV(q, x.r, x.v)
      [] ev.op = "state" -> Ask(q, "state", ReqWait(q.ctx, Infinite, <<[n |-> r.name, s |-> StUnaware]>>))
      [] ev.op = "wait" ->
           IF q.ctx = 0 THEN PRet(q, -1)
           ELSE Ask(q, "wait", ReqWait(q.ctx, ev.timeout,
                    [i \in 1..Len(q.rs) |-> [n |-> q.rs[i].name,
                        s |-> IF ev.idx = -1 \/ i = q.k THEN StEmpty ELSE StIgnore]]))
      [] ev.op = "connect" -> Ask(q, "conn", ReqConn(q.ctx, r.name, ShareExclusive, T0 + T1))
      [] ev.op = "disconnect" -> IF r.card = 0 THEN PRet(q, -1) ELSE Ask(q, "disc", ReqDisc(r.card, UnpowerCard))
      [] ev.op = "atr" ->
           IF r.atr = <<>> \/ r.type # Contact THEN PRet(q, 1) ELSE PRetV(q, 0, r.atr)
      [] ev.op = "trx" ->
           IF Pci(r) = "none" \/ ev.tx = <<>> THEN PRet(q, -1)
           ELSE Ask(q, "tx", ReqTx(r.card, Pci(r), ev.tx, ev.cap))

Connected(p) == PRet(p, p.rs[p.k].type)
\* The card cannot be used: give the connection up
GiveUp(p) == Ask(p, "undo", ReqDisc(p.rs[p.k].card, UnpowerCard))
Undone(p) == PRet(p, -1)

PcscAnswer(p, o) ==
    LET ok == o.rc = "ok"
        k == p.k
        q == CASE ok /\ p.want.fn = "conn" -> [p EXCEPT !.open = @ \cup {o.card}]
               [] ok /\ p.want.fn = "disc" -> [p EXCEPT !.open = @ \ {p.want.card}]
               [] OTHER -> p
    IN
    CASE p.at = "est" -> IF ok THEN Ask([q EXCEPT !.ctx = o.ctx], "size", ReqSize(o.ctx)) ELSE PRet(q, -1)
      [] p.at = "size" -> IF ok THEN Ask(q, "names", ReqList(q.ctx)) ELSE Ask(q, "abort", ReqRel(q.ctx))
      [] p.at = "names" ->
           IF ~ok THEN Ask(q, "abort", ReqRel(q.ctx))
           ELSE LET ns == NamesIn(o.b, <<>>) IN
                Explore([q EXCEPT !.rs = [i \in 1..Len(ns) |-> Reader(ns[i])]], 1)
      [] p.at = "abort" -> PRet(Pcsc0, -1)
      [] p.at = "rel" -> PRet(Pcsc0, 0)
      \* features: errors are ignored
      [] p.at = "fconn" ->
           IF ok THEN Ask([q EXCEPT !.tmp = o.card], "feat", ReqCtrl(o.card, FeatureRequest))
           ELSE Explore(q, k + 1)
      [] p.at = "feat" ->
           IF ok /\ FeatOk(o.b) THEN NextProp([q EXCEPT !.rs[k].feat = o.b], 1) ELSE LeaveReader(q)
      [] p.at = "pin" ->
           IF ok /\ Len(o.b) = 4 THEN NextProp([q EXCEPT !.rs[k].pin = o.b], 2) ELSE LeaveReader(q)
      [] p.at = "disp" ->
           IF ok /\ Len(o.b) = 4 THEN NextProp([q EXCEPT !.rs[k].disp = o.b], 3) ELSE LeaveReader(q)
      [] p.at = "props" ->
           IF ok THEN NextProp([q EXCEPT !.rs[k].props = o.b], 4) ELSE LeaveReader(q)
      [] p.at = "fdisc" -> Explore([q EXCEPT !.tmp = 0], k + 1)
      \* readers
      [] p.at = "state" -> IF ok THEN PRetV(q, 0, <<o.st[1]>>) ELSE PRet(q, -1)
      [] p.at = "wait" ->
           LET m == {i \in 1..Len(q.rs) : (o.st[i] \div StPresent) % 2 = 1} IN
           IF o.rc = "timeout" THEN PRet(q, 1)
           ELSE IF ~ok THEN PRet(q, -1)
           ELSE IF m = {} THEN PRet(q, 1)
           ELSE PRetV(q, 0, <<(CHOOSE i \in m : \A j \in m : i <= j) - 1>>)
      [] p.at = "conn" ->
           IF ok THEN Ask([q EXCEPT !.rs[k].card = o.card, !.rs[k].prot = o.prot], "stat", ReqStat(o.card))
           ELSE PRet(q, -1)
      [] p.at = "stat" ->
           IF ~ok THEN GiveUp(q)
           ELSE LET s == [q EXCEPT !.rs[k].prot = o.prot, !.rs[k].atr = o.b] IN
                IF ~MadeUpAtr(o.b) THEN Connected([s EXCEPT !.rs[k].type = Contact])
                ELSE IF Pci(s.rs[k]) = "none" THEN GiveUp(s)
                ELSE Ask(s, "uid", ReqTx(s.rs[k].card, Pci(s.rs[k]), GetUid, -1))
      [] p.at = "uid" ->
           LET n == Len(o.b) IN
           IF ~ok \/ n < 2 \/ n > 12 THEN GiveUp(q)
           ELSE IF o.b[n - 1] = 106 /\ o.b[n] = 129 THEN Connected([q EXCEPT !.rs[k].type = Contact])
           ELSE IF o.b[n - 1] = 144 /\ o.b[n] = 0 THEN Connected([q EXCEPT !.rs[k].type = Contactless])
           ELSE GiveUp(q)
      [] p.at = "undo" -> Undone(IF ok THEN [q EXCEPT !.rs[k] = Gone(@)] ELSE q)
      [] p.at = "disc" ->
           IF ok THEN PRet([q EXCEPT !.rs[k] = Gone(@)], 0) ELSE PRet(q, -1)
      [] p.at = "tx" -> IF ok THEN PRetV(q, 0, o.b) ELSE PRet(q, -1)

PcscReturn(p) == [p EXCEPT !.phase = "idle", !.op = "", !.ret = 0, !.out = <<>>, !.k = 0, !.at = ""]
=============================================================================
