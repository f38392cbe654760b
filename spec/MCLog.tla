------------------------------- MODULE MCLog -------------------------------
(* The debug log over transactions, with the filter changed in between.     *)
EXTENDS Log, MCBase

VARIABLES filt, seen
logvars == <<mcvars, filt, seen>>
LView == <<View, filt, seen>>

Filters == { Filter(255, 5, TRUE), Filter(1, 3, TRUE), Filter(254, 5, TRUE), Filter(255, 2, TRUE), Filter(0, 5, TRUE), Filter(255, 5, FALSE) }
Cmds == { <<0, 1, 2, 3>>, <<0, 2, 0, 0, 0>>, <<0, 3, 0, 0, 2, 8, 9>>, <<0, 4, 0, 0, 1, 7, 0>>, <<0, 5, 0>> }
Answers == { <<144, 0>>, <<98, 131>>, <<97, 1>>, <<108, 1>>, <<>>, <<5, 144, 0>>, <<192, 5, 144, 0>>, <<4, 5, 144, 0>>, <<3>>, <<252>> }

LInit == /\ \E m \in {"APDU", "TPDU"} : StartWith(m, <<>>, <<>>, <<>>)
         /\ filt = NoFilter /\ seen = <<>>
LSet == /\ sess.phase = "idle" /\ nops < MaxOps
        /\ \E x \in Filters \ {filt} : filt' = x /\ path' = Append(path, [k |-> "dbg", f |-> x])
        /\ nops' = nops + 1 /\ seen' = <<>> /\ UNCHANGED <<sess, nx, before>>
LCall == /\ \E c \in Cmds : LET ev == [op |-> "trx", capdu |-> c, cap |-> 20] IN
                DoCall([k |-> "trx", cap |-> 20, capdu |-> c], CallTrx(sess, c, 20))
                /\ seen' = Visible(filt, LogCall(ev, sess, sess'))
         /\ UNCHANGED filt
LAnswer == /\ \/ \E rx \in Answers : DoExchange(0, rx)
              \/ DoExchange(-5, <<>>)
           /\ LET h == path'[Len(path')] IN seen' = seen \o Visible(filt, LogAnswer(sess, h.rr, h.rx, sess'))
           /\ UNCHANGED filt
LReturn == DoReturn /\ seen' = <<>> /\ UNCHANGED filt
LNext == LSet \/ LCall \/ LAnswer \/ LReturn
LSpec == LInit /\ [][LNext]_logvars

Types(q) == [i \in 1..Len(q) |-> q[i].type]
\* One command, then transmissions and answers in turn, then at most one response
InvShape ==
    sess.phase # "idle" /\ filt = Filter(255, 5, TRUE) =>
           LET n == Len(seen) IN
           /\ n > 0 /\ seen[1].type = TypeCapdu
           /\ \A i \in 2..n : \/ seen[i].type = TypeCtpdu /\ i % 2 = 0
                              \/ seen[i].type = TypeRtpdu /\ i % 2 = 1
                              \/ seen[i].type = TypeRapdu /\ i = n /\ seen[i - 1].type = TypeRtpdu
           /\ sess.phase = "xfer" => seen[n] = Ent(TypeCtpdu, sess.ttl.tx)
           /\ (sess.phase = "ret" /\ sess.ret = 0) <=> seen[n].type = TypeRapdu
           /\ seen[n].type = TypeRapdu => seen[n].b = sess.rdata
InvFilter == (~filt.func \/ filt.mask % 2 = 0 \/ filt.level < LvlCard) => seen = <<>>
LogInv == InvShape /\ InvFilter
=============================================================================
