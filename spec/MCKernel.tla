------------------------------ MODULE MCKernel -----------------------------
(* The whole kernel: build, select, initiate and read in any order, against *)
(* a card whose answer to each command is drawn from a small set chosen by  *)
(* the command (good, blocked, absent, malformed).                          *)
EXTENDS MCBase

CONSTANT Rich         \* TRUE: larger reply sets

AidA == <<160, 0, 0, 0, 3, 16, 16>>
AidB == <<160, 0, 0, 0, 4, 16, 16>>
AidC == <<160, 0, 0, 0, 3, 32>>
Visa == <<160, 0, 0, 0, 3>>

E1(t, v) == Enc(<<t>>, v)
E2(a, b, v) == Enc(<<a, b>>, v)

PseFci(sfi) == E1(111, E1(132, PseName) \o E1(165, E1(136, sfi) \o E2(159, 17, <<1>>)))
Entry(aid, prio) == E1(97, E1(79, aid) \o E1(80, <<86, 105>>) \o
                       (IF prio = 0 THEN <<>> ELSE E1(135, <<prio>>)))
AppFci(aid, extra) == E1(111, E1(132, aid) \o E1(165, E1(80, <<86>>) \o extra))
Pdol1 == E2(159, 56, <<159, 2, 6, 154, 3, 149, 5>>)
PdolBad == E2(159, 56, <<159, 2>>)
PdolBig == E2(159, 56, <<159, 2, 200, 154, 60>>)

Gpo80(afl) == E1(128, <<24, 0>> \o afl)
Gpo77(afl) == E1(119, E1(130, <<24, 0>>) \o E1(148, afl))
Afl1 == <<8, 1, 2, 1>>
Afl2 == <<8, 1, 1, 0, 88, 1, 1, 0>>
AflBad == <<8, 0, 1, 0>>
RecM1 == E1(112, E2(95, 36, <<39, 18, 49>>) \o E1(90, <<71, 97>>))
RecM2 == E1(112, E1(140, <<159, 2, 6>>) \o E1(141, <<138, 2>>))
RecAll == E1(112, E2(95, 36, <<39, 18, 49>>) \o E1(90, <<71, 97>>) \o E1(140, <<159, 2, 6>>) \o E1(141, <<138, 2>>))

SelectReplies(name) ==
    IF name = PseName THEN
        { Ok(PseFci(<<1>>)), St(106, 130), St(106, 129), St(98, 131) }
        \cup (IF Rich THEN { Ok(PseFci(<<1, 1>>)), Ok(E1(111, E1(132, PseName))), St(105, 133), Ok(<<111, 5>>), Ok(PseFci(<<31>>)) } ELSE {})
    ELSE { Ok(AppFci(name, <<>>)), Ok(AppFci(name, Pdol1)), St(106, 130), St(106, 129), Ok(AppFci(AidC, <<>>)) }
        \cup (IF Rich THEN { AppFci(name, <<>>) \o St(98, 131), St(98, 131), St(105, 133), Ok(<<111, 3, 132, 9, 9>>), Ok(AppFci(name, PdolBad)),
                             Ok(AppFci(name, PdolBig)), Ok(AppFci(AidA, E1(135, <<129>>))) } ELSE {})
PseRecords(n) ==
    IF n = 1 THEN { Ok(E1(112, Entry(AidA, 1))), Ok(E1(112, Entry(AidB, 0) \o Entry(AidC, 130) \o Entry(AidA, 1))), St(106, 131) }
                  \cup (IF Rich THEN { Ok(<<112, 9>>), Ok(E1(113, Entry(AidA, 1))), St(105, 133), Ok(E1(112, E1(98, <<>>) \o E1(97, E1(80, <<65>>)) \o Entry(AidA, 2))) } ELSE {})
    ELSE IF n = 2 THEN { St(106, 131), Ok(E1(112, Entry(AidC, 1))) }
    ELSE { St(106, 131) }
GpoReplies ==
    { Ok(Gpo80(Afl1)), Ok(Gpo77(Afl2)), St(105, 133), Ok(E1(119, E1(130, <<24, 0>>))) }
    \cup (IF Rich THEN { Ok(Gpo80(<<8>>)), Ok(E1(128, <<24, 0>>)), Ok(<<119, 2, 130>>), Ok(E1(120, <<>>)), Ok(Gpo77(AflBad)), Ok(Gpo77(<<>>)), St(106, 129), Ok(<<>>) } ELSE {})
RecordReplies(n, low) ==
    { Ok(RecAll), Ok(RecM1), Ok(RecM2), St(106, 131) }
    \cup (IF low THEN {} ELSE { Ok(<<113, 0>>) })
    \cup (IF Rich THEN { Ok(<<113, 0>>), Ok(<<112, 4, 90, 9>>), Ok(RecM1 \o <<0>>), Ok(RecM1 \o <<90, 0>>), Ok(E1(112, E1(90, <<1>>))), Ok(<<>>) } ELSE {})

\* Answers to the current transmission (APDU mode: tx is the command)
Replies ==
    LET tx == sess.ttl.tx IN
    IF tx[2] = 164 THEN SelectReplies(Slice(tx, 5, tx[5]))
    ELSE IF tx[2] = 178 THEN
        IF sess.op = "build" THEN PseRecords(tx[3]) ELSE RecordReplies(tx[3], tx[4] \div 8 <= 10)
    ELSE GpoReplies

AidSets == { << TlvRec(T9F06, Visa, 1) >>, << TlvRec(T9F06, AidA, 0), TlvRec(T9F06, AidB, 0) >> }
Params == << TlvRec(Tg(40706), <<0, 0, 0, 0, 18, 52>>, 0) >>
Cfg == << TlvRec(Tg(154), <<33, 1, 2>>, 0), TlvRec(Tg(40706), <<9>>, 0) >>

MCInit == \E aids \in AidSets : StartWith("APDU", Cfg, Params, aids)

\* Calls in the order a terminal makes them, plus calls out of order when Rich
CallAny ==
    \/ (sess.apps = <<>> \/ Rich) /\ DoCall(Rec("build", 0), CallBuild(sess))
    \/ \E i \in 0..1 : (Rich \/ i < Len(sess.apps)) /\ DoCall(Rec("select", i), CallSelect(sess, i))
    \/ (sess.sel.has \/ Rich) /\ DoCall(Rec("init", 7), CallInit(sess, 7))
    \/ (sess.icc # <<>> \/ Rich) /\ DoCall(Rec("read", 0), CallRead(sess))
    \/ nops > 1 /\ DoCall(Rec("reset", 0), CallReset([sess EXCEPT !.op = "reset"]))

MCNext ==
    \/ CallAny
    \/ sess.phase = "xfer" /\ \E rx \in Replies : DoExchange(0, rx)
    \/ Rich /\ DoExchange(-5, <<>>)
    \/ DoReturn

MCSpec == MCInit /\ [][MCNext]_mcvars
=============================================================================
