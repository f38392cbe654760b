------------------------------- MODULE MCTal -------------------------------
(* Each terminal application layer exchange on its own, against rich reply  *)
(* sets: Op chooses pse, find, sel, gpo or afl.                             *)
EXTENDS MCBase

CONSTANTS Op, Rich

AidA == <<160, 0, 0, 0, 3, 16, 16>>
AidB == <<160, 0, 0, 0, 4, 16, 16>>
AidC == <<160, 0, 0, 0, 3, 32>>
AidD == <<160, 0, 0, 0, 3, 16, 16, 1>>
Visa == <<160, 0, 0, 0, 3>>
Long == <<160, 0, 0, 0, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>

E1(t, v) == Enc(<<t>>, v)
E2(a, b, v) == Enc(<<a, b>>, v)
If(c, S) == IF c THEN S ELSE {}

CommonSw == { St(106, 130), St(106, 129), St(98, 131) }
MoreSw == { St(105, 133), St(106, 131), St(99, 16), St(98, 0), St(111, 0), St(144, 1), St(145, 0) }

\* --- PSE
PseFci(sfi, more) == E1(111, E1(132, PseName) \o E1(165, E1(136, sfi) \o more))
Ix(n) == E2(159, 17, <<n>>)
PseSel == { Ok(PseFci(<<1>>, <<>>)), Ok(PseFci(<<1>>, Ix(5))), Ok(PseFci(<<10>>, <<>>)), Ok(PseFci(<<1, 2>>, <<>>)),
            Ok(E1(111, E1(132, PseName) \o E1(165, Ix(1)))) } \cup CommonSw
          \cup If(Rich, MoreSw \cup { Ok(PseFci(<<30>>, <<>>)), Ok(PseFci(<<31>>, <<>>)), Ok(PseFci(<<0>>, <<>>)), Ok(PseFci(<<>>, <<>>)),
            Ok(PseFci(<<1>>, E2(159, 17, <<1, 2>>))), Ok(PseFci(<<1>>, Ix(12))), Ok(PseFci(<<1>>, <<>>) \o <<0>>), Ok(PseFci(<<1>>, <<>>) \o <<111, 9>>),
            PseFci(<<1>>, <<>>) \o St(98, 131), Ok(<<>>), Ok(E1(136, <<2>>)), Ok(<<111, 99, 136, 1, 2>>) })
Lbl == E1(80, <<86, 196>>)
Entry(aid, more) == E1(97, E1(79, aid) \o more)
PseRec(n) ==
    { Ok(E1(112, Entry(AidA, Lbl))), St(106, 131), Ok(E1(112, Entry(AidB, Lbl \o E1(135, <<2>>)) \o Entry(AidC, E1(135, <<129>>)))) }
    \cup If(n = 1, { St(105, 133), Ok(E1(112, <<>>)), Ok(E1(112, Entry(AidC, Lbl \o E2(159, 18, <<65, 230>>)))) })
    \cup If(Rich, { Ok(<<112, 9, 97>>), Ok(E1(113, Entry(AidA, Lbl))), Ok(E1(112, E1(97, Lbl) \o Entry(AidA, Lbl))),
                    Ok(E1(112, E1(98, E1(79, AidA)) \o Entry(AidC, <<>>))), Ok(E1(112, E1(97, <<79, 9>>) \o Entry(AidC, <<>>))),
                    Ok(E1(112, Entry(AidC, <<>>) \o <<97, 99>>)), Ok(E1(112, Entry(AidD, Lbl \o Ix(1) \o E2(159, 18, <<66>>)))), Ok(<<>>),
                    E1(112, Entry(AidA, Lbl)) \o St(98, 131), Ok(E1(112, Entry(<<>>, <<>>))), Ok(E1(112, Entry(Long, <<>>))),
                    Ok(E1(112, Entry(AidA, Lbl)) \o E1(112, Entry(AidC, Lbl))), Ok(E1(112, E1(79, AidA))) })
\* --- list of AIDs
FAids == { << TlvRec(Tg(40710), Visa, 1) >>, << TlvRec(Tg(40710), AidA, 0), TlvRec(Tg(40710), AidB, 1) >>,
           << TlvRec(Tg(40710), Visa, 0), TlvRec(Tg(40710), AidC, 0) >> }
         \cup If(Rich, { <<>>, << TlvRec(Tg(40710), Visa, 2), TlvRec(Tg(40710), AidA, 1) >>, << TlvRec(Tg(40710), <<160>>, 1), TlvRec(Tg(40710), AidA, 0) >>,
                         << TlvRec(Tg(40710), Long, 1) >>, << TlvRec(Tg(40710), AidA, 0), TlvRec(Tg(40710), Visa, 1), TlvRec(Tg(40710), AidA, 0) >> })
AppFci(aid, more) == E1(111, E1(132, aid) \o E1(165, Lbl \o more))
FindSel(tx) ==
    LET name == Slice(tx, 5, tx[5]) IN
    { Ok(AppFci(name, <<>>)), Ok(AppFci(AidA, E1(135, <<3>>))), AppFci(AidA, <<>>) \o St(98, 131), Ok(AppFci(name \o <<9>>, <<>>)), Ok(E1(111, Lbl)) }
    \cup CommonSw
    \cup If(Rich, { AppFci(name, <<>>) \o St(98, 131), St(105, 133), Ok(<<>>), Ok(<<111, 9>>), Ok(E1(112, E1(132, name))), Ok(AppFci(name, <<>>) \o <<0>>),
                    AppFci(name, <<>>) \o St(106, 129), Ok(AppFci(name, E2(159, 17, <<7>>) \o E2(159, 18, <<193, 194>>))) })
\* --- final selection
SelAids == { AidA, Visa } \cup If(Rich, { <<>>, <<160, 0, 0, 0>>, Long, SubSeq(Long, 1, 16) })
SelReplies(tx) ==
    LET name == Slice(tx, 5, tx[5]) IN
    { Ok(AppFci(name, x)) : x \in { <<>>, E1(135, <<255>>), E1(135, <<>>), E1(135, <<1, 2>>), Ix(2) \o E2(159, 18, <<161>>), E2(159, 18, <<161>>),
                                   Ix(13) \o E2(159, 18, <<161>>), E2(159, 56, <<154, 3>>), E2(159, 17, <<1, 1>>) \o E2(159, 18, <<65>>) } }
    \cup { Ok(E1(111, E1(132, name))), Ok(E1(111, E1(165, E1(132, name)))), Ok(AppFci(name \o <<1>>, <<>>)), Ok(AppFci(SubSeq(name, 1, Len(name) - 1), <<>>)),
           Ok(AppFci([name EXCEPT ![Len(name)] = 77], <<>>)), Ok(AppFci([name EXCEPT ![1] = 161], <<>>)),
           Ok(AppFci(name, <<>>) \o <<0, 0>>), Ok(SubSeq(AppFci(name, <<>>), 1, Len(AppFci(name, <<>>)) - 1)), Ok(<<>>), Ok(E1(112, E1(132, name))),
           Ok(E1(111, E1(132, name) \o E1(132, AidB))), Ok(E1(111, E1(132, AidB) \o E1(132, name))), Ok(E1(111, <<>>)), Ok(E1(111, E1(132, <<>>))) }
    \cup CommonSw \cup MoreSw \cup { AppFci(name, <<>>) \o x : x \in CommonSw \cup MoreSw }
\* --- GPO
GpoDatas == { [no |-> TRUE, d |-> <<>>], [no |-> FALSE, d |-> <<131, 0>>], [no |-> FALSE, d |-> <<131, 2, 1, 2>>] }
            \cup If(Rich, { [no |-> FALSE, d |-> <<131>>], [no |-> FALSE, d |-> <<>>], [no |-> FALSE, d |-> <<132, 0>>], [no |-> FALSE, d |-> <<131, 129, 252>> \o Zeros(252)],
                            [no |-> FALSE, d |-> <<131, 129, 253>> \o Zeros(253)] })
B(n) == SubSeq(<<8, 1, 2, 0, 16, 3, 4, 1, 88, 1>>, 1, n)
Gpo80 == { Ok(E1(128, B(n))) : n \in 0..10 }
Gpo77 == { Ok(E1(119, E1(130, B(a)) \o E1(148, B(f)))) : a \in 0..3, f \in {0, 3, 4, 5, 8} }
         \cup { Ok(E1(119, E1(148, B(4)) \o E1(130, B(2)))), Ok(E1(119, E1(130, B(2)))), Ok(E1(119, E1(148, B(4)))), Ok(E1(119, <<>>)),
                Ok(E1(119, E1(130, B(2)) \o E1(148, B(4)) \o <<0>>)), Ok(E1(119, E1(130, B(2)) \o E1(148, B(4)) \o <<90, 3, 1>>)),
                Ok(E1(119, E1(130, B(2)) \o E1(148, B(4)) \o E2(159, 54, <<0, 1>>) \o E1(130, <<9, 9>>))),
                Ok(E1(119, E1(119, E1(130, B(2)) \o E1(148, B(4))))) }
GpoRep == Gpo80 \cup Gpo77 \cup CommonSw \cup MoreSw
          \cup { Ok(<<>>), Ok(<<128>>), Ok(<<119, 9>>), Ok(<<128, 9, 1>>), Ok(E1(120, B(6))), Ok(E1(128, B(6)) \o <<0>>), Ok(E1(112, E1(130, B(2)) \o E1(148, B(4)))),
                 Ok(E1(119, E1(130, B(2)) \o E1(148, B(4))) \o E1(130, <<7, 7>>)), E1(128, B(6)) \o St(98, 131), E1(128, B(6)) \o St(105, 133) }
\* --- AFL
Afls == { <<8, 1, 1, 0>>, <<8, 1, 2, 1>>, <<8, 2, 2, 1, 88, 1, 1, 1>>, <<80, 255, 255, 1, 240, 254, 255, 0>>, <<8, 1, 1, 0, 8, 0, 1, 0>> }
        \cup If(Rich, { <<>>, <<8>>, <<8, 1, 1>>, <<8, 1, 1, 0, 8>>, <<9, 1, 1, 0>>, <<0, 1, 1, 0>>, <<248, 1, 1, 0>>, <<240, 1, 1, 1>>, <<8, 2, 1, 0>>, <<8, 1, 1, 2>>, <<8, 1, 3, 3>>,
                        <<8, 1, 1, 0, 16, 1, 1, 0, 24, 1, 1, 0>>, <<8, 1, 1, 0, 8, 1, 1, 0>> })
RecX == E2(95, 36, <<39, 18, 49>>)
RecY == E1(90, <<71, 97>>)
AflRep == { Ok(E1(112, RecX)), Ok(E1(112, RecX \o RecY)), Ok(E1(112, <<>>)), St(106, 131), Ok(E1(113, RecX)), Ok(E1(112, RecX) \o <<0>>), Ok(<<112, 9, 90>>), Ok(<<112, 3, 90, 9, 1>>) }
          \cup If(Rich, { Ok(<<>>), Ok(<<112>>), Ok(E1(112, RecX) \o RecY), Ok(E1(112, RecX) \o E1(112, RecY)), E1(112, RecX) \o St(98, 131), St(105, 133),
                          Ok(Enc2(<<112>>, RecX)), Ok(Enc2(<<112>>, RecX) \o <<0>>), Ok(Enc3(<<112>>, RecX)), Ok(<<112, 128>> \o RecX \o <<0, 0>>), Ok(E1(112, RecX \o <<0>>)),
                          Ok(E1(112, E1(112, RecX) \o RecY)) })

Replies ==
    LET tx == sess.ttl.tx IN
    CASE Op = "pse" -> IF tx[2] = 164 THEN PseSel ELSE PseRec(tx[3])
      [] Op = "find" -> FindSel(tx)
      [] Op = "sel" -> SelReplies(tx)
      [] Op = "gpo" -> GpoRep
      [] Op = "afl" -> AflRep

PAids == { << TlvRec(Tg(40710), Visa, 1) >>, << TlvRec(Tg(40710), AidA, 0), TlvRec(Tg(40710), AidB, 0), TlvRec(Tg(40710), AidC, 0) >> }

MCInit == \E aids \in (IF Op = "pse" THEN PAids ELSE IF Op = "find" THEN FAids ELSE { <<>> }) : StartWith("APDU", <<>>, <<>>, aids)

CallAny ==
    CASE Op = "pse" -> DoCall(Rec("tal_pse", 0), CallTalPse(sess))
      [] Op = "find" -> DoCall(Rec("tal_find", 0), CallTalFind(sess))
      [] Op = "sel" -> \E a \in SelAids : DoCall(Rec("tal_sel", a), CallTalSel(sess, a))
      [] Op = "gpo" -> \E g \in GpoDatas : DoCall([k |-> "tal_gpo", nodata |-> g.no, x |-> g.d], CallTalGpo(sess, g.no, g.d))
      [] Op = "afl" -> \E a \in Afls : DoCall(Rec("tal_afl", a), CallTalAfl(sess, a))

MCNext ==
    \/ CallAny
    \/ sess.phase = "xfer" /\ \E rx \in Replies : DoExchange(0, rx)
    \/ DoExchange(-5, <<>>) \/ (Rich /\ DoExchange(3, <<>>))
    \/ DoReturn
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
InvPse == At_("tal_pse") =>
    /\ sess.ret \in {0, -3, -4, 1, 2, 3, 5, 6}
    /\ \A i \in 1..Len(sess.apps) : i > Len(before.apps) => IsSupported(sess.apps[i].aid, sess.aids)
    /\ (sess.ret # 0) => sess.apps = before.apps \/ sess.apps = <<>>
    /\ (sess.ret = 0) => IsPrefixOf(before.apps, sess.apps)
InvFind == At_("tal_find") =>
    /\ sess.ret \in {0, -3, -4}
    /\ IsPrefixOf(before.apps, sess.apps)
InvSel == At_("tal_sel") =>
    /\ (sess.ret = 0) => sess.sel.has
    /\ (sess.ret # 0) => sess.sel = before.sel
InvGpo == At_("tal_gpo") =>
    /\ (sess.ret = 0) => IsPrefixOf(before.icc, sess.icc) /\ Has(From(sess.icc, Len(before.icc)), T82) /\ Has(From(sess.icc, Len(before.icc)), T94)
    /\ (sess.ret # 0) => sess.icc = before.icc
InvAfl == At_("tal_afl") => IsPrefixOf(before.icc, sess.icc)
TalInv == TypeOK /\ InvPse /\ InvFind /\ InvSel /\ InvGpo /\ InvAfl
=============================================================================
