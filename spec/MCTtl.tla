------------------------------- MODULE MCTtl -------------------------------
(* The transport layer alone: every sequence of reader answers from an      *)
(* alphabet of procedure bytes, status words and data, for each command     *)
(* case and reader mode.                                                    *)
EXTENDS MCBase

CONSTANT Rich

Cmds == { <<0, 17, 34, 51>>,                              \* case 1
          <<0, 178, 1, 12, 0>>, <<0, 178, 1, 12, 5>>,     \* case 2
          <<0, 32, 0, 128, 3, 9, 178, 7>>,                \* case 3
          <<0, 164, 4, 0, 3, 160, 164, 91, 0>>,           \* case 4
          <<0, 192, 4, 0, 1, 192, 0>> }                   \* case 4 with INS of GET RESPONSE
        \cup (IF Rich THEN { <<>>, <<0, 164, 4>>, <<0, 164, 4, 0, 3, 160>>, <<0, 164, 4, 0, 0, 0, 1, 7>>,
                             <<0, 164, 4, 0, 0, 0, 1, 7, 0, 0>>, <<0, 32, 0, 128, 1, 159>>, <<0, 96, 0, 0, 1, 96>> } ELSE {})
Caps == IF Rich THEN {0, 1, 2, 3, 4, 5, 6, 258} ELSE {2, 5, 258}

Ins == sess.ttl.ins
Replies ==
    { <<>>, <<96>>, <<Ins>>, <<255 - Ins>>, <<97>>,
      <<144, 0>>, <<97, 2>>, <<108, 3>>, <<98, 131>>, <<106, 130>>,
      <<Ins, 7, 8, 144, 0>>, <<7, 8, 9, 144, 0>>, <<Ins, 7, 97, 4>> }
    \cup (IF Rich THEN { <<0>>, <<97, 0>>, <<108, 0>>, <<99, 16>>, <<98, 2>>, <<98, 128>>, <<98, 129>>, <<0, 0>>,
                         <<Ins, 144, 0>>, <<7, 108, 2>>, <<Ins, 7, 98, 130>>, <<7, 97, 2>>, <<96, 0>> } ELSE {})

MCInit == \E m \in {"APDU", "TPDU"} : StartWith(m, <<>>, <<>>, <<>>)
MCNext ==
    \/ \E c \in Cmds : \E cap \in Caps :
          DoCall([k |-> "trx", cap |-> cap, capdu |-> c], CallTrx(sess, c, cap))
    \/ sess.phase = "xfer" /\ \E rx \in Replies : DoExchange(0, rx)
    \/ DoExchange(-3, <<>>) \/ (Rich /\ DoExchange(2, <<>>))
    \/ DoReturn
MCSpec == MCInit /\ [][MCNext]_mcvars

\* Transport invariants
InvTtl ==
    sess.op = "trx" =>
           /\ (sess.phase = "xfer" \/ sess.ret = 0) => Len(sess.ttl.out) + 2 <= sess.ttl.cap
           /\ (sess.phase = "ret" /\ sess.ret = 0) =>
                    /\ sess.rdata = sess.ttl.out \o <<sess.sws \div 256, sess.sws % 256>>
                    /\ (sess.ttl.case \notin {"2S", "4S"} => sess.ttl.out = <<>>)
                    /\ (sess.ttl.case # "1" => sess.sws \div 256 \notin {97, 108})
           /\ sess.ttl.case \in {"1", "2S"} => sess.ttl.pend = <<>>
           /\ sess.ttl.mode = "APDU" => sess.ttl.pend = <<>>
=============================================================================
