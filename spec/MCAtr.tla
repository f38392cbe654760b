------------------------------- MODULE MCAtr -------------------------------
(* ATRs, built byte by byte: every combination of announced interface       *)
(* bytes with ordinary values, plus up to MaxOdd bytes that deviate.        *)
EXTENDS Strings, Json

CONSTANTS MaxOdd, MaxGroups, Emit

VARIABLES input,      \* the bytes so far
          toCome,   \* what comes next: sequence of kinds
          gIdx,     \* number of the group being built
          gProt,   \* protocol of the group being built
          nOdd,    \* deviations so far
          any15,  \* a check character is due
          nHist, built
vars == <<input, toCome, gIdx, gProt, nOdd, any15, nHist, built>>

\* Ordinary values and deviations of each byte
Usual(x) == CASE x = "TS" -> {59} [] x = "A" -> IF gIdx = 1 THEN {19} ELSE IF gIdx = 2 THEN {gProt}
                                                    ELSE IF gProt = 15 THEN {65} ELSE {32}
              [] x = "B" -> IF gIdx = 1 THEN {37} ELSE IF gIdx = 2 THEN {60} ELSE {69}
              [] x = "C" -> IF gIdx = 2 THEN {10} ELSE {0}
Odd(x) == CASE x = "TS" -> {63, 58}
            [] x = "A" -> IF gIdx = 1 THEN {3, 17, 20, 112, 160, 151, 26, 16, 147}
                          ELSE IF gIdx = 2 THEN {16 + gProt, 128 + gProt, 1 - (gProt % 2), 15}
                          ELSE {0, 8, 7, 15, 16, 199, 254, 255}
            [] x = "B" -> IF gIdx = 1 THEN {0, 5, 4, 26, 69, 101} ELSE IF gIdx = 2 THEN {0, 49, 50, 250, 251}
                          ELSE {0, 6, 5, 80, 144, 159, 160, 128}
            [] x = "C" -> IF gIdx = 2 THEN {0, 1, 255} ELSE {1, 254, 255}
Kinds(y) == (IF Announces(y, 0) THEN <<"A">> ELSE <<>>) \o (IF Announces(y, 1) THEN <<"B">> ELSE <<>>)
            \o (IF Announces(y, 2) THEN <<"C">> ELSE <<>>) \o (IF Announces(y, 3) THEN <<"D">> ELSE <<>>)

Init == input = <<>> /\ toCome = <<"TS", "T0">> /\ gIdx = 0 /\ gProt = 0 /\ nOdd = 0 /\ any15 = FALSE /\ nHist = 0 /\ built = FALSE

Put(x, t) == input' = Append(input, x) /\ toCome' = t
Byte0 == /\ toCome # <<>> /\ Head(toCome) \in {"TS", "A", "B", "C"}
         /\ \/ \E x \in Usual(Head(toCome)) : Put(x, Tail(toCome)) /\ nOdd' = nOdd
            \/ nOdd < MaxOdd /\ \E x \in Odd(Head(toCome)) : Put(x, Tail(toCome)) /\ nOdd' = nOdd + 1
         /\ UNCHANGED <<gIdx, gProt, any15, nHist, built>>
FormatByte == /\ toCome # <<>> /\ Head(toCome) = "T0"
              /\ \E y \in 0..15, n \in {0, 1, 2, 4, 6} :
                   /\ nOdd' = nOdd + (IF n \in {0, 4} THEN 0 ELSE 1) /\ nOdd' <= MaxOdd
                   /\ Put(y * 16 + n, Kinds(y * 16)) /\ gIdx' = 1 /\ nHist' = n
              /\ UNCHANGED <<gProt, any15, built>>
TD == /\ toCome # <<>> /\ Head(toCome) = "D"
      /\ \E y \in (IF gIdx >= MaxGroups THEN {0} ELSE IF gIdx = 1 THEN 0..15 ELSE IF gIdx = 2 THEN {0, 1, 2, 4, 7, 8, 15} ELSE {0, 7}), p \in {0, 1, 15, 2} :
           LET dev == IF (gIdx = 1 /\ p > 1) \/ p = 2 \/ (gIdx > 1 /\ p = 0) THEN 1 ELSE 0 IN
           /\ nOdd + dev <= MaxOdd /\ nOdd' = nOdd + dev
           /\ Put(y * 16 + p, Kinds(y * 16)) /\ gIdx' = gIdx + 1 /\ gProt' = p
           /\ any15' = (any15 \/ p # 0)
      /\ UNCHANGED <<nHist, built>>

Hists == CASE nHist = 0 -> {<<>>} [] nHist = 1 -> {<<0>>, <<128>>, <<77>>}
           [] nHist = 2 -> {<<128, 0>>, <<128, 129>>, <<16, 1>>}
           [] nHist = 4 -> {<<0, 5, 144, 0>>, <<128, 130, 1, 2>>, <<129, 1, 2, 3>>, <<128, 129, 7, 16>>}
           [] nHist = 6 -> {<<0, 97, 1, 3, 144, 0>>, <<0, 98, 1, 3, 144, 0>>, <<128, 131, 1, 2, 3, 0>>, <<128, 132, 1, 2, 3, 4>>}
Complete == /\ toCome = <<>> /\ ~built /\ built' = TRUE
          /\ \E h \in Hists, e \in {"ok", "bad", "cut", "extra"} :
               /\ nOdd' = nOdd + (IF e = "ok" THEN 0 ELSE 1) /\ nOdd' <= MaxOdd
               /\ nHist = 4 /\ h # <<0, 5, 144, 0>> => nOdd < MaxOdd
               /\ input' = LET body == input \o h
                               tck == XorAll(Tail(body), 0)
                               full == IF any15 THEN Append(body, tck) ELSE body
                           IN CASE e = "ok" -> full
                                [] e = "bad" -> IF any15 THEN Append(body, tck ^^ 1) ELSE SubSeq(body, 1, Len(body) - 1)
                                [] e = "cut" -> SubSeq(full, 1, Len(full) - 1)
                                [] e = "extra" -> Append(full, 0)
          /\ UNCHANGED <<toCome, gIdx, gProt, any15, nHist>>
Next == Byte0 \/ FormatByte \/ TD \/ Complete
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Law ==
    LET a == AtrParse(input) IN
    /\ a.r = 0 =>
         /\ a.p \in {0, 1} /\ a.Di > 0 /\ a.Fi > 0 /\ a.CWT >= 12 /\ a.BWT >= 11 /\ a.GT \in 11..266
         /\ Len(a.hist) <= 15
         \* complete: nothing shorter than the announced content is an ATR
         /\ LET need == 2 + Cardinality({i \in 1..4 : a.TA[i] # None}) + Cardinality({i \in 1..4 : a.TB[i] # None})
                        + Cardinality({i \in 1..4 : a.TC[i] # None}) + Cardinality({i \in 1..4 : a.TD[i] # None})
                        + a.K + (IF \E i \in 1..4 : a.TD[i] # None /\ T(a.TD[i]) # 0 THEN 1 ELSE 0)
            IN need <= Len(input) /\ \A n \in 0..(need - 1) : AtrParse(SubSeq(input, 1, n)).r # 0
    \* the check character protects the historical bytes
    /\ a.r = 0 /\ TckNeeded([i \in 1..4 |-> [D |-> a.TD[i]]]) /\ XorAll(Tail(input), 0) = 0 =>
         \A n \in (Len(input) - a.K)..(Len(input) - 1) : AtrParse([input EXCEPT ![n] = @ ^^ 1]).r # 0
    /\ EmvAtr(input) = 0 =>
         /\ a.r = 0 /\ a.p \in {0, 1}
         /\ a.p = 1 => a.IFSI >= 16 /\ a.CWI <= 5 /\ a.BWI <= 4 /\ a.edc = 0
         /\ a.spec # <<>> => a.spec[1] = a.p /\ a.spec[2] = 0
Inv == (built => Law) /\ (Emit /\ built => PrintT("OUT " \o ToJson(input)))
=============================================================================
