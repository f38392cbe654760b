-------------------------------- MODULE App --------------------------------
(* EMV applications: creation from directory entries and FCIs, matching     *)
(* against the terminal's AIDs, candidate list order.                       *)
EXTENDS Ber, Fmt, Iso8859

T4F == Tg(79)        \* ADF Name
T50 == Tg(80)        \* Application Label
T84 == Tg(132)       \* DF Name
T87 == Tg(135)       \* Application Priority Indicator
T88 == Tg(136)       \* SFI
T9F11 == Tg(40721)   \* Issuer Code Table Index
T9F12 == Tg(40722)   \* Application Preferred Name
T9F38 == Tg(40760)   \* PDOL

NoApp == [ok |-> FALSE]

NameCap == 33

\* Issuer Code Table Index that can be used, or 0
CodeTable(list) ==
    IF Has(list, T9F11) /\ Len(ValOf(list, T9F11)) = 1 /\ Iso8859Supported(ValOf(list, T9F11)[1])
    THEN ValOf(list, T9F11)[1] ELSE 0

(* Display name: Application Preferred Name if its code table is usable,    *)
(* otherwise Application Label, otherwise the AID in hexadecimal.           *)
(* Result [ok, s].                                                          *)
PreferredName(page, list) ==
    IF page = 0 \/ ~Has(list, T9F12) THEN [r |-> 1, s |-> <<>>]
    ELSE LET raw == NonControlStr(ValOf(list, T9F12), 17) IN ToUtf8(page, raw, NameCap)
DisplayName(idxlist, list, aid) ==
    LET p == PreferredName(CodeTable(idxlist), list) IN
    IF p.r = 0 THEN [ok |-> TRUE, s |-> p.s]
    ELSE IF Has(list, T50) THEN [ok |-> TRUE, s |-> AlnumSpaceStr(ValOf(list, T50), NameCap)]
    ELSE IF aid = <<>> THEN [ok |-> FALSE, s |-> <<>>]
    ELSE [ok |-> TRUE, s |-> HexStr(aid, NameCap)]

PrioByte(list) == IF Has(list, T87) /\ ValOf(list, T87) # <<>> THEN ValOf(list, T87)[1] ELSE 0

MkApp(idxlist, list, aidtag) ==
    IF ~Has(list, aidtag) THEN NoApp
    ELSE LET aid == ValOf(list, aidtag)
             nm == DisplayName(idxlist, list, aid)
         IN IF ~nm.ok THEN NoApp
            ELSE [ok |-> TRUE, aid |-> aid, name |-> nm.s,
                  prio |-> PrioByte(list) % 16, conf |-> IF PrioByte(list) >= 128 THEN 1 ELSE 0,
                  tlvs |-> list]

\* From the content of an Application Template (61); code table index of the PSE
AppFromPse(pselist, entry) ==
    LET p == ParseFlat(entry) IN
    IF ~p.ok THEN NoApp ELSE MkApp(pselist, p.list, T4F)

\* From an FCI: exactly one FCI template (6F) with a DF Name
AppFromFci(fci) ==
    LET e == BerDecode(fci) IN
    IF e.r <= 0 \/ e.r # Len(fci) \/ e.tag # Tg(111) THEN NoApp
    ELSE LET p == ParseFlat(e.val) IN
         IF ~p.ok THEN NoApp ELSE MkApp(p.list, p.list, T84)

\* EMV 4.4 Book 1, 12.3.1: flag 0 = exact match, 1 = partial match
Supports(s, aid) ==
    \/ s.f = 0 /\ s.v = aid
    \/ s.f = 1 /\ IsPrefixOf(s.v, aid)
IsSupported(aid, aids) == \E i \in 1..Len(aids) : Supports(aids[i], aid)

(* Candidate order: priority 1 first, unprioritised last, equal priorities  *)
(* in discovery order.                                                      *)
Rank(a) == IF a.prio = 0 THEN 16 ELSE a.prio
RECURSIVE InsertApp(_, _)
InsertApp(sorted, a) ==
    IF sorted = <<>> THEN <<a>>
    ELSE IF Rank(a) < Rank(Head(sorted)) THEN <<a>> \o sorted
    ELSE <<Head(sorted)>> \o InsertApp(Tail(sorted), a)
SortApps(apps) == FoldLeft(LAMBDA acc, a : InsertApp(acc, a), <<>>, apps)

SelectionRequired(apps) == Len(apps) > 1 \/ \E i \in 1..Len(apps) : apps[i].conf = 1
=============================================================================
