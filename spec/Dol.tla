-------------------------------- MODULE Dol --------------------------------
(* Data Object Lists (EMV 4.4 Book 3, 5.4) and Application File Locators    *)
(* (EMV 4.4 Book 3, 10.2).                                                  *)
EXTENDS Ber

DolDecode(b) ==
    IF b = <<>> THEN [r |-> 0, tag |-> Tg(0), len |-> 0]
    ELSE IF Len(b) < 2 THEN [r |-> -1, tag |-> Tg(0), len |-> 0]
    ELSE LET t == TagDecode(b) IN
         IF t.r <= 0 \/ t.r >= Len(b) THEN [r |-> -1, tag |-> Tg(0), len |-> 0]
         ELSE [r |-> t.r + 1, tag |-> t.tag, len |-> At(b, t.r)]

RECURSIVE DolItems(_)
DolItems(b) ==
    LET e == DolDecode(b) IN
    IF e.r <= 0 THEN [ok |-> e.r = 0, items |-> <<>>]
    ELSE LET t == DolItems(From(b, e.r)) IN
         [ok |-> t.ok, items |-> <<[tag |-> e.tag, len |-> e.len]>> \o t.items]

\* Total length of the data a DOL asks for; -1 = empty or malformed DOL
DolLen(b) ==
    LET d == DolItems(b) IN
    IF b = <<>> \/ ~d.ok THEN -1
    ELSE SumSeq([i \in 1..Len(d.items) |-> d.items[i].len])

\* Terminal-sourced data elements of format n (EMV 4.4 Book 3, Annex A1)
TermN == { Tg(154), Tg(156), Tg(24362), Tg(24374), Tg(24407), Tg(40705), Tg(40706),
           Tg(40707), Tg(40725), Tg(40730), Tg(40737), Tg(40757), Tg(40761), Tg(40764),
           Tg(40765), Tg(40769) }

(* One requested object: the value of the first source that has it, fitted  *)
(* to the requested length.  Absent objects are zero filled; format n is    *)
(* right justified (leading zeroes / leading truncation), everything else   *)
(* left justified.                                                          *)
FirstSource(srcs, tag) ==
    LET S == {i \in 1..Len(srcs) : Has(srcs[i], tag)} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Fit(tag, v, n) ==
    IF Len(v) >= n
    THEN IF tag \in TermN THEN SubSeq(v, Len(v) - n + 1, Len(v)) ELSE SubSeq(v, 1, n)
    ELSE IF tag \in TermN THEN Zeros(n - Len(v)) \o v ELSE v \o Zeros(n - Len(v))
DolObject(srcs, e) ==
    LET k == FirstSource(srcs, e.tag) IN
    IF k = 0 THEN Zeros(e.len) ELSE Fit(e.tag, ValOf(srcs[k], e.tag), e.len)

RECURSIVE DolConcat(_, _)
DolConcat(srcs, items) ==
    IF items = <<>> THEN <<>>
    ELSE DolObject(srcs, items[1]) \o DolConcat(srcs, Tail(items))

\* [r |-> sign, data]
RECURSIVE DolOverflows(_, _)
DolOverflows(items, room) ==
    IF items = <<>> THEN FALSE
    ELSE items[1].len > room \/ DolOverflows(Tail(items), room - items[1].len)
DolBuild(b, srcs, cap) ==
    IF b = <<>> \/ srcs = <<>> \/ cap = 0 THEN [r |-> -1, data |-> <<>>]
    ELSE LET d == DolItems(b) IN
         IF DolOverflows(d.items, cap) THEN [r |-> 1, data |-> <<>>]
         ELSE IF ~d.ok THEN [r |-> -1, data |-> <<>>]
         ELSE [r |-> 0, data |-> DolConcat(srcs, d.items)]

-----------------------------------------------------------------------------
AflInit(b) ==
    IF b = <<>> THEN -1
    ELSE IF Len(b) % 4 # 0 \/ Len(b) > 252 THEN 1 ELSE 0

AflEntryOk(e) ==
    /\ e[1] % 8 = 0
    /\ e[1] \div 8 \in 1..30
    /\ e[2] # 0
    /\ e[3] >= e[2]
    /\ e[4] <= e[3] - e[2] + 1
AflEntry(e) == [sfi |-> e[1] \div 8, first |-> e[2], last |-> e[3], oda |-> e[4]]

\* Entries up to the first invalid one
RECURSIVE AflItems(_)
AflItems(b) ==
    IF b = <<>> THEN [ok |-> TRUE, items |-> <<>>]
    ELSE LET e == SubSeq(b, 1, 4) IN
         IF ~AflEntryOk(e) THEN [ok |-> FALSE, items |-> <<>>]
         ELSE LET t == AflItems(From(b, 4)) IN
              [ok |-> t.ok, items |-> <<AflEntry(e)>> \o t.items]
=============================================================================
