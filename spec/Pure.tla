-------------------------------- MODULE Pure -------------------------------
(* Single-call operations of the library: Expect(f, i) is what operation f  *)
(* must answer for input i, as a record with the fields the driver logs.    *)
EXTENDS Session

Neg(r) == IF r < 0 THEN -1 ELSE r
B01(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Field lists: a pair of lists <<A, B>> and a sequence of operations *)
ListOp(A, B, o) ==
    CASE o.op = "push"  -> [A |-> Append(A, TlvRec(o.t, o.v, o.f)), B |-> B, r |-> 0, got |-> <<>>]
      [] o.op = "bpush" -> [A |-> A, B |-> Append(B, TlvRec(o.t, o.v, o.f)), r |-> 0, got |-> <<>>]
      [] o.op = "pop"   -> IF A = <<>> THEN [A |-> A, B |-> B, r |-> 0, got |-> <<>>]
                           ELSE [A |-> Tail(A), B |-> B, r |-> 1, got |-> <<Head(A)>>]
      [] o.op = "find"  -> IF Has(A, o.t) THEN [A |-> A, B |-> B, r |-> 1, got |-> <<A[FindIdx(A, o.t)]>>]
                           ELSE [A |-> A, B |-> B, r |-> 0, got |-> <<>>]
      [] o.op = "dup"   -> [A |-> A, B |-> B, r |-> B01(HasDup(A)), got |-> <<>>]
      [] o.op = "append" -> [A |-> A \o B, B |-> <<>>, r |-> 0, got |-> <<>>]
      [] o.op = "empty" -> [A |-> A, B |-> B, r |-> B01(A = <<>>), got |-> <<>>]
      [] o.op = "parse" -> LET p == ParseFlat(o.v) IN
                           [A |-> A \o p.list, B |-> B, r |-> IF p.ok THEN 0 ELSE 1, got |-> <<>>]
      [] o.op = "clear" -> [A |-> <<>>, B |-> B, r |-> 0, got |-> <<>>]
RECURSIVE ListRun(_, _, _)
ListRun(A, B, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET x == ListOp(A, B, Head(ops)) IN <<x>> \o ListRun(x.A, x.B, Tail(ops))

AppOp(L, o) ==
    CASE o.op = "push" -> LET a == AppFromFci(o.b) IN
                          IF a.ok THEN [L |-> Append(L, a), r |-> 1, got |-> <<>>]
                          ELSE [L |-> L, r |-> 0, got |-> <<>>]
      [] o.op = "pop"  -> IF L = <<>> THEN [L |-> L, r |-> 0, got |-> <<>>]
                          ELSE [L |-> Tail(L), r |-> 1, got |-> <<Head(L)>>]
      [] o.op = "rm"   -> IF o.n >= Len(L) THEN [L |-> L, r |-> 0, got |-> <<>>]
                          ELSE [L |-> RemoveAt0(L, o.n), r |-> 1, got |-> <<L[o.n + 1]>>]
      [] o.op = "sort" -> [L |-> SortApps(L), r |-> 0, got |-> <<>>]
      [] o.op = "req"  -> [L |-> L, r |-> B01(SelectionRequired(L)), got |-> <<>>]
      [] o.op = "empty" -> [L |-> L, r |-> B01(L = <<>>), got |-> <<>>]
      [] o.op = "clear" -> [L |-> <<>>, r |-> 0, got |-> <<>>]
RECURSIVE AppRun(_, _)
AppRun(L, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET x == AppOp(L, Head(ops)) IN <<x>> \o AppRun(x.L, Tail(ops))

-----------------------------------------------------------------------------
CaseCode(b) ==      \* enum iso7816_apdu_case_t
    LET k == CapduCase(b) IN
    CASE k = "bad" -> -1 [] k = "1" -> 0 [] k = "2S" -> 1 [] k = "2E" -> 2 [] k = "3S" -> 3
      [] k = "3E" -> 4 [] k = "4S" -> 5 [] k = "4E" -> 6

ExpectBer(b) ==
    LET e == BerDecode(b) IN
    [r |-> e.r, tag |-> e.tag, val |-> e.val, off |-> e.off, flags |-> e.flags]
ExpectBerIt(b) ==
    LET e == BerItems(b) IN
    [r |-> IF e.ok THEN 0 ELSE -1,
     items |-> [i \in 1..Len(e.items) |-> [tag |-> e.items[i].tag, val |-> e.items[i].val]]]
ExpectFlat(b) ==
    LET p == ParseFlat(b) IN [r |-> IF p.ok THEN 0 ELSE 1, list |-> p.list, live |-> 0]

MaxArcs == 10
ExpectOid(b) ==
    IF b = <<>> \/ Len(b) >= 4 * MaxArcs THEN [r |-> -1, arcs |-> <<>>]
    ELSE LET ids == SubIds(b, <<>>) IN
         IF ~ids[Len(ids)].done THEN [r |-> -1, arcs |-> <<>>]
         ELSE IF Len(ids) + 1 > MaxArcs THEN [r |-> -1, arcs |-> <<>>]
         ELSE [r |-> 0, arcs |-> OidOf(b)]

ExpectDol(b) ==
    LET d == DolItems(b) IN
    [r |-> IF ~d.ok THEN -1 ELSE 0, items |-> d.items, len |-> DolLen(b)]

ExpectAfl(b) ==
    LET r0 == AflInit(b)
        a == AflItems(b)
    IN IF r0 # 0 THEN [r0 |-> r0, r |-> 0, items |-> <<>>]
       ELSE [r0 |-> 0, r |-> IF a.ok THEN 0 ELSE -1, items |-> a.items]

ExpectFmt(k, b, cap) ==
    IF cap = 0 THEN [r |-> -1, s |-> <<>>, nul |-> 0]
    ELSE IF b = <<>> THEN [r |-> -1, s |-> <<>>, nul |-> 0]
    ELSE CASE k = "nonctl" -> [r |-> 0, s |-> NonControlStr(b, cap), nul |-> 1]
           [] k = "alnumsp" -> [r |-> 0, s |-> AlnumSpaceStr(b, cap), nul |-> 1]
           [] k = "bstr" -> [r |-> 0, s |-> HexStr(b, cap), nul |-> 1]

CoreFns == {"tag", "ber", "berit", "flat", "oid", "case", "dol", "dolb", "afl", "lops", "aops",
            "apppse", "appfci", "fmt", "u2n", "u2b", "n2u", "b2u", "iso8859"}
ExpectCore(f, i) ==
    CASE f = "tag" -> LET t == TagDecode(i.b) IN [r |-> t.r, tag |-> t.tag]
      [] f = "ber" -> ExpectBer(i.b)
      [] f = "berit" -> ExpectBerIt(i.b)
      [] f = "flat" -> ExpectFlat(i.b)
      [] f = "oid" -> ExpectOid(i.b)
      [] f = "case" -> [r |-> CaseCode(i.b)]
      [] f = "dol" -> ExpectDol(i.b)
      [] f = "dolb" -> DolBuild(i.b, [k \in 1..Len(i.srcs) |-> i.srcs[k].l], i.cap)
      [] f = "afl" -> ExpectAfl(i.b)
      [] f = "lops" -> [res |-> ListRun(<<>>, <<>>, i.ops), live |-> 0]
      [] f = "aops" -> [res |-> AppRun(<<>>, i.ops), live |-> 0]
      [] f = "apppse" -> LET a == AppFromPse(i.pse, i.b) IN
                         [app |-> a, sup |-> B01(a.ok /\ IsSupported(a.aid, i.aids)), live |-> 0]
      [] f = "appfci" -> LET a == AppFromFci(i.b) IN
                         [app |-> a, sup |-> B01(a.ok /\ IsSupported(a.aid, i.aids)), live |-> 0]
      [] f = "fmt" -> ExpectFmt(i.k, i.b, i.cap)
      [] f = "u2n" -> [ok |-> B01(i.len > 0), same |-> 1, b |-> UintToN(i.u, i.len)]
      [] f = "u2b" -> [ok |-> B01(i.len > 0), same |-> 1, b |-> UintToB(i.u, i.len)]
      [] f = "n2u" -> IF i.b = <<>> THEN [r |-> -1, u |-> <<0, 0>>]
                      ELSE LET n == NToUint(i.b) IN [r |-> IF n.ok THEN 0 ELSE 1, u |-> n.u]
      [] f = "b2u" -> IF i.b = <<>> THEN [r |-> -1, u |-> <<0, 0>>]
                      ELSE IF Len(i.b) > 4 THEN [r |-> -1, u |-> <<0, 0>>]
                      ELSE [r |-> 0, u |-> U32FromBytes(i.b)]
      [] f = "iso8859" -> LET x == ToUtf8(i.page, i.b, i.cap) IN
                          [sup |-> B01(Iso8859Supported(i.page)), r |-> x.r, s |-> x.s,
                           nul |-> B01(x.r = 0)]
=============================================================================
