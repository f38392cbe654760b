-------------------------------- MODULE Oom --------------------------------
(* What an operation may do when an allocation fails inside it.  Which      *)
(* allocation it was is not modelled; the relation says what is kept, what  *)
(* may be missing and that the operation does not claim to have succeeded.  *)
EXTENDS Pure

\* Operations which may skip what they could not store and go on
Skips == {"build", "tal_pse", "tal_find"}

\* An application as it would be created from its own fields
WellFormed(a) ==
    /\ a.prio = PrioByte(a.tlvs) % 16
    /\ a.conf = IF PrioByte(a.tlvs) >= 128 THEN 1 ELSE 0
    /\ \E t \in {T4F, T84} : Has(a.tlvs, t) /\ ValOf(a.tlvs, t) = a.aid

Sorted(q) == \A i, j \in 1..Len(q) : i < j => Rank(q[i]) <= Rank(q[j])

Parts == {"apps", "sel", "icc", "term", "params", "aids", "cfg"}
Kept(pre, st, parts) == \A k \in parts : st[k] = pre[k]

\* st, r: the state and result at the return of an operation which began in pre
OomReturn(call, pre, st, r) ==
    LET op == call.op
        same(changed) == Kept(pre, st, Parts \ changed)
    IN
    /\ op \notin Skips => r # 0
    /\ CASE op \in Skips ->
              /\ same({"apps"})
              /\ \A i \in 1..Len(st.apps) : WellFormed(st.apps[i])
              /\ op = "build" /\ r = 0 => st.apps # <<>> /\ Sorted(st.apps)
              /\ op = "tal_pse" /\ r # 0 => st.apps = <<>>
              /\ op = "tal_find" => Len(st.apps) >= Len(pre.apps) /\ IsPrefixOf(pre.apps, st.apps)
         [] op = "select" ->
              /\ same({"apps", "sel"})
              /\ st.sel = NoSel
              /\ call.idx < Len(pre.apps) /\ st.apps = RemoveAt0(pre.apps, call.idx)
         [] op = "tal_sel" -> same({"sel"}) /\ st.sel = NoSel
         [] op = "init" ->
              /\ same({"icc", "term"})
              /\ st.icc = <<>>
              /\ IsPrefixOf(st.term, TermFields(pre, call.pos))
         [] op \in {"read", "tal_gpo"} -> same({})
         [] op = "tal_afl" -> same({"icc"}) /\ IsPrefixOf(pre.icc, st.icc)
         [] OTHER -> FALSE                     \* the operation needs no allocation

\* Every outcome the relation allows, for operations of the kernel (MCOom)
RECURSIVE Thinned(_)
Thinned(q) == IF q = <<>> THEN {<<>>}
              ELSE LET t == Thinned(Tail(q)) IN t \cup {<<Head(q)>> \o x : x \in t}
OomOutcomes(call, pre, cur) ==
    CASE call.op = "build" ->
           { Ret([cur EXCEPT !.apps = SortApps(q)], IF q = <<>> THEN r ELSE 0) :
               q \in Thinned(cur.task.apps), r \in {OutNotAccepted, OutCardError} }
      [] call.op = "select" -> { Ret([pre EXCEPT !.apps = RemoveAt0(@, call.idx), !.sel = NoSel, !.op = "select"],
                                     IF Len(pre.apps) > 1 THEN OutTryAgain ELSE OutNotAccepted) }
      [] call.op = "init" ->
           { Ret([pre EXCEPT !.icc = <<>>, !.op = "init", !.term = SubSeq(TermFields(pre, call.pos), 1, n)], ErrInternal) : n \in 0..4 }
      [] call.op = "read" -> { Ret([pre EXCEPT !.op = "read"], ErrInternal) }

(* Single calls: [o] is what was observed, i what was given.                *)
OomFns == {"flat", "apppse", "appfci", "lops"}
RECURSIVE OomOps(_, _, _, _)
OomOps(A, B, ops, res) ==
    IF ops = <<>> THEN res = <<>>
    ELSE LET o == Head(ops)
             x == Head(res)
         IN /\ res # <<>>
            /\ IF "oom" \notin DOMAIN x THEN
                    LET e == ListOp(A, B, o) IN e.A = x.A /\ e.B = x.B /\ e.r = x.r /\ e.got = x.got
               ELSE /\ x.r # 0 /\ x.B = B /\ x.got = <<>>
                    /\ CASE o.op \in {"push", "bpush"} -> x.A = A
                         [] o.op = "parse" -> /\ IsPrefixOf(A, x.A)
                                              /\ IsPrefixOf(x.A, A \o ParseFlat(o.v).list)
                         [] OTHER -> FALSE
            /\ OomOps(x.A, x.B, Tail(ops), Tail(res))
OomPure(f, i, o) ==
    CASE f = "flat" -> o.r # 0 /\ o.live = 0 /\ IsPrefixOf(o.list, ParseFlat(i.b).list)
      [] f \in {"apppse", "appfci"} -> ~o.app.ok /\ o.sup = 0 /\ o.live = 0
      [] f = "lops" -> o.live = 0 /\ OomOps(<<>>, <<>>, i.ops, o.res)
=============================================================================
