------------------------------ MODULE MCLists ------------------------------
(* Field lists as containers: every sequence of list operations up to a     *)
(* length.  hist is the sequence; it is replayed on the implementation.     *)
EXTENDS Pure, TLC, Json

CONSTANTS MaxOps, Emit, Wide

VARIABLES listA, listB, path
vars == <<listA, listB, path>>

T1 == Tg(130)
T2 == Tg(40706)
T3 == <<57345, 33155>>
Ops == { [op |-> "push", t |-> T1, v |-> <<1>>, f |-> 0], [op |-> "push", t |-> T2, v |-> <<>>, f |-> 1],
         [op |-> "bpush", t |-> T1, v |-> <<2, 3>>, f |-> 0],
         [op |-> "pop"], [op |-> "find", t |-> T1], [op |-> "find", t |-> T2], [op |-> "dup"], [op |-> "append"],
         [op |-> "parse", v |-> <<90, 1, 7>>], [op |-> "clear"] }
       \cup (IF Wide THEN { [op |-> "empty"], [op |-> "bpush", t |-> T3, v |-> <<4>>, f |-> 255],
                            [op |-> "parse", v |-> <<90, 1, 7, 130, 1>>], [op |-> "parse", v |-> <<48, 4, 130, 0, 90, 0, 90, 0>>] } ELSE {})
Init == listA = <<>> /\ listB = <<>> /\ path = <<>>
Next == /\ Len(path) < MaxOps
        /\ \E o \in Ops : LET x == ListOp(listA, listB, o) IN
              listA' = x.A /\ listB' = x.B /\ path' = Append(path, o)
Spec == Init /\ [][Next]_vars

\* Find returns the first occurrence; order of insertion is kept; append moves everything
Laws == /\ \A t \in {T1, T2} : Has(listA, t) => \A i \in 1..(FindIdx(listA, t) - 1) : listA[i].t # t
        /\ HasDup(listA) <=> \E i, j \in 1..Len(listA) : i # j /\ listA[i].t = listA[j].t
        /\ Len(path) > 0 /\ path[Len(path)].op = "append" => listB = <<>>
Emitted == Emit /\ Len(path) = MaxOps => PrintT("OUT " \o ToJson(path))
Inv == Laws /\ Emitted
=============================================================================
