------------------------------- MODULE MCApps ------------------------------
(* Candidate lists as containers: every sequence of operations up to a      *)
(* length over applications with every kind of priority.                    *)
EXTENDS Pure, TLC, Json

CONSTANTS MaxOps, Emit, Wide

VARIABLES appList, path
vars == <<appList, path>>

Fci(x, prio) == Enc(<<111>>, Enc(<<132>>, <<160, 0, 0, 0, x>>) \o Enc(<<165>>, Enc(<<80>>, <<65, x>>) \o prio))
P(n) == Enc(<<135>>, <<n>>)
Ops == { [op |-> "push", b |-> Fci(49, <<>>)], [op |-> "push", b |-> Fci(50, P(1))], [op |-> "push", b |-> Fci(51, P(130))],
         [op |-> "push", b |-> Fci(52, P(0))], [op |-> "push", b |-> Fci(53, P(17))],
         [op |-> "pop"], [op |-> "rm", n |-> 1], [op |-> "sort"], [op |-> "req"] }
       \cup (IF Wide THEN { [op |-> "rm", n |-> 0], [op |-> "rm", n |-> 2], [op |-> "empty"], [op |-> "clear"], [op |-> "push", b |-> Fci(54, P(15))],
                            [op |-> "push", b |-> Fci(55, P(128))] } ELSE {})
Init == appList = <<>> /\ path = <<>>
Next == /\ Len(path) < MaxOps
        /\ \E o \in Ops : LET x == AppOp(appList, o) IN appList' = x.L /\ path' = Append(path, o)
Spec == Init /\ [][Next]_vars

\* Sorting permutes, orders by priority and is stable
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) :
    Cardinality({j \in 1..Len(p) : p[j] = p[i]}) = Cardinality({j \in 1..Len(q) : q[j] = p[i]})
Laws == LET S == SortApps(appList) IN
        /\ SameBag(appList, S)
        /\ \A i, j \in 1..Len(S) : i < j => Rank(S[i]) <= Rank(S[j])
        /\ SortApps(S) = S
        /\ \A k \in 1..16 : SelectSeq(S, LAMBDA a : Rank(a) = k) = SelectSeq(appList, LAMBDA a : Rank(a) = k)
Emitted == Emit /\ Len(path) = MaxOps => PrintT("OUT " \o ToJson(path))
Inv == Laws /\ Emitted
=============================================================================
