------------------------------- MODULE MCOom -------------------------------
(* The kernel with memory running out inside any operation: every outcome   *)
(* the relation allows is taken, and whatever is done afterwards still      *)
(* meets the invariants of the session.                                     *)
EXTENDS MCKernel, Oom

VARIABLES opCall, fails

OInit == MCInit /\ opCall = [op |-> ""] /\ fails = 0
CallOf(h) == LET e == h[Len(h)] IN [op |-> e.k, idx |-> e.x, pos |-> e.x]
ONext ==
    \/ CallAny /\ opCall' = CallOf(path') /\ UNCHANGED fails
    \/ (sess.phase = "xfer" /\ \E rx \in Replies : DoExchange(0, rx)) /\ UNCHANGED <<opCall, fails>>
    \/ DoReturn /\ UNCHANGED <<opCall, fails>>
    \/ /\ fails < 1 /\ sess.phase \in {"xfer", "ret"} /\ opCall.op \in {"build", "select", "init", "read"}
       /\ sess.ret # ErrInvalidParam
       /\ \E x \in OomOutcomes(opCall, before, sess) : sess' = ReturnStep(x)
       /\ fails' = fails + 1 /\ nx' = 0
       /\ UNCHANGED <<path, nops, before, opCall>>
OSpec == OInit /\ [][ONext]_<<mcvars, opCall, fails>>
OView == <<View, opCall, fails>>

\* The outcomes are among those the relation allows
Related == fails' > fails =>
    \E x \in OomOutcomes(opCall, before, sess) : sess' = ReturnStep(x) /\ OomReturn(opCall, before, sess', x.ret)
RelatedOk == Assert(Related, "outcome outside the relation")
\* A failed operation leaves what belongs to the terminal and the selection usable
Usable == sess.phase = "idle" =>
    /\ sess.sel.has => Len(sess.sel.aid) <= 16
    /\ sess.icc # <<>> => sess.term # <<>>
=============================================================================
