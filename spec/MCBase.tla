------------------------------- MODULE MCBase ------------------------------
(* Exhaustive exploration of the session machine against a card drawn from  *)
(* small reply sets.  hist is the path (not part of the VIEW); every        *)
(* explored transition is printed as one replayable behaviour.              *)
EXTENDS Session, TLC, Json, IOUtils

CONSTANTS MaxOps, MaxX, Emit

VARIABLES sess, path, nops, nx, before
mcvars == <<sess, path, nops, nx, before>>
View == <<sess, nops, nx, before>>

\* sequence concatenation of all elements
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

Ok(d) == d \o <<144, 0>>
St(a, b) == <<a, b>>

Rec(k, x) == [k |-> k, x |-> x]

StartWith(mode, cfg, params, aids) ==
    /\ sess = Session0(mode, cfg, params, aids)
    /\ path = << [k |-> "S", mode |-> mode, cfg |-> cfg, params |-> params, aids |-> aids] >>
    /\ nops = 0 /\ nx = 0 /\ before = sess

DoCall(entry, after) ==
    /\ sess.phase = "idle" /\ nops < MaxOps
    /\ sess' = after /\ nops' = nops + 1 /\ nx' = 0 /\ before' = sess
    /\ path' = Append(path, entry)

DoExchange(rr, rx) ==
    /\ sess.phase = "xfer" /\ nx < MaxX
    /\ sess' = ExchangeStep(sess, rr, rx) /\ nx' = nx + 1
    /\ path' = Append(path, [k |-> "x", rr |-> rr, rx |-> rx])
    /\ UNCHANGED <<nops, before>>

DoReturn ==
    /\ sess.phase = "ret"
    /\ sess' = ReturnStep(sess) /\ nx' = 0
    /\ UNCHANGED <<nops, path, before>>

\* ACTION_CONSTRAINT: print the behaviour ending with this transition
EmitEdge == (Emit /\ path' # path) => PrintT("EDGE " \o ToJson(path'))

-----------------------------------------------------------------------------
(* Design invariants of the session, stated over the state at return *)
At_(op) == sess.phase = "ret" /\ sess.op = op
SortedApps(q) == \A i, j \in 1..Len(q) : i < j => Rank(q[i]) <= Rank(q[j])

TypeOK == /\ sess.phase \in {"idle", "xfer", "ret"}
          /\ sess.phase = "xfer" => ~sess.ttl.done /\ sess.ttl.tx # <<>> /\ Len(sess.ttl.tx) <= 261

\* A candidate list is offered only when non-empty, sorted, and (from the
\* directory) restricted to what the terminal supports
InvBuild ==
    At_("build") =>
        /\ (sess.ret = 0) => sess.apps # <<>> /\ SortedApps(sess.apps)
        /\ (sess.ret = 0 /\ sess.task.k = "pse") => \A i \in 1..Len(sess.apps) : IsSupported(sess.apps[i].aid, sess.aids)
        /\ (sess.ret = OutNotAccepted) <=> (sess.task.rc >= 0 /\ sess.apps = <<>>)

InvSelect ==
    At_("select") =>
        /\ (sess.ret = 0) <=> sess.sel.has
        /\ sess.sel.has => \E i \in 1..Len(before.apps) : before.apps[i].aid = sess.sel.aid
        /\ sess.ret # ErrInvalidParam => Len(sess.apps) = Len(before.apps) - 1
        /\ (sess.ret = OutTryAgain) => sess.apps # <<>>
        /\ (sess.ret = OutNotAccepted) => sess.apps = <<>>

InvInit ==
    At_("init") =>
        /\ (sess.ret = 0) <=> (Has(sess.icc, T82) /\ Has(sess.icc, T94) /\ sess.icc # <<>>)
        /\ (sess.ret # 0) => sess.icc = <<>>
        /\ Len(sess.term) = 4 /\ ValOf(sess.term, T9F06) = before.sel.aid

InvRead ==
    At_("read") =>
        /\ (sess.ret = 0) => /\ \A t \in Mandatory : Has(sess.icc, t)
                             /\ IsPrefixOf(before.icc, sess.icc)
                             /\ ~HasDup(From(sess.icc, Len(before.icc)))
        /\ (sess.ret # 0) => sess.icc = before.icc

\* No operation changes what belongs to the terminal
InvTerminal == (sess.phase = "ret" /\ sess.op \in {"build", "select", "init", "read"}) =>
    sess.cfg = before.cfg /\ sess.params = before.params /\ sess.aids = before.aids

SessionInv == TypeOK /\ InvBuild /\ InvSelect /\ InvInit /\ InvRead /\ InvTerminal
=============================================================================
