------------------------------- MODULE Trace -------------------------------
(* Validates a trace recorded from the implementation: every logged event   *)
(* must be the step the specification takes.  A trace holds many scenarios; *)
(* after a mismatch the rest of that scenario is skipped.                   *)
EXTENDS Strings, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

\* f: the log's filter; log: the protocol entries that must be reported next;
\* arm: the operation in which memory may run out, where it began, and whether it did
\* parked: the terminal whose turn it is not
VARIABLES evIdx, sess, misses, skipping, filt, due, armed, parked
vars == <<evIdx, sess, misses, skipping, filt, due, armed, parked>>

Unarmed == [on |-> FALSE]
Terminal(mode) == [sess |-> Session0(mode, <<>>, <<>>, <<>>), due |-> <<>>, armed |-> Unarmed]
Init == parked = Terminal("APDU") /\ filt = NoFilter /\ due = <<>> /\ armed = Unarmed /\ evIdx = 1 /\ sess = Session0("APDU", <<>>, <<>>, <<>>) /\ misses = 0 /\ skipping = FALSE

Call(ev) ==
    CASE ev.op = "put" ->
           LET fs == [i \in 1..Len(ev.fields) |-> ev.fields[i]] IN
           Ret(CASE ev.to = "cfg" -> [sess EXCEPT !.cfg = @ \o fs]
                 [] ev.to = "par" -> [sess EXCEPT !.params = @ \o fs]
                 [] ev.to = "aid" -> [sess EXCEPT !.aids = @ \o fs], 0)
      [] ev.op = "build" -> CallBuild(sess)
      [] ev.op = "select" -> CallSelect(sess, ev.idx)
      [] ev.op = "init" -> CallInit(sess, ev.pos)
      [] ev.op = "read" -> CallRead(sess)
      [] ev.op = "reset" -> CallReset(sess)
      [] ev.op = "clear" -> CallClear(sess)
      [] ev.op = "selreq" -> Ret(sess, B01(SelectionRequired(sess.apps)))
      [] ev.op = "clearapps" -> Ret([sess EXCEPT !.apps = <<>>], 0)
      [] ev.op = "reinit" -> Ret([CallClear(sess) EXCEPT !.mode = ev.mode], 0)
      [] ev.op = "tal_pse" -> CallTalPse(sess)
      [] ev.op = "tal_find" -> CallTalFind(sess)
      [] ev.op = "tal_sel" -> CallTalSel(sess, ev.aid)
      [] ev.op = "tal_gpo" -> CallTalGpo(sess, ev.nodata, ev.data)
      [] ev.op = "tal_afl" -> CallTalAfl(sess, ev.afl)
      [] ev.op = "trx" -> CallTrx(sess, ev.capdu, ev.cap)
      [] ev.op = "cmd" ->
           CallCmd(sess, CASE ev.k = "sel" -> SelectCmd(ev.data)
                           [] ev.k = "next" -> SelectNextCmd(ev.data)
                           [] ev.k = "gpo" -> GpoCmd(ev.nodata, ev.data)
                           [] ev.k = "rec" -> ReadRecordCmd(ev.sfi, ev.rec))

StateOf(x) == [apps |-> x.apps, sel |-> x.sel, icc |-> x.icc, term |-> x.term,
               params |-> x.params, aids |-> x.aids, cfg |-> x.cfg]

Mismatch(what, want) ==
    /\ PrintT(<<"MISMATCH", evIdx, what, want>>)
    /\ misses' = misses + 1 /\ skipping' = TRUE /\ UNCHANGED <<sess, filt, due, armed>>

Logged(x, q) == sess' = x /\ due' = Visible(filt, q) /\ UNCHANGED <<misses, skipping, filt>>
Fine(x) == Logged(x, <<>>) /\ armed' = Unarmed
Same == UNCHANGED <<sess, misses, skipping, filt, due, armed>>
Failed(ev) == "oom" \in DOMAIN ev

Step(ev) ==
    CASE ev.e = "init" -> /\ sess' = Session0(ev.mode, <<>>, <<>>, <<>>)
                          /\ skipping' = FALSE /\ misses' = misses /\ filt' = NoFilter /\ due' = <<>> /\ armed' = Unarmed
      [] ev.e = "p" /\ Failed(ev.o) ->
           IF ev.f \in OomFns /\ OomPure(ev.f, ev.i, ev.o) THEN Same
           ELSE /\ PrintT(<<"MISMATCH", evIdx, ev.f, "outcome of a failed allocation">>)
                /\ misses' = misses + 1 /\ UNCHANGED <<sess, skipping, filt, due, armed>>
      [] ev.e = "p" ->
           LET want == Expect(ev.f, ev.i)
               good == DOMAIN want \subseteq DOMAIN ev.o
                       /\ DOMAIN ev.o \ {"_", "s"} \subseteq DOMAIN want   \* a failed call may leave any text
                       /\ \A k \in DOMAIN want : Agree(ev.f, k, ev.o[k], want[k])
               diff == {k \in DOMAIN want : k \notin DOMAIN ev.o \/ ~Agree(ev.f, k, ev.o[k], want[k])}
           IN IF good \/ Unconstrained(ev.f, ev.i) THEN Same
              ELSE /\ PrintT(<<"MISMATCH", evIdx, ev.f, [k \in diff |-> want[k]]>>)
                   /\ misses' = misses + 1 /\ UNCHANGED <<sess, skipping, filt, due, armed>>
      [] ev.e = "eof" -> Same
      [] skipping -> Same
      [] ev.e = "dbg" ->
           filt' = Filter(ev.mask, ev.level, ev.func) /\ UNCHANGED <<sess, misses, skipping, due, armed>>
      [] ev.e = "d" ->
           IF ~Passes(filt, ev.src, ev.lvl) THEN Mismatch("log entry the filter excludes", filt)
           ELSE IF ev.type \notin Protocol THEN
                IF ev.type \in TypeMsg..TypeAtr THEN Same ELSE Mismatch("unknown type of log entry", ev.type)
           ELSE IF due = <<>> THEN Mismatch("log entry of nothing that happened", ev.type)
           ELSE IF due[1] # Ent(ev.type, ev.b) \/ ev.src # SrcTtl \/ ev.lvl # LvlCard THEN Mismatch("log entry", due[1])
           ELSE due' = Tail(due) /\ UNCHANGED <<sess, misses, skipping, filt, armed>>
      \* the other terminal's turn
      [] ev.e = "swap" ->
           LET t == IF ev.fresh THEN Terminal(ev.mode) ELSE parked IN
           sess' = t.sess /\ due' = t.due /\ armed' = t.armed /\ UNCHANGED <<misses, skipping, filt>>
      [] ev.e = "call" ->
           IF sess.phase # "idle" THEN Mismatch("call while busy", sess.phase)
           ELSE LET x == Call(ev) IN
                /\ Logged(x, IF filt.func THEN LogCall(ev, sess, x) ELSE <<>>)
                /\ armed' = IF "arm" \in DOMAIN ev THEN [on |-> TRUE, pre |-> sess, call |-> ev] ELSE Unarmed
      [] Failed(ev) /\ ~armed.on -> Mismatch("allocation failed outside an operation", ev.e)
      \* once memory ran out, the operation is judged by its outcome only
      [] Failed(ev) /\ ev.e = "x" -> Same
      [] Failed(ev) /\ ev.e = "ret" ->
           IF ~OomReturn(armed.call, armed.pre, StateOf(ev), ev.r)
           THEN Mismatch("outcome of an operation in which an allocation failed", StateOf(armed.pre))
           ELSE Fine(ReturnStep([armed.pre EXCEPT !.apps = ev.apps, !.sel = ev.sel, !.icc = ev.icc, !.term = ev.term]))
      [] ev.e = "x" ->
           IF sess.phase # "xfer" THEN Mismatch("unexpected transmission", sess.phase)
           ELSE IF due # <<>> THEN Mismatch("not logged before the transmission", due)
           ELSE IF sess.ttl.tx # ev.tx THEN Mismatch("transmission", sess.ttl.tx)
           ELSE LET x == ExchangeStep(sess, ev.rr, ev.rx) IN
                Logged(x, IF filt.func THEN LogAnswer(sess, ev.rr, ev.rx, x) ELSE <<>>) /\ UNCHANGED armed
      [] ev.e = "ret" ->
           IF sess.phase # "ret" THEN Mismatch("returned early: transmission expected", sess.ttl.tx)
           ELSE IF due # <<>> THEN Mismatch("not logged", due)
           ELSE IF sess.ret # ev.r THEN Mismatch("result", sess.ret)
           ELSE IF StateOf(sess) # StateOf(ev) THEN Mismatch("state", StateOf(sess))
           ELSE Fine(ReturnStep(sess))
      [] ev.e = "tret" ->
           IF sess.phase # "ret" THEN Mismatch("returned early: transmission expected", sess.ttl.tx)
           ELSE IF due # <<>> THEN Mismatch("not logged", due)
           ELSE IF Sign(sess.ret) # ev.r THEN Mismatch("result", sess.ret)
           ELSE IF sess.ret = 0 /\ (sess.sws # ev.sw \/ sess.rdata # ev.rapdu)
                THEN Mismatch("response", <<sess.sws, sess.rdata>>)
           ELSE Fine(ReturnStep(sess))
      [] ev.e = "end" ->
           IF sess.phase # "idle" \/ parked.sess.phase # "idle" THEN Mismatch("end while busy", sess.phase)
           ELSE IF ev.live # 0 THEN Mismatch("leaked bytes", 0)
           ELSE Fine(sess)
      [] OTHER -> Mismatch("event the specification does not have", ev.e)

Next == /\ evIdx <= Len(Trace)
        /\ evIdx' = evIdx + 1
        /\ Step(Trace[evIdx])
        /\ parked' = CASE Trace[evIdx].e = "init" -> Terminal("APDU")
                       [] Trace[evIdx].e = "swap" -> [sess |-> sess, due |-> due, armed |-> armed]
                       [] OTHER -> parked
        /\ (evIdx' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace), misses'>>))

Spec == Init /\ [][Next]_vars
=============================================================================
