----------------------------- MODULE PcscTrace -----------------------------
(* Validates a trace of the PC/SC layer: calls by the user, requests to the *)
(* resource manager with its answers, results.                              *)
EXTENDS Pcsc, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES evIdx, layer, misses, skipping
vars == <<evIdx, layer, misses, skipping>>
Init == evIdx = 1 /\ layer = Pcsc0 /\ misses = 0 /\ skipping = FALSE

Mismatch(what, want) ==
    /\ PrintT(<<"MISMATCH", evIdx, what, want>>)
    /\ misses' = misses + 1 /\ skipping' = TRUE /\ layer' = layer
Fine(x) == layer' = x /\ UNCHANGED <<misses, skipping>>

\* Everything the request fixes (a capacity of -1 fixes nothing)
Asked(want, q) == /\ DOMAIN want \subseteq DOMAIN q
                  /\ \A f \in DOMAIN want : want[f] = q[f] \/ (f = "cap" /\ want[f] = -1)
Step(ev) ==
    CASE ev.e = "init" -> layer' = Pcsc0 /\ skipping' = FALSE /\ misses' = misses
      [] ev.e = "eof" \/ skipping -> UNCHANGED <<layer, misses, skipping>>
      [] ev.e = "call" ->
           IF layer.phase # "idle" THEN Mismatch("call while busy", layer.phase) ELSE Fine(PcscCall(layer, ev))
      [] ev.e = "x" ->
           IF layer.phase # "xfer" THEN Mismatch("unexpected request", layer.ret)
           ELSE IF layer.want.fn # ev.q.fn \/ ~Asked(layer.want, ev.q) THEN Mismatch("request", layer.want)
           ELSE Fine(PcscAnswer(layer, ev.o))
      [] ev.e = "ret" ->
           IF layer.phase # "ret" THEN Mismatch("returned early: request expected", layer.want)
           ELSE IF layer.ret # ev.r THEN Mismatch("result", layer.ret)
           ELSE IF (layer.ret = 0 \/ layer.op = "names") /\ layer.out # ev.v THEN Mismatch("value", layer.out)
           ELSE Fine(PcscReturn(layer))
      [] ev.e = "end" ->
           IF layer.phase # "idle" THEN Mismatch("end while busy", layer.phase)
           ELSE IF ev.live # 0 THEN Mismatch("leaked blocks", 0)
           ELSE Fine(layer)
      [] OTHER -> Mismatch("event the specification does not have", ev.e)

Next == /\ evIdx <= Len(Trace)
        /\ evIdx' = evIdx + 1
        /\ Step(Trace[evIdx])
        /\ (evIdx' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace), misses'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
