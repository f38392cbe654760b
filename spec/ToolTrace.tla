----------------------------- MODULE ToolTrace -----------------------------
(* Validates a trace of emv-tool: the requests it makes, what it says       *)
(* before each of them, what it logs, and how it ends.                      *)
EXTENDS Tool, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES evIdx, tool, regs, misses, skipping
vars == <<evIdx, tool, regs, misses, skipping>>
Idle == [at |-> "none"]
Init == evIdx = 1 /\ tool = Idle /\ regs = 0 /\ misses = 0 /\ skipping = FALSE

Mismatch(what, want) ==
    /\ PrintT(<<"MISMATCH", evIdx, what, want>>)
    /\ misses' = misses + 1 /\ skipping' = TRUE /\ UNCHANGED <<tool, regs>>
Fine(x) == tool' = x /\ UNCHANGED <<misses, skipping, regs>>

Asked(want, q) == /\ DOMAIN want \subseteq DOMAIN q
                  /\ \A f \in DOMAIN want : want[f] = q[f] \/ (f = "cap" /\ want[f] = -1 /\ q[f] >= RapduMax)
                                            \/ (f = "cap" /\ want.tx = P!GetUid)
Said == <<tool.ls, tool.part>>
Step(ev) ==
    CASE ev.e = "tool" -> tool' = ToolStart(ev) /\ regs' = ev.init /\ skipping' = FALSE /\ misses' = misses
      [] ev.e = "eof" -> IF ~skipping /\ tool.at \notin {"none", "exit", "open"} THEN Mismatch("ended early", tool.at) ELSE Fine(tool)
      [] skipping \/ tool.at = "open" -> UNCHANGED <<tool, regs, misses, skipping>>
      [] ev.e = "strings" ->
           IF tool.at # "strings" THEN Mismatch("registers loaded", tool.at)
           ELSE IF ev.iso # tool.o.iso \/ ev.mcc # tool.o.mcc THEN Mismatch("registers", <<tool.o.iso, tool.o.mcc>>)
           ELSE Fine(ToolStrings(tool, regs))
      [] tool.at \in {"none", "strings"} -> Mismatch("registers are to be loaded", ev.e)
      [] ev.e = "d" ->
           IF ~Passes(tool.f, ev.src, ev.lvl) THEN Mismatch("log entry the filter excludes", tool.f)
           ELSE IF ev.verb # tool.o.verb THEN Mismatch("form of log entries", tool.o.verb)
           ELSE IF ev.type \notin Protocol THEN
                IF ev.type \in TypeMsg..TypeAtr THEN Fine(tool) ELSE Mismatch("unknown type of log entry", ev.type)
           ELSE IF tool.log = <<>> THEN Mismatch("log entry of nothing that happened", ev.type)
           ELSE IF tool.log[1] # Ent(ev.type, ev.b) \/ ev.src # SrcTtl \/ ev.lvl # LvlCard THEN Mismatch("log entry", tool.log[1])
           ELSE Fine([tool EXCEPT !.log = Tail(@)])
      [] ev.e = "x" ->
           IF tool.at = "exit" THEN Mismatch("request after the end", ev.q.fn)
           ELSE IF tool.log # <<>> THEN Mismatch("not logged before the request", tool.log)
           ELSE IF tool.p.want.fn # ev.q.fn \/ ~Asked(tool.p.want, ev.q) THEN Mismatch("request", tool.p.want)
           ELSE IF ~SaidAgrees(ev.out, tool) THEN Mismatch("said", Said)
           ELSE Fine(ToolAnswer(tool, ev.o))
      [] ev.e = "exit" ->
           IF tool.at # "exit" THEN Mismatch("ended early: request expected", tool.p.want)
           ELSE IF tool.log # <<>> THEN Mismatch("not logged", tool.log)
           ELSE IF tool.st # ev.st THEN Mismatch("exit status", tool.st)
           ELSE IF tool.err # AnyErr /\ tool.err # ev.err THEN Mismatch("standard error", tool.err)
           ELSE IF ~SaidAgrees(ev.out, tool) THEN Mismatch("said", Said)
           ELSE Fine(tool)
      [] OTHER -> Mismatch("event the specification does not have", ev.e)

Next == /\ evIdx <= Len(Trace)
        /\ IF ~skipping /\ ToolMoves(tool) THEN tool' = ToolMove(tool) /\ UNCHANGED <<evIdx, regs, misses, skipping>>
           ELSE evIdx' = evIdx + 1 /\ Step(Trace[evIdx])
        /\ (evIdx' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace), misses'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
