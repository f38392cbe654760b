------------------------------- MODULE MCPcsc ------------------------------
(* Every history of the PC/SC layer over small answer sets.  Handles are    *)
(* numbered in the order in which they are given out, as the stub does.     *)
EXTENDS Pcsc, TLC, Json

CONSTANTS MaxOps, MaxX, Emit, Part

VARIABLES layer, path, nops, nx, before, nh
mcvars == <<layer, path, nops, nx, before, nh>>
View == <<layer, nops, nx>>

Feats == LET F(t, n) == <<t, 4, 66, 0, 13, n>> IN
    IF Part = "init" THEN { <<>>, F(18, 1), F(10, 2) \o F(17, 3) \o F(18, 4), <<10, 3, 66, 0, 13, 1>>, F(6, 1) \o <<18>>, F(6, 9) \o <<17, 5, 0, 0, 0, 1>> }
    ELSE { F(18, 1) }
Lists == IF Part = "init" THEN { <<0>>, <<65, 0, 0>>, <<65, 0, 66, 32, 0, 0>> } ELSE { <<65, 0, 66, 0, 0>> }
Atrs == { <<59, 0>>, <<59, 129, 128, 1, 7, 7>>, <<59, 129, 128, 1, 7, 7, 9>> }
Uids == { <<1, 2, 3, 4, 144, 0>>, <<106, 129>>, <<>>, <<105, 0>> }

Good(x) == [rc |-> "ok"] @@ x
Bad == [rc |-> "fail"]
Answers ==
    LET w == layer.want IN
    CASE layer.at = "est" -> { Good([ctx |-> 7]) } \cup (IF Part = "init" THEN { Bad } ELSE {})
      [] layer.at \in {"size", "rel", "abort", "fdisc"} -> { Good([ctx |-> 0]) } \cup (IF Part = "init" THEN { Bad } ELSE {})
      [] layer.at = "names" -> { Good([b |-> x]) : x \in Lists } \cup (IF Part = "init" THEN { Bad } ELSE {})
      [] layer.at = "fconn" -> { Good([card |-> nh, prot |-> 0]) } \cup (IF Part = "init" THEN { Bad } ELSE {})
      [] layer.at = "feat" -> { Good([b |-> x]) : x \in Feats } \cup (IF Part = "init" THEN { Bad } ELSE {})
      [] layer.at \in {"pin", "disp"} -> { Good([b |-> <<2, 16, 7, 0>>]), Good([b |-> <<2, 16>>]), Bad }
      [] layer.at = "props" -> IF Part = "init" THEN { Good([b |-> x]) : x \in { <<1, 2, 3, 4, 11, 1, 9>>, <<1, 9, 9>> } } \cup { Bad } ELSE { Good([b |-> <<>>]) }
      [] layer.at = "state" -> { Good([st |-> <<34>>]), Bad }
      [] layer.at = "wait" ->
               LET f == [i \in 1..Len(layer.rs) |-> IF w.rs[i].s = StIgnore THEN {StIgnore} ELSE {18, 34}] IN
               { Good([st |-> [i \in 1..Len(layer.rs) |-> c[i]] \o <<>>]) : c \in { g \in [1..Len(layer.rs) -> {StIgnore, 18, 34}] : \A i \in 1..Len(layer.rs) : g[i] \in f[i] } }
               \cup { [rc |-> "timeout"], Bad }
      [] layer.at = "conn" -> { Good([card |-> nh, prot |-> x]) : x \in {T0, T1} } \cup { Bad }
      [] layer.at = "stat" -> { Good([prot |-> layer.rs[layer.k].prot, b |-> x]) : x \in Atrs } \cup { Bad }
      [] layer.at = "uid" -> { Good([b |-> x]) : x \in Uids } \cup { Bad }
      [] layer.at \in {"disc", "undo"} -> { Good([ctx |-> 0]), Bad }
      [] layer.at = "tx" -> { Good([b |-> <<144, 0>>]), Bad }

Calls ==
    LET rd == 0..(Len(layer.rs) - 1) IN
    IF layer.ctx = 0 THEN { [op |-> "pinit"] }
    ELSE IF Part = "init" THEN
        { [op |-> "names"], [op |-> "prel"] } \cup { [op |-> "has", idx |-> i, f |-> f] : i \in rd, f \in {17, 18} }
        \cup { [op |-> "prop", idx |-> i, f |-> f, cap |-> c] : i \in rd, f \in {1, 5, 11}, c \in {1, 2} }
    ELSE { [op |-> "atr", idx |-> i] : i \in rd } \cup { [op |-> "state", idx |-> 0] }
        \cup { [op |-> "wait", idx |-> i, timeout |-> <<0, 500>>] : i \in {-1, 1} }
        \cup { [op |-> "connect", idx |-> i] : i \in { j \in rd : layer.rs[j + 1].card = 0 } }
        \cup { [op |-> "disconnect", idx |-> i] : i \in rd }
        \cup { [op |-> "trx", idx |-> i, cap |-> 20, tx |-> <<0, 164>>] : i \in rd }

MCInit == layer = Pcsc0 /\ path = <<>> /\ nops = 0 /\ nx = 0 /\ before = layer /\ nh = 100
CallStep == /\ layer.phase = "idle" /\ nops < MaxOps
            /\ \E c \in Calls : /\ layer' = PcscCall(layer, c)
                                /\ path' = Append(path, [k |-> "call", c |-> c])
            /\ nops' = nops + 1 /\ nx' = 0 /\ before' = layer /\ UNCHANGED nh
AnswerStep == /\ layer.phase = "xfer" /\ nx < MaxX
              /\ \E o \in Answers : /\ layer' = PcscAnswer(layer, o)
                                    /\ path' = Append(path, [k |-> "x", o |-> o])
                                    /\ nh' = IF "card" \in DOMAIN o THEN nh + 1 ELSE nh
              /\ nx' = nx + 1 /\ UNCHANGED <<nops, before>>
ReturnStep == layer.phase = "ret" /\ layer' = PcscReturn(layer) /\ nx' = 0 /\ UNCHANGED <<nops, path, before, nh>>
MCNext == CallStep \/ AnswerStep \/ ReturnStep
MCSpec == MCInit /\ [][MCNext]_mcvars
EmitEdge == (Emit /\ path' # path /\ (layer'.phase = "ret" \/ nx' = MaxX)) => PrintT("EDGE " \o ToJson(path'))

-----------------------------------------------------------------------------
Cards == { layer.rs[i].card : i \in 1..Len(layer.rs) } \ {0}
\* A handle is open exactly while a reader holds it, unless the resource manager refused to close it
InvOpen == layer.phase = "idle" => Cards \subseteq layer.open \cup {0} \/ layer.ctx = 0
InvHeld == layer.phase = "idle" /\ (\A i \in 1..Len(path) : path[i].k = "x" => path[i].o.rc # "fail") => layer.open = Cards \/ layer.ctx = 0
\* An unsuccessful initialisation leaves nothing behind
InvInit == layer.phase = "ret" /\ layer.op = "pinit" /\ layer.ret # 0 => layer.ctx = 0 /\ layer.rs = <<>>
\* An unsuccessful connection leaves the reader as it was, unless the card cannot be given up
InvConnect == layer.phase = "ret" /\ layer.op = "connect" /\ layer.ret < 0 /\ path[Len(path)].o.rc = "ok" => layer.rs = before.rs \/ layer.rs[layer.k].card = 0
\* The type is known exactly for a connected card
InvType == \A i \in 1..Len(layer.rs) : layer.phase = "idle" /\ layer.rs[i].type # Unknown => layer.rs[i].card # 0 /\ layer.rs[i].atr # <<>>
\* What is transmitted goes to the card of that reader with its protocol
InvTx == layer.phase = "xfer" /\ layer.want.fn = "tx" => layer.want.card = layer.rs[layer.k].card /\ layer.want.card \in layer.open
\* Operations on one reader leave the others alone
InvOthers == layer.phase = "ret" /\ layer.op \notin {"pinit", "prel"} => \A i \in 1..Len(layer.rs) : i # layer.k => layer.rs[i] = before.rs[i]
PcscInv == InvOpen /\ InvHeld /\ InvInit /\ InvConnect /\ InvType /\ InvTx /\ InvOthers
=============================================================================
