------------------------------- MODULE MCTool ------------------------------
(* Runs of emv-tool.  Part "options": every short command line.  Part       *)
(* "run": the reader and the card answer as they should, except MaxOdd      *)
(* times; what is typed is one of Inputs.                                   *)
EXTENDS Tool, TLC, Json

CONSTANTS Part, MaxOdd, MaxArgs, Emit

VARIABLES tool, path, nodd, nh, typed
mcvars == <<tool, path, nodd, nh, typed>>
View == <<tool, nodd, nh>>

-----------------------------------------------------------------------------
Opt(n, v) == [n |-> n, has |-> TRUE, v |-> v]
Bare(n) == [n |-> n, has |-> FALSE, v |-> <<>>]
Ten == <<49, 48>>
Amt(v) == Opt("txn-amount", v)
OptSets ==
    LET all == { Amt(Ten), Amt(<<48>>), Amt(<<>>), Amt(<<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>), Amt(<<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>), Amt(<<49, 120>>),
                 Opt("txn-amount-other", <<53>>), Opt("txn-type", <<48, 57>>), Opt("txn-type", <<51, 48>>), Opt("txn-type", <<48>>), Opt("txn-type", <<48, 48, 48>>),
                 Opt("debug-level", <<99, 65, 82, 68>>), Opt("debug-level", <<120>>), Opt("debug-source", <<116, 116, 108, 44, 65, 112, 112>>), Opt("debug-source", <<65, 76, 76>>),
                 Opt("debug-source", <<44>>), Opt("debug-source", <<84, 84>>), Bare("debug-verbose"), Opt("mcc-json", <<120>>), Opt("isocodes-path", <<47>>),
                 Opt("", <<120>>), Bare("nonsense"), Opt("debug-verbose", <<49>>), Bare("version") }
    IN UNION { [1..n -> all] : n \in 0..MaxArgs }
RunOpts == { << Amt(Ten), Opt("debug-source", <<65, 76, 76>>), Opt("debug-level", <<97, 108, 108>>) >>, << Amt(<<55>>), Opt("txn-type", <<48, 48>>) >> }
Inputs == IF Part = "options" THEN { <<>> }
          ELSE { <<>>, <<49, 10>>, <<50, 10, 49, 10>>, <<48, 10, 57, 10, 50>>, <<50, 50, 50, 50, 10, 49, 10>>, <<10, 50, 120, 10>>, <<45, 49, 10, 43, 49, 10, 49, 10>> }

-----------------------------------------------------------------------------
(* Answers: the first is as it should be *)
E(tag, v) == (IF tag < 256 THEN <<tag>> ELSE <<tag \div 256, tag % 256>>) \o <<Len(v)>> \o v
PayDir == <<49, 80, 65, 89, 46, 83, 89, 83, 46, 68, 68, 70, 48, 49>>
A1 == <<160, 0, 0, 0, 3, 16, 16>>
A2 == <<160, 0, 0, 0, 4, 16, 16>>
A3 == <<160, 0, 0, 0, 3, 32, 16>>
DirEnt(aid, name, prio) == E(97, E(79, aid) \o E(80, name) \o E(135, <<prio>>))
FciOf(aid, x) == E(111, E(132, aid) \o E(165, E(80, <<86>>) \o x))
Sw9000 == <<144, 0>>
Card(tx, op) ==
    IF tx[2] = 164 THEN
        LET name == SubSeq(tx, 6, 5 + tx[5]) IN
        IF name = PayDir THEN << E(111, E(132, PayDir) \o E(165, E(136, <<1>>))) \o Sw9000, <<106, 130>>, <<106, 129>>, <<111, 9>> \o Sw9000, <<98, 131>>, <<>> >>
        ELSE << FciOf(name, <<>>) \o Sw9000, FciOf(name, E(40760, <<159, 2, 6, 154, 3>>)) \o Sw9000, <<106, 130>>, <<106, 129>>, <<98, 131>>, FciOf(A3, <<>>) \o Sw9000 >>
    ELSE IF tx[2] = 178 THEN
        IF op = "build" THEN
            IF tx[3] = 1 THEN << E(112, DirEnt(A1, <<65>>, 2) \o DirEnt(A2, <<66>>, 1)) \o Sw9000, E(112, DirEnt(A1, <<65>>, 1)) \o Sw9000, E(112, DirEnt(A1, <<65>>, 129)) \o Sw9000,
                                 E(112, DirEnt(A1, <<65>>, 1) \o DirEnt(A2, <<66>>, 2) \o DirEnt(A3, <<67>>, 3)) \o Sw9000, <<106, 131>> >>
            ELSE << <<106, 131>> >>
        ELSE IF tx[3] = 1 THEN << E(112, E(24356, <<39, 18, 49>>) \o E(90, <<71, 97>>)) \o Sw9000, <<106, 131>>, E(113, <<>>) \o Sw9000, E(112, <<90, 9>>) \o Sw9000 >>
        ELSE << E(112, E(140, <<159, 2, 6>>) \o E(141, <<138, 2>>)) \o Sw9000, E(112, <<>>) \o Sw9000 >>
    ELSE << E(128, <<24, 0, 8, 1, 2, 1>>) \o Sw9000, <<105, 133>>, E(119, E(130, <<24, 0>>) \o E(148, <<8, 1, 2, 0>>)) \o Sw9000, E(128, <<24>>) \o Sw9000, <<105, 132>> >>

Feat(x, n) == <<x, 4, 66, 0, 13, n>>
Yes(x) == [rc |-> "ok"] @@ x
No == [rc |-> "fail"]
Many(f, vs, x) == [j \in 1..Len(vs) |-> Yes((f :> vs[j]) @@ x)]
States == << <<34>>, <<18>>, <<546>>, <<1058>>, <<8>>, <<0>> >>
Answers ==
    LET p == tool.p
        none == [ctx |-> 0]
    IN
    CASE p.at = "est" -> << Yes([ctx |-> 7]), No >>
      [] p.at \in {"size", "rel", "abort", "fdisc", "undo", "disc"} -> << Yes(none), No >>
      [] p.at = "names" -> Append(Many("b", << <<65, 0, 0>>, <<65, 0, 66, 0, 0>>, <<0>> >>, <<>>), No)
      [] p.at = "fconn" -> << Yes([card |-> nh, prot |-> 0]), No >>
      [] p.at = "feat" -> Append(Many("b", << Feat(6, 1) \o Feat(18, 2), <<>>, Feat(10, 3) \o Feat(9, 1) \o Feat(17, 4), <<6>> >>, <<>>), No)
      [] p.at \in {"pin", "disp"} -> << Yes([b |-> <<2, 0, 16, 0>>]), No >>
      [] p.at = "props" -> Append(Many("b", << <<1, 2, 2, 16, 6, 1, 4, 7, 1, 12>>, <<6, 1, 4, 11, 2, 52, 18, 12, 2, 255, 0>>, <<4, 2, 3, 0>>, <<1, 2>> >>, <<>>), No)
      [] p.at = "state" -> Append(Many("st", States, <<>>), No)
      [] p.at = "wait" -> << Yes([st |-> [j \in 1..Len(p.rs) |-> IF j = Len(p.rs) THEN 34 ELSE 18] \o <<>>]), Yes([st |-> [j \in 1..Len(p.rs) |-> 34] \o <<>>]),
                             Yes([st |-> [j \in 1..Len(p.rs) |-> 18] \o <<>>]), [rc |-> "timeout"], No >>
      [] p.at = "conn" -> << Yes([card |-> nh, prot |-> 1]), Yes([card |-> nh, prot |-> 2]), Yes([card |-> nh, prot |-> 0]), No >>
      [] p.at = "stat" -> Append(Many("b", << <<59, 96, 0, 0>>, <<59>>, <<59, 96, 1, 0>>, <<59, 129, 128, 1, 7, 7>>, <<59, 224, 0, 0, 129, 49, 32, 69, 84>> >>,
                                     [prot |-> p.rs[p.k].prot]), No)
      [] p.at = "uid" -> Append(Many("b", << <<1, 2, 3, 4, 144, 0>>, <<106, 129>>, <<>> >>, <<>>), No)
      [] p.at = "tx" -> Append(Many("b", Card(p.want.tx, tool.s.op), <<>>), No)

MCInit == \E os \in (IF Part = "options" THEN OptSets ELSE RunOpts), in \in Inputs :
    /\ tool = ToolStart([opts |-> os, in |-> in, ts |-> 1700000000])
    /\ path = << [k |-> "S", opts |-> os, in |-> in, ts |-> 1700000000] >>
    /\ nodd = 0 /\ nh = 100 /\ typed = in
Load == /\ Part = "run" /\ tool.at = "strings"
        /\ tool' = ToolStrings(tool, 0) /\ UNCHANGED <<path, nodd, nh, typed>>
Move == /\ Part = "run" /\ ToolMoves(tool)
        /\ tool' = [ToolMove(tool) EXCEPT !.log = <<>>] /\ UNCHANGED <<path, nodd, nh, typed>>
Answer == /\ Part = "run" /\ tool.p.phase = "xfer" /\ tool.at # "exit"
          /\ \E j \in 1..(IF nodd < MaxOdd THEN Len(Answers) ELSE 1) :
                LET o == Answers[j] IN
                /\ tool' = [ToolAnswer(tool, o) EXCEPT !.log = <<>>]
                /\ path' = Append(path, [k |-> "x", at |-> tool.at, pat |-> tool.p.at, o |-> o])
                /\ nodd' = IF j = 1 THEN nodd ELSE nodd + 1
                /\ nh' = IF "card" \in DOMAIN o THEN nh + 1 ELSE nh
          /\ UNCHANGED typed
MCNext == Load \/ Move \/ Answer
MCSpec == MCInit /\ [][MCNext]_mcvars
\* A state has one successor unless it is answered, so a run is known from the answers up to its end
EmitEdge == (Emit /\ (tool'.at = "exit" \/ (tool'.at # "exit" /\ nodd' > nodd /\ nodd' = MaxOdd))) => PrintT("EDGE " \o ToJson(path'))
EmitStart == (Emit /\ Part = "options") => PrintT("EDGE " \o ToJson(path))

-----------------------------------------------------------------------------
(* What the runs guarantee *)
Asks == SelectSeq(path, LAMBDA e : e.k = "x")
Made(fn) == \E j \in 1..Len(path) : path[j].k = "x" /\ path[j].pat = fn
Given(fn) == \E j \in 1..Len(path) : path[j].k = "x" /\ path[j].pat = fn /\ path[j].o.rc = "ok"
Lines == [j \in 1..Len(tool.ls) |-> tool.ls[j][1]]
Spoken(s) == \E j \in 1..Len(Lines) : Lines[j] = s
Asking == tool.at # "exit" /\ tool.p.phase = "xfer"

\* However a run ends, it leaves no context behind
InvReleased == tool.at = "exit" => tool.p.ctx = 0
\* A refused command line makes no request, and any other is a transaction
InvRefused == (tool.at = "exit" /\ tool.st \in {1, 2, 64} => Asks = <<>>) /\ (tool.at = "exit" /\ Asks # <<>> => tool.st = 0)
InvAmount == tool.at \notin {"exit", "open"} => /\ (tool.o.type # Inquiry => tool.o.amount # <<0, 0>>)
                                                /\ (tool.o.type = Cashback => tool.o.other # <<0, 0>>)
\* The kernel's commands go to the card of the reader where one was detected, once its ATR is accepted
InvGate == Asking /\ tool.at = "trx" => /\ tool.p.want.fn = "tx" /\ tool.p.want.card = Here(tool).card /\ Here(tool).type = P!Contact
                                    /\ EmvAtr(Here(tool).atr) = 0 /\ tool.p.want.card \in tool.p.open
InvOne == Asking /\ tool.at = "trx" => /\ tool.s.params = TxnParams(tool.o, tool.ts) /\ tool.s.cfg = TermConfig /\ tool.s.aids = TermAids
\* The application that is selected is the one with the number typed, or the only one
Consumed == LET b == SubSeq(typed, 1, Len(typed) - Len(tool.in)) IN IF b # <<>> /\ b[Len(b)] = 10 THEN SubSeq(b, 1, Len(b) - 1) ELSE b
LastLine == LET b == Consumed
                nl == {j \in 1..Len(b) : b[j] = 10}
            IN IF nl = {} THEN b ELSE SubSeq(b, (CHOOSE j \in nl : \A x \in nl : x <= j) + 1, Len(b))
Numbers(m) == { <<48 + m>>, <<43, 48 + m>>, <<48 + m, 120>> }
InvChosen == Asking /\ tool.at = "trx" /\ tool.s.op = "select" /\ tool.need /\ tool.part # "" =>
    LET n == Len(tool.s.apps) + 1
        k == Len(Lines) - n
    IN \E m \in 1..n : LastLine \in Numbers(m) /\ \A j \in 1..n \ {m} :
           Lines[k + j] = Str(j) \o " - " \o CStr(tool.s.apps[IF j < m THEN j ELSE j - 1].name)
\* Nothing is chosen for the cardholder when there is a choice
InvAsked == Asking /\ tool.at = "trx" /\ tool.s.op \in {"select", "init", "read"} =>
    (~tool.need => typed = tool.in) /\ (tool.need => Len(tool.in) < Len(typed))
\* A number not on the menu selects nothing
InvEnd == tool.at = "exit" /\ Spoken("Card deactivated") => Given("disc")
\* Once an application is initiated there is no way back to the menu
InvCommitted == Asking /\ tool.at = "trx" /\ tool.s.op = "read" => tool.s.apps = <<>> /\ Has(tool.s.icc, <<0, 148>>)
\* A successful run has read what it must
InvRead == tool.at = "disc" => \A x \in Mandatory : Has(tool.s.icc, x)
ToolInv == InvReleased /\ InvRefused /\ InvAmount /\ InvGate /\ InvOne /\ InvChosen /\ InvAsked /\ InvEnd /\ InvCommitted /\ InvRead
=============================================================================
