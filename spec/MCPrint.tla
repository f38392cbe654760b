------------------------------- MODULE MCPrint ------------------------------
(* Print-outs of every short byte string over an alphabet (Kind "ber"), and *)
(* every short command line over a few options and arguments (Kind "cli"):  *)
(* laws, and the inputs to replay.                                          *)
EXTENDS Cli

CONSTANTS Kind, MaxLen, Emit

VARIABLE input
vars == <<input>>

Octets == {0, 1, 2, 4, 6, 48, 128, 159, 255}
Texts ==                        \* of arguments
    {<<45>>, <<57, 48, 48, 48>>, <<57, 48>>, <<57, 32, 70, 50, 55, 48, 49, 50, 48>>, <<57>>, <<120, 120>>, <<78, 76>>, <<57, 55, 56>>}
OptSet == {"ber", "sw1sw2", "9F15", "country", "currency", "ignore-padding", "version", "iso8859-12"}
Inputs == {<<>>, <<144, 0>>}
NoCli == [opts |-> <<>>, args |-> <<>>, in |-> <<>>, iso |-> "", mcc |-> ""]

Init == IF Kind = "ber" THEN input = <<>> ELSE \E x \in Inputs : input = [NoCli EXCEPT !.in = x]
Next ==
    IF Kind = "ber" THEN Len(input) < MaxLen /\ \E x \in Octets : input' = Append(input, x)
    ELSE /\ Len(input.opts) + Len(input.args) < MaxLen
         /\ \/ input.args = <<>> /\ \E o \in OptSet : input' = [input EXCEPT !.opts = Append(@, o)]
            \/ \E a \in Texts : input' = [input EXCEPT !.args = Append(@, a)]
Spec == Init /\ [][Next]_vars
Emitted == Emit => PrintT("OUT " \o ToJson(input))

-----------------------------------------------------------------------------
(* Nothing is lost: the octets printed are the octets given.                *)
RECURSIVE Content(_, _)
Content(how, bs) ==             \* value octets of the primitive fields, then what was not valid
    LET e == BerDecode(bs) IN
    IF e.r <= 0 THEN <<>> ELSE (IF IsCons(e.flags) THEN Content(how, e.val) ELSE e.val) \o Content(how, From(bs, e.r))
RECURSIVE Count(_)              \* fields, at every depth
Count(bs) == LET e == BerDecode(bs) IN
             IF e.r <= 0 THEN 0 ELSE 1 + (IF IsCons(e.flags) THEN Count(e.val) ELSE 0) + Count(From(bs, e.r))
RECURSIVE AllValid(_)
AllValid(bs) == LET e == BerDecode(bs) IN
                IF e.r = 0 THEN TRUE ELSE e.r > 0 /\ (IsCons(e.flags) => AllValid(e.val)) /\ AllValid(From(bs, e.r))
LawBer ==
    \A pad \in {TRUE, FALSE} :
        LET w == Walk(Plain("  ", pad), input, 0, 0, <<>>)
            ls == TreeLines(Plain("  ", pad), input, 0) IN
        /\ w.n <= Len(input)
        /\ ~w.bad => w.n = Len(input)
        /\ AllValid(input) => ~w.bad /\ Len(ls) = Count(input)
        /\ w.bad => ~AllValid(input) /\ Len(ls) = Len(w.ls) + 1
        /\ ~pad => w.bad = ~AllValid(input)                             \* invalid data is always reported
        /\ ~pad /\ w.bad => Walk(Plain("  ", FALSE), SubSeq(input, 1, w.n), 0, 0, <<>>).n <= w.n
        \* the EMV print-out differs in names and texts only, not in which octets are valid
        /\ LET v == Walk(Emv("  ", pad), input, 0, 0, <<>>) IN v.n = w.n /\ v.bad = w.bad
        /\ OutAgrees([j \in 1..(Len(ls) + 1) |-> IF j > Len(ls) THEN "" ELSE ls[j][1]], Printed(ls))
        /\ Len(ls) > 0 => ~OutAgrees([j \in 1..Len(ls) |-> IF j = Len(ls) THEN "" ELSE ls[j][1]], Printed(ls))

LawCli ==
    LET a == CliRun(input)
        n == Cardinality({j \in 1..Len(input.opts) : IsMode(input.opts[j])})
        ends == \E j \in 1..Len(input.opts) : input.opts[j] \in Finishes IN
    /\ a.st \in {0, 1, 64, -1}
    /\ a.st = 64 => ~a.out.any /\ a.out.ls = <<>> /\ a.err = 1
    /\ a.err = 1 => ~a.out.any /\ a.out.ls = <<>>
    /\ n > 1 /\ ~ends => a.st = 64
    /\ input.args = <<>> /\ ~ends /\ input.opts # <<>> => a.st = 64
    \* only the last argument counts, unless an earlier one is unusable
    /\ Len(input.args) > 1 /\ a.st = 0 /\ input.in = <<>> => a = CliRun([input EXCEPT !.args = <<input.args[Len(input.args)]>>])
    \* ignoring padding matters to print-outs of data only
    /\ ~(\E j \in 1..Len(input.opts) : input.opts[j] \in {"ber", "tlv"}) /\ n > 0 /\ input.args # <<>> =>
         a = CliRun([input EXCEPT !.opts = SelectSeq(@, LAMBDA o : o # "ignore-padding")])
Inv == (IF Kind = "ber" THEN LawBer ELSE LawCli) /\ Emitted
=============================================================================
