----------------------------- MODULE Registers ------------------------------
(* The registers of names (ISO 3166-1, ISO 4217, ISO 639-2, merchant        *)
(* category codes): loading, re-loading and looking up.                     *)
(* A register is [rows, mixed]: what look-ups must answer, and the entries   *)
(* which may, but need not, show because a load failed half way.            *)
EXTENDS Describe

Codes(rows, f) == {rows[i][f] : i \in {j \in 1..Len(rows) : f \in DOMAIN rows[j]}}
FirstName(rows, f, x) ==
    rows[CHOOSE i \in 1..Len(rows) :
            /\ f \in DOMAIN rows[i] /\ rows[i][f] = x
            /\ \A j \in 1..(i - 1) : ~(f \in DOMAIN rows[j] /\ rows[j][f] = x)].name
LastName(rows, f, x) ==
    rows[CHOOSE i \in 1..Len(rows) :
            /\ rows[i][f] = x
            /\ \A j \in (i + 1)..Len(rows) : rows[j][f] # x].name

Empty == [rows |-> <<>>, mixed |-> <<>>]
NoRegisters == [c |-> Empty, k |-> Empty, l |-> Empty, m |-> Empty]
\* Loading one file: a file that is absent or is not JSON, or does not hold a list, changes
\* nothing; one with an unusable entry leaves no look-up certain; otherwise it replaces it.
Loaded(reg, file) ==
    CASE file.kind \in {"missing", "shape"} -> reg
      [] file.kind = "bad" -> [rows |-> <<>>, mixed |-> reg.mixed \o reg.rows \o file.rows]
      [] file.kind = "ok" -> [rows |-> file.rows, mixed |-> <<>>]
FileResult(file, n) == CASE file.kind = "missing" -> n [] file.kind \in {"shape", "bad"} -> -n [] OTHER -> 0
\* The three ISO files are read in order until one fails
IsoLoad(st, set) ==
    LET a == FileResult(set.c, 1)
        b == FileResult(set.k, 2)
        c == FileResult(set.l, 3)
        st1 == [st EXCEPT !.c = Loaded(@, set.c)]
        st2 == [st1 EXCEPT !.k = Loaded(@, set.k)]
        st3 == [st2 EXCEPT !.l = Loaded(@, set.l)] IN
    IF a # 0 THEN [r |-> a, st |-> st1] ELSE IF b # 0 THEN [r |-> b, st |-> st2] ELSE [r |-> c, st |-> st3]
MccLoad(st, set) == [r |-> FileResult(set.m, 1), st |-> [st EXCEPT !.m = Loaded(@, set.m)]]

Open == "*"
LookIn(reg, f, x) ==
    IF x \in Codes(reg.rows, f) THEN FirstName(reg.rows, f, x)
    ELSE IF x \in Codes(reg.mixed, f) THEN Open ELSE Null
LookMcc(reg, x) ==
    IF x \in Codes(reg.rows, "numeric") THEN LastName(reg.rows, "numeric", x)
    ELSE IF x \in Codes(reg.mixed, "numeric") THEN Open ELSE Null
\* Even where an answer is open it is nothing, or a name given to that code
NamesOf(reg, f, x) ==
    {Null} \cup {reg.mixed[i].name : i \in {j \in 1..Len(reg.mixed) :
                    {f, "name"} \subseteq DOMAIN reg.mixed[j] /\ reg.mixed[j][f] = x}}
AllowedNames(reg, f, x, one) == IF one = Open THEN NamesOf(reg, f, x) ELSE {one}

NamesFor(reg, f, x) == AllowedNames(reg, f, x, LookIn(reg, f, x))

RegOp(st, o) ==
    LET load == CASE o.k \in {"I", "J"} -> IsoLoad(st, Data.sets[o.a])
                  [] o.k = "M" -> MccLoad(st, Data.sets[o.a])
                  [] o.k = "S" -> LET i == IsoLoad(st, Data.sets[o.a]) IN
                                  IF i.r # 0 THEN i ELSE MccLoad(i.st, Data.sets[o.b])
                  [] o.k = "E" -> [r |-> 1, st |-> st]  \* no files at the root directory
                  [] OTHER -> [r |-> 0, st |-> st]
    IN [st |-> load.st,
        ans |-> CASE o.k \in {"I", "J", "E", "M", "S"} -> {ToString(load.r)}
                  [] o.k = "c2" -> NamesFor(st.c, "alpha_2", o.a)
                  [] o.k = "c3" -> NamesFor(st.c, "alpha_3", o.a)
                  [] o.k = "cn" -> NamesFor(st.c, "numeric", o.a)
                  [] o.k = "k3" -> NamesFor(st.k, "alpha_3", o.a)
                  [] o.k = "kn" -> NamesFor(st.k, "numeric", o.a)
                  [] o.k = "l2" -> NamesFor(st.l, "alpha_2", o.a)
                  [] o.k = "l3" -> NamesFor(st.l, "alpha_3", o.a)
                  [] o.k = "m" -> AllowedNames(st.m, "numeric", o.a, LookMcc(st.m, o.a))]
RECURSIVE RegOps(_, _)
RegOps(st, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET x == RegOp(st, Head(ops)) IN <<x.ans>> \o RegOps(x.st, Tail(ops))
RegAnswers(ops) == [ans |-> RegOps(NoRegisters, ops)]
\* Is each answer one of those allowed?
AnswersAgree(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : got[i] \in want[i]
=============================================================================
