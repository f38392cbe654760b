-------------------------------- MODULE Ttl --------------------------------
(* Terminal Transport Layer: one C-APDU / R-APDU transaction carried over a *)
(* card reader that speaks either APDUs or T=0 TPDUs.                       *)
(* EMV Contact Interface Specification v1.0, 9.2.2.3 and 9.3.1; ISO 7816-3  *)
(* 10.3.3 and 12.2.                                                         *)
(*                                                                          *)
(* A transaction is a state record; TtlStart(..) is its first state and     *)
(* TtlStep(s, rr, rx) is the state after the reader answered (rr, rx) to    *)
(* the transmission s.tx.                                                   *)
EXTENDS Bytes

CapduCase(c) ==
    IF Len(c) < 4 THEN "bad"
    ELSE IF Len(c) = 4 THEN "1"
    ELSE IF Len(c) = 5 THEN "2S"
    ELSE IF At(c, 4) # 0 THEN
         IF Len(c) = 5 + At(c, 4) THEN "3S"
         ELSE IF Len(c) = 6 + At(c, 4) THEN "4S" ELSE "bad"
    ELSE IF Len(c) = 7 THEN "2E"
    ELSE IF Len(c) < 7 THEN "bad"
    ELSE LET n == At(c, 5) * 256 + At(c, 6) IN
         IF n # 0 /\ Len(c) = 7 + n THEN "3E"
         ELSE IF n # 0 /\ Len(c) = 9 + n THEN "4E" ELSE "bad"

SW(a, b) == a * 256 + b

(* Transaction state:                                                       *)
(*   tx    next transmission (while ~done)                                  *)
(*   hdr   most recent command header, for 6CXX re-issue                    *)
(*   ins   INS of the most recent command                                   *)
(*   pend  command data bytes not yet transmitted (TPDU mode)               *)
(*   out   response data collected so far                                   *)
(*   cap   capacity of the caller's R-APDU buffer                           *)
(*   sw    status word reported to the application layer (0 = none yet)     *)
(*   done/r  finished, with sign of the result                              *)
TtlErr(s, sign) == [s EXCEPT !.done = TRUE, !.r = sign]

TtlInit0 == [mode |-> "APDU", case |-> "1", tx |-> <<>>, hdr |-> <<>>, ins |-> 0,
             pend |-> <<>>, out |-> <<>>, cap |-> 0, sw |-> 0, done |-> TRUE, r |-> 0]

TtlStart(mode, c, cap) ==
    LET k == CapduCase(c)
        base == [TtlInit0 EXCEPT !.mode = mode, !.case = k, !.cap = cap]
    IN
    IF cap < 2 \/ c = <<>> THEN TtlErr(base, -1)
    ELSE IF k \notin {"1", "2S", "3S", "4S"} THEN TtlErr(base, -1)
    ELSE IF mode = "APDU" THEN
        [base EXCEPT !.tx = c, !.hdr = SubSeq(c, 1, 4), !.ins = At(c, 1), !.done = FALSE]
    ELSE IF mode = "TPDU" THEN
        LET h == IF k = "1" THEN Append(c, 0) ELSE SubSeq(c, 1, 5) IN
        [base EXCEPT !.tx = h, !.hdr = SubSeq(c, 1, 4), !.ins = At(c, 1), !.done = FALSE,
                     !.pend = IF k \in {"3S", "4S"} THEN Slice(c, 5, At(c, 4)) ELSE <<>>]
    ELSE TtlErr(base, -1)

\* Cases that may return data
DataAllowed(s) == s.case \in {"2S", "4S"}

GetResponse(s, le) ==
    [s EXCEPT !.hdr = <<0, 192, 0, 0>>, !.ins = 192, !.tx = <<0, 192, 0, 0, le>>, !.pend = <<>>]
Reissue(s, le) == [s EXCEPT !.tx = Append(s.hdr, le), !.pend = <<>>]

(* A single byte from the reader is a T=0 procedure byte. *)
TtlProcByte(s, b) ==
    IF b = 96 THEN TtlErr(s, 1)                           \* NULL byte: left to the reader
    ELSE IF b = s.ins /\ s.pend # <<>> THEN               \* ACK: all remaining bytes
        [s EXCEPT !.tx = s.pend, !.pend = <<>>]
    ELSE IF b = 255 - s.ins /\ s.pend # <<>> THEN         \* ACK: next byte only
        [s EXCEPT !.tx = <<Head(s.pend)>>, !.pend = Tail(s.pend)]
    ELSE TtlErr(s, 1)

(* Two or more bytes: optional data followed by SW1 SW2. *)
TtlStatus(s, rx) ==
    LET n   == Len(rx)
        sw1 == rx[n - 1]
        sw2 == rx[n]
        more == sw1 = 97                                  \* 61XX
        retry == sw1 = 108                                \* 6CXX
        s1 == IF more \/ retry \/ s.sw # 0 THEN s ELSE [s EXCEPT !.sw = SW(sw1, sw2)]
        warnfetch == ~more /\ ~retry /\ s.sw = 0 /\ s.case = "4S" /\ n = 2 /\ sw1 \in {98, 99}
        hasdata == IF s.mode = "TPDU" THEN n > 3 ELSE n > 2
        body == IF s.mode = "TPDU" THEN SubSeq(rx, 2, n - 2) ELSE SubSeq(rx, 1, n - 2)
        s2 == IF hasdata THEN [s1 EXCEPT !.out = s1.out \o body] ELSE s1
        le == IF more \/ (sw1 = 98 /\ sw2 >= 2 /\ sw2 <= 128) THEN sw2 ELSE 0
    IN
    IF (more \/ retry) /\ ~DataAllowed(s) THEN TtlErr(s, 1)
    ELSE IF hasdata /\ ~DataAllowed(s) THEN TtlErr(s, 1)
    ELSE IF hasdata /\ s.mode = "TPDU" /\ rx[1] # s.ins THEN TtlErr(s, 1)
    ELSE IF hasdata /\ Len(s2.out) + 2 > s.cap THEN TtlErr(s, -1)
    ELSE IF more \/ warnfetch THEN GetResponse(s2, le)
    ELSE IF retry THEN Reissue(s2, sw2)
    ELSE [s2 EXCEPT !.done = TRUE, !.r = 0]

TtlStep(s, rr, rx) ==
    IF rr # 0 THEN TtlErr(s, rr)
    ELSE IF rx = <<>> THEN TtlErr(s, 1)
    ELSE IF s.case = "1" THEN
        IF Len(rx) # 2 THEN TtlErr(s, 1)
        ELSE [s EXCEPT !.done = TRUE, !.r = 0, !.sw = SW(rx[1], rx[2])]
    ELSE IF Len(rx) = 1 THEN TtlProcByte(s, rx[1])
    ELSE TtlStatus(s, rx)

\* R-APDU of a successful transaction
TtlRapdu(s) == s.out \o <<s.sw \div 256, s.sw % 256>>

-----------------------------------------------------------------------------
(* Command construction (EMV 4.4 Book 1, 11.2 and 11.3; Book 3, 6.5.8).     *)
(* NoCmd = parameters outside the command's limits: nothing is transmitted. *)
NoCmd == <<>>
SelectCmd(name) ==
    IF Len(name) < 5 \/ Len(name) > 16 THEN NoCmd
    ELSE <<0, 164, 4, 0, Len(name)>> \o name \o <<0>>
SelectNextCmd(name) ==
    IF Len(name) < 5 \/ Len(name) > 16 THEN NoCmd
    ELSE <<0, 164, 4, 2, Len(name)>> \o name \o <<0>>
ReadRecordCmd(sfi, rec) ==
    IF sfi < 1 \/ sfi > 30 THEN NoCmd ELSE <<0, 178, rec, sfi * 8 + 4, 0>>
\* data: Command Template (field 83); <<>> = no PDOL
GpoCmd(nodata, data) ==
    LET d == IF nodata THEN <<131, 0>> ELSE data IN
    IF Len(d) < 2 \/ Len(d) > 255 THEN NoCmd
    ELSE IF d[1] # 131 THEN NoCmd
    ELSE <<128, 168, 0, 0, Len(d)>> \o d \o <<0>>
=============================================================================
