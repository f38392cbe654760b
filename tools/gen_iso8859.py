#!/usr/bin/env python3
"""Generate spec/Iso8859.tla: the ISO/IEC 8859 code tables, taken from Python's
codecs (an implementation independent of the one under test)."""
import os
out = ["------------------------------ MODULE Iso8859 ------------------------------",
"(* ISO/IEC 8859 code tables (generated by tools/gen_iso8859.py from Python's  *)",
"(* codec tables) and their UTF-8 form.                                        *)",
"EXTENDS Bytes, IOUtils", "",
"(* The conversion implementation the library was built with *)",
"Impl == IF \"ISO8859\" \\in DOMAIN IOEnv THEN IOEnv.ISO8859 ELSE \"boost\"",
"Iso8859Supported(page) ==",
"    IF Impl = \"simple\" THEN page = 1 ELSE page >= 1 /\\ page <= 15 /\\ page # 12", "",
"\\* Code points of octets 0xA0..0xFF; 0 = unassigned",
"Iso8859Table == ["]
rows = []
for p in range(1, 16):
    if p == 12:
        rows.append("  <<>>")
        continue
    cps = []
    for b in range(0xA0, 0x100):
        try:
            cps.append(ord(bytes([b]).decode("iso8859_%d" % p)))
        except UnicodeDecodeError:
            cps.append(0)
    rows.append("  << " + ", ".join(map(str, cps)) + " >>")
out[-1] = "Iso8859Table == <<"
out.append(",\n".join(rows))
out.append(">>")
out.append(r"""
\* Code point of an octet; 0 = none (the character is dropped)
CodePoint(page, b) == IF b < 160 THEN b ELSE Iso8859Table[page][b - 159]

Utf8(cp) ==
    IF cp < 128 THEN <<cp>>
    ELSE IF cp < 2048 THEN << 192 + (cp \div 64), 128 + (cp % 64) >>
    ELSE << 224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64) >>

RECURSIVE Utf8Of(_, _)
Utf8Of(page, b) ==            \* UTF-8 characters (a sequence of byte strings)
    IF b = <<>> THEN <<>>
    ELSE LET cp == CodePoint(page, b[1]) IN
         IF b[1] # 0 /\ cp = 0 THEN Utf8Of(page, Tail(b))
         ELSE <<Utf8(cp)>> \o Utf8Of(page, Tail(b))

\* As many whole characters as fit into room octets, up to a NUL
RECURSIVE FitChars(_, _)
FitChars(cs, room) ==
    IF cs = <<>> \/ cs[1] = <<0>> \/ Len(cs[1]) > room THEN <<>>
    ELSE cs[1] \o FitChars(Tail(cs), room - Len(cs[1]))

(* iso8859_to_utf8 into a buffer of cap octets: [r |-> sign, s |-> string].  *)
(* Unassigned octets are dropped; the iconv implementation stops there and   *)
(* reports an error, also for text that does not fit.                        *)
RECURSIVE Assigned(_, _)
Assigned(page, b) ==          \* the part of b before an unassigned octet
    IF b = <<>> THEN <<>>
    ELSE IF b[1] # 0 /\ CodePoint(page, b[1]) = 0 THEN <<>>
    ELSE <<b[1]>> \o Assigned(page, Tail(b))
ToUtf8(page, b, cap) ==
    IF b = <<>> \/ cap = 0 THEN [r |-> -1, s |-> <<>>]
    ELSE IF ~Iso8859Supported(page) THEN [r |-> 1, s |-> <<>>]
    ELSE IF Impl = "iconv" THEN
         LET a == Assigned(page, b)
             cs == Utf8Of(page, a)
             t == FitChars(cs, cap - 1)
             all == SumSeq([i \in 1..Len(cs) |-> Len(cs[i])]) < cap
         IN IF a = b /\ all THEN [r |-> 0, s |-> t] ELSE [r |-> 1, s |-> <<>>]
    ELSE LET cs == Utf8Of(page, b) IN
         IF cs = <<>> THEN [r |-> 1, s |-> <<>>]
         ELSE [r |-> 0, s |-> FitChars(cs, cap - 1)]
=============================================================================""")
open(os.path.join(os.path.dirname(__file__), "..", "spec", "Iso8859.tla"), "w").write("\n".join(out) + "\n")
