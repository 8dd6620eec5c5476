----------------------------- MODULE SvdDecode -----------------------------
(***************************************************************************)
(* What a sequence of bytes says.  The bytes are given by what they denote *)
(* in each reading: own - as the XML standard has it, by byte order mark,  *)
(* declaration or default; strict[n], loose[n] - taken to be in the n-th   *)
(* of the common encodings, as a document or as what can be recovered of   *)
(* one.  A reading is <<tree>>, or <<>> where the bytes have none.         *)
(* The first reading there is counts; any but the own is announced once.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Common == <<"utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii">>

RECURSIVE FirstReading(_, _)
FirstReading(rs, i) == IF i > Len(rs) THEN <<>> ELSE IF rs[i] # <<>> THEN rs[i] ELSE FirstReading(rs, i + 1)

Decode(b) ==
    IF b.own # <<>> THEN [tree |-> b.own, w |-> 0]
    ELSE LET s == FirstReading(b.strict, 1)
         IN [tree |-> IF s # <<>> THEN s ELSE FirstReading(b.loose, 1), w |-> 1]
=============================================================================
