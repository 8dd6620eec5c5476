------------------------------ MODULE SvdField ------------------------------
(***************************************************************************)
(* Bit position of a field from the three notations, with the missing half *)
(* of a pair taken from the base field of a derivation.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SvdDim

(* [hi:lo] at the start of the text: <<hi, lo>>, or <<>> *)
BitRangeOf(s) ==
    LET close == Find(s, "]")
        inner == IF close > 2 THEN SubSeq(s, 2, close - 1) ELSE ""
        p == Split(inner, ":")
    IN IF StartsWith(s, "[") /\ close > 2 /\ Len(p) = 2 /\ IsDigits(p[1]) /\ IsDigits(p[2])
       THEN <<NToInt(ToNat(p[1], 10)), NToInt(ToNat(p[2], 10))>> ELSE <<>>

BitsErr == [err |-> TRUE, lsb |-> 0, msb |-> 0, warn |-> 0]

(* own: attributes of the field; base: <<>> or <<record with lsb, msb>> *)
FieldBits(own, base) ==
    LET hasBase == base # <<>>
        bl == IF hasBase THEN base[1].lsb ELSE 0
        bm == IF hasBase THEN base[1].msb ELSE 0
        offs == Has(own, "bit_offset") widt == Has(own, "bit_width")
        l == Has(own, "lsb") m == Has(own, "msb")
        byOffset == (offs \/ widt) /\ (hasBase \/ (offs /\ widt))
        o == IF offs THEN own.bit_offset ELSE bl
        w == IF widt THEN own.bit_width ELSE bm - bl + 1
        byEnds == (l \/ m) /\ (hasBase \/ (l /\ m))
        br == IF Has(own, "bit_range") THEN BitRangeOf(own.bit_range) ELSE <<>>
        res == IF Has(own, "bit_range") THEN
                   IF br = <<>> THEN BitsErr
                   ELSE IF br[1] < br[2] THEN [err |-> FALSE, lsb |-> br[1], msb |-> br[2], warn |-> 1]
                   ELSE [err |-> FALSE, lsb |-> br[2], msb |-> br[1], warn |-> 0]
               ELSE IF byEnds THEN [err |-> FALSE, lsb |-> IF l THEN own.lsb ELSE bl,
                                    msb |-> IF m THEN own.msb ELSE bm, warn |-> 0]
               ELSE IF byOffset THEN [err |-> FALSE, lsb |-> o, msb |-> o + w - 1, warn |-> 0]
               ELSE BitsErr
    IN IF res.err THEN res
       ELSE IF res.msb < res.lsb THEN [res EXCEPT !.warn = @ + 1] ELSE res

=============================================================================
