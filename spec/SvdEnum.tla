------------------------------- MODULE SvdEnum ------------------------------
(***************************************************************************)
(* Resolution of enumeratedValues: literal notations, don't-care bits,     *)
(* duplicates, the default value, and the range of the field.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SvdDim

EErr == [err |-> TRUE, vals |-> <<>>]

RECURSIVE Fill(_, _, _)
(* all texts with every x of the binary text replaced, in counting order *)
Fill(s, i, acc) ==
    IF i > Len(s) THEN <<acc>>
    ELSE IF Chr(s, i) = "x" THEN Fill(s, i + 1, acc \o "0") \o Fill(s, i + 1, acc \o "1")
    ELSE Fill(s, i + 1, acc \o Chr(s, i))

(* the numbers a value text denotes *)
Literal(text) ==
    LET s == Replace(Lower(text), "#", "0b")
    IN IF StartsWith(s, "0b") THEN
           LET d == SubSeq(s, 3, Len(s))
           IN IF d = "" \/ ~AllIn(d, {"0", "1", "x"}) THEN EErr
              ELSE LET all == Fill(d, 1, "")
                   IN [err |-> FALSE, vals |-> [i \in 1..Len(all) |-> ToNat(all[i], 2)]]
       ELSE IF StartsWith(s, "0x") THEN
           LET d == SubSeq(s, 3, Len(s))
           IN IF d = "" \/ ~AllIn(d, HexChars) THEN EErr ELSE [err |-> FALSE, vals |-> <<ToNat(d, 16)>>]
       ELSE IF IsDigits(s) THEN [err |-> FALSE, vals |-> <<ToNat(s, 10)>>]
       ELSE EErr

HasWildcard(text) ==
    LET s == Lower(text)
    IN Contains(IF StartsWith(s, "0x") THEN SubSeq(s, 3, Len(s)) ELSE s, "x")

(* candidate: name, num (<<>> or <<number>>), def, own attributes *)
Candidates(v) ==
    LET has == Has(v, "value") /\ v.value # ""
        lit == IF has THEN Literal(v.value) ELSE [err |-> FALSE, vals |-> <<>>]
        nums == IF has THEN [i \in 1..Len(lit.vals) |-> <<lit.vals[i]>>] ELSE <<<<>>>>
        wild == has /\ HasWildcard(v.value)
    IN [err |-> lit.err,
        cands |-> [i \in 1..Len(nums) |->
            [name |-> IF wild THEN v.name \o "_" \o NDec(nums[i][1]) ELSE v.name,
             num |-> nums[i],
             def |-> Has(v, "is_default") /\ v.is_default,
             a |-> Restr(v, {"description", "origin"}),
             orig |-> v.name]]]

\* accumulator: err, warn, out (sequence of candidates), names, nums, default (<<>> or <<candidate>>)
EAcc0 == [err |-> FALSE, warn |-> 0, out |-> <<>>, names |-> {}, nums |-> {}, def |-> <<>>]

EStep(acc, c) ==
    IF acc.err THEN acc
    ELSE IF Lower(c.orig) = "reserved" \/ c.name \in acc.names \/ (c.num # <<>> /\ c.num[1] \in acc.nums)
         THEN [acc EXCEPT !.warn = @ + 1]
    ELSE IF c.def THEN
         IF acc.def # <<>> THEN [acc EXCEPT !.err = TRUE]
         ELSE [acc EXCEPT !.warn = @ + (IF c.num # <<>> THEN 1 ELSE 0),
                          !.def = <<c>>, !.names = @ \cup {c.name}]
    ELSE [acc EXCEPT !.out = Append(@, c), !.names = @ \cup {c.name},
                     !.nums = IF c.num = <<>> THEN @ ELSE @ \cup {c.num[1]}]

RECURSIVE EFold(_, _, _)
EFold(cs, i, acc) == IF i > Len(cs) THEN acc ELSE EFold(cs, i + 1, EStep(acc, cs[i]))
RECURSIVE EValues(_, _, _)
EValues(vs, i, acc) ==
    IF i > Len(vs) \/ acc.err THEN acc
    ELSE LET c == Candidates(vs[i])
         IN IF c.err THEN [acc EXCEPT !.err = TRUE] ELSE EValues(vs, i + 1, EFold(c.cands, 1, acc))

RECURSIVE InsertByNum(_, _)
InsertByNum(sorted, c) ==
    IF sorted = <<>> THEN <<c>>
    ELSE IF NLt(c.num[1], sorted[Len(sorted)].num[1])
         THEN Append(InsertByNum(SubSeq(sorted, 1, Len(sorted) - 1), c), sorted[Len(sorted)])
         ELSE Append(sorted, c)
RECURSIVE SortByNum(_, _, _)
SortByNum(cs, i, acc) == IF i > Len(cs) THEN acc ELSE SortByNum(cs, i + 1, InsertByNum(acc, cs[i]))

(* values left uncovered by the others take the default's name and text *)
Uncovered(acc, lsb, msb) ==
    IF acc.def = <<>> THEN <<>>
    ELSE LET w == IF msb - lsb + 1 < 0 THEN 0 ELSE msb - lsb + 1
             d == acc.def[1]
             RECURSIVE Miss(_, _)
             Miss(v, out) == IF v >= 2^w THEN out
                             ELSE Miss(v + 1, IF NOf(v) \in acc.nums THEN out
                                  ELSE Append(out, [d EXCEPT !.name = d.name \o "_" \o NDec(NOf(v)), !.num = <<NOf(v)>>]))
         IN Miss(0, <<>>)

(* Outcome for one container: err, warn, and noval - a value without a     *)
(* number survives, which is rejected when the field itself is kept         *)
EnumResolve(values, lsb, msb) ==
    LET acc == EValues(values, 1, EAcc0)
        numbered == SelectSeq(acc.out, LAMBDA c : c.num # <<>>)
        all == SortByNum(numbered \o Uncovered(acc, lsb, msb), 1, <<>>)
    IN [err |-> acc.err, warn |-> acc.warn, noval |-> Len(numbered) # Len(acc.out), all |-> all]

InRange(num, lsb, msb) == msb - lsb + 1 >= 0 /\ NLt(num, NPow2(msb - lsb + 1))

EnumFinal(res, lsb, msb) ==
    LET kept == SelectSeq(res.all, LAMBDA c : InRange(c.num[1], lsb, msb))
    IN [warn |-> Len(res.all) - Len(kept),
        vals |-> [i \in 1..Len(kept) |-> [name |-> kept[i].name, value |-> kept[i].num[1]] @@ kept[i].a]]

=============================================================================
