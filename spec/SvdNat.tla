------------------------------- MODULE SvdNat -------------------------------
(***************************************************************************)
(* Unbounded natural numbers.  TLC integers are 32-bit, SVD addresses are  *)
(* not: a number is the little-endian sequence of its base-2^20 limbs,     *)
(* without leading zero limbs, so that equality of numbers is equality of  *)
(* sequences.  Zero is <<>>.                                               *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

LB == 1048576

NZero == <<>>

RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

NLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NCarry(_, _)
NCarry(c, acc) == IF c = 0 THEN acc ELSE NCarry(c \div LB, Append(acc, c % LB))

NOf(n) == NCarry(n, <<>>)

RECURSIVE NAddR(_, _, _, _, _)
NAddR(a, b, i, c, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN NCarry(c, acc)
    ELSE LET s == NLimb(a, i) + NLimb(b, i) + c
         IN NAddR(a, b, i + 1, s \div LB, Append(acc, s % LB))
NAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE NAddR(a, b, 1, 0, <<>>)

(* k is a small TLC integer (below 2047) *)
RECURSIVE NMulR(_, _, _, _, _)
NMulR(a, k, i, c, acc) ==
    IF i > Len(a) THEN NCarry(c, acc)
    ELSE LET s == a[i] * k + c IN NMulR(a, k, i + 1, s \div LB, Append(acc, s % LB))
NMul(a, k) == IF k = 0 THEN <<>> ELSE NMulR(a, k, 1, 0, <<>>)

(* quotient and remainder by a small integer *)
RECURSIVE NDivR(_, _, _, _, _)
NDivR(a, k, i, rem, acc) ==
    IF i = 0 THEN [q |-> NTrim(acc), r |-> rem]
    ELSE LET cur == rem * LB + a[i]
         IN NDivR(a, k, i - 1, cur % k, <<cur \div k>> \o acc)
NDiv(a, k) == NDivR(a, k, Len(a), 0, <<>>)

(* three-way comparison: 0 smaller, 1 equal, 2 greater *)
RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) ==
    IF i = 0 THEN 1
    ELSE IF a[i] < b[i] THEN 0 ELSE IF a[i] > b[i] THEN 2 ELSE NCmpR(a, b, i - 1)
NCmp(a, b) ==
    IF Len(a) < Len(b) THEN 0 ELSE IF Len(a) > Len(b) THEN 2 ELSE NCmpR(a, b, Len(a))

NLt(a, b) == NCmp(a, b) = 0
NLeq(a, b) == NCmp(a, b) # 2
NMax(a, b) == IF NLt(a, b) THEN b ELSE a

RECURSIVE NPredR(_, _)
NPredR(a, i) == IF a[i] > 0 THEN [a EXCEPT ![i] = @ - 1]
                ELSE NPredR([a EXCEPT ![i] = LB - 1], i + 1)
(* predecessor of a positive number *)
NPred(a) == NTrim(NPredR(a, 1))

NMod4(a) == NLimb(a, 1) % 4
NModSmall(a, k) == NDiv(a, k).r

NIsSmall(a) == Len(a) <= 1 \/ (Len(a) = 2 /\ a[2] < 2047)
NToInt(a) == NLimb(a, 1) + (IF Len(a) = 2 THEN a[2] * LB ELSE 0)

NPow2(k) == LET q == k \div 20 r == k % 20
            IN [i \in 1..(q + 1) |-> IF i = q + 1 THEN 2^r ELSE 0]

Digits10 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE NDecR(_, _)
NDecR(a, acc) == IF a = <<>> THEN acc
                 ELSE LET d == NDiv(a, 10) IN NDecR(d.q, Digits10[d.r + 1] \o acc)
NDec(a) == IF a = <<>> THEN "0" ELSE NDecR(a, "")

Digits16 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE NHexR(_, _)
NHexR(a, acc) == IF a = <<>> THEN acc
                 ELSE LET d == NDiv(a, 16) IN NHexR(d.q, Digits16[d.r + 1] \o acc)
NHex(a) == IF a = <<>> THEN "0x0" ELSE "0x" \o NHexR(a, "")

=============================================================================
