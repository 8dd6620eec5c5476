------------------------------- MODULE SvdDim -------------------------------
(***************************************************************************)
(* Replication of an element by dim/dimIncrement/dimIndex.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SvdNat, SvdText

Restr(f, S) == [x \in (DOMAIN f \cap S) |-> f[x]]
Has(f, x) == x \in DOMAIN f

DimErr == [err |-> TRUE, idx |-> <<>>]
DimIdx(s) == [err |-> FALSE, idx |-> s]

IsNumRange(s) == LET p == Split(s, "-") IN Len(p) = 2 /\ IsDigits(p[1]) /\ IsDigits(p[2])
IsLetterRange(s) == Len(s) = 3 /\ Chr(s, 2) = "-" /\ Chr(s, 1) \in UpperChars /\ Chr(s, 3) \in UpperChars

RECURSIVE WordLen(_, _)
WordLen(s, i) == IF i > Len(s) THEN i - 1 ELSE IF Chr(s, i) \in WordChars THEN WordLen(s, i + 1) ELSE i - 1
RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ Chr(s, i) \in Blanks THEN SkipBlank(s, i + 1) ELSE i
(* the text starts with  word, word *)
StartsList(s) ==
    LET w == WordLen(s, 1)
    IN /\ w >= 1 /\ w < Len(s) /\ Chr(s, w + 1) = ","
       /\ LET n == SkipBlank(s, w + 2) IN n <= Len(s) /\ Chr(s, n) \in WordChars
RECURSIVE DropBlanks(_, _, _)
DropBlanks(s, i, acc) == IF i > Len(s) THEN acc
    ELSE DropBlanks(s, i + 1, IF Chr(s, i) \in Blanks THEN acc ELSE acc \o Chr(s, i))

IntText(n) == NDec(NOf(n))

(* the index texts of a list: a numeric range, a letter range, a comma     *)
(* list, a single word, or 0 .. dim-1                                       *)
IndexList(dim, has, text) ==
    LET raw == IF ~has THEN DimIdx([i \in 1..dim |-> IntText(i - 1)])
               ELSE IF IsNumRange(text) THEN
                   LET p == Split(text, "-") lo == NToInt(ToNat(p[1], 10)) hi == NToInt(ToNat(p[2], 10))
                   IN IF lo > hi THEN DimErr ELSE DimIdx([i \in 1..(hi - lo + 1) |-> IntText(lo + i - 1)])
               ELSE IF IsLetterRange(text) THEN
                   LET lo == Code(Chr(text, 1)) hi == Code(Chr(text, 3))
                   IN IF lo >= hi THEN DimErr
                      ELSE DimIdx([i \in 1..(hi - lo + 1) |-> Chr(UpperS, lo - 64 + i - 1)])
               ELSE IF StartsList(text) THEN DimIdx(Split(DropBlanks(text, 1, ""), ","))
               ELSE IF WordLen(text, 1) >= 1 THEN DimIdx(<<text>>)
               ELSE DimErr
    IN IF raw.err \/ Len(raw.idx) # dim THEN DimErr ELSE raw

(* Outcome of replication: the error flag, whether the element is          *)
(* replicated at all, the warning count, and the names and display names   *)
(* of the instances.  disp is <<>> or a one-element sequence.               *)
DimOut(e, d, w, ns, ds) == [err |-> e, dim |-> d, warn |-> w, names |-> ns, disps |-> ds]
DimFail == DimOut(TRUE, FALSE, 0, <<>>, <<>>)

Expand(kind, name, disp, hasDim, dim, hasIdx, idx) ==
    LET list == Contains(name, "%s")
        array == Contains(name, "[%s]")
        dlist == disp # <<>> /\ Contains(disp[1], "%s")
        darray == disp # <<>> /\ Contains(disp[1], "[%s]")
    IN IF ~hasDim /\ list THEN DimFail
       ELSE IF ~hasDim \/ ~list THEN
           IF dlist THEN DimFail
           ELSE DimOut(FALSE, FALSE, IF hasDim THEN 1 ELSE 0, <<name>>, <<disp>>)
       ELSE IF dim < 1 THEN DimFail
       ELSE IF array THEN
           IF kind = "field" \/ (dlist /\ ~darray) THEN DimFail
           ELSE DimOut(FALSE, TRUE, 0,
                       [i \in 1..dim |-> Replace(name, "[%s]", IntText(i - 1))],
                       [i \in 1..dim |-> IF disp = <<>> THEN <<>>
                                         ELSE <<Replace(disp[1], "[%s]", IntText(i - 1))>>])
       ELSE IF kind = "peripheral" \/ darray THEN DimFail
       ELSE LET il == IndexList(dim, hasIdx, idx)
            IN IF il.err THEN DimFail
               ELSE DimOut(FALSE, TRUE, 0,
                           [i \in 1..dim |-> Replace(name, "%s", il.idx[i])],
                           [i \in 1..dim |-> IF disp = <<>> THEN <<>> ELSE <<Replace(disp[1], "%s", il.idx[i])>>])

=============================================================================
