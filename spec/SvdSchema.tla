----------------------------- MODULE SvdSchema -----------------------------
(***************************************************************************)
(* When a document is valid under a version of the SVD schema.  The        *)
(* schemas are tables (schemas.json, read off the published schemas once): *)
(* complex types with a content model over child tags, attributes, and the *)
(* types of the children; simple types with enumerations, patterns and     *)
(* bounds.  Content models and patterns are regular expressions; Ends      *)
(* gives the positions up to which one can consume a sequence.             *)
(*                                                                         *)
(* A document is a tree [t, x, at, c]: tag, all the text directly in the    *)
(* element, attributes, children.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

Table == JsonDeserialize("schemas.json")
Versions == DOMAIN Table.versions
Published == <<"1.0", "1.1", "1.2", "1.3.1", "1.3.2", "1.3.3", "1.3.4", "1.3.5", "1.3.6", "1.3.7", "1.3.8", "1.3.9", "1.3.10", "1.3.11">>
Latest == Published[Len(Published)]
ClassSet == [k \in DOMAIN Table.classes |-> {Table.classes[k][i] : i \in 1..Len(Table.classes[k])}]

Items(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

\* does the item of a sequence match the leaf e?
Leaf(e, item) == CASE e.o = "c" -> item \in ClassSet[e.c]
                   [] e.o = "el" -> item = e.t
                   [] OTHER -> TRUE

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsRep(_, _, _, _, _)
Ends(e, q, S) ==
    IF S = {} THEN {}
    ELSE CASE e.o = "seq" -> EndsSeq(e.es, q, 1, S)
           [] e.o = "alt" -> UNION {Ends(e.es[i], q, S) : i \in 1..Len(e.es)}
           [] e.o = "rep" -> EndsRep(e, q, S, 0, IF e.lo = 0 THEN S ELSE {})
           [] OTHER -> {i + 1 : i \in {j \in S : j <= Len(q) /\ Leaf(e, q[j])}}
EndsSeq(es, q, i, S) == IF i > Len(es) \/ S = {} THEN S ELSE EndsSeq(es, q, i + 1, Ends(es[i], q, S))
\* n rounds done, the last of which led to S; acc: where one can stop
EndsRep(e, q, S, n, acc) ==
    IF S = {} \/ n = e.hi THEN acc
    ELSE LET T == Ends(e.e, q, S)
             all == IF n + 1 >= e.lo THEN acc \cup T ELSE acc
         IN IF n + 1 >= e.lo THEN EndsRep(e, q, T \ acc, n + 1, all)
            ELSE EndsRep(e, q, T, n + 1, all)

Matches(e, q) == Len(q) + 1 \in Ends(e, q, {1})

-----------------------------------------------------------------------------
(* simple types *)
Space == {" ", "\t", "\n", "\r"}
RECURSIVE CollapseR(_, _, _, _)
CollapseR(q, i, acc, gap) ==
    IF i > Len(q) THEN acc
    ELSE IF q[i] \in Space THEN CollapseR(q, i + 1, acc, TRUE)
    ELSE CollapseR(q, i + 1, acc \o (IF gap /\ acc # "" THEN " " ELSE "") \o q[i], FALSE)
Collapse(s) == CollapseR(Items(s), 1, "", FALSE)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
Unsigned(s) == IF s # "" /\ SubSeq(s, 1, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
IsInteger(s) == AllDigits(Unsigned(s))
IsDecimal(s) ==
    LET u == Unsigned(s)
        dots == {i \in 1..Len(u) : SubSeq(u, i, i) = "."}
    IN IF dots = {} THEN AllDigits(u)
       ELSE Cardinality(dots) = 1 /\ Len(u) > 1 /\ \A i \in 1..Len(u) : i \in dots \/ SubSeq(u, i, i) \in Digits
NameStart == ClassSet[Table.name_start]
NameRest == ClassSet[Table.name_rest]
IsName(s) == s # "" /\ SubSeq(s, 1, 1) \in NameStart /\ \A i \in 2..Len(s) : SubSeq(s, i, i) \in NameRest

RECURSIVE ToNumber(_, _, _)
ToNumber(u, i, acc) == IF i > Len(u) THEN acc ELSE ToNumber(u, i + 1, 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = SubSeq(u, i, i)))
\* compares integers by sign, then as numbers where they are short
IntOf(s) == LET u == Unsigned(s)
              n == IF Len(u) > 8 THEN 99999999 ELSE ToNumber(u, 1, 0)
          IN IF SubSeq(s, 1, 1) = "-" THEN 0 - n ELSE n

\* decimals without trailing zeros of the fraction and leading zeros
RECURSIVE DropTail(_), DropHead(_)
DropTail(u) == IF u # "" /\ SubSeq(u, Len(u), Len(u)) = "0" THEN DropTail(SubSeq(u, 1, Len(u) - 1)) ELSE u
DropHead(u) == IF u # "" /\ SubSeq(u, 1, 1) = "0" THEN DropHead(SubSeq(u, 2, Len(u))) ELSE u
DecimalKey(s) ==
    LET u == Unsigned(s)
        dots == {i \in 1..Len(u) : SubSeq(u, i, i) = "."}
        at == IF dots = {} THEN Len(u) + 1 ELSE CHOOSE i \in dots : TRUE
        a == DropHead(SubSeq(u, 1, at - 1))
        b == DropTail(SubSeq(u, at + 1, Len(u)))
    IN <<SubSeq(s, 1, 1) = "-" /\ <<a, b>> # <<"", "">>, a, b>>

SimpleOk(st, text) ==
    LET v == IF st.base = "string" THEN text ELSE Collapse(text)
        q == Items(v)
    IN /\ CASE st.base = "boolean" -> v \in {"true", "false", "1", "0"}
            [] st.base = "integer" -> IsInteger(v)
            [] st.base = "decimal" -> IsDecimal(v)
            [] st.base = "Name" -> IsName(v)
            [] OTHER -> TRUE
       /\ st.enums = <<>> \/ \E i \in 1..Len(st.enums) : st.enums[i] = v
       /\ st.patterns = <<>> \/ \E i \in 1..Len(st.patterns) : Matches(st.patterns[i], q)
       /\ Len(v) >= st.min
       /\ st.lo = "" \/ IntOf(v) >= IntOf(st.lo)
       /\ st.hi = "" \/ IntOf(v) <= IntOf(st.hi)

-----------------------------------------------------------------------------
(* elements *)
XsiUri == "{http://www.w3.org/2001/XMLSchema-instance}"
IsXsi(n) == Len(n) > Len(XsiUri) /\ SubSeq(n, 1, Len(XsiUri)) = XsiUri

Nil(n) == \E i \in 1..Len(n.at) : n.at[i].n = XsiUri \o "nil"
NilOk(n) == \A i \in 1..Len(n.at) : n.at[i].n = XsiUri \o "nil" => n.at[i].v \in {"true", "false", "1", "0"}
IsNil(n) == \E i \in 1..Len(n.at) : n.at[i].n = XsiUri \o "nil" /\ n.at[i].v \in {"true", "1"}

AttrsOk(v, attrs, at) ==
    /\ \A i \in 1..Len(at) :
         \/ IsXsi(at[i].n)
         \/ \E j \in 1..Len(attrs) :
              /\ attrs[j].n = at[i].n
              /\ SimpleOk(v.simple[attrs[j].type], at[i].v)
              /\ attrs[j].fixed = "" \/ DecimalKey(Collapse(at[i].v)) = DecimalKey(attrs[j].fixed)
    /\ \A j \in 1..Len(attrs) : attrs[j].must => \E i \in 1..Len(at) : at[i].n = attrs[j].n

Blank(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Space

RECURSIVE ElementOk(_, _, _)
ElementOk(v, type, n) ==
    IF Nil(n) THEN FALSE  \* no element but the root may be nil
    ELSE IF type \in DOMAIN v.simple
    THEN n.c = <<>> /\ AttrsOk(v, <<>>, n.at) /\ SimpleOk(v.simple[type], n.x)
    ELSE LET ct == v.complex[type]
         IN /\ AttrsOk(v, ct.attrs, n.at)
            /\ Blank(n.x)
            /\ Matches(ct.model, [i \in 1..Len(n.c) |-> n.c[i].t])
            /\ \A i \in 1..Len(n.c) : n.c[i].t \notin DOMAIN ct.types \/ ElementOk(v, ct.types[n.c[i].t], n.c[i])

(* the root may be nil: then it has its attributes and nothing else *)
Valid(version, tree) ==
    LET v == Table.versions[version]
        ct == v.complex[v.top]
    IN /\ tree.t = "device"
       /\ NilOk(tree)
       /\ IF IsNil(tree) THEN tree.c = <<>> /\ tree.x = "" /\ AttrsOk(v, ct.attrs, tree.at)
          ELSE ElementOk(v, v.top, [tree EXCEPT !.at = SelectSeq(tree.at, LAMBDA a : a.n # XsiUri \o "nil")])
=============================================================================
