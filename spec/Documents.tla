----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* All small documents: trees of at most MaxNodes elements of the given    *)
(* kinds with names from a small alphabet, of which at most MaxPaths       *)
(* derive, by any path that can be spelled with the names of the document. *)
(*                                                                         *)
(* The document grows in document order (a new element goes below one on   *)
(* the rightmost path), then the paths are chosen, from the last element   *)
(* to the first.  Every element that does not derive says who it is in its *)
(* description, so that a resolved element tells what it was bound to.     *)
(***************************************************************************)
EXTENDS SvdProcess

CONSTANTS MaxNodes, MaxPaths, Kinds, Dims, Groups, Peripherals

VARIABLES nodes, at  \* at: the element whose path is chosen next; 0: all are chosen, -1: still growing

doc == <<nodes, at>>

Names(k) ==
    CASE k = "peripheral" -> {"P", "Q"}
      [] k \in {"cluster", "register"} -> {"A", "B"}
      [] k = "field" -> {"F", "G"}
      [] OTHER -> {"E"}
Below(k) ==
    CASE k = "device" -> {"peripheral"}
      [] k \in {"peripheral", "cluster"} -> {"cluster", "register"}
      [] k = "register" -> {"field"}
      [] k = "field" -> {"enumc"}
      [] OTHER -> {}

KindAt(n) == IF n = 0 THEN "device" ELSE nodes[n].k
RECURSIVE Above(_)
Above(n) == IF n = 0 THEN {0} ELSE {n} \cup Above(nodes[n].p)
CanDim == {"peripheral", "cluster", "register", "field"}

Num(i) == NOf(i)
Attrs0(k, i, name, dim) ==
    [name |-> IF ~dim THEN name ELSE IF k = "peripheral" THEN name \o "[%s]" ELSE name \o "%s"]
    @@ (IF dim THEN [dim |-> 2, dim_increment |-> Num(IF k = "field" THEN 4 ELSE IF k = "peripheral" THEN 4096 ELSE 256)] ELSE <<>>)
    @@ (CASE k = "peripheral" ->
               [base_address |-> Num(16384 * i), interrupts |-> <<>>,
                address_blocks |-> <<[offset |-> Num(0), size |-> Num(4096), usage |-> "registers"]>>]
          [] k \in {"cluster", "register"} -> [address_offset |-> Num(4 * i)]
          [] k = "field" -> [bit_offset |-> 2 * i, bit_width |-> 2]
          [] OTHER -> [values |-> <<[name |-> "v" \o ToString(i), value |-> ToString(i % 4)]>>])

Init == nodes = <<>> /\ at = -1

Grow ==
    /\ at = -1 /\ Len(nodes) < MaxNodes
    /\ \E p \in Above(Len(nodes)), k \in Kinds : \E name \in Names(k), dim \in {FALSE} \cup (IF k \in CanDim THEN Dims ELSE {}),
          group \in {""} \cup (IF k = "register" THEN Groups ELSE {}) :
          /\ k \in Below(KindAt(p))
          /\ k = "peripheral" => /\ Cardinality({n \in 1..Len(nodes) : nodes[n].k = k}) < Peripherals
                                 /\ name = "P" <=> nodes = <<>>
          /\ nodes' = Append(nodes, [k |-> k, p |-> p, name |-> name, dim |-> dim, group |-> group, path |-> ""])
    /\ UNCHANGED at

Grown == at = -1 /\ nodes # <<>> /\ at' = Len(nodes) /\ UNCHANGED nodes

\* the paths that can be spelled: along the kinds some other element of the kind is found by
Spelled(n) == {nodes[n].name} \cup (IF nodes[n].dim THEN {nodes[n].name \o "0"} ELSE {})
Words(k) == UNION {Spelled(n) : n \in {m \in 1..Len(nodes) : nodes[m].k = k}}
RECURSIVE PathsTo(_)
PathsTo(m) ==
    Words(nodes[m].k) \cup
        (IF nodes[m].p = 0 THEN {} ELSE {q \o "." \o w : q \in PathsTo(nodes[m].p), w \in Words(nodes[m].k)})
Paths(n) == UNION {PathsTo(m) : m \in {o \in 1..Len(nodes) : o # n /\ nodes[o].k = nodes[n].k}}

Derived == Cardinality({n \in 1..Len(nodes) : nodes[n].path # ""})
Choose ==
    /\ at > 0
    /\ \E q \in {""} \cup (IF Derived < MaxPaths THEN Paths(at) ELSE {}) :
          nodes' = [nodes EXCEPT ![at].path = q]
    /\ at' = at - 1

Next == Grow \/ Grown \/ Choose

Ready == at = 0 /\ Derived > 0

\* the chosen document as resolution sees it
Full(n) ==
    LET e == nodes[n]
    IN [k |-> e.k, p |-> e.p,
        a |-> Attrs0(e.k, n, e.name, e.dim)
              @@ (IF e.group = "" THEN <<>> ELSE [alternate_group |-> e.group])
              @@ (IF e.path = "" THEN [description |-> ToString(n)] ELSE [derived_from |-> e.path])]
AsDoc == DocOf([n \in 1..Len(nodes) |-> Full(n)])

RECURSIVE TreeAt(_)
TreeAt(n) == [k |-> nodes[n].k, a |-> Full(n).a,
              kids |-> LET ks == OwnKidsR(nodes, n, 1, <<>>) IN [i \in 1..Len(ks) |-> TreeAt(ks[i])]]
Parsed == [a |-> [name |-> "D", width |-> 32], cpu |-> <<>>,
           kids |-> LET ks == OwnKidsR(nodes, 0, 1, <<>>) IN [i \in 1..Len(ks) |-> TreeAt(ks[i])]]

\* a processed device in one line
RECURSIVE Line(_)
Lines(items) == LET RECURSIVE Go(_, _)
                    Go(i, acc) == IF i > Len(items) THEN acc ELSE Go(i + 1, acc \o Line(items[i]))
                IN Go(1, "")
Line(x) ==
    IF x.k = "enumc" THEN LET RECURSIVE Go(_, _)
                              Go(i, acc) == IF i > Len(x.vals) THEN acc ELSE Go(i + 1, acc \o x.vals[i].name \o ";")
                          IN "[" \o Go(1, "") \o "]"
    ELSE x.a.name
         \o "@" \o (IF x.k = "field" THEN ToString(x.a.lsb) ELSE NDec(x.a.base_address))
         \o (IF Has(x.a, "alternate_group") THEN "/" \o x.a.alternate_group ELSE "")
         \o (IF Has(x.a, "description") THEN "=" \o x.a.description ELSE "")
         \o "{" \o Lines(x.kids) \o "}"

\* told with what becomes of it: "maybe" where acceptance, "open" where the result is left open
Fate == LET r == ProcessDevice(Parsed)
        IN IF OpenResult(Parsed) THEN "open "
           ELSE IF ~r.ok THEN "no " \o r.why
           ELSE (IF OpenAcceptance(Parsed) THEN "maybe " ELSE "yes ") \o Lines(r.dev.kids)
Told ==
    ~Ready \/ PrintT("DOC" \o Fate \o "|" \o
                     ToString([n \in 1..Len(nodes) |-> <<nodes[n].k, nodes[n].p, nodes[n].name, nodes[n].dim, nodes[n].group, nodes[n].path>>]))

Spec == Init /\ [][Next]_doc
=============================================================================
