----------------------------- MODULE SvdResolve -----------------------------
(***************************************************************************)
(* Resolution of derivedFrom and dim.                                      *)
(*                                                                         *)
(* A document is flattened into nodes 1..N in document order; node 0 is    *)
(* the device.  The state of a resolution is                               *)
(*   bound[n]  the base the derivedFrom path of n was bound to: <<>> while *)
(*             unbound, else <<node, instance>>, instance 0 being the      *)
(*             element as written (the template of a replicated element)   *)
(*   el[n]     <<>> until n is elaborated, else <<elaboration>>            *)
(* Two kinds of steps change it: BIND a path and ELABORATE an element.     *)
(* Their enabling conditions only look at bindings and elaborations that   *)
(* are never revised, so the order of the steps should not matter: this is *)
(* what the ResolveMachine module checks, exhaustively on small documents. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SvdField, SvdEnum

RECURSIVE FlatSeq(_, _, _)
FlatSeq(trees, parent, acc) ==
    IF trees = <<>> THEN acc
    ELSE LET t == Head(trees)
             me == Len(acc) + 1
             withMe == Append(acc, [k |-> t.k, p |-> parent, a |-> t.a])
         IN FlatSeq(Tail(trees), parent, FlatSeq(t.kids, me, withMe))
Flatten(trees) == FlatSeq(trees, 0, <<>>)

RECURSIVE OwnKidsR(_, _, _, _)
OwnKidsR(nodes, n, i, acc) ==
    IF i > Len(nodes) THEN acc
    ELSE OwnKidsR(nodes, n, i + 1, IF nodes[i].p = n THEN Append(acc, i) ELSE acc)

(* the constant part of a resolution *)
DocOf(nodes) ==
    [n |-> Len(nodes), nodes |-> nodes,
     kids |-> [i \in 1..(Len(nodes) + 1) |-> OwnKidsR(nodes, i - 1, 1, <<>>)],
     \* the names an element is written with, and its derivedFrom path in parts
     name |-> [i \in 1..Len(nodes) |-> IF Has(nodes[i].a, "name") THEN <<nodes[i].a.name>> ELSE <<>>],
     path |-> [i \in 1..Len(nodes) |-> IF Has(nodes[i].a, "derived_from")
                                       THEN Split(nodes[i].a.derived_from, ".") ELSE <<>>]]
Doc(trees) == DocOf(Flatten(trees))

OwnKids(d, n) == d.kids[n + 1]

Start(d) == [bound |-> [i \in 1..d.n |-> <<>>], el |-> [i \in 1..d.n |-> <<>>]]

Done(st, n) == n = 0 \/ st.el[n] # <<>>

(* own children, then those the base contributes *)
RECURSIVE Kids(_, _, _)
Kids(d, st, n) ==
    IF n # 0 /\ Done(st, n) /\ st.bound[n] # <<>>
    THEN OwnKids(d, n) \o Kids(d, st, st.bound[n][1])
    ELSE OwnKids(d, n)

(* under which name, if any, n is visible: 0 the written name, i the i-th   *)
(* instance, -1 not at all                                                  *)
VisibleAs(d, st, n, name) ==
    IF d.name[n] = <<name>> THEN 0
    ELSE IF Done(st, n) /\ st.el[n][1].dim
         THEN LET ns == st.el[n][1].names
                  hit == {i \in 1..Len(ns) : ns[i] = name}
              IN IF hit = {} THEN -1 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
    ELSE -1

(* all elements a path denotes below the given nodes *)
RECURSIVE Search(_, _, _, _, _, _)
Search(d, st, among, parts, self, kind) ==
    LET Here(n) ==
            IF n = self THEN {}
            ELSE LET as == VisibleAs(d, st, n, parts[1])
                 IN IF as = -1 THEN {}
                    ELSE IF Len(parts) = 1
                         THEN IF d.nodes[n].k = kind THEN {<<n, as>>} ELSE {}
                         ELSE Search(d, st, Kids(d, st, n), Tail(parts), self, kind)
    IN UNION {Here(among[i]) : i \in 1..Len(among)}

(* several registers of one name are told apart by their alternate group:   *)
(* a path means the one outside of any group                                *)
Plain(d, st, m) ==
    /\ d.nodes[m[1]].k = "register"
    /\ Done(st, m[1])
    /\ ~Has(st.el[m[1]][1].tmpl, "alternate_group")
Narrow(d, st, ms) ==
    IF Cardinality(ms) <= 1 THEN ms
    ELSE LET pl == {m \in ms : Plain(d, st, m)} IN IF Cardinality(pl) = 1 THEN pl ELSE ms

(* the one outside may not be known yet *)
Waits(d, st, ms) ==
    /\ Cardinality(ms) > 1
    /\ \A m \in ms : ~Plain(d, st, m)
    /\ \E m \in ms : d.nodes[m[1]].k = "register" /\ ~Done(st, m[1])

(* what the path of n denotes now: same scope first, then from the top      *)
Lookup(d, st, n) ==
    LET Found(among) == Narrow(d, st, Search(d, st, among, d.path[n], n, d.nodes[n].k))
        Known(ms) == IF Waits(d, st, ms) THEN {} ELSE ms
        near == Found(Kids(d, st, d.nodes[n].p))
    IN Known(IF near # {} THEN near ELSE Found(OwnKids(d, 0)))

Bindable(d, st, n) == d.path[n] # <<>> /\ st.bound[n] = <<>> /\ Done(st, d.nodes[n].p)

-----------------------------------------------------------------------------
(* Elaboration: the element's own attributes, completed from its base       *)

RegProps == {"size", "access", "protection", "reset_value", "reset_mask"}
DimProps == {"dim", "dim_increment", "dim_index"}

(* origin: which element of the parsed device this is, where the trace tells *)
OwnKeys(kind) == {"origin"} \cup
    CASE kind = "peripheral" -> DimProps \cup RegProps \cup
            {"version", "description", "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name",
             "header_struct_name", "disable_condition"}
      [] kind = "cluster" -> DimProps \cup RegProps \cup {"description", "alternate_cluster", "header_struct_name"}
      [] kind = "register" -> DimProps \cup RegProps \cup
            {"description", "alternate_group", "alternate_register", "data_type", "modified_write_values",
             "write_constraint", "read_action"}
      [] kind = "field" -> DimProps \cup
            {"access", "description", "modified_write_values", "write_constraint", "read_action"}
      [] OTHER -> {"name", "header_enum_name", "usage", "values"}

(* everything is inherited but the header struct name of a peripheral; the  *)
(* name, the address and the interrupts always are the element's own        *)
InheritedKeys(kind) == IF kind = "peripheral" THEN OwnKeys(kind) \ {"header_struct_name"} ELSE OwnKeys(kind)

RECURSIVE InsertBy(_, _, _)
InsertBy(Less(_, _), s, x) ==
    IF s = <<>> THEN <<x>>
    ELSE IF Less(x, s[Len(s)]) THEN Append(InsertBy(Less, SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
    ELSE Append(s, x)
RECURSIVE SortFrom(_, _, _, _)
SortFrom(Less(_, _), s, i, acc) == IF i > Len(s) THEN acc ELSE SortFrom(Less, s, i + 1, InsertBy(Less, acc, s[i]))
(* stable *)
SortBy(Less(_, _), s) == SortFrom(Less, s, 1, <<>>)

BlockOf(b) == IF Has(b, "protection") THEN b ELSE b @@ [protection |-> "any"]
Blocks(bs) == SortBy(LAMBDA x, y : NLt(x.offset, y.offset), [i \in 1..Len(bs) |-> BlockOf(bs[i])])
Interrupts(is) == SortBy(LAMBDA x, y : x.value < y.value, is)

ElabFail == [err |-> TRUE, dim |-> FALSE, warn |-> 0, names |-> <<>>, insts |-> <<>>, tmpl |-> <<>>]

(* base: <<>> or <<attributes of the base>> *)
Elaborate(kind, own, base) ==
    IF kind = "enumc" THEN
        \* a derived container is a copy of its base
        LET a == IF base # <<>> THEN base[1] ELSE Restr(own, OwnKeys(kind))
        IN [err |-> FALSE, dim |-> FALSE, warn |-> 0, names |-> <<>>, insts |-> <<a>>, tmpl |-> a]
    ELSE
    LET inh == IF base = <<>> THEN <<>> ELSE Restr(base[1], InheritedKeys(kind))
        merged == Restr(own, OwnKeys(kind)) @@ inh
        full == IF kind \in {"register", "field"} /\ ~Has(merged, "modified_write_values")
                THEN merged @@ [modified_write_values |-> "modify"] ELSE merged
        disp == IF kind # "register" THEN <<>>
                ELSE IF Has(own, "display_name") THEN <<own.display_name>>
                ELSE IF base # <<>> /\ Has(base[1], "display_name") THEN <<base[1].display_name>> ELSE <<>>
        x == Expand(kind, own.name, disp, Has(full, "dim"), IF Has(full, "dim") THEN full.dim ELSE 0,
                    Has(full, "dim_index"), IF Has(full, "dim_index") THEN full.dim_index ELSE "")
        inc == IF Has(full, "dim_increment") THEN full.dim_increment ELSE <<>>
        At(off, i) == IF inc = <<>> \/ i = 1 THEN off ELSE NAdd(off, NMul(inc, i - 1))
        bits == IF kind = "field" THEN FieldBits(own, base) ELSE [err |-> FALSE, warn |-> 0, lsb |-> 0, msb |-> 0]
        shift(i) == IF i = 1 THEN 0 ELSE NToInt(inc) * (i - 1)
        place(i) ==
            CASE kind = "peripheral" ->
                    [base_address |-> At(own.base_address, i),
                     interrupts |-> Interrupts(own.interrupts),
                     address_blocks |-> IF own.address_blocks # <<>> THEN Blocks(own.address_blocks)
                                        ELSE IF base # <<>> THEN base[1].address_blocks ELSE <<>>]
              [] kind \in {"cluster", "register"} -> [address_offset |-> At(own.address_offset, i)]
              [] OTHER -> [lsb |-> bits.lsb + shift(i), msb |-> bits.msb + shift(i)]
        show(ds) == IF ds = <<>> THEN <<>> ELSE [display_name |-> ds[1]]
        plain == IF x.dim THEN Restr(full, DOMAIN full \ DimProps) ELSE full
    IN IF x.err \/ bits.err THEN ElabFail
       ELSE [err |-> FALSE, dim |-> x.dim,
             warn |-> x.warn + (bits.warn * Len(x.names)),
             names |-> x.names,
             insts |-> [i \in 1..Len(x.names) |-> [name |-> x.names[i]] @@ place(i) @@ show(x.disps[i]) @@ plain],
             tmpl |-> IF x.dim THEN [name |-> own.name] @@ place(1) @@ show(x.disps[1]) @@ full
                      ELSE [name |-> x.names[1]] @@ place(1) @@ show(x.disps[1]) @@ full]

Attrs(st, b) == IF b[2] = 0 THEN st.el[b[1]][1].tmpl ELSE st.el[b[1]][1].insts[b[2]]

(* nothing is built on an element that could not be elaborated *)
Sound(st, n) == n = 0 \/ (st.el[n] # <<>> /\ ~st.el[n][1].err)

Elaborable(d, st, n) ==
    /\ ~Done(st, n)
    /\ Sound(st, d.nodes[n].p)
    /\ d.path[n] = <<>> \/ (st.bound[n] # <<>> /\ Sound(st, st.bound[n][1]))

ElaborateIn(d, st, n) ==
    Elaborate(d.nodes[n].k, d.nodes[n].a, IF st.bound[n] = <<>> THEN <<>> ELSE <<Attrs(st, st.bound[n])>>)

-----------------------------------------------------------------------------
(* The round-based strategy: bind everything that can be bound, elaborate   *)
(* everything that can be elaborated, until neither is possible.            *)

RECURSIVE ElabPass(_, _, _)
ElabPass(d, st, n) ==
    IF n > d.n THEN st
    ELSE IF Elaborable(d, st, n) THEN ElabPass(d, [st EXCEPT !.el[n] = <<ElaborateIn(d, st, n)>>], n + 1)
    ELSE ElabPass(d, st, n + 1)
RECURSIVE ElabAll(_, _)
ElabAll(d, st) == LET nx == ElabPass(d, st, 1) IN IF nx = st THEN st ELSE ElabAll(d, nx)

BindRound(d, st) ==
    LET found == [n \in 1..d.n |-> IF Bindable(d, st, n) THEN Lookup(d, st, n) ELSE {}]
    IN [amb |-> \E n \in 1..d.n : Cardinality(found[n]) > 1,
        st |-> [st EXCEPT !.bound = [n \in 1..d.n |->
                    IF Cardinality(found[n]) = 1 THEN CHOOSE m \in found[n] : TRUE ELSE st.bound[n]]]]

HasError(d, st) == \E n \in 1..d.n : Done(st, n) /\ st.el[n][1].err
Complete(d, st) == \A n \in 1..d.n : Done(st, n)

(* an element may not contain itself, not even through its bases            *)
RECURSIVE Unfoldable(_, _, _)
Unfoldable(d, st, pending) ==
    IF pending = {} THEN TRUE
    ELSE LET leaves == {n \in pending : \A i \in 1..Len(Kids(d, st, n)) : Kids(d, st, n)[i] \notin pending}
         IN IF leaves = {} THEN FALSE ELSE Unfoldable(d, st, pending \ leaves)

Outcome(d, st, amb) ==
    [ok |-> ~amb /\ ~HasError(d, st) /\ Complete(d, st) /\ Unfoldable(d, st, 1..d.n),
     why |-> IF amb THEN "ambiguous" ELSE IF HasError(d, st) THEN "element"
             ELSE IF ~Complete(d, st) THEN "unresolved" ELSE IF Unfoldable(d, st, 1..d.n) THEN "" ELSE "self-contained",
     st |-> st]

RECURSIVE Rounds(_, _)
Rounds(d, st) ==
    LET b == BindRound(d, st)
        nx == ElabAll(d, b.st)
    IN IF b.amb THEN Outcome(d, b.st, TRUE)
       ELSE IF HasError(d, nx) \/ nx = st THEN Outcome(d, nx, FALSE)
       ELSE Rounds(d, nx)

Resolve(d) == Rounds(d, Start(d))

(* A path that is only unambiguous because an element cannot derive from    *)
(* itself, or because the elements on its several routes are copies of one  *)
(* element: whether such a path is accepted is left open.                   *)
RECURSIVE Routes(_, _, _, _, _, _)
Routes(d, st, among, i, parts, kind) ==
    IF i > Len(among) THEN 0
    ELSE Routes(d, st, among, i + 1, parts, kind) +
         (IF VisibleAs(d, st, among[i], parts[1]) = -1 THEN 0
          ELSE IF Len(parts) > 1 THEN Routes(d, st, Kids(d, st, among[i]), 1, Tail(parts), kind)
          ELSE IF d.nodes[among[i]].k = kind THEN 1 ELSE 0)
Unclear(d, st, n) ==
    LET Found(among) == Search(d, st, among, d.path[n], 0, d.nodes[n].k)
        Settled(ms) == Cardinality(ms) > 1 /\ Cardinality(Narrow(d, st, ms)) = 1
        Twins(among) == Routes(d, st, among, 1, d.path[n], d.nodes[n].k) > 1 /\ ~Settled(Found(among))
    IN d.path[n] # <<>> /\ (Twins(Kids(d, st, d.nodes[n].p)) \/ Twins(OwnKids(d, 0)))

(* A path inside a base that would denote something else among what the     *)
(* deriving element states itself: whether it is followed before or after   *)
(* copying is left open.                                                    *)
Divided(d, st, n) ==
    \E m \in 1..d.n :
        /\ m # d.nodes[n].p /\ Done(st, m) /\ st.bound[m] # <<>>
        /\ \E i \in 1..Len(Kids(d, st, m)) : Kids(d, st, m)[i] = n
        /\ LET Near(p) == Narrow(d, st, Search(d, st, Kids(d, st, p), d.path[n], n, d.nodes[n].k))
           IN Near(m) # Near(d.nodes[n].p)
Divides(d, st) == \E n \in 1..d.n : d.path[n] # <<>> /\ Divided(d, st, n)

=============================================================================
