----------------------------- MODULE SvdConvert -----------------------------
(***************************************************************************)
(* The parsed-model form of a processed device: nothing to derive, nothing *)
(* to replicate, every inherited attribute written out.                    *)
(***************************************************************************)
EXTENDS SvdMap

Computed == {"base_address", "end_address", "cluster_size"}
PeripheralComputed == {"end_address", "end_address_effective", "peripheral_size", "peripheral_size_effective"}

ConvEnum(c) ==
    [k |-> "enumc", kids |-> <<>>,
     a |-> [values |-> [i \in 1..Len(c.vals) |->
                [value |-> NDec(c.vals[i].value), is_default |-> FALSE]
                @@ Restr(c.vals[i], {"name", "description"})]] @@ c.a]

RECURSIVE Conv(_)
Conv(x) ==
    LET hidden == CASE x.k = "peripheral" -> PeripheralComputed
                    [] x.k = "field" -> {"bit_offset", "bit_width", "bit_range"}
                    [] OTHER -> Computed
    IN IF x.k = "enumc" THEN ConvEnum(x)
       ELSE [k |-> x.k, a |-> Restr(x.a, DOMAIN x.a \ hidden),
             kids |-> [i \in 1..Len(x.kids) |-> Conv(x.kids[i])]]

ConvertDevice(dev) ==
    [a |-> [xs_no_namespace_schema_location |-> "CMSIS-SVD.xsd", schema_version |-> "1.3"] @@ dev.a,
     cpu |-> dev.cpu,
     kids |-> [i \in 1..Len(dev.kids) |-> Conv(dev.kids[i])]]

=============================================================================
