----------------------------- MODULE SvdOrigin ------------------------------
(***************************************************************************)
(* Where the elements of a processed device come from.  Every element of a *)
(* parsed device has a mark, its origin; processing carries it along: an   *)
(* instance has the mark of its template, what a derivation copies that of *)
(* the element copied, everything else that of its own declaration.        *)
(***************************************************************************)
EXTENDS SvdProcess

Mark(r) == IF Has(r, "origin") THEN r.origin ELSE "none"

(* parts of an element that are no elements of the tree                     *)
Parts(x) ==
    LET a == x.a
        Of(key, s, Tell(_)) == {<<key, Tell(s[i]), Mark(s[i])>> : i \in 1..Len(s)}
    IN (IF Has(a, "address_blocks") THEN Of("block", a.address_blocks, LAMBDA b : NDec(b.offset)) ELSE {})
       \cup (IF Has(a, "interrupts") THEN Of("interrupt", a.interrupts, LAMBDA i : i.name) ELSE {})
       \cup (IF Has(a, "write_constraint") THEN {<<"constraint", "", Mark(a.write_constraint)>>} ELSE {})
       \cup (IF x.k = "enumc" THEN Of("value", x.vals, LAMBDA v : v.name) ELSE {})
       \cup (IF x.k = "peripheral" THEN Of("register", x.regs, LAMBDA r : r.name) ELSE {})

(* <<where, what, which, origin>> *)
RECURSIVE OriginsOf(_, _)
OriginsOf(x, at) ==
    LET here == at \o "/" \o (IF x.k = "enumc" THEN x.a.usage ELSE x.a.name)
    IN {<<here, "", "", Mark(x.a)>>}
       \cup {<<here, p[1], p[2], p[3]>> : p \in Parts(x)}
       \cup (IF x.k = "enumc" THEN {} ELSE UNION {OriginsOf(x.kids[i], here) : i \in 1..Len(x.kids)})

CpuOrigins(c) ==
    {<<"cpu", "", "", Mark(c)>>}
    \cup IF Has(c, "sau_regions_config")
         THEN LET s == c.sau_regions_config
              IN {<<"cpu", "sau", "", Mark(s)>>}
                 \cup {<<"cpu", "region", ToString(i), Mark(s.regions[i])>> : i \in 1..Len(s.regions)}
         ELSE {}

Origins(dev) ==
    {<<"device", "", "", Mark(dev.a)>>}
    \cup (IF dev.cpu = <<>> THEN {} ELSE CpuOrigins(dev.cpu[1]))
    \cup UNION {OriginsOf(dev.kids[i], "") : i \in 1..Len(dev.kids)}

(* what both devices have, and have from elsewhere                          *)
Strays(want, got) ==
    LET w == Origins(want)
        g == Origins(got)
        there == {<<o[1], o[2], o[3]>> : o \in g}
    IN {o \in w \ g : <<o[1], o[2], o[3]>> \in there}

=============================================================================
