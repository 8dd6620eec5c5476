-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What is to hold of processing, stated by itself: laws that relate a     *)
(* document to the device it becomes without saying how it is computed.    *)
(* Checked on every document of Variations, so that the specification the  *)
(* code is compared with is itself compared with the properties.           *)
(***************************************************************************)
EXTENDS Variations, SvdConvert

One0 == NOf(1)
Within(x, lo, hi) == NLeq(lo, x) /\ NLeq(x, hi)
\* a law holds, or its name is told
Law(name, holds) == holds \/ (PrintT("BROKEN " \o name) /\ FALSE)

RECURSIVE Leaves(_)
\* the registers below some elements
Leaves(items) == UNION {IF items[i].k = "register" THEN {items[i]} ELSE Leaves(items[i].kids) : i \in 1..Len(items)}
RECURSIVE CountLeaves(_)
CountLeaves(items) == Sum([i \in 1..Len(items) |-> IF items[i].k = "register" THEN 1 ELSE CountLeaves(items[i].kids)])
\* the first address after a register
After(x) == NAdd(x.a.base_address, NOf(x.a.size \div 8))
\* the first address after all of them
IsAfterAll(next, items) == /\ \A x \in Leaves(items) : NLeq(After(x), next)
                           /\ \E x \in Leaves(items) : After(x) = next

RECURSIVE EveryRc(_)
EveryRc(items) == UNION {{items[i]} \cup (IF items[i].k = "cluster" THEN EveryRc(items[i].kids) ELSE {}) : i \in 1..Len(items)}
Rcs(dev) == UNION {EveryRc(dev.kids[i].kids) : i \in 1..Len(dev.kids)}
Regs(dev) == {x \in Rcs(dev) : x.k = "register"}
Fields(dev) == UNION {{x.kids[i] : i \in 1..Len(x.kids)} : x \in Regs(dev)}
Containers(dev) == UNION {{f.kids[i] : i \in 1..Len(f.kids)} : f \in Fields(dev)}
\* all lists of siblings of a kind
SiblingLists(dev) == {dev.kids} \cup {dev.kids[i].kids : i \in 1..Len(dev.kids)} \cup {x.kids : x \in {y \in Rcs(dev) : y.k = "cluster"}}

-----------------------------------------------------------------------------
(* addresses *)

RECURSIVE Placed(_, _)
Placed(items, base) == \A i \in 1..Len(items) :
    LET x == items[i]
    IN /\ x.a.base_address = NAdd(base, x.a.address_offset)
       /\ x.k = "cluster" => /\ Placed(x.kids, x.a.base_address)
                             /\ IsAfterAll(NAdd(x.a.end_address, One0), x.kids)
                             /\ NAdd(x.a.base_address, x.a.cluster_size) = NAdd(x.a.end_address, One0)
BlockAfter(p, b) == NAdd(NAdd(p.a.base_address, b.offset), b.size)
PeripheralEnds(p) ==
    LET bs == {p.a.address_blocks[i] : i \in 1..Len(p.a.address_blocks)}
        next == NAdd(p.a.end_address, One0)
    IN /\ bs # {}
       /\ \A b \in bs : NLeq(BlockAfter(p, b), next)
       /\ \E b \in bs : BlockAfter(p, b) = next
       /\ IsAfterAll(NAdd(p.a.end_address_effective, One0), p.kids)
       /\ NAdd(p.a.base_address, p.a.peripheral_size_effective) = NAdd(p.a.end_address_effective, One0)
Addressed(dev) == \A i \in 1..Len(dev.kids) : Placed(dev.kids[i].kids, dev.kids[i].a.base_address) /\ PeripheralEnds(dev.kids[i])
Ordered(dev) ==
    /\ \A s \in SiblingLists(dev) : \A i \in 1..(Len(s) - 1) : NLeq(s[i].a.base_address, s[i + 1].a.base_address)
    /\ \A x \in Regs(dev) : \A i \in 1..(Len(x.kids) - 1) : x.kids[i].a.lsb <= x.kids[i + 1].a.lsb
\* the list of all registers of a peripheral
Listed(dev) == \A i \in 1..Len(dev.kids) :
    LET p == dev.kids[i]
    IN /\ Len(p.regs) = CountLeaves(p.kids)
       /\ {<<p.regs[j].name, p.regs[j].base_address>> : j \in 1..Len(p.regs)} = {<<x.a.name, x.a.base_address>> : x \in Leaves(p.kids)}
       /\ \A j \in 1..(Len(p.regs) - 1) : NLeq(p.regs[j].base_address, p.regs[j + 1].base_address)

-----------------------------------------------------------------------------
(* what a device is made of *)

Whole(dev) ==
    /\ \A x \in Rcs(dev) : x.a.size \in {8, 16, 32, 64, 128} /\ RegProps \subseteq DOMAIN x.a
    /\ \A i \in 1..Len(dev.kids) : dev.kids[i].kids # <<>> /\ dev.kids[i].a.size % 8 = 0 /\ RegProps \subseteq DOMAIN dev.kids[i].a
    /\ \A x \in Rcs(dev) : IF x.k = "cluster" THEN x.kids # <<>> /\ \A i \in 1..Len(x.kids) : x.kids[i].a.size <= x.a.size
                           ELSE Lower(x.a.name) # "reserved"
    /\ \A f \in Fields(dev) : Lower(f.a.name) # "reserved" /\ Has(f.a, "access")
Known(x) == <<x.a.name, AltGroup(x)>>
Named(dev) ==
    /\ \A s \in SiblingLists(dev) : \A i, j \in 1..Len(s) : Known(s[i]) = Known(s[j]) => i = j
    /\ \A x \in Regs(dev) : \A i, j \in 1..Len(x.kids) : x.kids[i].a.name = x.kids[j].a.name => i = j

-----------------------------------------------------------------------------
(* fields and their values *)

BitsOf(f) == f.a.lsb..f.a.msb
Bitwise(dev) ==
    /\ \A f \in Fields(dev) : /\ f.a.bit_offset = f.a.lsb /\ f.a.bit_range = <<f.a.msb, f.a.lsb>>
                              /\ f.a.bit_width >= 0 => Cardinality(BitsOf(f)) = f.a.bit_width
    /\ \A x \in Regs(dev) : \A i, j \in 1..Len(x.kids) :
          i < j /\ BitsOf(x.kids[i]) \cap BitsOf(x.kids[j]) # {} =>
             {x.kids[i].a.access, x.kids[j].a.access} = {"read-only", "write-only"}

\* a known finding: an entry has the name another one, the default, gives to a number
Clashes == /\ Which = "enum-values"
           /\ LET said == pd.kids[1].kids[1].kids[1].kids[1].a.values
              IN Has(said[1], "is_default") /\ said[1].is_default /\ said[2].name = "a_1"
Ascending(dev) == \A f \in Fields(dev) : \A i \in 1..Len(f.kids) :
    LET vs == f.kids[i].vals
    IN /\ \A j \in 1..(Len(vs) - 1) : NLt(vs[j].value, vs[j + 1].value)
       /\ vs # <<>> => NLt(vs[Len(vs)].value, NPow2(f.a.bit_width))
       /\ Clashes \/ \A j, m \in 1..Len(vs) : vs[j].name = vs[m].name => j = m
Apart(dev) == \A f \in Fields(dev) :
    LET us == [i \in 1..Len(f.kids) |-> f.kids[i].a.usage]
    IN Len(us) <= 1 \/ us = <<"read", "write">>

\* a number as binary text of a given length at least
RECURSIVE Bin(_, _)
Bin(n, len) == IF n = 0 /\ len <= 0 THEN "" ELSE Bin(n \div 2, len - 1) \o ToString(n % 2)
\* a text denotes a number
Denotes(text, n) ==
    LET s == Lower(text)
        pattern == IF StartsWith(s, "0b") THEN <<SubSeq(s, 3, Len(s))>> ELSE IF StartsWith(s, "#") THEN <<SubSeq(s, 2, Len(s))>> ELSE <<>>
    IN IF pattern # <<>>
       THEN LET p == pattern[1] b == Bin(n, Len(p))
            IN p # "" /\ Len(b) = Len(p) /\ \A i \in 1..Len(p) : Chr(p, i) \in {"x", Chr(b, i)}
       ELSE IF StartsWith(s, "0x") THEN NOf(n) = ToNat(SubSeq(s, 3, Len(s)), 16)
       ELSE NOf(n) = ToNat(s, 10)
\* the one container of the documents EnumOf1
Denoted(dev) ==
    Which \in {"enum-values", "enum-singles"} =>
        LET field == dev.kids[1].kids[1].kids[1]
            said == pd.kids[1].kids[1].kids[1].kids[1].a.values
            is == {field.kids[1].vals[i].value : i \in 1..Len(field.kids[1].vals)}
            Default(i) == Has(said[i], "is_default") /\ said[i].is_default
            Valued(i) == ~Default(i) /\ Has(said[i], "value") /\ said[i].value # ""
            stated == {NOf(n) : n \in {m \in 0..(2^field.a.bit_width - 1) : \E i \in 1..Len(said) : Valued(i) /\ Denotes(said[i].value, m)}}
            names == {said[i].name : i \in 1..Len(said)}
        IN /\ Cardinality(names) = Len(said) => stated \subseteq is \/ "a_1" \in names
           /\ (Cardinality(names) = Len(said) /\ ~\E i \in 1..Len(said) : Default(i)) => is \subseteq stated
           /\ Default(1) => Cardinality(is) = 2^field.a.bit_width

-----------------------------------------------------------------------------
(* replication *)

\* the elements the documents Dims replicate
Replicated(dev) ==
    LET k == IF pd.kids[1].a.name # "P" \/ Has(pd.kids[1].a, "dim") THEN "peripheral"
             ELSE IF pd.kids[1].kids[1].k = "cluster" THEN "cluster"
             ELSE IF pd.kids[1].kids[1].kids # <<>> THEN "field" ELSE "register"
        said == CASE k = "peripheral" -> pd.kids[1].a [] k = "field" -> pd.kids[1].kids[1].kids[1].a [] OTHER -> pd.kids[1].kids[1].a
        made == CASE k = "peripheral" -> dev.kids [] k = "field" -> dev.kids[1].kids[1].kids [] OTHER -> dev.kids[1].kids
        Where(x) == IF k = "field" THEN NOf(x.a.lsb) ELSE x.a.base_address
        marked == Contains(said.name, "%s")
    IN Which = "dims" =>
        IF ~marked \/ ~Has(said, "dim") THEN Len(made) = 1 /\ made[1].a.name = said.name
        ELSE /\ Len(made) = said.dim
             /\ \A x \in {made[i] : i \in 1..Len(made)} : (said.name # "A[%s]%s" => ~Contains(x.a.name, "%s")) /\ {"dim", "dim_increment", "dim_index"} \cap DOMAIN x.a = {}
             \* one step after the other
             /\ Has(said, "dim_increment") =>
                   {Where(made[i]) : i \in 1..Len(made)} = {NAdd(Where(made[1]), NMul(said.dim_increment, i)) : i \in 0..(said.dim - 1)}
             \* each its own index, those of an array counted
             /\ Contains(said.name, "[%s]") => {made[i].a.name : i \in 1..Len(made)} = {Replace(said.name, "[%s]", IntText(i)) : i \in 0..(said.dim - 1)}
             /\ (~Contains(said.name, "[%s]") /\ ~Has(said, "dim_index")) =>
                   {made[i].a.name : i \in 1..Len(made)} = {Replace(said.name, "%s", IntText(i)) : i \in 0..(said.dim - 1)}

-----------------------------------------------------------------------------
(* register properties *)

RECURSIVE Plainly(_)
\* nothing derives, nothing is replicated, all siblings are told apart by their names
Plainly(ns) == /\ \A i \in 1..Len(ns) : ~Has(ns[i].a, "derived_from") /\ ~Has(ns[i].a, "dim") /\ Plainly(ns[i].kids)
               /\ \A i, j \in 1..Len(ns) : (Has(ns[i].a, "name") /\ Has(ns[j].a, "name") /\ ns[i].a.name = ns[j].a.name) => i = j
FlowKeys == {"access", "protection", "reset_value", "reset_mask"}
RECURSIVE Flows(_, _, _)
\* what an element does not state is what the closest around it states
Flows(said, made, around) == \A i \in 1..Len(made) :
    LET s == said[CHOOSE j \in 1..Len(said) : said[j].a.name = made[i].a.name]
        now == Restr(s.a, FlowKeys) @@ around
    IN /\ \A key \in (IF made[i].k = "field" THEN {"access"} ELSE FlowKeys) : made[i].a[key] = now[key]
       /\ made[i].k = "register" /\ Has(s.a, "size") => made[i].a.size = s.a.size
       /\ made[i].k # "field" => Flows(s.kids, made[i].kids, now)
Nearest(dev) == Plainly(pd.kids) => Flows(pd.kids, dev.kids, Restr(dev.a, FlowKeys))

\* the documents PropDerivedAccess
DerivedAccess(dev) ==
    LET d == Restr(pd.a, {"access"}) p == Restr(pd.kids[1].a, {"access"}) a == Restr(pd.kids[1].kids[1].a, {"access"})
        q == Restr(pd.kids[2].a, {"access"}) b == Restr(pd.kids[2].kids[1].a, {"access"}) c == Restr(pd.kids[2].kids[2].a, {"access"})
        default == [access |-> "read-write"]
        B1 == CHOOSE x \in {dev.kids[2].kids[i] : i \in 1..2} : x.a.name = "B"
        C1 == CHOOSE x \in {dev.kids[2].kids[i] : i \in 1..2} : x.a.name = "C"
    IN Which = "prop-derived-access" =>
        /\ B1.a.access = (b @@ a @@ q @@ d @@ default).access
        /\ C1.kids[1].a.access = (b @@ a @@ c @@ q @@ d @@ default).access

-----------------------------------------------------------------------------
(* overlaps *)

\* two items of a list are connected by what they declare, whatever kind they are of
Connected(x, y, items) == y.a.name \in AltClosure({x.a.name}, items)
Meets(x, xEnd, y, yEnd) == NLeq(x.a.base_address, yEnd) /\ NLeq(y.a.base_address, xEnd)
LastOf(x) == CASE x.k = "peripheral" -> NMax(x.a.end_address, x.a.end_address_effective)
               [] x.k = "cluster" -> x.a.end_address
               [] OTHER -> NPred(After(x))
\* a device that is not warned about has no overlap it does not declare
Quiet(r) == (r.whi = 0 /\ r.wres = 0) =>
    \A s \in SiblingLists(r.dev) :
        LET items == SelectSeq(s, LAMBDA x : AltGroup(x) = <<>>)
        IN \A i, j \in 1..Len(items) :
              (i < j /\ Meets(items[i], LastOf(items[i]), items[j], LastOf(items[j]))) => Connected(items[i], items[j], items)
\* a device with an overlap nothing declares is warned about
Warned(r) ==
    (\E s \in SiblingLists(r.dev) :
        LET items == SelectSeq(s, LAMBDA x : AltGroup(x) = <<>>)
        IN /\ \A i \in 1..Len(items) : AltOf(items[i]) = ""
           /\ \E i, j \in 1..Len(items) : i < j /\ Meets(items[i], LastOf(items[i]), items[j], LastOf(items[j]))) => r.wlo > 0

-----------------------------------------------------------------------------
(* CPU and device *)

Metadata(dev) ==
    /\ \A key \in DOMAIN pd.a \ {"xs_no_namespace_schema_location", "schema_version"} : dev.a[key] = pd.a[key]
    /\ RegProps \subseteq DOMAIN dev.a
    /\ Len(dev.cpu) = Len(pd.cpu)
    /\ pd.cpu # <<>> =>
          LET said == pd.cpu[1] is == dev.cpu[1]
          IN /\ \A key \in DOMAIN said \ {"name", "sau_regions_config"} : is[key] = said[key]
             /\ is.name = (IF said.name = "CM0+" THEN "CM0PLUS" ELSE said.name)
             /\ \A key \in (CpuFlags \cup {"vtor_present"}) \ DOMAIN said : is[key] = (key = "vtor_present")
             /\ Has(said, "sau_regions_config") <=> Has(is, "sau_regions_config")
             /\ Has(said, "sau_regions_config") =>
                   LET ss == said.sau_regions_config ii == is.sau_regions_config
                   IN /\ \A key \in DOMAIN ss \ {"regions"} : ii[key] = ss[key]
                      /\ Has(ss, "enabled") \/ ii.enabled
                      /\ Has(ss, "protection_when_disabled") \/ ii.protection_when_disabled = "s"
                      /\ Len(ii.regions) = Len(ss.regions)
                      /\ \A i \in 1..Len(ss.regions) : /\ \A key \in DOMAIN ss.regions[i] : ii.regions[i][key] = ss.regions[i][key]
                                                       /\ Has(ss.regions[i], "enabled") \/ ii.regions[i].enabled

-----------------------------------------------------------------------------
(* the map, the parsed-model form, the order of declarations *)

Flattened(dev) ==
    LET m == MapDevice(dev)
        All(ps) == UNION {{<<ps[i].a.name, ps[i].regs[j].a.name, ps[i].regs[j].a.address, ps[i].regs[j].a.size, ps[i].regs[j].fields>> :
                              j \in 1..Len(ps[i].regs)} : i \in 1..Len(ps)}
    IN /\ Len(m) = Len(dev.kids)
       /\ \A i \in 1..(Len(m) - 1) : NLeq(m[i].a.address, m[i + 1].a.address)
       /\ All(m) = UNION {{<<dev.kids[i].a.name, x.a.name, x.a.base_address, x.a.size, x.kids>> : x \in Leaves(dev.kids[i].kids)} : i \in 1..Len(dev.kids)}
       /\ Sum([i \in 1..Len(m) |-> Len(m[i].regs)]) = Sum([i \in 1..Len(dev.kids) |-> CountLeaves(dev.kids[i].kids)])
       /\ \A i \in 1..Len(m) :
             LET p == dev.kids[CHOOSE j \in 1..Len(dev.kids) : dev.kids[j].a.name = m[i].a.name]
             IN m[i].a.allocated_end = p.a.end_address
                /\ \A j \in 1..Len(p.a.address_blocks) :
                      LET b == p.a.address_blocks[j]
                      IN NLeq(m[i].a.allocated_begin, NAdd(p.a.base_address, b.offset)) /\ NLeq(BlockAfter(p, b), NAdd(m[i].a.allocated_end, One0))

\* processing the parsed-model form gives the device again, and finds nothing to repair in it; a device that lost all its
\* peripherals is no device to start from, nor is a name with a place for an index left in it
Misnamed(x) == Contains(x.a.name, "%s") \/ (Has(x.a, "display_name") /\ Contains(x.a.display_name, "%s"))
WholeDevice(dev) == /\ dev.kids # <<>> /\ ~Clashes
                    /\ ~\E i \in 1..Len(dev.kids) : Misnamed(dev.kids[i])
                    /\ ~\E x \in Rcs(dev) \cup Fields(dev) : Misnamed(x)
Stable(r) ==
    LET again == ProcessDevice(ConvertDevice(r.dev))
    IN WholeDevice(r.dev) =>
          /\ again.ok /\ again.dev = r.dev
          /\ (again.wres = 0 \/ \E f \in Fields(r.dev) : f.a.msb < f.a.lsb)

Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Flip(_)
Flip(ns) == Reversed([i \in 1..Len(ns) |-> IF ns[i].k = "field" THEN ns[i] ELSE [ns[i] EXCEPT !.kids = Flip(ns[i].kids)]])
Orderless(r) ==
    LET other == [pd EXCEPT !.kids = Flip(pd.kids)]
        q == ProcessDevice(other)
    IN OpenResult(pd) \/ OpenResult(other) \/ (q.ok /\ q.dev = r.dev)

-----------------------------------------------------------------------------

\* the document, and what becomes of it
Told ==
    LET r == ProcessDevice(pd)
        fate == IF OpenResult(pd) THEN "open" ELSE IF ~r.ok THEN "no"
                ELSE IF OpenAcceptance(pd) THEN "maybe" ELSE "yes"
    IN PrintT("DOC" \o ToJson([pd |-> pd, map |-> IF r.ok THEN MapDevice(r.dev) ELSE <<>>, fate |-> fate, why |-> r.why, dev |-> r.dev,
                              whole |-> r.ok /\ WholeDevice(r.dev), wres |-> r.wres, wlo |-> r.wlo, whi |-> r.whi]))

Lawful ==
    LET r == ProcessDevice(pd)
    IN r.ok =>
        /\ Law("Addressed", Addressed(r.dev)) /\ Law("Ordered", Ordered(r.dev)) /\ Law("Listed", Listed(r.dev))
        /\ Law("Whole", Whole(r.dev)) /\ Law("Named", Named(r.dev))
        /\ Law("Bitwise", Bitwise(r.dev)) /\ Law("Ascending", Ascending(r.dev)) /\ Law("Apart", Apart(r.dev))
        /\ Law("Denoted", Denoted(r.dev)) /\ Law("Replicated", Replicated(r.dev))
        /\ Law("Nearest", Nearest(r.dev)) /\ Law("DerivedAccess", DerivedAccess(r.dev))
        /\ Law("Quiet", Quiet(r)) /\ Law("Warned", Warned(r))
        /\ Law("Metadata", Metadata(r.dev)) /\ Law("Flattened", Flattened(r.dev))
        /\ Law("Stable", Stable(r)) /\ Law("Orderless", Orderless(r))
=============================================================================
