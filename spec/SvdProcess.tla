----------------------------- MODULE SvdProcess -----------------------------
(***************************************************************************)
(* The processed device that belongs to a parsed one: the tree of all      *)
(* instances, sizes and inherited register properties, validation, final   *)
(* addresses and order.                                                    *)
(*                                                                         *)
(* Parsed device:    [a |-> attributes, cpu |-> <<>> or <<cpu>>, kids]     *)
(* Outcome:          [ok, why, dev, wres, wlo, whi]                        *)
(* wres: warnings of the resolution, a lower bound of what is reported (an *)
(* element that is copied may be warned about once per copy) that is zero  *)
(* exactly if none is reported; wlo..whi: warnings of the validation.      *)
(***************************************************************************)
EXTENDS SvdResolve

-----------------------------------------------------------------------------
(* The tree of instances *)

EnumOf(d, st, n) == st.el[n][1].insts[1]
UsageOf(c) == IF Has(c, "usage") THEN c.usage ELSE "read-write"

EnumsOf(d, st, n, a) ==
    LET ks == Kids(d, st, n)
    IN [i \in 1..Len(ks) |->
          LET c == EnumOf(d, st, ks[i])
          IN [a |-> [usage |-> UsageOf(c)] @@ Restr(c, {"name", "header_enum_name", "origin"}),
              res |-> EnumResolve(c.values, a.lsb, a.msb)]]

RECURSIVE Concat(_, _, _)
Concat(ss, i, acc) == IF i > Len(ss) THEN acc ELSE Concat(ss, i + 1, acc \o ss[i])

RECURSIVE TreesOf(_, _, _)
(* all instances of n *)
TreesOf(d, st, n) ==
    LET e == st.el[n][1]
        kind == d.nodes[n].k
        ks == Kids(d, st, n)
        below == IF kind = "field" THEN <<>>
                 ELSE Concat([j \in 1..Len(ks) |-> TreesOf(d, st, ks[j])], 1, <<>>)
    IN [i \in 1..Len(e.insts) |->
          [k |-> kind, a |-> e.insts[i], kids |-> below,
           enums |-> IF kind = "field" THEN EnumsOf(d, st, n, e.insts[i]) ELSE <<>>]]

Usages(enums) == {enums[i].a.usage : i \in 1..Len(enums)}
(* which enumeratedValues may stand side by side *)
EnumsWrong(enums) ==
    \/ \E i \in 1..Len(enums) : enums[i].res.err
    \/ Cardinality(Usages(enums)) # Len(enums)
    \/ Len(enums) > 2
    \/ Len(enums) = 2 /\ ~(Usages(enums) \subseteq {"read", "write"})

RECURSIVE AnyEnumsWrong(_)
AnyEnumsWrong(trees) ==
    \E i \in 1..Len(trees) : EnumsWrong(trees[i].enums) \/ AnyEnumsWrong(trees[i].kids)

RECURSIVE SumSeq(_, _, _)
SumSeq(s, i, acc) == IF i > Len(s) THEN acc ELSE SumSeq(s, i + 1, acc + s[i])
Sum(s) == SumSeq(s, 1, 0)

ResolveWarnings(d, st) ==
    Sum([n \in 1..d.n |->
          st.el[n][1].warn +
          IF d.nodes[n].k = "field"
          THEN Sum([i \in 1..Len(st.el[n][1].insts) |->
                      LET es == EnumsOf(d, st, n, st.el[n][1].insts[i])
                      IN Sum([j \in 1..Len(es) |-> es[j].res.warn])])
          ELSE 0])

-----------------------------------------------------------------------------
(* Size: a container is as wide as its widest child.  A child without a    *)
(* size counts as wide as the closest explicit size around it; a size that *)
(* is not a number of bytes counts as none.                                *)

MaxOf(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= m
Bytes8(n) == IF n % 8 = 0 THEN n ELSE 0

RECURSIVE Sized(_, _)
Sized(t, around) ==
    IF t.k \notin {"peripheral", "cluster"} \/ t.kids = <<>> THEN t
    ELSE LET ctx == IF Has(t.a, "size") THEN t.a.size ELSE around
             ks == [i \in 1..Len(t.kids) |-> Sized(t.kids[i], ctx)]
             sz == MaxOf([i \in 1..Len(ks) |-> IF Has(ks[i].a, "size") THEN Bytes8(ks[i].a.size) ELSE ctx])
         IN [t EXCEPT !.kids = ks, !.a = [size |-> sz] @@ t.a]

(* Register properties flow down; fields take access and write constraint   *)
RECURSIVE Inherit(_, _)
Inherit(t, props) ==
    LET a == t.a @@ props
        down == IF t.k = "register" THEN Restr(a, {"access", "write_constraint"})
                ELSE Restr(a, RegProps)
    IN IF t.k = "field" THEN [t EXCEPT !.a = a]
       ELSE [t EXCEPT !.a = a, !.kids = [i \in 1..Len(t.kids) |-> Inherit(t.kids[i], down)]]

-----------------------------------------------------------------------------
(* Validation.  Result of an element: err, lo/hi warnings, out <<>> if the *)
(* element is left out or <<final element>>                                 *)

Res(e, lo, hi, o) == [err |-> e, lo |-> lo, hi |-> hi, out |-> o]
Left(w) == Res(FALSE, w, w, <<>>)
Reject == Res(TRUE, 0, 0, <<>>)

B2N(b) == IF b THEN 1 ELSE 0

Overlap(f, g) == f.a.lsb <= g.a.msb /\ f.a.msb >= g.a.lsb
Reads(f) == f.a.access # "write-only"
Writes(f) == f.a.access # "read-only"
FieldClash(fs) ==
    \E i \in 1..Len(fs) : \E j \in 1..(i - 1) :
        /\ Overlap(fs[i], fs[j])
        /\ (Reads(fs[i]) /\ Reads(fs[j])) \/ (Writes(fs[i]) /\ Writes(fs[j]))

FinalField(t) ==
    LET es == [i \in 1..Len(t.enums) |->
                 LET f == EnumFinal(t.enums[i].res, t.a.lsb, t.a.msb)
                 IN [k |-> "enumc", a |-> t.enums[i].a, vals |-> f.vals, warn |-> f.warn]]
        \* by usage: read before read-write before write
        sorted == SortBy(LAMBDA x, y : StrCmp(x.a.usage, y.a.usage) = 0, es)
        a == t.a
    IN IF \E i \in 1..Len(t.enums) : t.enums[i].res.noval THEN Reject
       ELSE LET w == Sum([i \in 1..Len(es) |-> es[i].warn])
            IN Res(FALSE, w, w,
                 <<[k |-> "field",
                    a |-> [bit_offset |-> a.lsb, bit_width |-> a.msb - a.lsb + 1, bit_range |-> <<a.msb, a.lsb>>]
                          @@ Restr(a, DOMAIN a \ DimProps),
                    kids |-> [i \in 1..Len(sorted) |-> [k |-> "enumc", a |-> sorted[i].a, vals |-> sorted[i].vals]]]>>)

FieldLess(x, y) == x.a.lsb < y.a.lsb \/ (x.a.lsb = y.a.lsb /\ StrCmp(x.a.name, y.a.name) = 0)
DupIn(s) == Cardinality({s[i] : i \in 1..Len(s)}) # Len(s)

FinalFields(trees, size) ==
    LET named == SelectSeq(trees, LAMBDA t : Lower(t.a.name) # "reserved")
        rs == [i \in 1..Len(named) |-> FinalField(named[i])]
        fs == SortBy(FieldLess, [i \in 1..Len(rs) |-> rs[i].out[1]])
        over == Cardinality({i \in 1..Len(named) : named[i].a.msb >= size})
        w == (Len(trees) - Len(named)) + over + Sum([i \in 1..Len(rs) |-> rs[i].lo])
    IN IF \/ DupIn([i \in 1..Len(named) |-> named[i].a.name])
          \/ \E i \in 1..Len(rs) : rs[i].err
       THEN Reject
       ELSE IF FieldClash(fs) THEN Reject
       ELSE Res(FALSE, w, w, fs)

-----------------------------------------------------------------------------
(* Overlap of address ranges among siblings, unless they are alternates     *)

AltKey(kind) == CASE kind = "peripheral" -> "alternate_peripheral" [] kind = "cluster" -> "alternate_cluster"
                  [] OTHER -> "alternate_register"
AltOf(x) == IF Has(x.a, AltKey(x.k)) THEN x.a[AltKey(x.k)] ELSE ""

(* everything connected to the given names by alternate declarations        *)
RECURSIVE AltClosure(_, _)
AltClosure(names, items) ==
    LET more == names \cup {items[i].a.name : i \in {j \in 1..Len(items) : AltOf(items[j]) \in names}}
                      \cup {AltOf(items[i]) : i \in {j \in 1..Len(items) : AltOf(items[j]) # "" /\ items[j].a.name \in names}}
    IN IF more = names THEN names ELSE AltClosure(more, items)

(* 0: not reported, 1: reported, 2: left open: connected only through others *)
(* while the later of the two declares nothing, or an alternate of another   *)
(* kind                                                                      *)
PairReport(later, earlier, items) ==
    LET same == SelectSeq(items, LAMBDA x : x.k = later.k)
    IN IF later.k # earlier.k
       THEN IF \/ AltOf(later) # "" /\ earlier.a.name \in AltClosure({AltOf(later)}, items)
               \/ AltOf(earlier) # "" /\ later.a.name \in AltClosure({AltOf(earlier)}, items)
            THEN 2 ELSE 1
       ELSE IF AltOf(later) # "" THEN B2N(earlier.a.name \notin AltClosure({AltOf(later)}, same))
       ELSE IF AltOf(earlier) = later.a.name THEN 0
       ELSE IF AltOf(earlier) # "" /\ later.a.name \in AltClosure({AltOf(earlier)}, same) THEN 2
       ELSE 1

(* items in final order; StartOf/EndOf give the range compared               *)
OverlapCount(items, StartOf(_), EndOf(_), which) ==
    Cardinality({p \in (1..Len(items)) \X (1..Len(items)) :
        /\ p[2] < p[1]
        /\ NLeq(StartOf(items[p[1]]), EndOf(items[p[2]]))
        /\ PairReport(items[p[1]], items[p[2]], items) \in which})

-----------------------------------------------------------------------------

AlignOf(size) == CASE size = 8 -> 1 [] size = 16 -> 2 [] OTHER -> 4

AltGroup(x) == IF x.k = "register" /\ Has(x.a, "alternate_group") THEN <<x.a.alternate_group>> ELSE <<>>
GroupLess(x, y) == IF x = <<>> THEN y # <<>> ELSE y # <<>> /\ StrCmp(x[1], y[1]) = 0
RcLess(x, y) ==
    CASE NCmp(x.a.base_address, y.a.base_address) = 0 -> TRUE
      [] NCmp(x.a.base_address, y.a.base_address) = 2 -> FALSE
      [] GroupLess(AltGroup(x), AltGroup(y)) -> TRUE
      [] GroupLess(AltGroup(y), AltGroup(x)) -> FALSE
      [] OTHER -> StrCmp(x.a.name, y.a.name) = 0

EndOfRc(x) == IF x.k = "cluster" THEN x.a.end_address
              ELSE NPred(NAdd(x.a.base_address, NOf(x.a.size \div 8)))
MaxEnd(items, EndOf(_)) ==
    LET RECURSIVE Go(_, _)
        Go(i, m) == IF i > Len(items) THEN m ELSE Go(i + 1, NMax(m, EndOf(items[i])))
    IN Go(2, EndOf(items[1]))
UniqueName(x) == IF AltGroup(x) # <<>> THEN x.a.name \o "_" \o AltGroup(x)[1] ELSE x.a.name

(* a - b + 1 for a >= b *)
NMinusR(a, b) ==
    LET RECURSIVE Go(_, _, _)
        Go(i, borrow, acc) ==
            IF i > Len(a) THEN NTrim(acc)
            ELSE LET v == a[i] - NLimb(b, i) - borrow
                 IN IF v < 0 THEN Go(i + 1, 1, Append(acc, v + LB)) ELSE Go(i + 1, 0, Append(acc, v))
    IN Go(1, 0, <<>>)
SpanOf(first, last) == NAdd(NMinusR(last, first), NOf(1))

RECURSIVE FinalRc(_, _)
FinalRcs(trees, base) ==
    LET rs == [i \in 1..Len(trees) |-> FinalRc(trees[i], base)]
        kept == SelectSeq(rs, LAMBDA r : r.out # <<>>)
        items == SortBy(RcLess, [i \in 1..Len(kept) |-> kept[i].out[1]])
        placed == SelectSeq(items, LAMBDA x : AltGroup(x) = <<>>)
        start(x) == x.a.base_address
        lo == Sum([i \in 1..Len(rs) |-> rs[i].lo])
        hi == Sum([i \in 1..Len(rs) |-> rs[i].hi])
    IN IF \/ \E i \in 1..Len(rs) : rs[i].err
          \/ DupIn([i \in 1..Len(items) |-> UniqueName(items[i])])
       THEN Reject
       ELSE Res(FALSE, lo + OverlapCount(placed, start, EndOfRc, {1}),
                       hi + OverlapCount(placed, start, EndOfRc, {1, 2}), items)

FinalRc(t, parentBase) ==
    LET a == t.a
        base == NAdd(parentBase, a.address_offset)
        plain == Restr(a, DOMAIN a \ DimProps)
    IN IF a.size % 8 # 0 THEN Left(1)
       ELSE IF a.size \notin {8, 16, 32, 64, 128} THEN Reject
       ELSE LET w == B2N(NMod4(a.address_offset) % AlignOf(a.size) # 0)
            IN IF t.k = "cluster" THEN
                   LET in == FinalRcs(t.kids, base)
                       end == MaxEnd(in.out, EndOfRc)
                   IN IF in.err THEN Reject
                      ELSE IF in.out = <<>> THEN Res(FALSE, w + in.lo + 1, w + in.hi + 1, <<>>)
                      ELSE Res(FALSE, w + in.lo, w + in.hi,
                               <<[k |-> "cluster", kids |-> in.out,
                                  a |-> [base_address |-> base, end_address |-> end,
                                         cluster_size |-> SpanOf(base, end)] @@ plain]>>)
               ELSE IF Lower(a.name) = "reserved" THEN Left(w + 1)
               ELSE IF Has(a, "alternate_register") /\ Has(a, "alternate_group") THEN Reject
               ELSE LET fs == FinalFields(t.kids, a.size)
                    IN IF fs.err THEN Reject
                       ELSE Res(FALSE, w + fs.lo, w + fs.hi,
                                <<[k |-> "register", kids |-> fs.out, a |-> [base_address |-> base] @@ plain]>>)

RECURSIVE AllRegisters(_, _, _)
AllRegisters(items, i, acc) ==
    IF i > Len(items) THEN acc
    ELSE AllRegisters(items, i + 1,
           IF items[i].k = "register" THEN Append(acc, items[i]) ELSE AllRegisters(items[i].kids, 1, acc))
ByAddress(x, y) == \/ NCmp(x.a.base_address, y.a.base_address) = 0
                   \/ x.a.base_address = y.a.base_address /\ StrCmp(x.a.name, y.a.name) = 0
Registers(items) ==
    LET rs == SortBy(ByAddress, AllRegisters(items, 1, <<>>))
    IN [i \in 1..Len(rs) |-> Restr(rs[i].a, {"name", "base_address", "alternate_group", "size", "origin"})]

BlockEnd(base, b) == NPred(NAdd(NAdd(base, b.offset), b.size))

FinalPeripheral(t) ==
    LET a == t.a
        rc == FinalRcs(t.kids, a.base_address)
        w0 == B2N(NMod4(a.base_address) # 0)
        bs == a.address_blocks
        wb == Cardinality({i \in 2..Len(bs) : NLt(bs[i].offset, NAdd(bs[i - 1].offset, bs[i - 1].size))})
        endEff == MaxEnd(rc.out, EndOfRc)
        endSpec == MaxEnd(bs, LAMBDA b : BlockEnd(a.base_address, b))
        RECURSIVE Total(_, _)
        Total(i, acc) == IF i > Len(bs) THEN acc ELSE Total(i + 1, NAdd(acc, bs[i].size))
    IN IF rc.err THEN Reject
       ELSE IF rc.out = <<>> THEN Res(FALSE, rc.lo + 1, rc.hi + 1, <<>>)
       ELSE IF a.size % 8 # 0 THEN Res(FALSE, rc.lo + w0 + 1, rc.hi + w0 + 1, <<>>)
       ELSE IF bs = <<>> THEN Reject
       ELSE Res(FALSE, rc.lo + w0 + wb, rc.hi + w0 + wb,
                <<[k |-> "peripheral", kids |-> rc.out, regs |-> Registers(rc.out),
                   a |-> [end_address |-> endSpec, end_address_effective |-> endEff,
                          peripheral_size |-> Total(1, <<>>),
                          peripheral_size_effective |-> SpanOf(a.base_address, endEff)]
                         @@ Restr(a, DOMAIN a \ DimProps)]>>)

FinalPeripherals(trees) ==
    LET rs == [i \in 1..Len(trees) |-> FinalPeripheral(trees[i])]
        kept == SelectSeq(rs, LAMBDA r : r.out # <<>>)
        items == SortBy(ByAddress, [i \in 1..Len(kept) |-> kept[i].out[1]])
        start(x) == x.a.base_address
        eff(x) == x.a.end_address_effective
        spc(x) == x.a.end_address
        lo == Sum([i \in 1..Len(rs) |-> rs[i].lo])
        hi == Sum([i \in 1..Len(rs) |-> rs[i].hi])
    IN IF \/ \E i \in 1..Len(rs) : rs[i].err
          \/ DupIn([i \in 1..Len(items) |-> items[i].a.name])
       THEN Reject
       ELSE Res(FALSE,
                lo + OverlapCount(items, start, eff, {1}) + OverlapCount(items, start, spc, {1}),
                hi + OverlapCount(items, start, eff, {1, 2}) + OverlapCount(items, start, spc, {1, 2}),
                items)

-----------------------------------------------------------------------------
(* CPU and device *)

CpuFlags == {"mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present",
             "itcm_present", "dtcm_present"}
FinalSau(s) ==
    [enabled |-> IF Has(s, "enabled") THEN s.enabled ELSE TRUE,
     protection_when_disabled |-> IF Has(s, "protection_when_disabled") THEN s.protection_when_disabled ELSE "s",
     regions |-> [i \in 1..Len(s.regions) |-> s.regions[i] @@ [enabled |-> TRUE]]] @@ Restr(s, {"origin"})
FinalCpu(c) ==
    [name |-> IF c.name = "CM0+" THEN "CM0PLUS" ELSE c.name]
    @@ (IF Has(c, "sau_regions_config") THEN [sau_regions_config |-> FinalSau(c.sau_regions_config)] ELSE <<>>)
    @@ c @@ [f \in CpuFlags |-> FALSE] @@ [vtor_present |-> TRUE]

FFFFFFFF == NPred(NPow2(32))
DeviceDefaults == [size |-> 32, access |-> "read-write", protection |-> "any", reset_value |-> <<>>, reset_mask |-> FFFFFFFF]
FinalDeviceAttrs(a) == Restr(a, DOMAIN a \ {"xs_no_namespace_schema_location", "schema_version"}) @@ DeviceDefaults

PErr(why) == [ok |-> FALSE, why |-> why, dev |-> <<>>, wres |-> 0, wlo |-> 0, whi |-> 0]

(* parsed device -> outcome *)
ProcessDevice(pd) ==
    LET d == Doc(pd.kids)
        r == Resolve(d)
        ks == OwnKids(d, 0)
        da == FinalDeviceAttrs(pd.a)
        trees == Concat([i \in 1..Len(ks) |-> TreesOf(d, r.st, ks[i])], 1, <<>>)
        full == [i \in 1..Len(trees) |-> Inherit(Sized(trees[i], da.size), Restr(da, RegProps))]
        fin == FinalPeripherals(full)
    IN IF pd.kids = <<>> THEN PErr("empty")
       ELSE IF ~r.ok THEN PErr(r.why)
       ELSE IF AnyEnumsWrong(trees) THEN PErr("enum")
       ELSE IF fin.err THEN PErr("validate")
       ELSE [ok |-> TRUE, why |-> "", wres |-> ResolveWarnings(d, r.st), wlo |-> fin.lo, whi |-> fin.hi,
             dev |-> [a |-> da, cpu |-> IF pd.cpu = <<>> THEN <<>> ELSE <<FinalCpu(pd.cpu[1])>>, kids |-> fin.out]]

(* documents whose acceptance is left open *)
OpenAcceptance(pd) ==
    LET d == Doc(pd.kids)
        r == Resolve(d)
    IN \E n \in 1..d.n : Unclear(d, r.st, n)

(* documents whose result is left open *)
OpenResult(pd) ==
    LET d == Doc(pd.kids)
    IN Divides(d, Resolve(d).st)

=============================================================================
