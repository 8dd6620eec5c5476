------------------------------- MODULE SvdMap -------------------------------
(***************************************************************************)
(* The peripheral/register map of a processed device: every register of    *)
(* every peripheral, once, at its absolute address, in document order of   *)
(* the processed tree; peripherals by address.                             *)
(***************************************************************************)
EXTENDS SvdProcess

MapKeys == {"size", "access", "protection", "reset_value", "reset_mask", "name", "display_name", "description",
            "self"}  \* which register of the processed device this is, where the trace tells

RECURSIVE MapRegs(_, _)
MapRegs(items, base) ==
    Concat([i \in 1..Len(items) |->
        LET x == items[i]
            at == NAdd(base, x.a.address_offset)
        IN IF x.k = "register"
           THEN <<[a |-> [address |-> at] @@ Restr(x.a, MapKeys), fields |-> x.kids]>>
           ELSE MapRegs(x.kids, at)], 1, <<>>)

FirstBlock(bs) == CHOOSE i \in 1..Len(bs) : \A j \in 1..Len(bs) : NLeq(bs[i].offset, bs[j].offset)

MapPeripheral(p) ==
    [a |-> Restr(p.a, {"name", "description", "self"}) @@
           [address |-> p.a.base_address,
            allocated_begin |-> NAdd(p.a.base_address, p.a.address_blocks[FirstBlock(p.a.address_blocks)].offset),
            allocated_end |-> MaxEnd(p.a.address_blocks, LAMBDA b : BlockEnd(p.a.base_address, b))],
     regs |-> MapRegs(p.kids, p.a.base_address)]

MapDevice(dev) ==
    LET ps == [i \in 1..Len(dev.kids) |-> MapPeripheral(dev.kids[i])]
    IN SortBy(LAMBDA x, y : NLt(x.a.address, y.a.address), ps)

=============================================================================
