----------------------------- MODULE Variations -----------------------------
(***************************************************************************)
(* Documents that vary in one respect, exhaustively: every combination of  *)
(* the values listed for it.  The initial states are the documents; each   *)
(* is told with what processing makes of it, and replayed into the code.   *)
(***************************************************************************)
EXTENDS SvdProcess, Json

CONSTANT Which
VARIABLE pd

N(i) == NOf(i)
Opt(key, v) == IF v = <<>> THEN <<>> ELSE key :> v[1]     \* v: <<>> or <<value>>
Maybe(S) == {<<>>} \cup {<<x>> : x \in S}

Block(o, s) == [offset |-> N(o), size |-> N(s), usage |-> "registers"]
PerB(name, base, blocks, more, kids) ==
    [k |-> "peripheral", kids |-> kids,
     a |-> more @@ [name |-> name, base_address |-> N(base), interrupts |-> <<>>, address_blocks |-> blocks]]
Per(name, base, more, kids) == PerB(name, base, <<Block(0, 4096)>>, more, kids)
Clu(name, off, more, kids) == [k |-> "cluster", kids |-> kids, a |-> more @@ [name |-> name, address_offset |-> N(off)]]
Reg(name, off, more, kids) == [k |-> "register", kids |-> kids, a |-> more @@ [name |-> name, address_offset |-> N(off)]]
Fld(name, more, kids) == [k |-> "field", kids |-> kids, a |-> more @@ [name |-> name]]
Bits(l, m) == [lsb |-> l, msb |-> m]
Enu(more, values) == [k |-> "enumc", kids |-> <<>>, a |-> more @@ [values |-> values]]
Val(name, more) == more @@ [name |-> name]

DevA == [xs_no_namespace_schema_location |-> "CMSIS-SVD.xsd", schema_version |-> "1.3", name |-> "D", version |-> "1",
         description |-> "d", address_unit_bits |-> 8, width |-> 32]
Dev(more, kids) == [a |-> more @@ DevA, cpu |-> <<>>, kids |-> kids]
Dev1(kids) == Dev(<<>>, <<Per("P", 4096, <<>>, kids)>>)

Seqs(S, n) == UNION {[1..i -> S] : i \in 1..n}

-----------------------------------------------------------------------------
(* replication *)

At(kind, more) ==
    CASE kind = "peripheral" -> Dev(<<>>, <<Per(more.name, 4096, more, <<Reg("X", 0, <<>>, <<>>)>>)>>)
      [] kind = "cluster" -> Dev1(<<Clu(more.name, 8, more, <<Reg("X", 0, <<>>, <<>>)>>)>>)
      [] kind = "register" -> Dev1(<<Reg(more.name, 8, more, <<>>)>>)
      [] OTHER -> Dev1(<<Reg("X", 8, <<>>, <<Fld(more.name, Bits(1, 2) @@ more, <<>>)>>)>>)

DimNames == {"A", "%s", "A%s", "A[%s]", "%sB", "A[%s]B", "A_%s_%s", "A%", "A[%s]%s"}
DimIndices == {"0-1", "1-2", "3-3", "1-0", "A-B", "B-A", "C-C", "a,b", "a, b", "0,1,2", "x", "x,x", "-", "", "A-Z", "a-b", "08-09", "b,a"}
Dims ==
    {At(kind, [name |-> name] @@ Opt("dim", dim) @@ Opt("dim_increment", inc) @@ Opt("dim_index", idx)) :
        kind \in {"peripheral", "cluster", "register", "field"}, name \in DimNames,
        dim \in Maybe({0, 1, 2, 3}), inc \in Maybe({N(4)}), idx \in Maybe(DimIndices)}

DimDisplays ==
    {Dev1(<<Reg(name, 8, Opt("dim", dim) @@ Opt("dim_increment", inc) @@ Opt("dim_index", idx) @@ Opt("display_name", disp), <<>>)>>) :
        name \in {"A", "A%s", "A[%s]", "%s"}, dim \in Maybe({1, 2}), inc \in Maybe({N(4)}), idx \in Maybe({"x,y", "5"}),
        disp \in Maybe({"D", "D%s", "D[%s]", "%s[%s]", ""})}

\* a replicated element derived from another, all or part of the replication its own
DimDerived ==
    {LET base == [name |-> bn, dim |-> 2] @@ Opt("dim_increment", binc) @@ Opt("dim_index", bidx)
         own == [name |-> on, derived_from |-> path] @@ Opt("dim", dim) @@ Opt("dim_increment", inc) @@ Opt("dim_index", idx)
     IN IF kind = "register" THEN Dev1(<<Reg(bn, 0, base, <<>>), Reg(on, 64, own, <<>>)>>)
        ELSE IF kind = "field"
        THEN Dev1(<<Reg("X", 0, <<>>, <<Fld(bn, Bits(0, 1) @@ base, <<>>), Fld(on, Bits(16, 17) @@ own, <<>>)>>)>>)
        ELSE Dev1(<<Clu(bn, 0, base, <<Reg("X", 0, <<>>, <<>>)>>), Clu(on, 64, own, <<>>)>>) :
        kind \in {"register", "field", "cluster"}, bn \in {"A%s", "A[%s]"}, binc \in Maybe({N(8)}), bidx \in Maybe({"a,b"}),
        on \in {"B", "B%s", "B[%s]"}, path \in {"A%s", "A[%s]", "A0", "A1", "Ab"}, dim \in Maybe({1, 2}), inc \in Maybe({N(4)}),
        idx \in Maybe({"p,q", "7"})}

\* a replicated element derived from one that is derived itself
DimChain ==
    {LET f == kind = "field"
         Mark(w) == IF w = "C" THEN "C" ELSE SubSeq(w, 1, 1) \o (IF f THEN "%s" ELSE "[%s]")
         Far(n) == IF kind = "peripheral" THEN N(n * 4096) ELSE N(n)
         Inc(v) == IF v = <<>> THEN <<>> ELSE [dim_increment |-> Far(v[1])]
         a == [name |-> Mark("A"), dim |-> 2, dim_increment |-> Far(4)]
         b == [name |-> Mark("B"), derived_from |-> Mark("A")] @@ Opt("dim", d2) @@ Inc(i2)
         c == [name |-> Mark(cn), derived_from |-> IF cp = "B" THEN Mark("B") ELSE cp] @@ Opt("dim", d3) @@ Inc(i3)
         X == <<Reg("X", 0, <<>>, <<>>)>>
     IN CASE kind = "peripheral" -> Dev(<<>>, <<Per(a.name, 65536, a, X), Per(b.name, 262144, b, <<>>), Per(c.name, 524288, c, <<>>)>>)
          [] kind = "cluster" -> Dev1(<<Clu(a.name, 0, a, X), Clu(b.name, 256, b, <<>>), Clu(c.name, 512, c, <<>>)>>)
          [] kind = "register" -> Dev1(<<Reg(a.name, 0, a, <<>>), Reg(b.name, 256, b, <<>>), Reg(c.name, 512, c, <<>>)>>)
          [] OTHER -> Dev1(<<Reg("X", 0, <<>>, <<Fld(a.name, Bits(0, 1) @@ a, <<>>), Fld(b.name, Bits(8, 9) @@ b, <<>>),
                                                 Fld(c.name, Bits(24, 24) @@ c, <<>>)>>)>>) :
        kind \in {"peripheral", "cluster", "register", "field"}, cn \in {"C", "C "}, cp \in {"B", "B1"}, d2 \in Maybe({1, 3}),
        i2 \in Maybe({5}), d3 \in Maybe({2}), i3 \in Maybe({3})}

-----------------------------------------------------------------------------
(* positions of fields *)

Ranges == {"[3:1]", "[1:3]", "[2:2]", "[0:31]", "3:1", "[3:1", "[3]", "[a:b]", "[3:1]x", "", "[40:1]", "[ 3:1]"}
Notation(offs, widt, l, m, rng) ==
    Opt("bit_offset", offs) @@ Opt("bit_width", widt) @@ Opt("lsb", l) @@ Opt("msb", m) @@ Opt("bit_range", rng)
FieldOwn ==
    {Dev1(<<Reg("X", 0, <<>>, <<Fld("F", Notation(o, w, l, m, r), <<>>)>>)>>) :
        o \in Maybe({0, 4, 31}), w \in Maybe({0, 1, 3, 33}), l \in Maybe({2, 9}), m \in Maybe({1, 9, 32}), r \in Maybe(Ranges)}
FieldDerived ==
    {Dev1(<<Reg("X", 0, <<>>, <<Fld("B", base, <<>>), Fld("F", [derived_from |-> "B"] @@ Notation(o, w, l, m, r), <<>>)>>)>>) :
        base \in {Bits(4, 5), [bit_offset |-> 4, bit_width |-> 2], [bit_range |-> "[5:4]"], Bits(5, 4)},
        o \in Maybe({8}), w \in Maybe({3}), l \in Maybe({3, 9}), m \in Maybe({3, 12}), r \in Maybe({"[9:8]", "x"})}

Accesses == {"read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"}
FieldPairs ==
    {Dev1(<<Reg("X", 0, Opt("access", ra), <<Fld(n1, Bits(2, 4) @@ Opt("access", a1), <<>>),
                                             Fld(n2, Bits(l, m) @@ Opt("access", a2), <<>>)>>)>>) :
        ra \in Maybe({"read-only", "write-only"}), n1 \in {"F", "reserved"}, n2 \in {"F", "G", "RESERVED"},
        a1 \in Maybe(Accesses), a2 \in Maybe(Accesses), l \in {0, 3}, m \in {1, 3, 5}}

-----------------------------------------------------------------------------
(* enumerated values *)

ValueTexts == {"0", "1", "3", "4", "0x2", "0X1", "#1x", "0bx", "0b1", "#x1", "01", "x", "-1", "0b", "", "0b2", "1x"}
EnumOf1(values, l, m) == Dev1(<<Reg("X", 0, <<>>, <<Fld("F", Bits(l, m), <<Enu(<<>>, values)>>)>>)>>)
V(name, text, def) == Val(name, Opt("value", text) @@ Opt("is_default", def))
EnumValues ==
    {EnumOf1(<<V("a", t1, d1), V(n2, t2, d2)>>, 2, m) :
        t1 \in Maybe(ValueTexts), d1 \in Maybe({TRUE, FALSE}), n2 \in {"a", "b", "a_1"}, t2 \in Maybe({"0", "1", "#1x"}),
        d2 \in Maybe({TRUE}), m \in {2, 3}}
EnumSingles ==
    {EnumOf1(<<V("a", t, d)>>, l, m) : t \in Maybe(ValueTexts \cup {"0bxx", "7", "0b111", "0x8", "#xx"}), d \in Maybe({TRUE, FALSE}),
                                       l \in {0, 1}, m \in {0, 1, 2, 3}}
Usg == {"read", "write", "read-write"}
EnumUsages ==
    {Dev1(<<Reg("X", 0, Opt("access", acc), <<Fld("F", Bits(0, 1), es)>>)>>) :
        acc \in Maybe({"read-only"}),
        es \in {<<Enu(Opt("usage", u) @@ Opt("name", n), <<V("a", <<"1">>, <<>>)>>)>> : u \in Maybe(Usg), n \in Maybe({"E"})}
            \cup {<<Enu(Opt("usage", u1), <<V("a", <<"1">>, <<>>)>>), Enu(Opt("usage", u2), <<V("a", <<"2">>, <<>>)>>)>> :
                    u1 \in Maybe(Usg), u2 \in Maybe(Usg)}
            \cup {<<Enu(Opt("usage", u1), <<V("a", <<"1">>, <<>>)>>), Enu(Opt("usage", u2), <<V("a", <<"2">>, <<>>)>>),
                    Enu(Opt("usage", u3), <<V("a", <<"0">>, <<>>)>>)>> : u1 \in Maybe(Usg), u2 \in Maybe(Usg), u3 \in Maybe(Usg)}}
EnumDerived ==
    {Dev1(<<Reg("X", 0, <<>>, <<
        Fld("F", Bits(0, bm), <<Enu([name |-> "E"] @@ Opt("usage", u), <<V("a", <<"1">>, <<>>), V("b", t, d)>>)>>),
        Fld("G", Bits(8, gm), <<Enu([derived_from |-> path] @@ Opt("name", n) @@ Opt("usage", gu), own)>>)>>)>>) :
        bm \in {1, 2}, u \in Maybe({"read"}), t \in Maybe({"#1x", "3"}), d \in Maybe({TRUE}), gm \in {8, 9},
        path \in {"E", "F.E", "X.F.E", "P.X.F.E", "G.E"}, n \in Maybe({"E", "H"}), gu \in Maybe({"write"}),
        own \in {<<>>, <<V("c", <<"0">>, <<>>)>>}}

-----------------------------------------------------------------------------
(* register properties: stated or not at every level *)

Levels(key, S, fkey, FS) ==
    {Dev(Opt(key, d), <<Per("P", 4096, Opt(key, p), <<Clu("C", 0, Opt(key, c), <<Reg("R", 0, Opt(key, r), <<Fld("F", Bits(0, 1) @@ Opt(fkey, f), <<>>)>>)>>),
                                                      Reg("S", 64, Opt(key, s), <<>>)>>)>>) :
        d \in Maybe(S), p \in Maybe(S), c \in Maybe(S), r \in Maybe(S), s \in Maybe(S), f \in Maybe(FS)}
PropSize == Levels("size", {8, 16, 64}, "description", {})
PropAccess == Levels("access", {"read-only", "read-write"}, "access", {"write-only"})
PropProtection == Levels("protection", {"s", "n"}, "description", {})
PropReset == Levels("reset_value", {N(0), N(5)}, "description", {})
PropMask == Levels("reset_mask", {N(0), N(255)}, "description", {})
OddSize ==
    {Dev(Opt("size", d), <<Per("P", 4096, Opt("size", p), <<Clu("C", 0, Opt("size", c), <<Reg("R", 0, Opt("size", r), <<>>)>>), Reg("S", 64, Opt("size", s), <<>>)>>)>>) :
        d \in Maybe({12, 16}), p \in Maybe({8, 12}), c \in Maybe({4, 64}), r \in Maybe({8, 12, 24, 128}), s \in Maybe({12, 32})}

\* what a derived element takes from its base, and what it states itself
PropDerived(key, S) ==
    {Dev(Opt(key, d), <<Per("P", 4096, Opt(key, p), <<Reg("A", 0, Opt(key, a), <<>>)>>),
                        Per("Q", 8192, Opt(key, q), <<Reg("B", 0, [derived_from |-> "P.A"] @@ Opt(key, b), <<>>),
                                                      Clu("C", 64, Opt(key, c), <<Reg("B", 0, [derived_from |-> "Q.B"] @@ Opt(key, e), <<>>)>>)>>)>>) :
        d \in Maybe(S), p \in Maybe(S), a \in Maybe(S), q \in Maybe(S), b \in Maybe(S), c \in Maybe(S), e \in Maybe({})}
PropDerivedSize == PropDerived("size", {8, 64})
PropDerivedAccess == PropDerived("access", {"read-only", "write-only"})
PropPeripheral(key, S) ==
    {Dev(Opt(key, d), <<Per("P", 4096, Opt(key, p), <<Clu("C", 0, Opt(key, c), <<Reg("A", 0, Opt(key, a), <<>>)>>)>>),
                        Per("Q", 8192, [derived_from |-> "P"] @@ Opt(key, q), own),
                        Per("S", 12288, [derived_from |-> "Q"], <<Clu("X", 128, [derived_from |-> "C"] @@ Opt(key, x), <<>>)>>)>>) :
        d \in Maybe(S), p \in Maybe(S), c \in Maybe(S), a \in Maybe(S), q \in Maybe(S), x \in Maybe(S),
        own \in {<<>>, <<Reg("B", 64, <<>>, <<>>)>>}}
PropPeripheralSize == PropPeripheral("size", {16, 64})
PropPeripheralReset == PropPeripheral("reset_value", {N(1)})

-----------------------------------------------------------------------------
(* what is inherited: two attributes, each stated by the base, by the deriving element, by both or by neither *)

Two(key) ==
    CASE key = "access" -> <<"read-only", "write-only">>
      [] key = "protection" -> <<"s", "n">>
      [] key = "size" -> <<16, 8>>
      [] key = "reset_value" -> <<N(5), N(0)>>
      [] key = "reset_mask" -> <<N(15), N(240)>>
      [] key = "data_type" -> <<"uint8_t", "int16_t *">>
      [] key = "modified_write_values" -> <<"oneToClear", "modify">>
      [] key = "read_action" -> <<"clear", "modifyExternal">>
      [] key = "write_constraint" -> <<[write_as_read |-> TRUE], [use_enumerated_values |-> FALSE]>>
      [] OTHER -> <<"v1" \o key, "v2">>
RegKeys == <<"size", "access", "protection", "reset_value", "reset_mask">>
KeysOf(kind) ==
    CASE kind = "peripheral" -> <<"version", "description", "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name",
                                  "header_struct_name", "disable_condition">> \o RegKeys
      [] kind = "cluster" -> <<"description", "alternate_cluster", "header_struct_name">> \o RegKeys
      [] kind = "register" -> <<"display_name", "description", "alternate_group", "alternate_register", "data_type", "modified_write_values",
                                "write_constraint", "read_action">> \o RegKeys
      [] OTHER -> <<"description", "access", "modified_write_values", "write_constraint", "read_action">>
InheritPairs(kind) ==
    LET ks == KeysOf(kind)
        X == <<Reg("X", 0, <<>>, <<>>)>>
    IN {LET stated(i, j, v) == (IF i = "y" THEN ks[p[1]] :> Two(ks[p[1]])[v] ELSE <<>>) @@ (IF j = "y" THEN ks[p[2]] :> Two(ks[p[2]])[v] ELSE <<>>)
            a == stated(a1, a2, 1)
            b == [derived_from |-> "A"] @@ stated(b1, b2, 2)
        IN CASE kind = "peripheral" -> Dev(<<>>, <<Per("A", 4096, a, X), PerB("B", 65536, own, b, <<>>)>>)
             [] kind = "cluster" -> Dev1(<<Clu("A", 0, a, X), Clu("B", 256, b, IF own = <<>> THEN <<>> ELSE <<Reg("Y", 16, <<>>, <<>>)>>)>>)
             [] kind = "register" -> Dev1(<<Reg("A", 0, a, <<Fld("F", Bits(0, 1), <<>>)>>),
                                            Reg("B", 256, b, IF own = <<>> THEN <<>> ELSE <<Fld("G", Bits(4, 5), <<>>)>>)>>)
             [] OTHER -> Dev1(<<Reg("X", 0, <<>>, <<Fld("A", Bits(0, 1) @@ a, <<Enu([name |-> "E"], <<V("a", <<"1">>, <<>>)>>)>>),
                                                     Fld("B", Bits(8, 9) @@ b, <<>>)>>)>>) :
        p \in {q \in (1..Len(ks)) \X (1..Len(ks)) : q[1] < q[2]}, a1 \in {"y", "n"}, a2 \in {"y", "n"}, b1 \in {"y", "n"}, b2 \in {"y", "n"},
        own \in {<<>>, <<Block(16, 32)>>}}

\* two register properties, each stated at one or two levels
PropLevels == <<"d", "p", "c", "r", "s">>
AtLevel(key, i) ==
    CASE key = "access" -> <<"read-only", "write-only", "read-write", "writeOnce", "read-writeOnce">>[i]
      [] key = "protection" -> <<"s", "n", "p", "s", "n">>[i]
      [] key = "size" -> <<64, 16, 8, 32, 16>>[i]
      [] OTHER -> N(i)
PropCross ==
    {LET at(i) == (IF i \in l1 THEN RegKeys[q[1]] :> AtLevel(RegKeys[q[1]], i) ELSE <<>>) @@ (IF i \in l2 THEN RegKeys[q[2]] :> AtLevel(RegKeys[q[2]], i) ELSE <<>>)
     IN Dev(at(1), <<Per("P", 4096, at(2), <<Clu("C", 0, at(3), <<Reg("R", 0, at(4), <<Fld("F", Bits(0, 1), <<>>)>>)>>), Reg("S", 64, at(5), <<>>)>>)>>) :
        q \in {r \in (1..5) \X (1..5) : r[1] < r[2]}, l1 \in {S \in SUBSET (1..5) : Cardinality(S) \in {1, 2}}, l2 \in {{i} : i \in 1..5}}

-----------------------------------------------------------------------------
(* addresses and overlaps *)

RegPairs ==
    {Dev1(<<Reg("A", o1, [size |-> s1] @@ Opt("alternate_register", a1) @@ Opt("alternate_group", g1), <<>>),
            Reg("B", o2, [size |-> s2] @@ Opt("alternate_register", a2) @@ Opt("alternate_group", g2), <<>>)>>) :
        o1 \in {0, 2, 4}, s1 \in {8, 32, 64}, o2 \in {0, 3, 4}, s2 \in {16, 32}, a1 \in Maybe({"B", "Z"}), a2 \in Maybe({"A"}),
        g1 \in Maybe({"g"}), g2 \in Maybe({"g", "h"})}
RegTriples ==
    {Dev1(<<Reg("A", 0, [size |-> s1] @@ Opt("alternate_register", a1), <<>>),
            Reg("B", o2, Opt("alternate_register", a2), <<>>),
            Reg("C", o3, Opt("alternate_register", a3), <<>>)>>) :
        s1 \in {32, 64}, o2 \in {0, 4}, o3 \in {0, 4, 8}, a1 \in Maybe({"B", "C", "A"}), a2 \in Maybe({"A", "C", "Z"}),
        a3 \in Maybe({"A", "B"})}
Clusters ==
    {Dev1(<<Clu("C", o1, Opt("alternate_cluster", a1), <<Reg("A", i1, [size |-> s1], <<>>), Reg("B", 4, <<>>, <<>>)>>),
            Clu("D", o2, Opt("alternate_cluster", a2), <<Reg("A", 0, <<>>, <<>>)>>),
            Reg(n3, o3, Opt("alternate_register", a3), <<>>)>>) :
        o1 \in {0, 4}, i1 \in {0, 8}, s1 \in {16, 64}, o2 \in {0, 8, 12}, o3 \in {4, 16}, a1 \in Maybe({"D"}), a2 \in Maybe({"C", "E"}),
        n3 \in {"C", "E"}, a3 \in Maybe({"C"})}
BlockSets ==
    {Dev(<<>>, <<PerB("P", 4096, bs, <<>>, <<Reg("A", 0, <<>>, <<>>)>>),
                 PerB("Q", q, <<Block(0, 16)>>, Opt("alternate_peripheral", alt), <<Reg("A", 8, <<>>, <<>>)>>)>>) :
        bs \in Seqs({Block(0, 16), Block(16, 16), Block(8, 64), Block(32, 4)}, 3), q \in {4096, 4100, 4112, 4128, 4224, 4095},
        alt \in Maybe({"P"})}
PeripheralTriples ==
    {Dev(<<>>, <<Per("A", b1, Opt("alternate_peripheral", a1), <<Reg("R", 0, <<>>, <<>>)>>),
                 Per("B", b2, Opt("alternate_peripheral", a2), <<Reg("R", 4, <<>>, <<>>)>>),
                 Per("C", b3, Opt("alternate_peripheral", a3), kids)>>) :
        b1 \in {0, 4096}, b2 \in {0, 4}, b3 \in {0, 8192}, a1 \in Maybe({"B", "C"}), a2 \in Maybe({"A", "C", "Z"}),
        a3 \in Maybe({"A", "B"}), kids \in {<<>>, <<Reg("R", 0, <<>>, <<>>)>>}}

-----------------------------------------------------------------------------
(* what is left out, what is refused *)

Kinds2(k, name, off) == IF k = "c" THEN Clu(name, off, <<>>, <<Reg("X", 0, <<>>, <<>>)>>)
                        ELSE IF k = "e" THEN Clu(name, off, <<>>, <<>>) ELSE Reg(name, off, <<>>, <<>>)
Siblings ==
    {Dev(<<>>, <<PerB(p1, 4096, bs, Opt("size", sz), <<Kinds2(k1, n1, 0), Kinds2(k2, n2, 8)>>),
                 Per(p2, 8192, <<>>, <<Kinds2(k3, "A", 2)>>)>>) :
        p1 \in {"P", "reserved"}, bs \in {<<>>, <<Block(0, 64)>>}, sz \in Maybe({12}), k1 \in {"c", "r", "e"}, n1 \in {"A", "Reserved"},
        k2 \in {"c", "r", "e"}, n2 \in {"A", "B", "a"}, p2 \in {"P", "Q"}, k3 \in {"r", "e"}}
NoBlock ==
    {Dev(<<>>, <<PerB("P", b1, bs1, Opt("derived_from", d1), ks1), PerB("Q", 8192, bs2, Opt("derived_from", d2), ks2)>>) :
        b1 \in {4096, 4098}, bs1 \in {<<>>, <<Block(16, 16), Block(0, 16)>>}, d1 \in Maybe({"Q"}), bs2 \in {<<>>, <<Block(0, 4)>>},
        d2 \in Maybe({"P"}), ks1 \in {<<>>, <<Reg("A", 0, <<>>, <<>>)>>}, ks2 \in {<<>>, <<Reg("B", 4, <<>>, <<>>)>>}}

AltGroups ==
    {Dev1(<<Reg(n1, 0, Opt("alternate_group", g1), <<>>), Reg("A", o2, Opt("alternate_group", g2), <<>>),
            Reg(n3, 4, Opt("alternate_group", g3), <<>>)>> \o d) :
        n1 \in {"A", "B"}, n3 \in {"A", "B"}, g1 \in Maybe({"g", "h"}), g2 \in Maybe({"g", "h"}), g3 \in Maybe({"g"}), o2 \in {0, 8},
        d \in {<<>>} \cup {<<Reg("D", 64, [derived_from |-> p] @@ Opt("alternate_group", g), <<>>)>> : p \in {"A", "B", "P.A"}, g \in Maybe({"k"})}}

-----------------------------------------------------------------------------
(* the CPU *)

CpuA(more) == more @@ [name |-> "CM4", revision |-> "r0p1", endian |-> "little", nvic_prio_bits |-> 3, vendor_systick_config |-> FALSE]
Flag == Maybe({TRUE, FALSE})
Cpus ==
    {[Dev1(<<Reg("A", 0, <<>>, <<>>)>>) EXCEPT !.cpu = <<CpuA(Opt("mpu_present", a) @@ Opt("fpu_present", b) @@ Opt("fpu_dp", c) @@ Opt("vtor_present", v) @@ Opt("dsp_present", d))>>] :
        a \in Flag, b \in Flag, c \in Flag, v \in Flag, d \in Flag}
    \cup
    {[Dev1(<<Reg("A", 0, <<>>, <<>>)>>) EXCEPT !.cpu = <<CpuA([name |-> n] @@ Opt("icache_present", a) @@ Opt("dcache_present", b) @@ Opt("itcm_present", c) @@ Opt("dtcm_present", d))>>] :
        a \in Flag, b \in Flag, c \in Flag, d \in Flag, n \in {"CM0+", "CM0PLUS", "other"}}
    \cup
    {[Dev1(<<Reg("A", 0, <<>>, <<>>)>>) EXCEPT !.cpu = <<CpuA(Opt("sau_num_regions", n) @@ Opt("device_num_interrupts", i) @@
          Opt("sau_regions_config", s))>>] :
        n \in Maybe({0, 2}), i \in Maybe({7}),
        s \in {<<>>} \cup {<<Opt("enabled", en) @@ Opt("protection_when_disabled", p) @@ [regions |-> rs]>> :
                en \in Flag, p \in Maybe({"s", "n", "p"}),
                rs \in {<<>>} \cup {<<Opt("enabled", re) @@ Opt("name", nm) @@ [base |-> N(0), limit |-> N(31), access |-> ac]>> :
                            re \in Flag, nm \in Maybe({"r"}), ac \in {"n", "c"}}}}

DeviceKeys == <<"vendor", "vendor_id", "series", "license_text", "header_system_filename", "header_definitions_prefix">>
Devices ==
    {LET texts == [k \in {DeviceKeys[i] : i \in S} |-> "v " \o k]
         props == [k \in {RegKeys[i] : i \in Q} |-> AtLevel(k, 1)]
     IN Dev(texts @@ props, <<Per("P", 4096, <<>>, <<Reg("A", 0, <<>>, <<Fld("F", Bits(0, 1), <<>>)>>)>>)>>) :
        S \in SUBSET (1..6), Q \in {T \in SUBSET (1..5) : Cardinality(T) \in {0, 1, 4, 5}}}

-----------------------------------------------------------------------------

Scope ==
    CASE Which = "dims" -> Dims [] Which = "dim-displays" -> DimDisplays [] Which = "dim-derived" -> DimDerived [] Which = "dim-chain" -> DimChain
      [] Which = "field-own" -> FieldOwn [] Which = "field-derived" -> FieldDerived [] Which = "field-pairs" -> FieldPairs
      [] Which = "enum-values" -> EnumValues [] Which = "enum-singles" -> EnumSingles [] Which = "enum-usages" -> EnumUsages
      [] Which = "enum-derived" -> EnumDerived
      [] Which = "prop-size" -> PropSize [] Which = "prop-access" -> PropAccess [] Which = "prop-protection" -> PropProtection
      [] Which = "prop-reset" -> PropReset [] Which = "prop-mask" -> PropMask [] Which = "odd-size" -> OddSize
      [] Which = "prop-derived-size" -> PropDerivedSize [] Which = "prop-derived-access" -> PropDerivedAccess
      [] Which = "prop-peripheral-size" -> PropPeripheralSize [] Which = "prop-peripheral-reset" -> PropPeripheralReset
      [] Which = "reg-pairs" -> RegPairs [] Which = "reg-triples" -> RegTriples [] Which = "clusters" -> Clusters
      [] Which = "blocks" -> BlockSets [] Which = "peripheral-triples" -> PeripheralTriples
      [] Which = "inherit-peripheral" -> InheritPairs("peripheral") [] Which = "inherit-cluster" -> InheritPairs("cluster")
      [] Which = "inherit-register" -> InheritPairs("register") [] Which = "inherit-field" -> InheritPairs("field")
      [] Which = "prop-cross" -> PropCross [] Which = "alt-groups" -> AltGroups [] Which = "devices" -> Devices
      [] Which = "siblings" -> Siblings [] Which = "no-block" -> NoBlock [] Which = "cpus" -> Cpus

Init == pd \in Scope
Next == FALSE /\ pd' = pd

Spec == Init /\ [][Next]_pd
=============================================================================
