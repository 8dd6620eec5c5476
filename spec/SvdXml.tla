------------------------------- MODULE SvdXml -------------------------------
(***************************************************************************)
(* What an SVD document says.  A document is an element tree               *)
(*   [t |-> tag, x |-> <<text>> or <<>>, at |-> attributes, c |-> children] *)
(* where at is a sequence of [n, v] pairs; the root also carries ns, the   *)
(* namespace prefixes.  Reading it gives the parsed device, the number of  *)
(* repairs that have to be announced, and the set of reasons to reject it: *)
(* "missing" (a mandatory item is absent) and "literal" (a text that does  *)
(* not denote a value of its type).                                        *)
(***************************************************************************)
EXTENDS SvdDim, FiniteSets

Elems(p, tag) == SelectSeq(p.c, LAMBDA k : k.t = tag)
First(p, tag) == LET es == Elems(p, tag) IN IF es = <<>> THEN <<>> ELSE <<es[1]>>

\* a reading: warnings, errors, and <<value>> or <<>>
Rd(w, e, v) == [w |-> w, e |-> e, v |-> v]
Missing(w) == Rd(w, {"missing"}, <<>>)
BadLiteral(w) == Rd(w, {"literal"}, <<>>)

B2Nx(b) == IF b THEN 1 ELSE 0

(* the text of a child element: of several the last one counts *)
Text(p, tag, strip) ==
    LET es == Elems(p, tag)
        many == B2Nx(Len(es) > 1)
        txt == IF es = <<>> THEN <<>> ELSE es[Len(es)].x
    IN IF txt = <<>> THEN Rd(many, {}, <<>>)
       ELSE IF ~strip THEN Rd(many, {}, txt)
       ELSE LET s == Strip(txt[1]) IN Rd(many + B2Nx(s # txt[1]), {}, <<s>>)

Attribute(p, name) ==
    LET hit == SelectSeq(p.at, LAMBDA a : a.n = name)
    IN IF hit = <<>> THEN Rd(0, {}, <<>>)
       ELSE LET s == Strip(hit[1].v) IN Rd(B2Nx(s # hit[1].v), {}, <<s>>)

Values(type) ==
    CASE type = "endian" -> {"little", "big", "selectable", "other"}
      [] type = "protection" -> {"s", "n", "p", "any"}
      [] type = "sauaccess" -> {"c", "n"}
      [] type = "token" -> {"registers", "buffer", "reserved"}
      [] type = "datatype" ->
            {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t",
             "uint8_t *", "uint16_t *", "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *"}
      [] type = "mwv" -> {"oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle",
                          "clear", "set", "modify"}
      [] type = "readaction" -> {"clear", "set", "modify", "modifyExternal"}
      [] type = "usage" -> {"read", "write", "read-write"}
      [] OTHER -> {}

CpuNames == {"CM0", "CM0PLUS", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85", "SC000",
             "SC300", "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17", "CA53", "CA57",
             "CA72", "SMC1"}

AccessNames == [a \in {"read-only", "write-only", "read-write", "writeonce", "read-writeonce", "read", "write"} |->
                CASE a = "writeonce" -> "writeOnce" [] a = "read-writeonce" -> "read-writeOnce"
                  [] a = "read" -> "read-only" [] a = "write" -> "write-only" [] OTHER -> a]

NumErr == [err |-> TRUE, v |-> <<>>]
NumIn(digits, chars, base) == IF digits # "" /\ AllIn(digits, chars) THEN [err |-> FALSE, v |-> ToNat(digits, base)] ELSE NumErr
Number(text) ==
    LET s0 == Replace(text, "#", "0b")
        s == IF StartsWith(s0, "+") THEN SubSeq(s0, 2, Len(s0)) ELSE s0
        pre == IF Len(s) >= 2 THEN Lower(SubSeq(s, 1, 2)) ELSE ""
        rest == SubSeq(s, 3, Len(s))
    IN CASE pre = "0x" -> NumIn(rest, HexChars, 16)
         [] pre = "0b" -> NumIn(rest, {"0", "1"}, 2)
         [] pre = "0o" -> NumIn(rest, DigitChars \ {"8", "9"}, 8)
         [] OTHER -> NumIn(s, DigitChars, 10)

(* texts no notation of a number covers, but that a reader may take for one: signs, digits grouped or of other scripts;
   and numbers no attribute of a small integer type can be meant to have *)
Doubtful(type, s, n) ==
    LET t == Replace(IF s # "" /\ Chr(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s, "_", "")
    IN IF n.err THEN ~AllIn(s, PrintableChars) \/ (t # s /\ ~Number(t).err)
       ELSE type = "int" /\ (Len(n.v) > 2 \/ (Len(n.v) = 2 /\ n.v[2] >= 2048))

(* a text as a value of the given type *)
AsType(type, s) ==
    CASE type \in {"str", "raw"} -> Rd(0, {}, <<s>>)
      [] type \in {"nat", "int"} ->
            LET n == Number(s) IN IF Doubtful(type, s, n) THEN Rd(0, {"doubtful"}, <<>>)
                                  ELSE IF n.err THEN BadLiteral(0)
                                  ELSE Rd(0, {}, <<IF type = "int" THEN NToInt(n.v) ELSE n.v>>)
      [] type = "bool" ->
            IF Lower(s) = "true" \/ s = "1" THEN Rd(0, {}, <<TRUE>>)
            ELSE IF Lower(s) = "false" \/ s = "0" THEN Rd(0, {}, <<FALSE>>) ELSE BadLiteral(0)
      [] type = "access" ->
            IF Lower(s) \in DOMAIN AccessNames THEN Rd(0, {}, <<AccessNames[Lower(s)]>>) ELSE Rd(1, {}, <<>>)
      [] type = "cpu" ->
            LET u == Upper(s) IN
            IF u \in CpuNames THEN Rd(0, {}, <<u>>)
            ELSE IF u = "CM0_PLUS" \/ s = "CM0+" THEN Rd(0, {}, <<"CM0+">>)
            ELSE IF u = "CM0+" THEN Rd(0, {"doubtful"}, <<>>)
            ELSE IF u = "OTHER" THEN Rd(0, {}, <<"other">>) ELSE BadLiteral(0)
      [] OTHER -> IF s \in Values(type) THEN Rd(0, {}, <<s>>) ELSE BadLiteral(0)

(* rows <<attribute, tag, type, mandatory>> *)
ReadRow(p, row) ==
    LET t == Text(p, row[2], row[3] # "raw")
    IN IF t.v = <<>> THEN (IF row[4] THEN Missing(t.w) ELSE t)
       ELSE LET r == AsType(row[3], t.v[1]) IN Rd(t.w + r.w, r.e, r.v)

One(key, v) == IF v = <<>> THEN <<>> ELSE (key :> v[1])

\* a collected element: warnings, errors, attributes
Acc(w, e, a) == [w |-> w, e |-> e, a |-> a]
Acc0 == Acc(0, {}, <<>>)
AddRd(acc, key, r) == Acc(acc.w + r.w, acc.e \cup r.e, acc.a @@ One(key, r.v))
AddAcc(acc, b) == Acc(acc.w + b.w, acc.e \cup b.e, acc.a @@ b.a)

RECURSIVE ReadRows(_, _, _, _)
ReadRows(p, rows, i, acc) ==
    IF i > Len(rows) THEN acc ELSE ReadRows(p, rows, i + 1, AddRd(acc, rows[i][1], ReadRow(p, rows[i])))
Rows(p, rows) == ReadRows(p, rows, 1, Acc0)

\* a list of elements: warnings, errors, sequence
RECURSIVE ReadListR(_, _, _, _)
ReadListR(es, F(_), i, acc) ==
    IF i > Len(es) THEN acc
    ELSE LET x == F(es[i])
         IN ReadListR(es, F, i + 1, [w |-> acc.w + x.w, e |-> acc.e \cup x.e, s |-> Append(acc.s, x.a)])
ReadList(es, F(_)) == ReadListR(es, F, 1, [w |-> 0, e |-> {}, s |-> <<>>])
AddList(acc, key, l) == Acc(acc.w + l.w, acc.e \cup l.e, acc.a @@ (key :> l.s))

RegRows == <<<<"size", "size", "int", FALSE>>, <<"access", "access", "access", FALSE>>,
             <<"protection", "protection", "protection", FALSE>>, <<"reset_value", "resetValue", "nat", FALSE>>,
             <<"reset_mask", "resetMask", "nat", FALSE>>>>
DimRows == <<<<"dim", "dim", "int", FALSE>>, <<"dim_increment", "dimIncrement", "nat", FALSE>>,
             <<"dim_index", "dimIndex", "str", FALSE>>, <<"dim_name", "dimName", "str", FALSE>>>>

EnumValue(p) == Rows(p, <<<<"name", "name", "str", TRUE>>, <<"description", "description", "raw", FALSE>>,
                          <<"value", "value", "str", FALSE>>, <<"is_default", "isDefault", "bool", FALSE>>>>)

DimGroup(p) ==
    LET rows == Rows(p, DimRows)
        arr == First(p, "dimArrayIndex")
    IN IF arr = <<>> THEN rows
       ELSE LET h == Rows(arr[1], <<<<"header_enum_name", "headerEnumName", "str", FALSE>>>>)
                full == AddList(h, "values", ReadList(Elems(arr[1], "enumeratedValue"), EnumValue))
            IN Acc(rows.w + full.w, rows.e \cup full.e, rows.a @@ ("dim_array_index" :> full.a))

Constraint(p) ==
    LET es == First(p, "writeConstraint")
    IN IF es = <<>> THEN Acc0
       ELSE LET r == Rows(es[1], <<<<"write_as_read", "writeAsRead", "bool", FALSE>>,
                                   <<"use_enumerated_values", "useEnumeratedValues", "bool", FALSE>>>>)
                rg == First(es[1], "range")
                m == Rows(rg[1], <<<<"lo", "minimum", "nat", TRUE>>, <<"hi", "maximum", "nat", TRUE>>>>)
            IN IF rg = <<>> THEN Acc(r.w, r.e, "write_constraint" :> r.a)
               ELSE IF m.e # {} THEN Acc(r.w + m.w, r.e \cup m.e, <<>>)
               ELSE Acc(r.w + m.w, r.e, "write_constraint" :> (r.a @@ [range |-> <<m.a.lo, m.a.hi>>]))

Derived(p) == AddRd(Acc0, "derived_from", Attribute(p, "derivedFrom"))

Node(kind, acc, kids) == [w |-> acc.w + kids.w, e |-> acc.e \cup kids.e, a |-> [k |-> kind, a |-> acc.a, kids |-> kids.s]]
NoKids == [w |-> 0, e |-> {}, s |-> <<>>]

EnumContainer(p) ==
    LET r == AddAcc(Derived(p), Rows(p, <<<<"name", "name", "str", FALSE>>,
                                          <<"header_enum_name", "headerEnumName", "str", FALSE>>,
                                          <<"usage", "usage", "usage", FALSE>>>>))
    IN Node("enumc", AddList(r, "values", ReadList(Elems(p, "enumeratedValue"), EnumValue)), NoKids)

Field(p) ==
    LET r == Rows(p, <<<<"name", "name", "str", TRUE>>, <<"description", "description", "raw", FALSE>>,
                       <<"bit_offset", "bitOffset", "int", FALSE>>, <<"bit_width", "bitWidth", "int", FALSE>>,
                       <<"lsb", "lsb", "int", FALSE>>, <<"msb", "msb", "int", FALSE>>,
                       <<"bit_range", "bitRange", "str", FALSE>>, <<"access", "access", "access", FALSE>>,
                       <<"modified_write_values", "modifiedWriteValues", "mwv", FALSE>>,
                       <<"read_action", "readAction", "readaction", FALSE>>>>)
    IN Node("field", AddAcc(AddAcc(AddAcc(Derived(p), r), DimGroup(p)), Constraint(p)),
            ReadList(Elems(p, "enumeratedValues"), EnumContainer))

RECURSIVE ConcatC(_, _, _)
ConcatC(es, i, acc) == IF i > Len(es) THEN acc ELSE ConcatC(es, i + 1, acc \o es[i].c)

Register(p) ==
    LET r == Rows(p, <<<<"name", "name", "str", TRUE>>, <<"display_name", "displayName", "str", FALSE>>,
                       <<"description", "description", "raw", FALSE>>,
                       <<"alternate_group", "alternateGroup", "str", FALSE>>,
                       <<"alternate_register", "alternateRegister", "str", FALSE>>,
                       <<"address_offset", "addressOffset", "nat", TRUE>>, <<"data_type", "dataType", "datatype", FALSE>>,
                       <<"modified_write_values", "modifiedWriteValues", "mwv", FALSE>>,
                       <<"read_action", "readAction", "readaction", FALSE>>>> \o RegRows)
        fields == SelectSeq(ConcatC(Elems(p, "fields"), 1, <<>>), LAMBDA k : k.t = "field")
    IN Node("register", AddAcc(AddAcc(AddAcc(Derived(p), r), DimGroup(p)), Constraint(p)), ReadList(fields, Field))

RECURSIVE RegOrCluster(_)
RegOrCluster(p) ==
    IF p.t = "register" THEN Register(p)
    ELSE LET r == Rows(p, <<<<"name", "name", "str", TRUE>>, <<"description", "description", "raw", FALSE>>,
                            <<"alternate_cluster", "alternateCluster", "str", FALSE>>,
                            <<"header_struct_name", "headerStructName", "str", FALSE>>,
                            <<"address_offset", "addressOffset", "nat", TRUE>>>> \o RegRows)
         IN Node("cluster", AddAcc(AddAcc(Derived(p), r), DimGroup(p)),
                 ReadList(SelectSeq(p.c, LAMBDA k : k.t \in {"register", "cluster"}), RegOrCluster))

Block(p) ==
    LET r == Rows(p, <<<<"offset", "offset", "nat", FALSE>>, <<"size", "size", "nat", TRUE>>,
                       <<"usage", "usage", "token", TRUE>>, <<"protection", "protection", "protection", FALSE>>>>)
    IN Acc(r.w, r.e, r.a @@ [offset |-> <<>>])

Interrupt(p) ==
    LET r == Rows(p, <<<<"name", "name", "str", TRUE>>, <<"description", "description", "raw", FALSE>>,
                       <<"value", "value", "int", FALSE>>>>)
        none == Text(p, "value", TRUE).v = <<>>
    IN IF none THEN Acc(r.w + 1, r.e, r.a @@ [value |-> 0]) ELSE r

Peripheral(p) ==
    LET r == Rows(p, <<<<"name", "name", "str", TRUE>>, <<"version", "version", "str", FALSE>>,
                       <<"description", "description", "raw", FALSE>>,
                       <<"alternate_peripheral", "alternatePeripheral", "str", FALSE>>,
                       <<"group_name", "groupName", "str", FALSE>>, <<"prepend_to_name", "prependToName", "str", FALSE>>,
                       <<"append_to_name", "appendToName", "str", FALSE>>,
                       <<"header_struct_name", "headerStructName", "str", FALSE>>,
                       <<"disable_condition", "disableCondition", "raw", FALSE>>,
                       <<"base_address", "baseAddress", "nat", TRUE>>>> \o RegRows)
        b == AddList(AddAcc(AddAcc(Derived(p), r), DimGroup(p)), "address_blocks", ReadList(Elems(p, "addressBlock"), Block))
        i == AddList(b, "interrupts", ReadList(Elems(p, "interrupt"), Interrupt))
        rcs == SelectSeq(ConcatC(Elems(p, "registers"), 1, <<>>), LAMBDA k : k.t \in {"register", "cluster"})
    IN Node("peripheral", i, ReadList(rcs, RegOrCluster))

AttrRow(p, acc, key, name, type, must) ==
    LET t == Attribute(p, name)
    IN IF t.v = <<>> THEN (IF must THEN Acc(acc.w, acc.e \cup {"missing"}, acc.a) ELSE acc)
       ELSE LET r == AsType(type, t.v[1]) IN AddRd(acc, key, Rd(t.w + r.w, r.e, r.v))

SauRegion(p) ==
    AttrRow(p, AttrRow(p, Rows(p, <<<<"base", "base", "nat", TRUE>>, <<"limit", "limit", "nat", TRUE>>,
                                    <<"access", "access", "sauaccess", TRUE>>>>),
                       "enabled", "enabled", "bool", FALSE),
            "name", "name", "str", FALSE)

Sau(p) ==
    LET h == AttrRow(p, AttrRow(p, Acc0, "enabled", "enabled", "bool", FALSE),
                     "protection_when_disabled", "protectionWhenDisabled", "protection", FALSE)
    IN AddList(h, "regions", ReadList(Elems(p, "region"), SauRegion))

Cpu(p) ==
    LET r == Rows(p, <<<<"name", "name", "cpu", TRUE>>, <<"revision", "revision", "str", TRUE>>,
                       <<"endian", "endian", "endian", TRUE>>, <<"mpu_present", "mpuPresent", "bool", FALSE>>,
                       <<"fpu_present", "fpuPresent", "bool", FALSE>>, <<"fpu_dp", "fpuDP", "bool", FALSE>>,
                       <<"dsp_present", "dspPresent", "bool", FALSE>>, <<"icache_present", "icachePresent", "bool", FALSE>>,
                       <<"dcache_present", "dcachePresent", "bool", FALSE>>, <<"itcm_present", "itcmPresent", "bool", FALSE>>,
                       <<"dtcm_present", "dtcmPresent", "bool", FALSE>>, <<"vtor_present", "vtorPresent", "bool", FALSE>>,
                       <<"nvic_prio_bits", "nvicPrioBits", "int", TRUE>>,
                       <<"vendor_systick_config", "vendorSystickConfig", "bool", TRUE>>,
                       <<"device_num_interrupts", "deviceNumInterrupts", "int", FALSE>>,
                       <<"sau_num_regions", "sauNumRegions", "int", FALSE>>>>)
        s == First(p, "sauRegionsConfig")
    IN IF s = <<>> THEN r
       ELSE LET x == Sau(s[1]) IN Acc(r.w + x.w, r.e \cup x.e, r.a @@ ("sau_regions_config" :> x.a))

(* where the schema of the document is named *)
Location(p) ==
    LET pre == SelectSeq(p.ns, LAMBDA n : n.p = "xs")
        alt == SelectSeq(p.ns, LAMBDA n : n.p = "xsi")
        uri == IF pre # <<>> THEN <<pre[1].u>> ELSE IF alt # <<>> THEN <<alt[1].u>> ELSE <<>>
        at == IF uri = <<>> THEN Rd(0, {}, <<>>) ELSE Attribute(p, "{" \o uri[1] \o "}noNamespaceSchemaLocation")
    IN IF at.v = <<>> THEN Rd(1, {}, <<"">>) ELSE at

ReadDevice(p) ==
    LET head == AttrRow(p, AddRd(Acc0, "xs_no_namespace_schema_location", Location(p)),
                        "schema_version", "schemaVersion", "str", TRUE)
        r == AddAcc(head, Rows(p, <<<<"vendor", "vendor", "str", FALSE>>, <<"vendor_id", "vendorID", "str", FALSE>>,
                       <<"name", "name", "str", TRUE>>, <<"series", "series", "str", FALSE>>,
                       <<"version", "version", "str", TRUE>>, <<"description", "description", "raw", FALSE>>,
                       <<"license_text", "licenseText", "raw", FALSE>>,
                       <<"header_system_filename", "headerSystemFilename", "str", FALSE>>,
                       <<"header_definitions_prefix", "headerDefinitionsPrefix", "str", FALSE>>,
                       <<"address_unit_bits", "addressUnitBits", "int", TRUE>>, <<"width", "width", "int", TRUE>>>> \o RegRows))
        d == IF Has(r.a, "description") THEN r ELSE Acc(r.w + 1, r.e, r.a @@ [description |-> ""])
        cp == First(p, "cpu")
        c == IF cp = <<>> THEN Acc0 ELSE Cpu(cp[1])
        ps == First(p, "peripherals")
        kids == IF ps = <<>> THEN [w |-> 0, e |-> {"missing"}, s |-> <<>>]
                ELSE ReadList(Elems(ps[1], "peripheral"), Peripheral)
    IN [w |-> d.w + c.w + kids.w, e |-> d.e \cup c.e \cup kids.e,
        dev |-> [a |-> d.a, cpu |-> IF cp = <<>> THEN <<>> ELSE <<c.a>>, kids |-> kids.s]]

=============================================================================
