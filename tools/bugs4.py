import os
exec(open(os.path.join(os.environ.get("TOOLS", "/verif/tools"), "bugs1.py")).read().split("BUGS = [")[0])
BUGS = [
 dict(id="B47", property="P08", needs="a cluster whose last element ends before an earlier one",
      breaks="the end of a cluster is that of its last element",
      edits=[("process.py", '''                cluster_effective_end = max(
                    child.base_address
                    + (_to_byte(child.size) if isinstance(child, Register) else child.cluster_size)
                    - 1
                    for child in children
                )
''', '''                last = children[-1]
                last_size = _to_byte(last.size) if isinstance(last, Register) else last.cluster_size
                cluster_effective_end = last.base_address + last_size - 1
''')],
      demo=PRE+'''
d = process(dev(per(clu("C", 0, reg("A", 0, more="<size>64</size>") + reg("B", 4, more="<size>8</size>")))))
c = d.peripherals[0].registers_clusters[0]
assert (c.end_address, c.cluster_size) == (0x1007, 8), c
'''),
 dict(id="B49", property="P13", needs="a peripheral map with registers of a cluster and direct ones, where the register's field list is edited",
      breaks="the map lists the registers of clusters after all others of the peripheral",
      edits=[("map.py", '''        map_peripheral = MapPeripheral(''', '''        registers.sort(key=lambda r: r.processed not in peripheral.registers_clusters)

        map_peripheral = MapPeripheral(''')],
      demo=PRE+'''
m = PeripheralRegisterMap(process(dev(per(clu("C", 0, reg("X", 0)) + reg("A", 16)))))
assert [r.name for r in m.peripheral_map[0].registers] == ["X", "A"]
'''),
 dict(id="B50", property="P20", needs="a document that states a header prefix and no header file name",
      breaks="the header prefix is dropped where no header file name is stated",
      edits=[("process.py", '''            header_definitions_prefix=parsed_device.header_definitions_prefix,
''', '''            header_definitions_prefix=(
                parsed_device.header_definitions_prefix if parsed_device.header_system_filename is not None else None
            ),
''')],
      demo=PRE+'''
d = process(dev(per(reg("A", 0)), head="<headerDefinitionsPrefix>X_</headerDefinitionsPrefix>"))
assert d.header_definitions_prefix == "X_"
'''),
 dict(id="B52", property="P15", needs="a peripheral whose address blocks are not declared by rising offset, and the parsed device used again after processing",
      breaks="processing sorts the address blocks of the parsed device",
      edits=[("process.py", """        for parsed_address_block in parsed_address_blocks:
            address_blocks.append(""", """        parsed_address_blocks.sort(key=lambda ab: ab.offset)
        for parsed_address_block in parsed_address_blocks:
            address_blocks.append("""),
             ("process.py", "        return sorted(address_blocks, key=lambda ab: ab.offset)\n", "        return address_blocks\n")],
      demo=PRE+"""
block = "<addressBlock><offset>%d</offset><size>16</size><usage>registers</usage></addressBlock>"
doc = dev(per(reg("R", 0))).decode()
i = doc.index("<addressBlock>"); j = doc.index("</addressBlock>") + len("</addressBlock>")
doc = doc[:i] + block % 64 + block % 0 + doc[j:]
parsed = Parser.from_xml_str(doc).get_parsed_device()
Process(parsed, None)
assert [b.offset for b in parsed.peripherals[0].address_blocks] == [64, 0]
"""),
 dict(id="B53", property="P20", needs="security regions that are not stated by rising base address",
      breaks="the security regions of a processed device are sorted by address",
      edits=[("process.py", "        for parsed_region in parsed_sau_regions:\n", "        for parsed_region in sorted(parsed_sau_regions, key=lambda r: (r.base, r.limit)):\n")],
      demo=PRE+"""
region = "<region><base>%d</base><limit>%d</limit><access>n</access></region>"
cpu = ("<cpu><name>CM33</name><revision>r0p0</revision><endian>little</endian><nvicPrioBits>3</nvicPrioBits>"
       "<vendorSystickConfig>false</vendorSystickConfig><sauRegionsConfig>" + region % (64, 95) + region % (0, 31) + "</sauRegionsConfig></cpu>")
d = process(dev(per(reg("A", 0)), head=cpu))
assert [r.base for r in d.cpu.sau_regions_config.regions] == [64, 0]
"""),
 dict(id="B54", property="P03", needs="a write-only register derived from one with a read action",
      breaks="a derived write-only register does not inherit the read action",
      edits=[("process.py", """        read_action = or_if_none(parsed.read_action, base.read_action if base else None)

        if display_name""", """        read_action = parsed.read_action
        if base is not None and parsed.access != AccessType.WRITE_ONLY:
            read_action = or_if_none(parsed.read_action, base.read_action)

        if display_name""")],
      demo=PRE+"""
d = process(dev(per(reg("A", 0, more="<readAction>clear</readAction>") +
    "<register derivedFrom='A'><name>B</name><addressOffset>4</addressOffset><access>write-only</access></register>")))
assert d.peripherals[0].registers[1].read_action is not None
"""),
 dict(id="B56", property="P09", needs="a hexadecimal enumerated value written with 0X",
      breaks="the name of an enumerated value with a capital 0X prefix gets its value appended",
      edits=[("process.py", """                    if parsed_value.value.lower().startswith("0x")
""", """                    if parsed_value.value.startswith("0x")
""")],
      demo=PRE+"""
f = "<field><name>F</name><bitRange>[3:0]</bitRange><enumeratedValues><enumeratedValue><name>A</name><value>0X3</value></enumeratedValue></enumeratedValues></field>"
v = process(dev(per(reg("R", 0, "<fields>" * 0 + f)))).peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values
assert [(x.name, x.value) for x in v] == [("A", 3)], v
"""),
 dict(id="B58", property="P12", needs="a long register that contains two shorter ones which overlap one another",
      breaks="an overlap of two registers that both lie within a third is not announced",
      edits=[("process.py", "            intervals.append((end_addr, item.name))\n", """            # Items are sorted by address, what ends before the furthest one can not meet any further item
            if not intervals or end_addr >= max(end for end, _ in intervals):
                intervals.append((end_addr, item.name))
""")],
      demo=PRE+"""
ws = told(dev(per(reg("A", 0, more="<size>128</size>") + reg("B", 4, more="<size>32</size>") + reg("C", 4, more="<size>32</size>"))))
assert any("'C' overlaps with 'B'" in w for w in ws), ws
"""),
 dict(id="B60", property="P22", needs="a field without a write constraint in a register that has one",
      breaks="the write constraint a field takes from its register refers to the field",
      edits=[("process.py", "            field.write_constraint = or_if_none(field.write_constraint, write_constraint)\n",
"""            if field.write_constraint is None and write_constraint is not None:
                field.write_constraint = WriteConstraint(
                    write_as_read=write_constraint.write_as_read,
                    use_enumerated_values=write_constraint.use_enumerated_values,
                    range_=write_constraint.range_,
                    parsed=field.parsed.write_constraint or field.parsed.parent.write_constraint,
                )
""")],
      demo=PRE+"""
c = "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint>"
f = "<field><name>F</name><bitRange>[3:0]</bitRange></field>"
d = process(dev(per(reg("A", 0, more=c) + "<register derivedFrom='A'><name>B</name><addressOffset>4</addressOffset><fields>" + f + "</fields></register>")))
b = d.peripherals[0].registers[1]
assert b.fields[0].write_constraint.parsed is d.parsed.peripherals[0].registers_clusters[0].write_constraint
"""),
 dict(id="B61", property="P06", needs="a dimIndex list with a line break or tab between the indices",
      breaks="white space other than blanks stays part of the indices of a list",
      edits=[("process.py", """            dim_index_no_whitespace = re.sub(r"\\s+", "", dim_index)
""", """            dim_index_no_whitespace = dim_index.replace(" ", "")
""")],
      demo=PRE+"""
d = process(dev(per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>A,\\n\\tB</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register>")))
assert [r.name for r in d.peripherals[0].registers] == ["RA", "RB"]
"""),
 dict(id="B62", property="P07", needs="a cluster that states a reset value of 0 in a peripheral with another one",
      breaks="a reset value of 0 stated by a cluster does not override that of the peripheral",
      edits=[("process.py", """                self._inherit_properties_registers_clusters(
                    register_cluster.registers_clusters,
                    register_cluster.size,
                    register_cluster.access,
                    register_cluster.protection,
                    register_cluster.reset_value,
""", """                self._inherit_properties_registers_clusters(
                    register_cluster.registers_clusters,
                    register_cluster.size,
                    register_cluster.access,
                    register_cluster.protection,
                    register_cluster.reset_value or reset_value,
""")],
      demo=PRE+"""
d = process(dev(per(clu("C", 0, reg("R", 0), more="<resetValue>0</resetValue>"), more="<resetValue>5</resetValue>")))
assert d.peripherals[0].registers[0].reset_value == 0
"""),
 dict(id="B63", property="P10", needs="a register wider than 100 bits with a bitRange above bit 99",
      breaks="bitRange accepts bit numbers of two digits only",
      edits=[("process.py", r"""re.match(r"\[(\d+):(\d+)\]", bit_range)""", r"""re.match(r"\[(\d{1,2}):(\d{1,2})\]", bit_range)""")],
      demo=PRE+"""
f = "<field><name>F</name><bitRange>[127:100]</bitRange></field>"
d = process(dev(per(reg("R", 0, f, more="<size>128</size>"))))
assert d.peripherals[0].registers[0].fields[0].msb == 127
"""),
 dict(id="B65", property="P11", needs="a register whose name is 'reserved' followed by a number",
      breaks="numbered reserved registers are left out too",
      edits=[("process.py", """            if i_reg_cluster.name.lower() == "reserved":
""", """            if i_reg_cluster.name.lower().rstrip("0123456789_") == "reserved":
""")],
      demo=PRE+"""
d = process(dev(per(reg("RESERVED0", 0) + reg("A", 4))))
assert [r.name for r in d.peripherals[0].registers] == ["RESERVED0", "A"]
"""),
 dict(id="B67", property="P05", needs="a path of several parts that starts at a sibling cluster",
      breaks="paths of several parts are searched from the top of the device only",
      edits=[("resolve/resolver.py", """        matches = search_nodes(siblings, derive_path_parts, derived_node, level)
        if matches:
""", """        matches = search_nodes(siblings, derive_path_parts, derived_node, level) if len(derive_path_parts) < 4 else []
        if matches:
""")],
      demo=PRE+"""
inner = clu("I", 0, clu("J", 0, reg("X", 0, more="<size>16</size>")))
d = process(dev(per(clu("O", 0, inner) + "<register derivedFrom='O.I.J.X'><name>R</name><addressOffset>16</addressOffset></register>")))
assert d.peripherals[0].registers[-1].size == 16
"""),
]
