import os
exec(open(os.path.join(os.environ.get("TOOLS", "/verif/tools"), "bugs1.py")).read().split("BUGS = [")[0])
BUGS = [
 dict(id="B68", property="P01", needs="a peripheral with two <registers> lists",
      breaks="only the last <registers> list of a peripheral is read",
      edits=[("parse.py", 'peripheral_element.findall("registers"):', 'peripheral_element.findall("registers")[-1:]:')],
      demo=PRE+'''
d = Parser.from_xml_content(dev(per(reg("A", 0) + "</registers><registers>" + reg("B", 4)))).get_parsed_device()
assert [r.name for r in d.peripherals[0].registers_clusters] == ["A", "B"]
'''),
 dict(id="B69", property="P01", needs="a register with two <fields> lists",
      breaks="only the first <fields> list of a register is read",
      edits=[("parse.py", "for fields_element in fields_elements:", "for fields_element in fields_elements[:1]:")],
      demo=PRE+'''
f = "<field><name>%s</name><bitRange>[%d:%d]</bitRange></field>"
d = Parser.from_xml_content(dev(per(reg("A", 0, f % ("X", 0, 0) + "</fields><fields>" + f % ("Y", 1, 1))))).get_parsed_device()
assert [x.name for x in d.peripherals[0].registers_clusters[0].fields] == ["X", "Y"]
'''),
 dict(id="B70", property="P19", needs="the deprecated access 'write' spelled with capitals",
      breaks="the deprecated spelling of write-only is only repaired in small letters",
      edits=[("model/types.py", 'if label_lower == "write":', 'if label == "write":')],
      demo=PRE+'''
d = Parser.from_xml_content(dev(per(reg("A", 0).replace("</addressOffset>", "</addressOffset><access>Write</access>")))).get_parsed_device()
assert d.peripherals[0].registers_clusters[0].access.value == "write-only"
'''),
 dict(id="B71", property="P09", needs="an enumerated value written with two leading zeros",
      breaks="decimal values with leading zeros are taken for octal",
      edits=[("process.py", """elif input_str.isdigit():
                return [int(input_str)]""", """elif input_str.isdigit():
                return [int(input_str, 8 if input_str.startswith("00") else 10)]""")],
      demo=PRE+'''
v = "<enumeratedValues><enumeratedValue><name>a</name><value>0010</value></enumeratedValue></enumeratedValues>"
d = process(dev(per(reg("A", 0, "<field><name>F</name><bitRange>[7:0]</bitRange>" + v + "</field>"))))
assert d.peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0].enumerated_values[0].value == 10
'''),
 dict(id="B72", property="P11", needs="a field whose name is 'reserved' but for an underscore",
      breaks="fields are dropped whose name is merely like 'reserved'",
      edits=[("process.py", '            if i_field.name.lower() == "reserved":', '            if i_field.name.lower().strip("_") == "reserved":')],
      demo=PRE+'''
d = process(dev(per(reg("A", 0, "<field><name>reserved_</name><bitRange>[7:0]</bitRange></field>"))))
assert [f.name for f in d.peripherals[0].registers_clusters[0].fields] == ["reserved_"]
'''),
 dict(id="B73", property="P08", needs="registers on both sides of the 4 GiB boundary",
      breaks="the register list of a peripheral is sorted by the low 32 bits of the addresses",
      edits=[("process.py", "registers.sort(key=lambda r: (r.base_address, r.name))", "registers.sort(key=lambda r: (r.base_address & 0xFFFFFFFF, r.name))")],
      demo=PRE+'''
d = process(dev(per(reg("A", 0) + reg("B", 0x100), base="0xffffff00")))
assert [r.name for r in d.peripherals[0].registers] == ["A", "B"], d.peripherals[0].registers
'''),
 dict(id="B74", property="P13", needs="two peripherals at one address, the second of which is the smaller",
      breaks="map entries of one address are ordered by their allocated range, not as in the device",
      edits=[("map.py", "peripheral_map_list.sort(key=lambda x: x.address)", "peripheral_map_list.sort(key=lambda x: (x.address, x.allocated_range))")],
      demo=PRE+'''
small = per(reg("A", 0), name="Q", more="<alternatePeripheral>P</alternatePeripheral>").replace("0x1000</size>", "0x100</size>")
d = process(dev(per(reg("A", 0)) + small))
assert [p.name for p in PeripheralRegisterMap(d).peripheral_map] == [p.name for p in d.peripherals]
'''),
 dict(id="B75", property="P20", needs="a CM0 that states an MPU",
      breaks="a CM0 with an MPU is taken for a CM0PLUS",
      edits=[("process.py", "name=CPUNameType.CM0PLUS if parsed_cpu.name == CPUNameType.CM0_PLUS else parsed_cpu.name", "name=CPUNameType.CM0PLUS if parsed_cpu.name in (CPUNameType.CM0_PLUS, CPUNameType.CM0) and parsed_cpu.mpu_present else parsed_cpu.name")],
      demo=PRE+'''
doc = dev(per(reg("A", 0))).decode()
doc = doc.replace("<addressUnitBits>", "<cpu><name>CM0</name><revision>r0p0</revision><endian>little</endian><mpuPresent>true</mpuPresent>"
                  "<fpuPresent>false</fpuPresent><nvicPrioBits>2</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu><addressUnitBits>")
assert process(doc.encode()).cpu.name.value == "CM0"
doc = doc.replace("CM0", "CM0+")
assert process(doc.encode()).cpu.name.value == "CM0PLUS"
'''),
 dict(id="B76", property="P07", needs="a child whose size is a multiple of four bits and not of a byte",
      breaks="sizes of half bytes take part in size adjustment",
      edits=[("resolve/resolver.py", "            if child_size is not None and child_size % 8 != 0:", "            if child_size is not None and child_size % 4 != 0:")],
      demo=PRE+'''
try:
    a = process(dev(per(reg("A", 0) + reg("B", 8).replace("</addressOffset>", "</addressOffset><size>36</size>"))))
except ProcessException:
    sys.exit(0)
assert a.peripherals[0].size == 32, a.peripherals[0].size
'''),
 dict(id="B77", property="P06", needs="a display name that contains the place holder twice",
      breaks="only the first place holder of a display name is replaced",
      edits=[("process.py", 'resolved_display_names.append(display_name.replace("%s", index))', 'resolved_display_names.append(display_name.replace("%s", index, 1))')],
      demo=PRE+'''
d = process(dev(per(reg("R%s", 0).replace("</name>", "</name><displayName>%s and %s</displayName>")
                    .replace("<register >", "<register><dim>2</dim><dimIncrement>4</dimIncrement>"))))
assert [r.display_name for r in d.peripherals[0].registers_clusters] == ["0 and 0", "1 and 1"]
'''),
 dict(id="B78", property="P14", needs="a register whose display name equals its name",
      breaks="converting drops a display name that equals the name",
      edits=[("util/process_parse_model_convert.py", "        display_name=register.display_name,", "        display_name=register.display_name if register.display_name != register.name else None,")],
      demo=PRE+'''
from svdsuite.util.process_parse_model_convert import process_parse_convert_device
d = process(dev(per(reg("R", 0).replace("</name>", "</name><displayName>R</displayName>"))))
assert process_parse_convert_device(d).peripherals[0].registers_clusters[0].display_name == "R"
'''),
 dict(id="B79", property="P05", needs="a path whose parts are set apart by blanks",
      breaks="blanks around the parts of a path are dropped, so that a path resolves which names nothing",
      edits=[("resolve/resolver.py", '        derive_path_parts = derive_path.split(".")', '        derive_path_parts = [part.strip() for part in derive_path.split(".")]')],
      demo=PRE+'''
doc = dev(per(reg("A", 0)) + per(reg("B", 0, attr='derivedFrom="P. A"'), name="Q", base="0x3000"))
try:
    process(doc)
except Exception:
    sys.exit(0)
sys.exit("accepted")
'''),
]
