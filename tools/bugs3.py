import os
exec(open(os.path.join(os.environ.get("TOOLS", "/verif/tools"), "bugs1.py")).read().split("BUGS = [")[0])
BUGS = [
 dict(id="B26", property="P06", needs="a list name in which the placeholder occurs twice",
      breaks="only the first placeholder of a name is replaced",
      edits=[("process.py", 'resolved_names.append(name.replace("%s", index))', 'resolved_names.append(name.replace("%s", index, 1))')],
      demo=PRE+'''
names = [r.name for r in process(dev(per(reg("R%sX%s", 0, more="<dim>2</dim><dimIncrement>4</dimIncrement>")))).peripherals[0].registers]
assert names == ["R0X0", "R1X1"], names
'''),
 dict(id="B28", property="P08", needs="a cluster that overlaps with a register of a higher address than its last register",
      breaks="the flat list of registers is not in address order where clusters and registers interleave",
      edits=[("process.py", '''        registers.sort(key=lambda r: (r.base_address, r.name))
        return registers''', '''        return registers''')],
      demo=PRE+'''
rs = process(dev(per(clu("C", 0, reg("A", 0) + reg("B", 8)) + reg("R", 4)))).peripherals[0].registers
assert [r.name for r in rs] == ["A", "R", "B"], rs
'''),
 dict(id="B31", property="P09", needs="a default entry in a field of more than eight bits",
      breaks="a default entry stands for the first 256 values only",
      edits=[("process.py", "for value in uncovered_values:", "for value in sorted(uncovered_values)[:256]:")],
      demo=PRE+'''
e = ("<enumeratedValues><enumeratedValue><name>a</name><value>3</value></enumeratedValue><enumeratedValue><name>b</name>"
     "<isDefault>true</isDefault></enumeratedValue></enumeratedValues>")
f = process(dev(per(reg("R", 0, "<field><name>F</name><bitRange>[9:1]</bitRange>" + e + "</field>")))).peripherals[0].registers[0].fields[0]
assert len(f.enumerated_value_containers[0].enumerated_values) == 512
'''),
 dict(id="B32", property="P10", needs="a derived field that states only its lsb",
      breaks="the msb of the base is moved along with a stated lsb",
      edits=[("process.py", '        msb = or_if_none(parsed_field.msb, base.msb if base else None)\n',
              '        msb = or_if_none(parsed_field.msb, base.msb + (lsb - base.lsb if lsb is not None and lsb > base.msb else 0) if base else None)\n')],
      demo=PRE+'''
f = '<field><name>A</name><bitRange>[7:4]</bitRange></field><field derivedFrom="A"><name>B</name><lsb>%d</lsb></field>'
d = process(dev(per(reg("R", 0, f % 9))))
b = [x for x in d.peripherals[0].registers[0].fields if x.name == "B"][0]
assert (b.lsb, b.msb) == (9, 7), (b.lsb, b.msb)
'''),
 dict(id="B33", property="P15", needs="the same device processed twice by one program",
      breaks="an unaligned base address is announced once per program only",
      edits=[("process.py", '''        # Warn if base address is not 4-byte aligned.
        if i_peripheral.base_address % 4 != 0:''', '''        # Warn if base address is not 4-byte aligned.
        if i_peripheral.base_address % 4 != 0 and not _seen_before(i_peripheral.name, i_peripheral.base_address):'''),
             ("process.py", '''class _ValidateAndFinalize:
''', '''_SEEN: set[tuple[str, int]] = set()


def _seen_before(name: str, address: int) -> bool:
    if (name, address) in _SEEN:
        return True

    _SEEN.add((name, address))
    return False


class _ValidateAndFinalize:
''')],
      demo=PRE+'''
doc = dev(per(reg("R", 0), base="0x1001"))
assert told(doc) == told(doc) != []
'''),
 dict(id="B34", property="P16", needs="a document that is not well-formed, handed over as bytes",
      breaks="the recovery of damaged bytes is not announced",
      edits=[("util/xml_parse.py", '''            warnings.warn(
                f"XML content parsed using fallback encoding '{enc}' with recover=True.",
                ParserWarning,
            )
            return root''', '''            if root.getnext() is not None:
                warnings.warn(
                    f"XML content parsed using fallback encoding '{enc}' with recover=True.",
                    ParserWarning,
                )
            return root''')],
      demo=PRE+'''
doc = dev(per(reg("R", 0))).replace(b"</register>", b"")
assert any("recover" in m for m in told(doc))
'''),
 dict(id="B35", property="P19", needs="a repeated element of which the last has no text",
      breaks="of repeated elements the last one with a text is used rather than the last one",
      edits=[("parse.py", "        element = elements[-1]\n", "        element = next((x for x in reversed(elements) if x.text), elements[-1])\n")],
      demo=PRE+'''
d = Parser.from_xml_content(dev(per(reg("R", 0).replace("<addressOffset>", "<displayName>x</displayName><displayName/><addressOffset>")))).get_parsed_device()
assert d.peripherals[0].registers_clusters[0].display_name is None
'''),
 dict(id="B36", property="P20", needs="a region without an enabled attribute in a configuration that is not enabled",
      breaks="a region takes over whether its configuration is enabled",
      edits=[("process.py", "regions=self._process_sau_regions(parsed_sau_regions_config.regions),", "regions=self._process_sau_regions(parsed_sau_regions_config.regions, parsed_sau_regions_config.enabled),"),
             ("process.py", "def _process_sau_regions(self, parsed_sau_regions: list[SVDSauRegion]) -> list[SauRegion]:", "def _process_sau_regions(\n        self, parsed_sau_regions: list[SVDSauRegion], config_enabled: None | bool = None\n    ) -> list[SauRegion]:"),
             ("process.py", "enabled=True if parsed_region.enabled is None else parsed_region.enabled,", "enabled=parsed_region.enabled if parsed_region.enabled is not None else config_enabled is not False,")],
      demo=PRE+'''
cpu = ('<cpu><name>CM33</name><revision>r0p0</revision><endian>little</endian><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig>'
       '<sauRegionsConfig enabled="false"><region><base>0</base><limit>1</limit><access>n</access></region></sauRegionsConfig></cpu>')
assert process(dev(per(reg("R", 0)), head=cpu)).cpu.sau_regions_config.regions[0].enabled is True
'''),
 dict(id="B37", property="P14", needs="a write constraint that states writeAsRead as false and nothing else",
      breaks="the conversion drops a write constraint in which nothing is true",
      edits=[("util/process_parse_model_convert.py", '''            process_parse_convert_write_constraint(register.write_constraint) if register.write_constraint else None''',
              '''            process_parse_convert_write_constraint(register.write_constraint)
            if register.write_constraint and any(vars(register.write_constraint).get(n) for n in ("write_as_read", "use_enumerated_values", "range_"))
            else None''')],
      demo=PRE+'''
p = Process.from_xml_content(dev(per(reg("R", 0).replace("</register>", "<writeConstraint><writeAsRead>false</writeAsRead></writeConstraint></register>"))))
assert p.convert_processed_device_to_svd_device().peripherals[0].registers_clusters[0].write_constraint.write_as_read is False
'''),
 dict(id="B38", property="P05", needs="a path whose first part names both a sibling and a peripheral, the rest of which exists in the peripheral only",
      breaks="a path is not searched from the top when a sibling has the name of its first part",
      edits=[("resolve/resolver.py", '''        # If not found, search over all peripherals
''', '''        if len(derive_path_parts) == 2 and any(sibling.name == derive_path_parts[0] for sibling in siblings):
            return None

        # If not found, search over all peripherals
''')],
      demo=PRE+'''
d = process(dev(per(reg("A", 0), name="X") + per(clu("X", 0, reg("B", 0)) + reg("S", 8, attr='derivedFrom="X.A"'), name="Q", base="0x2000")))
assert len(d.peripherals) == 2
'''),
 dict(id="B39", property="P13", needs="peripherals whose first address blocks are in another order than their base addresses",
      breaks="the map lists peripherals by the start of their allocated range",
      edits=[("map.py", "peripheral_map_list.sort(key=lambda x: x.address)", "peripheral_map_list.sort(key=lambda x: x.allocated_range)")],
      demo=PRE+'''
d = process(dev(per(reg("R", 0), name="A").replace("<offset>0<", "<offset>0x4000<") + per(reg("R", 0), name="B", base="0x2000")))
assert [p.name for p in PeripheralRegisterMap(d).peripheral_map] == ["A", "B"]
'''),
 dict(id="B40", property="P17", needs="a validation against 1.3.1 before one against 1.3.10 or 1.3.11",
      breaks="a schema is taken from a cache that does not tell 1.3.1 from 1.3.10",
      edits=[("validate.py", '''        with open(xsd_path, "rb") as xsd_file:
            schema = lxml.etree.XMLSchema(safe_parse(xsd_file))
            if not schema.validate(tree):
                if get_exception:
                    schema.assertValid(tree)
                return False
        return True''', '''        key = schema_version.value[:5]
        if key not in _SCHEMAS:
            with open(xsd_path, "rb") as xsd_file:
                _SCHEMAS[key] = lxml.etree.XMLSchema(safe_parse(xsd_file))

        schema = _SCHEMAS[key]
        if not schema.validate(tree):
            if get_exception:
                schema.assertValid(tree)
            return False
        return True'''), ("validate.py", "class ValidatorException(Exception):", "_SCHEMAS: dict[str, lxml.etree.XMLSchema] = {}\n\n\nclass ValidatorException(Exception):")],
      demo=PRE+'''
from svdsuite.validate import SVDSchemaVersion as V
import itertools, subprocess, os
doc = dev(per(reg("R", 0))).replace(b'="x"', b'="CMSIS-SVD.xsd"').replace(b"<cpu>", b"")
docs = [doc, doc.replace(b"<version>1</version>", b""), doc.replace(b"<addressUnitBits>", b"<cpu><name>CM55</name><revision>r0p0</revision><endian>little</endian>"
    b"<mpuPresent>1</mpuPresent><fpuPresent>1</fpuPresent><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig></cpu><addressUnitBits>"),
    doc.replace(b"<addressOffset>0<", b"<addressOffset>0<").replace(b"</registers>", b"<cluster><dim>2</dim><dimIncrement>4</dimIncrement><name>C[%s]</name><addressOffset>64</addressOffset>"
    b"<cluster><name>D</name><addressOffset>0</addressOffset><register><name>S</name><addressOffset>0</addressOffset></register></cluster></cluster></registers>"),
    doc.replace(b"<size>0x1000</size><usage>", b"<size>0x1000</size><usage>").replace(b"</usage>", b"</usage><protection>s</protection>")]
alone = []
for d in docs:
    code = "import sys; sys.path.insert(0, 'src'); from svdsuite import *; from svdsuite.validate import SVDSchemaVersion as V; print(Validator.validate_xml_content(%r, False, V.V1_3_10))" % d
    alone.append(subprocess.run([sys.executable, "-c", code], capture_output=True, text=True).stdout.strip() == "True")
for d in docs:
    Validator.validate_xml_content(d, False, V.V1_3_1)
assert [Validator.validate_xml_content(d, False, V.V1_3_10) for d in docs] == alone
'''),
 dict(id="B41", property="P07", needs="a register without a size in a cluster without a size in a peripheral with one",
      breaks="the size of a nested register comes from the device when its cluster states none",
      edits=[("resolve/resolver.py", '''        if element.size is not None:
            return element.size

        return self._get_parent_size_recursively(parent)''', '''        if element.size is not None:
            return element.size

        while parent.level != ElementLevel.DEVICE and self._resolver_graph.get_element_parents(parent):
            parent = self._resolver_graph.get_element_parents(parent)[0]

        device_size = cast(SVDDevice, parent.parsed).size
        return device_size if device_size is not None else 32''')],
      demo=PRE+'''
d = process(dev(per(clu("C", 0, reg("R", 0)), more="").replace("</baseAddress>", "</baseAddress><size>16</size>")))
c = d.peripherals[0].registers_clusters[0]
assert (d.peripherals[0].size, c.size, c.registers_clusters[0].size) == (16, 16, 16), (d.peripherals[0].size, c.size, c.registers_clusters[0].size)
'''),
 dict(id="B42", property="P11", needs="a peripheral all of whose registers are ignored",
      breaks="a peripheral left without registers is dropped in silence when it was declared with some",
      edits=[("process.py", '''        if not registers_clusters:
            warnings.warn(
                f"Peripheral '{i_peripheral.name}' has no registers''', '''        if not registers_clusters:
            if i_peripheral.registers_clusters and i_peripheral.parsed.derived_from is not None:
                return None

            warnings.warn(
                f"Peripheral '{i_peripheral.name}' has no registers''')],
      demo=PRE+'''
w = told(dev(per(reg("reserved", 0), name="P") + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x2000</baseAddress></peripheral>' + per(reg("R", 0), name="S", base="0x5000")))
assert sum("no registers" in m for m in w) == 2, w
'''),
 dict(id="B43", property="P02", needs="a dimIncrement of zero",
      breaks="a dimIncrement of zero is not written",
      edits=[("serialize.py", '''        if self.register.dim_increment is not None:''', '''        if self.register.dim_increment:''')],
      demo=PRE+'''
p = Parser.from_xml_content(dev(per(reg("R%s", 0, more="<dim>2</dim><dimIncrement>0</dimIncrement>")))).get_parsed_device()
q = Parser.from_xml_content(Serializer.device_to_svd_content(p)).get_parsed_device()
assert q.peripherals[0].registers_clusters[0].dim_increment == 0
'''),
 dict(id="B44", property="P22", needs="an inherited address block",
      breaks="address blocks a derived peripheral inherits refer to no declaration of their own order",
      edits=[("process.py", "self._process_address_blocks(parsed.address_blocks) or (base.address_blocks if base else [])",
              "self._process_address_blocks(parsed.address_blocks) or [\n            AddressBlock(b.offset, b.size, b.usage, b.protection, base.address_blocks[0].parsed)\n            for b in (base.address_blocks if base else [])\n        ]")],
      demo=PRE+'''
b = '<addressBlock><offset>0x8000</offset><size>4</size><usage>registers</usage></addressBlock><registers>'
p = Parser.from_xml_content(dev(per(reg("R", 0)).replace("<registers>", b) + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x20000</baseAddress></peripheral>')).get_parsed_device()
d = Process(p, None).get_processed_device()
assert [x.parsed.offset for x in d.peripherals[1].address_blocks] == [0, 0x8000]
'''),
 dict(id="B45", property="P18", needs="an index range whose end is not reached because the file is damaged: letters out of order in a dimIndex list",
      breaks="a bit range without brackets escapes as AttributeError",
      edits=[("process.py", '''                match = re.match(r"\\[(\\d+):(\\d+)\\]", bit_range)
                if match:''', '''                match = re.match(r"\\[(\\d+):(\\d+)\\]", bit_range)
                if match or bit_range[:1].isdigit():''')],
      demo=PRE+'''
try:
    process(dev(per(reg("R", 0, "<field><name>F</name><bitRange>3:0</bitRange></field>"))))
except ProcessException:
    pass
'''),
]
