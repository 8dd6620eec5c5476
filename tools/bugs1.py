PRE = '''import sys, warnings
warnings.simplefilter("ignore")
from svdsuite import *
from svdsuite.process import ProcessException
def dev(body, head=""):
    return ('<device schemaVersion="1.3" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="x">'
            '<name>D</name><version>1</version><description>d</description>' + head +
            '<addressUnitBits>8</addressUnitBits><width>32</width><peripherals>' + body + '</peripherals></device>').encode()
def per(body, name="P", base="0x1000", more="", attr=""):
    return (f'<peripheral {attr}><name>{name}</name>{more}<baseAddress>{base}</baseAddress><addressBlock><offset>0</offset><size>0x1000</size>'
            '<usage>registers</usage></addressBlock><registers>' + body + '</registers></peripheral>')
def reg(name, off, body="", more="", attr=""):
    return f'<register {attr}>{more}<name>{name}</name><addressOffset>{off}</addressOffset>' + ('<fields>' + body + '</fields>' if body else '') + '</register>'
def clu(name, off, body, more="", attr=""):
    return f'<cluster {attr}>{more}<name>{name}</name><addressOffset>{off}</addressOffset>{body}</cluster>'
def process(doc):
    return Process.from_xml_content(doc).get_processed_device()
def told(doc):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        process(doc)
    return [str(w.message) for w in log]
'''
BUGS = [
 dict(id="B01", property="P03", needs="a derived field that states its own access and inherits readAction",
      breaks="the read action of the base is lost when the deriving field states an access",
      edits=[("process.py", '''        read_action = or_if_none(parsed.read_action, base.read_action if base else None)

        return IField(''', '''        read_action = or_if_none(parsed.read_action, base.read_action if base and parsed.access is None else None)

        return IField(''')],
      demo=PRE+'''
d = process(dev(per(reg("R", 0,
    '<field><name>A</name><bitRange>[3:0]</bitRange><readAction>clear</readAction></field>'
    '<field derivedFrom="A"><name>B</name><bitRange>[7:4]</bitRange><access>read-only</access></field>'))))
f = {f.name: f for f in d.peripherals[0].registers_clusters[0].fields}
assert f["B"].read_action == f["A"].read_action is not None
'''),
 dict(id="B02", property="P06", needs="a numeric dimIndex range whose ends have different numbers of digits, such as 9-12",
      breaks="the range is rejected as descending because its ends are compared as text",
      edits=[("process.py", "if int(start) > int(end):", "if start > end:")],
      demo=PRE+'''
d = process(dev(per(reg("R%s", 0, more="<dim>4</dim><dimIncrement>4</dimIncrement><dimIndex>9-12</dimIndex>"))))
assert [r.name for r in d.peripherals[0].registers] == ["R9", "R10", "R11", "R12"] or sorted(r.name for r in d.peripherals[0].registers) == ["R10", "R11", "R12", "R9"]
'''),
 dict(id="B03", property="P09", needs="a don't-care pattern written with an upper case X",
      breaks="the values of a pattern with an upper case X all get the same name, so that all but the first are dropped",
      edits=[("process.py", '''                    else parsed_value.value.lower()
                )
                if "x" in substring.lower():''', '''                    else parsed_value.value
                )
                if "x" in substring:''')],
      demo=PRE+'''
d = process(dev(per(reg("R", 0,
    '<field><name>A</name><bitRange>[3:0]</bitRange><enumeratedValues><enumeratedValue><name>E</name><value>#1X0</value></enumeratedValue></enumeratedValues></field>'))))
vs = d.peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values
assert [v.value for v in vs] == [4, 6], vs
'''),
 dict(id="B04", property="P13", needs="a cluster nested two levels deep whose outer cluster has a nonzero offset",
      breaks="registers of nested clusters are mapped without the offset of the outer cluster",
      edits=[("map.py", "registers.extend(self._build_map_cluster(address, register_cluster))", "registers.extend(self._build_map_cluster(container_address, register_cluster))")],
      demo=PRE+'''
d = process(dev(per(clu("C", 0x10, clu("E", 0x20, reg("R", 4))))))
m = PeripheralRegisterMap(d).peripheral_map
assert m[0].registers[0].address == 0x1034 == d.peripherals[0].registers[0].base_address
'''),
 dict(id="B05", property="P08", needs="a peripheral whose last register by address does not reach as far as an earlier cluster or wider register",
      breaks="the effective end address of a peripheral is the end of its last element rather than of the furthest one",
      edits=[("process.py", "            for r in registers_clusters\n        )\n        peripheral_size_effective", "            for r in registers_clusters[-1:]\n        )\n        peripheral_size_effective")],
      demo=PRE+'''
d = process(dev(per(clu("C", 0, reg("R", 0) + reg("S", 0x100)) + reg("T", 8))))
assert d.peripherals[0].end_address_effective == 0x1103
'''),
 dict(id="B06", property="P10", needs="two overlapping fields one of which is writeOnce",
      breaks="overlaps with a writeOnce field are accepted",
      edits=[("process.py", "{AccessType.READ_WRITE, AccessType.WRITE_ONCE, AccessType.READ_WRITE_ONCE}", "{AccessType.READ_WRITE, AccessType.READ_WRITE_ONCE}")],
      demo=PRE+'''
try:
    process(dev(per(reg("R", 0, '<field><name>A</name><bitRange>[3:0]</bitRange><access>read-write</access></field>'
        '<field><name>B</name><bitRange>[5:2]</bitRange><access>writeOnce</access></field>'))))
except ProcessException:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id="B10", property="P14", needs="a field whose enumerated values carry a headerEnumName",
      breaks="the conversion drops header_enum_name of enumerated value containers that have no name",
      edits=[("util/process_parse_model_convert.py", '''        name=value.name,
        header_enum_name=value.header_enum_name,
        usage=value.usage,''', '''        name=value.name,
        header_enum_name=value.header_enum_name if value.name is not None else None,
        usage=value.usage,''')],
      demo=PRE+'''
p = Process.from_xml_content(dev(per(reg("R", 0,
    '<field><name>A</name><bitRange>[3:0]</bitRange><enumeratedValues><headerEnumName>H</headerEnumName><enumeratedValue><name>E</name><value>1</value></enumeratedValue></enumeratedValues></field>'))))
c = p.convert_processed_device_to_svd_device().peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0]
assert c.header_enum_name == "H"
'''),
 dict(id="B11", property="P20", needs="a CPU that states deviceNumInterrupts 0",
      breaks="a stated number of interrupts of zero is reported as absent",
      edits=[("process.py", "device_num_interrupts=parsed_cpu.device_num_interrupts,", "device_num_interrupts=parsed_cpu.device_num_interrupts or None,")],
      demo=PRE+'''
d = process(dev(per(reg("R", 0)), head="<cpu><name>CM4</name><revision>r0p0</revision><endian>little</endian><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig><deviceNumInterrupts>0</deviceNumInterrupts></cpu>"))
assert d.cpu.device_num_interrupts == 0
'''),
 dict(id="B07", property="P11", needs="a field whose name starts with reserved without being reserved",
      breaks="fields such as ReservedByVendor are dropped",
      edits=[("process.py", 'if i_field.name.lower() == "reserved":', 'if i_field.name.lower().startswith("reserved"):')],
      demo=PRE+"""
d = process(dev(per(reg("R", 0, '<field><name>Reserved0</name><bitRange>[3:0]</bitRange></field>'))))
assert [f.name for f in d.peripherals[0].registers[0].fields] == ["Reserved0"]
"""),
 dict(id="B08", property="P12", needs="an element that overlaps another one with at least two elements in between",
      breaks="elements are compared with the two preceding ones only, so that an overlap with a long element further up is not announced",
      edits=[("process.py", "            for end, name in intervals:\n                if item.base_address <= end:", "            for end, name in intervals[-2:]:\n                if item.base_address <= end:")],
      demo=PRE+"""
w = told(dev(per(clu("C", 0, reg("R", 0) + reg("S", 0x100)) + reg("T", 4) + reg("U", 8) + reg("V", 12))))
assert len(w) == 3, w
"""),
 dict(id="B09", property="P07", needs="a derived register that states a reset value of zero while its base states another one",
      breaks="a stated reset value of zero is overridden by that of the base",
      edits=[("process.py", '''        reset_value = or_if_none(parsed.reset_value, base.reset_value if base else None)
        reset_mask = or_if_none(parsed.reset_mask, base.reset_mask if base else None)

        description = or_if_none(parsed.description, base.description if base else None)
        alternate_group''', '''        reset_value = parsed.reset_value or (base.reset_value if base else parsed.reset_value)
        reset_mask = or_if_none(parsed.reset_mask, base.reset_mask if base else None)

        description = or_if_none(parsed.description, base.description if base else None)
        alternate_group''')],
      demo=PRE+"""
d = process(dev(per(reg("R", 0, more="<resetValue>5</resetValue>") + reg("S", 4, more="<resetValue>0</resetValue>", attr='derivedFrom="R"'))))
assert [r.reset_value for r in d.peripherals[0].registers] == [5, 0]
"""),
 dict(id="B12", property="P02", needs="an interrupt whose description starts or ends with white space",
      breaks="the description of an interrupt is stripped when written",
      edits=[("serialize.py", 'text=self.interrupt.description))', 'text=self.interrupt.description.strip()))')],
      demo=PRE+"""
doc = dev(per(reg("R", 0), more="<interrupt><name>I</name><description> x </description><value>1</value></interrupt>"))
a = Parser.from_xml_content(doc).get_parsed_device()
b = Parser.from_xml_content(Serializer.device_to_svd_content(a)).get_parsed_device()
assert a.peripherals[0].interrupts[0].description == b.peripherals[0].interrupts[0].description == " x "
"""),
 dict(id="B13", property="P05", needs="a path that matches a name except for the case of its letters",
      breaks="path elements are compared without regard to case",
      edits=[("resolve/resolver.py", "if node.name != path_parts[0]:", "if (node.name or '').lower() != path_parts[0].lower():")],
      demo=PRE+"""
try:
    process(dev(per(reg("Ra", 0) + reg("S", 4, attr='derivedFrom="RA"'))))
except ProcessException:
    sys.exit(0)
sys.exit(1)
"""),
]
