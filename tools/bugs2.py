import os
exec(open(os.path.join(os.environ.get("TOOLS", "/verif/tools"), "bugs1.py")).read().split("BUGS = [")[0])
BUGS = [
 dict(id="B14", property="P01", needs="a write constraint whose minimum is larger than its maximum",
      breaks="the bounds of a reversed range are swapped instead of being reported as stated",
      edits=[("parse.py", "            range_ = (minimum, maximum)\n", "            range_ = (min(minimum, maximum), max(minimum, maximum))\n")],
      demo=PRE+'''
d = Parser.from_xml_content(dev(per('<register><name>R</name><addressOffset>0</addressOffset><writeConstraint><range><minimum>9</minimum>'
    '<maximum>3</maximum></range></writeConstraint></register>'))).get_parsed_device()
assert d.peripherals[0].registers_clusters[0].write_constraint.range_ == (9, 3)
'''),
 dict(id="B15", property="P04", needs="a read-only and a write-only field at the same lowest bit, declared in the reverse order of their names",
      breaks="fields that start at the same bit are listed in the order of their declaration",
      edits=[("resolve/resolver.py", "register.fields = sorted(fields, key=lambda f: (f.lsb, f.name))", "register.fields = sorted(fields, key=lambda f: f.lsb)")],
      demo=PRE+'''
f = '<field><name>%s</name><bitRange>[%d:0]</bitRange><access>%s-only</access></field>'
a, b = f % ("A", 3, "read"), f % ("B", 2, "write")
one, two = ([f.name for f in process(dev(per(reg("R", 0, x)))).peripherals[0].registers[0].fields] for x in (a + b, b + a))
assert one == two, (one, two)
'''),
 dict(id="B16", property="P15", needs="a look at the parsed device after processing, with interrupts not declared in the order of their numbers",
      breaks="processing reorders the interrupts of the parsed device it was given",
      edits=[("process.py", '''        interrupts: list[Interrupt] = []
        for parsed_interrupt in parsed_interrupts:''', '''        interrupts: list[Interrupt] = []
        parsed_interrupts.sort(key=lambda i: i.value)
        for parsed_interrupt in parsed_interrupts:''')],
      demo=PRE+'''
p = Parser.from_xml_content(dev(per(reg("R", 0)).replace("<registers>", "<interrupt><name>I</name><value>7</value></interrupt>"
    "<interrupt><name>J</name><value>2</value></interrupt><registers>"))).get_parsed_device()
before = Serializer.device_to_svd_str(p)
Process(p, None)
assert Serializer.device_to_svd_str(p) == before
'''),
 dict(id="B17", property="P16", needs="a document with an undeclared windows-1252 character, handed over as bytes and as a file",
      breaks="bytes fall back to another encoding than a file does",
      edits=[("util/xml_parse.py", '''    for enc in _COMMON_ENCODINGS:
        try:
            parser = etree.XMLParser(encoding=enc, recover=False)
            root = etree.fromstring(''', '''    for enc in sorted(_COMMON_ENCODINGS):
        try:
            parser = etree.XMLParser(encoding=enc, recover=False)
            root = etree.fromstring(''')],
      demo=PRE+'''
import os, tempfile
doc = dev(per(reg("R", 0))).replace(b"<description>d<", b"<description>\\x80<")
with tempfile.TemporaryDirectory() as t:
    path = os.path.join(t, "x.svd")
    open(path, "wb").write(doc)
    assert Parser.from_svd_file(path).get_parsed_device().description == Parser.from_xml_content(doc).get_parsed_device().description
'''),
 dict(id="B18", property="P17", needs="a document with a dimIndex range of two-digit numbers, validated against version 1.3.4",
      breaks="the schema of one version does not accept ranges with numbers of more than one digit",
      edits=[("schema/1.3.4.xsd", 'value="[0-9]+\\-[0-9]+|', 'value="[0-9]\\-[0-9]|')],
      demo=PRE+'''
from svdsuite.validate import SVDSchemaVersion
doc = dev(per(reg("R%s", "0x0", more="<dim>4</dim><dimIncrement>4</dimIncrement><dimIndex>9-12</dimIndex>"))).replace(b'="x"', b'="CMSIS-SVD.xsd"')
for v in SVDSchemaVersion:
    a, b = Validator.validate_xml_content(doc, False, v), Validator.validate_xml_content(doc.replace(b"9-12", b"3-6"), False, v)
    assert a == b, v
'''),
 dict(id="B19", property="P18", needs="an unknown literal of a write side effect",
      breaks="an unknown modifiedWriteValues literal escapes as ValueError",
      edits=[("model/types.py", '''    MODIFY = "modify"

    @classmethod
    def from_str(cls, label: str):
        try:
            return cls(label)
        except ValueError as exc:''', '''    MODIFY = "modify"

    @classmethod
    def from_str(cls, label: str):
        try:
            return cls(label)
        except KeyError as exc:''')],
      demo=PRE+'''
doc = dev(per('<register><name>R</name><addressOffset>0</addressOffset><modifiedWriteValues>never</modifiedWriteValues></register>'))
try:
    Parser.from_xml_content(doc)
except NotImplementedError:
    pass
'''),
 dict(id="B20", property="P19", needs="an attribute value followed by white space",
      breaks="white space at the end of an attribute is removed without being announced",
      edits=[("parse.py", "        if attr_before_strip != attr_after_strip:", "        if not attr_before_strip.startswith(attr_after_strip):")],
      demo=PRE+'''
doc = dev(per(reg("R", 0) + reg("S", 4, attr='derivedFrom="R "')))
with warnings.catch_warnings(record=True) as log:
    warnings.simplefilter("always")
    Parser.from_xml_content(doc)
assert len(log) == 1, log
'''),
 dict(id="B21", property="P21", needs="a log file and a chain of derivations against the alphabetical order",
      breaks="writing the list of elements to the log changes the order in which they are processed",
      edits=[("resolve/logger.py", '''        self._html_generator.add_h3("Processable Elements")
''', '''        self._html_generator.add_h3("Processable Elements")
        topological_sorted_nodes.sort(key=lambda node: node.name or "")
''')],
      demo=PRE+'''
import os, tempfile, rustworkx.visualization
import svdsuite.resolve.graph as g
g.ResolverGraph.get_svg = lambda self: '<svg xmlns="http://www.w3.org/2000/svg"></svg>'
doc = dev(per(reg("A", 0, attr='derivedFrom="B"') + reg("B", 4, attr='derivedFrom="C"') + reg("C", 8).replace("</register>", "<size>16</size></register>")))
want = process(doc)
with tempfile.TemporaryDirectory() as t:
    got = Process.from_xml_content(doc, os.path.join(t, "log.html")).get_processed_device()
    assert [(r.name, r.size) for r in got.peripherals[0].registers] == [(r.name, r.size) for r in want.peripherals[0].registers]
'''),
 dict(id="B22", property="P22", needs="a default enumerated value that stands for values not listed",
      breaks="the values a default entry stands for refer to another entry of the table",
      edits=[("process.py", '''        for value in uncovered_values:
            enumerated_values.append(''', '''        for value in uncovered_values:
            if enumerated_values:
                default = IEnumeratedValue(default.name, default.description, enumerated_values[0].parsed, None, True)
            enumerated_values.append(''')],
      demo=PRE+'''
d = process(dev(per(reg("R", 0, '<field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><name>a</name>'
    '<value>1</value></enumeratedValue><enumeratedValue><name>b</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field>'))))
vs = d.peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values
assert [v.parsed.name for v in vs] == ["b", "a", "b", "b"], [v.parsed.name for v in vs]
'''),
 dict(id="B23", property="P03", needs="a field derived from one with a write constraint, in a register that has another one",
      breaks="a field that inherits its write constraint from its base takes that of its register instead",
      edits=[("process.py", '''            field.write_constraint = or_if_none(field.write_constraint, write_constraint)''',
              '''            field.write_constraint = or_if_none(field.parsed.write_constraint and field.write_constraint, write_constraint) or field.write_constraint''')],
      demo=PRE+'''
c = '<writeConstraint><%s>true</%s></writeConstraint>'
f = '<field><name>A</name><bitRange>[3:0]</bitRange>' + c % (("writeAsRead",) * 2) + '</field><field derivedFrom="A"><name>B</name><bitRange>[7:4]</bitRange></field>'
d = process(dev(per('<register><name>R</name><addressOffset>0</addressOffset>' + c % (("useEnumeratedValues",) * 2) + '<fields>' + f + '</fields></register>')))
a, b = d.peripherals[0].registers[0].fields
assert b.write_constraint.write_as_read and not b.write_constraint.use_enumerated_values
'''),
 dict(id="B24", property="P12", needs="an element that overlaps an alternate of another element, but not that other element",
      breaks="elements that are declared an alternate are not compared with the elements after them",
      edits=[("process.py", "            intervals.append((end_addr, item.name))\n",
                            "            if not allowed_names:\n                intervals.append((end_addr, item.name))\n")],
      demo=PRE+'''
doc = dev(per('<register><name>A</name><addressOffset>0</addressOffset><size>16</size></register>'
              '<register><name>B</name><alternateRegister>A</alternateRegister><addressOffset>0</addressOffset></register>'
              '<register><name>C</name><addressOffset>2</addressOffset><size>16</size></register>'))
assert len(told(doc)) == 1, told(doc)
'''),
 dict(id="B25", property="P09", needs="a default entry in a field of more than six bits",
      breaks="a default entry stands for the first 64 values only",
      edits=[("process.py", "all_possible_values = set(range(pow(2, max(msb - lsb + 1, 0))))", "all_possible_values = set(range(min(pow(2, max(msb - lsb + 1, 0)), 64)))")],
      demo=PRE+'''
d = process(dev(per(reg("R", 0, '<field><name>F</name><bitRange>[6:0]</bitRange><enumeratedValues><enumeratedValue><name>a</name>'
    '<value>1</value></enumeratedValue><enumeratedValue><name>b</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field>'))))
assert len(d.peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values) == 128
'''),
]
