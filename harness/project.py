"""Projection of the real objects and documents to the values the TLA+ specification talks about.

Numbers that may exceed 31 bits become little-endian sequences of base-2^20 limbs; absent optional attributes are left
out; a value of an unexpected type is stored under its key with a "!" appended, so that it shows up as a difference.
"""

from enum import Enum
import xml.parsers.expat

LIMB = 1 << 20


def nat(v):
    out = []
    while v:
        out.append(v % LIMB)
        v //= LIMB
    return out


def unnat(limbs):
    v = 0
    for limb in reversed(limbs):
        v = v * LIMB + limb
    return v


REG = "size:i access:e protection:e reset_value:n reset_mask:n"
DIM = "dim:i dim_increment:n dim_index:s dim_name:s"
PARSED = {
    "device": "xs_no_namespace_schema_location:s schema_version:s vendor:s vendor_id:s name:s series:s version:s "
    "description:s license_text:s header_system_filename:s header_definitions_prefix:s address_unit_bits:i width:i "
    + REG,
    "cpu": "name:e revision:s endian:e mpu_present:b fpu_present:b fpu_dp:b dsp_present:b icache_present:b "
    "dcache_present:b itcm_present:b dtcm_present:b vtor_present:b nvic_prio_bits:i vendor_systick_config:b "
    "device_num_interrupts:i sau_num_regions:i",
    "sau": "enabled:b protection_when_disabled:e",
    "region": "enabled:b name:s base:n limit:n access:e",
    "peripheral": "name:s version:s description:s alternate_peripheral:s group_name:s prepend_to_name:s "
    "append_to_name:s header_struct_name:s disable_condition:s base_address:n derived_from:s " + DIM + " " + REG,
    "cluster": "name:s description:s alternate_cluster:s header_struct_name:s address_offset:n derived_from:s "
    + DIM + " " + REG,
    "register": "name:s display_name:s description:s alternate_group:s alternate_register:s address_offset:n "
    "data_type:e modified_write_values:e read_action:e derived_from:s " + DIM + " " + REG,
    "field": "name:s description:s bit_offset:i bit_width:i lsb:i msb:i bit_range:s access:e modified_write_values:e "
    "read_action:e derived_from:s " + DIM,
    "enumc": "name:s header_enum_name:s usage:e derived_from:s",
    "value": "name:s description:s value:s is_default:b",
    "block": "offset:n size:n usage:e protection:e",
    "interrupt": "name:s description:s value:i",
    "constraint": "write_as_read:b use_enumerated_values:b",
    "array_index": "header_enum_name:s",
}
DEVICE = PARSED["device"].replace("xs_no_namespace_schema_location:s schema_version:s ", "")
PROCESSED = {
    "device": DEVICE,
    "peripheral": "name:s version:s description:s alternate_peripheral:s group_name:s prepend_to_name:s "
    "append_to_name:s header_struct_name:s disable_condition:s base_address:n end_address:n end_address_effective:n "
    "peripheral_size:n peripheral_size_effective:n " + REG,
    "cluster": "name:s description:s alternate_cluster:s header_struct_name:s address_offset:n base_address:n "
    "end_address:n cluster_size:n " + REG,
    "register": "name:s display_name:s description:s alternate_group:s alternate_register:s address_offset:n "
    "base_address:n data_type:e modified_write_values:e read_action:e " + REG,
    "field": "name:s description:s lsb:i msb:i bit_offset:i bit_width:i access:e modified_write_values:e read_action:e",
    "enumc": "name:s header_enum_name:s usage:e",
    "value": "name:s description:s value:n",
}
MAPREG = "size:i access:e protection:e reset_value:n reset_mask:n name:s display_name:s description:s address:n"


def put(out, key, kind, v):
    if v is None:
        return
    if kind == "e" and isinstance(v, Enum):
        out[key] = v.value
    elif kind == "s" and isinstance(v, str):
        out[key] = v
    elif kind == "b" and isinstance(v, bool):
        out[key] = v
    elif kind == "n" and type(v) is int and v >= 0:
        out[key] = nat(v)
    elif kind == "i" and type(v) is int and abs(v) < 1 << 31:
        out[key] = v
    else:
        out[key + "!"] = repr(v)


class Origins:
    """Names for the elements of a parsed device, in the order they are met, and what processed ones say they come from."""

    active = None

    def __init__(self):
        self.names = {}
        self.kept = []  # a name is good as long as its object lives

    def __enter__(self):
        Origins.active = self
        return self

    def __exit__(self, *_):
        Origins.active = None

    def of(self, obj):
        if hasattr(obj, "parsed"):
            return self.names.get(id(obj.parsed), "elsewhere")
        self.kept.append(obj)
        return self.names.setdefault(id(obj), f"{type(obj).__name__} {len(self.names)}")


class Selves(Origins):
    """Names for the peripherals and registers of a processed device, and what a map says its entries stand for."""

    def of(self, obj):
        if hasattr(obj, "processed"):
            return self.names.get(id(obj.processed), "elsewhere")
        self.kept.append(obj)
        return self.names.setdefault(id(obj), f"{type(obj).__name__} {len(self.names)}")


def attrs(obj, table):
    out = {}
    if type(Origins.active) is Origins:
        out["origin"] = Origins.active.of(obj)
    elif Origins.active is not None and type(obj).__name__ in ("Peripheral", "Register", "MapPeripheral", "MapRegister"):
        out["self"] = Origins.active.of(obj)
    for item in table.split():
        key, kind = item.split(":")
        put(out, key, kind, getattr(obj, key))
    return out


def constraint(out, obj):
    c = obj.write_constraint
    if c is None:
        return
    a = attrs(c, PARSED["constraint"])
    if c.range_ is not None:
        lo, hi = {}, {}
        put(lo, "v", "n", c.range_[0])
        put(hi, "v", "n", c.range_[1])
        if "v" in lo and "v" in hi and len(c.range_) == 2:
            a["range"] = [lo["v"], hi["v"]]
        else:
            a["range!"] = repr(c.range_)
    out["write_constraint"] = a


def cpu(c, processed):
    a = attrs(c, PARSED["cpu"])
    s = c.sau_regions_config
    if s is not None:
        sa = attrs(s, PARSED["sau"])
        sa["regions"] = [attrs(r, PARSED["region"]) for r in s.regions]
        a["sau_regions_config"] = sa
    return a


def parsed_enum(c):
    a = attrs(c, PARSED["enumc"])
    a["values"] = [attrs(v, PARSED["value"]) for v in c.enumerated_values]
    return {"k": "enumc", "a": a, "kids": []}


def array_index(out, obj):
    d = obj.dim_array_index
    if d is None:
        return
    a = attrs(d, PARSED["array_index"])
    a["values"] = [attrs(v, PARSED["value"]) for v in d.enumerated_values]
    out["dim_array_index"] = a


def parsed_node(obj):
    kind = type(obj).__name__.removeprefix("SVD").lower()
    a = attrs(obj, PARSED[kind])
    array_index(a, obj)
    if kind == "peripheral":
        a["address_blocks"] = [attrs(b, PARSED["block"]) for b in obj.address_blocks]
        a["interrupts"] = [attrs(i, PARSED["interrupt"]) for i in obj.interrupts]
    if kind in ("peripheral", "cluster"):
        kids = [parsed_node(x) for x in obj.registers_clusters]
    elif kind == "register":
        constraint(a, obj)
        kids = [parsed_node(x) for x in obj.fields]
    else:
        constraint(a, obj)
        kids = [parsed_enum(x) for x in obj.enumerated_value_containers]
    return {"k": kind, "a": a, "kids": kids}


def parsed_device(dev):
    return {
        "a": attrs(dev, PARSED["device"]),
        "cpu": [] if dev.cpu is None else [cpu(dev.cpu, False)],
        "kids": [parsed_node(p) for p in dev.peripherals],
    }


def broken_parents(dev):
    """Number of elements of a parsed device whose parent link does not lead to the element that lists them."""
    bad = 0

    def down(parent, kids):
        nonlocal bad
        for k in kids:
            if k is None:
                continue
            bad += k.parent is not parent
            for name in ("address_blocks", "interrupts", "registers_clusters", "fields", "enumerated_value_containers",
                         "enumerated_values", "regions"):
                down(k, getattr(k, name, None) or [])
            for name in ("dim_array_index", "write_constraint", "sau_regions_config"):
                down(k, [getattr(k, name, None)])

    down(dev, dev.peripherals)
    down(dev, [dev.cpu])
    return bad


def processed_enum(c):
    return {"k": "enumc", "a": attrs(c, PROCESSED["enumc"]),
            "vals": [attrs(v, PROCESSED["value"]) for v in c.enumerated_values]}


def processed_node(obj):
    kind = type(obj).__name__.lower()
    a = attrs(obj, PROCESSED[kind])
    out = {"k": kind, "a": a}
    if kind == "peripheral":
        a["address_blocks"] = [attrs(b, PARSED["block"]) for b in obj.address_blocks]
        a["interrupts"] = [attrs(i, PARSED["interrupt"]) for i in obj.interrupts]
        regs = []
        for r in obj.registers:
            regs.append(attrs(r, "name:s base_address:n alternate_group:s size:i"))
        out["regs"] = regs
    if kind in ("peripheral", "cluster"):
        out["kids"] = [processed_node(x) for x in obj.registers_clusters]
    elif kind == "register":
        constraint(a, obj)
        out["kids"] = [processed_node(x) for x in obj.fields]
    else:
        constraint(a, obj)
        hi, lo = obj.bit_range
        a["bit_range"] = [hi, lo]
        out["kids"] = [processed_enum(x) for x in obj.enumerated_value_containers]
    return out


def processed_device(dev):
    return {
        "a": attrs(dev, PROCESSED["device"]),
        "cpu": [] if dev.cpu is None else [cpu(dev.cpu, True)],
        "kids": [processed_node(p) for p in dev.peripherals],
    }


def register_map(m):
    out = []
    for p in m.peripheral_map:
        a = attrs(p, "name:s description:s address:n")
        put(a, "allocated_begin", "n", p.allocated_range[0])
        put(a, "allocated_end", "n", p.allocated_range[1])
        regs = [{"a": attrs(r, MAPREG), "fields": [processed_node(f) for f in r.fields]} for r in p.registers]
        out.append({"a": a, "regs": regs})
    return out


def xml_tree(content, encoding=None):
    """Element tree of a document, read by expat (not by the library the code under test uses)."""
    parser = xml.parsers.expat.ParserCreate(encoding, namespace_separator="}")
    parser.buffer_text = True
    parser.ordered_attributes = True
    stack = [{"t": "", "x": [], "at": [], "c": []}]
    ns = []

    def split(name):
        return "{" + name if "}" in name else name

    def start(name, at):
        stack[-1]["closed"] = True
        e = {"t": split(name), "x": [], "at": [{"n": split(at[i]), "v": at[i + 1]} for i in range(0, len(at), 2)], "c": []}
        if len(stack) == 1:
            e["ns"] = [{"p": p, "u": u} for p, u in ns]
        stack[-1]["c"].append(e)
        stack.append(e)

    def end(_):
        stack.pop().pop("closed", None)

    def text(data):
        top = stack[-1]
        if not top.get("closed"):
            top["x"] = [(top["x"][0] if top["x"] else "") + data]

    def start_ns(prefix, uri):
        if len(stack) == 1:
            ns.append((prefix or "", uri))

    parser.StartElementHandler = start
    parser.EndElementHandler = end
    parser.CharacterDataHandler = text
    parser.StartNamespaceDeclHandler = start_ns
    parser.Parse(content, True)
    return stack[0]["c"][0]
