"""The properties, and the files that list them: writes properties.jsonl and MANIFEST.json."""

import json
import os
import re

import plans

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/svdsuite/"


def prop(ident, title, statement, text, why, files, mechanism, over=("inputs",), observe=()):
    return {
        "id": ident, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
        "anchors": {"files": [SRC + f for f in files],
                    "mechanism": [{"name": n, "where": SRC + w} for n, w in mechanism],
                    "observe_at": list(observe)},
    }


PROPERTIES = [
    prop("P01", "Parsing says what the document says",
         "For every SVD document that can be accepted, the parsed device carries exactly the elements, attributes and values "
         "the document states, in document order, with each number, boolean and enumeration literal read as the value it denotes "
         "and every optional item that is absent reported as absent. Every parsed element links to the element that contains it.",
         "all documents: any subset of optional elements, any number notation (decimal, 0x, 0b, #, leading zeros, signs), any "
         "nesting of clusters, any order of children",
         "The tests parse hand-written files that each exercise one element; combinations of notations, nesting, absent items "
         "and order are never varied together.",
         ["parse.py", "model/parse.py", "model/types.py"],
         [("element readers of the parser", "parse.py"), ("literal conversion", "parse.py:_to_int,_to_bool")],
         observe=["Parser.get_parsed_device()"]),
    prop("P02", "Writing a device and reading it back gives the same device",
         "Serializing any parsed device, or any processed device converted to a parsed one, yields a document that, read back, "
         "gives an equal device without any repair being announced, for compact and pretty-printed output alike. Nothing the "
         "device states is lost, renamed, reordered or invented.",
         "all devices with at least one peripheral, obtained by parsing any document or by converting any processed device",
         "The tests compare the text written for a few elements; no test closes the loop for arbitrary devices.",
         ["serialize.py", "parse.py", "util/process_parse_model_convert.py"],
         [("one serializer class per element", "serialize.py")],
         observe=["Serializer.device_to_svd_content/_str/_file"]),
    prop("P03", "A derived element equals its base, overridden by what it states",
         "Every peripheral, cluster, register or field with a derivedFrom takes each property it does not state from its base, "
         "keeps each property it states, always keeps its own name, address and interrupts (and, as in svdconv, a peripheral its "
         "own header struct name only), and has the base's children in addition to its own; a derived enumeration container is an "
         "unmodified copy of its base, name included. This holds through chains of derivations of any length, across levels of "
         "nesting, and for bases that themselves are replicated, derived or contain derived elements.",
         "all derivation graphs over all element kinds, any set of own properties and children",
         "The tests cover single derivations and short chains on fixed documents; the interplay of nesting, chains, replication "
         "and partial overriding is not enumerated.",
         ["resolve/resolver.py", "resolve/graph.py", "resolve/graph_builder.py", "process.py"],
         [("copying of a base's subtree", "resolve/graph.py:replicate_descendants"),
          ("merging of own and inherited properties", "process.py:or_if_none and _process_*")],
         observe=["Process.get_processed_device()"]),
    prop("P04", "The order of declarations does not matter",
         "Declaring the peripherals, clusters, registers and fields of a device in another order, so that bases come before or "
         "after what derives from them, changes neither whether the device is accepted nor the processed device. Forward "
         "references resolve exactly like backward references.",
         "all documents and all permutations of sibling elements at every level",
         "The tests contain a few forward references; no test permutes declarations, and the resolver's rounds make the result "
         "depend on a schedule that the order of declarations drives.",
         ["resolve/resolver.py", "resolve/graph.py"],
         [("rounds of binding and processing", "resolve/resolver.py:resolve_peripherals"),
          ("topological order within a round", "resolve/graph.py:get_topological_sorted_nodes")],
         over=("inputs", "schedules"), observe=["Process.get_processed_device()"]),
    prop("P05", "A derivedFrom path denotes one element, or is rejected",
         "A derivedFrom path denotes the unique element of the same kind it reaches, first among the siblings of the deriving "
         "element and then from the top of the device, where replicated elements are reachable both by template name and by "
         "instance name. A device in which a path denotes nothing, denotes several elements, or in which elements derive from "
         "each other in a cycle or contain themselves is rejected with a processing error; processing always terminates.",
         "all name and path configurations, including equal names in different scopes, templates and instances, dangling and "
         "cyclic references of any length",
         "Tests pin a handful of valid and invalid paths; ambiguity, shadowing, cycles through containment and termination are "
         "universal claims about all graphs.",
         ["resolve/resolver.py", "resolve/graph.py"],
         [("path search", "resolve/resolver.py:_derived_from_path_resolving"),
          ("cycle rejection", "resolve/graph.py:add_edge,is_part_of")],
         observe=["Process: outcome and processed device"]),
    prop("P06", "Replication yields exactly the declared instances",
         "An element with dim expands to exactly dim instances whose names are the name with each placeholder replaced by the "
         "corresponding index of dimIndex (a list, a numeric range, a letter range, or 0,1,2,... by default), each shifted by "
         "dimIncrement from the previous one and otherwise equal to the template, subtree included. Impossible replications (a "
         "name without placeholder set aside, a wrong number of indices, a malformed or descending range, duplicate indices) "
         "are rejected or announced, never expanded to something else.",
         "all dim, dimIncrement, dimIndex and name combinations on peripherals, clusters, registers and fields, nested to any "
         "depth and inherited",
         "The tests fix a few index lists per element kind; nesting, inheritance of dim attributes and index edge cases are not "
         "varied together.",
         ["process.py", "resolve/resolver.py"],
         [("name expansion", "process.py:_extract_and_process_dimension"), ("instances", "resolve/resolver.py:_update_dim_node")],
         observe=["Process.get_processed_device()"]),
    prop("P07", "Register properties come from the nearest level that states them",
         "Every register's size, access, protection, reset value and reset mask is the one it states, else the one of the "
         "nearest enclosing cluster, peripheral or device that states it, else the documented default (32, read-write, any, 0, "
         "0xFFFFFFFF); fields inherit access in the same way. The size of a peripheral or cluster is adjusted to that of the "
         "widest register it contains, as svdconv does, and a register that states no size takes this adjusted size.",
         "all ways of stating or omitting the five properties at every level, with derivation and replication",
         "Five properties at four levels with derivation in between give thousands of combinations; tests pin a few.",
         ["process.py", "resolve/resolver.py"],
         [("inheritance pass", "process.py:_InheritProperties"), ("size adjustment", "resolve/resolver.py:_calculate_size")],
         observe=["Process.get_processed_device()"]),
    prop("P08", "Addresses, ends and sizes are consistent",
         "In every processed device, each register's and cluster's absolute address is its peripheral's base address plus the "
         "offsets on the way down, the end address and size of each cluster and peripheral cover exactly what it contains (the "
         "declared blocks, and separately the registers present), and elements are ordered by address. The flat register list "
         "of a peripheral contains every register of the tree exactly once, in address order.",
         "all nestings, offsets, sizes, replications and base addresses, including addresses beyond 32 and 64 bits",
         "Tests check literal addresses of small devices; arithmetic over nesting, overlap and replication is universal.",
         ["process.py", "model/process.py", "resolve/resolver.py"],
         [("address calculation", "process.py:_CalculateAddresses and related passes")],
         observe=["Process.get_processed_device()"]),
    prop("P09", "Enumerated values resolve to the values they denote",
         "Every enumerated value is resolved to exactly the set of values its text denotes in the width of its field (any "
         "notation, don't-care bits expanded), a default entry stands for precisely the values no other entry claims, and "
         "values are listed in order. Ambiguous or impossible tables (a value claimed twice, too wide for the field, "
         "unreadable, two defaults, conflicting usages) are announced or rejected as documented.",
         "all value texts, don't-care patterns, field widths, usages, defaults and their combinations",
         "The space of patterns times widths is exponential; tests pick single examples.",
         ["process.py", "resolve/resolver.py"],
         [("value extraction", "process.py:_process_enumerated_value_container"),
          ("container rules", "resolve/resolver.py:_finalize_field_node")],
         observe=["Process.get_processed_device()"]),
    prop("P10", "Fields occupy the bits they declare, and do not collide",
         "A field's lsb, msb, offset, width and range agree with whichever of the three notations the document uses, completed "
         "from the base for a derived field, and malformed or contradictory positions are rejected. Fields of a register that "
         "overlap are announced or rejected according to their access, and fields that exceed their register are not passed "
         "over silently.",
         "all bit positions and notations, derivations that override half of a notation, register sizes and access combinations",
         "Tests have one field per notation; overlap by access and derived halves of notations are combinatorial.",
         ["process.py"],
         [("bit range extraction", "process.py:_process_field_msb_lsb"), ("overlap checks", "process.py")],
         observe=["Process.get_processed_device()"]),
    prop("P11", "Invalid devices are rejected, ignorable elements are announced",
         "Two peripherals, or two registers, clusters or fields of one parent, never share a name in a processed device except "
         "as documented alternates; a device that would is rejected. Elements that have to be ignored (unusable sizes, reserved "
         "names, empty containers) are left out with one announced warning each, and nothing else is left out.",
         "all documents with duplicate names arising directly, by derivation or by replication, and all ignorable elements",
         "Duplicates that arise only after expansion and derivation are not reached by fixed examples.",
         ["process.py"],
         [("validation passes", "process.py:_ValidateAndAdjust and related")],
         observe=["Process: outcome, warnings and processed device"]),
    prop("P12", "Every overlap is announced unless declared as an alternate",
         "For every two peripherals, or two registers and clusters of one parent, that share addresses (a peripheral or "
         "cluster reaching from its base address to its end address, gaps included), a warning is issued unless one is declared "
         "an alternate of the other, directly or through a chain of alternates, or is in an alternate group; no warning is "
         "issued for elements whose addresses do not meet. An alternate that does not exist excuses no overlap. A peripheral, "
         "cluster or register at an address that is not aligned is announced.",
         "all placements of elements, address blocks and alternate declarations",
         "Pairwise overlap over all placements is a universal claim; tests place two elements at fixed offsets.",
         ["process.py"],
         [("overlap checks", "process.py")],
         observe=["warnings of Process"]),
    prop("P13", "The register map is the processed device, flattened",
         "The peripheral register map lists each peripheral once in address order with its allocated address range, and below "
         "it each register of the peripheral at any depth exactly once, with its absolute address, effective properties and "
         "fields. Building it changes nothing in the processed device.",
         "all processed devices",
         "Only one or two devices are mapped in the tests.",
         ["map.py", "model/map.py"],
         [("map construction", "map.py:PeripheralRegisterMap")],
         observe=["PeripheralRegisterMap.peripheral_map"]),
    prop("P14", "A converted device is complete and stable",
         "Converting a processed device to a parsed one yields a device that states everything explicitly and contains no "
         "derivation or replication, with correct parent links; processing it again gives the same processed device. The "
         "conversion neither loses nor changes what the processed device says.",
         "all processed devices without registers ignored for their name",
         "The tests convert single elements; idempotence of process after convert is never tested on arbitrary devices.",
         ["util/process_parse_model_convert.py", "process.py"],
         [("conversion", "util/process_parse_model_convert.py")],
         observe=["Process.convert_processed_device_to_svd_device()"]),
    prop("P15", "Calls are pure: results depend on arguments only",
         "In any sequence of calls to the library, each call's result, warnings and errors depend only on the arguments of that "
         "call; no call changes a device, map or document obtained earlier, and repeating a call repeats its result. In "
         "particular one parsed device can be processed, serialized, mapped and converted any number of times and in any order, "
         "and editing one device changes no other.",
         "all histories of parse, process, convert, map, serialize and validate calls over several live devices, including "
         "failing calls",
         "Tests make one call per object; aliasing between parsed, processed, converted and mapped objects and state kept "
         "between calls only show in longer histories.",
         ["process.py", "resolve/graph.py", "util/process_parse_model_convert.py", "serialize.py", "map.py", "parse.py"],
         [("copies of parsed values", "process.py, resolve/graph.py, util/process_parse_model_convert.py")],
         over=("histories", "inputs"), observe=["every public entry point"]),
    prop("P16", "All ways of handing over a document are equivalent",
         "A document gives the same result whether it is handed over as a file, as bytes or as a string, and whichever supported "
         "encoding it is written in, with or without a declaration or byte order mark. A document that is not well-formed in "
         "its declared encoding is either read by an announced fallback or rejected with an XML error, in the same way by "
         "every entry point.",
         "all documents, encodings, declarations and entry points of the parser, the processor, the map and the validator",
         "Tests use UTF-8 files almost exclusively; agreement between entry points is not compared.",
         ["util/xml_parse.py", "parse.py", "process.py", "map.py", "validate.py"],
         [("decoding with fallbacks", "util/xml_parse.py:safe_parse,safe_fromstring,encode_xml_str")],
         over=("inputs", "configurations"), observe=["from_svd_file / from_xml_content / from_xml_str"]),
    prop("P17", "Validation accepts exactly the documents of the schema version",
         "For every document and every shipped schema version the validator's verdict is that of the schema, the latest version "
         "being the default, and a rejected document raises or returns false as requested. What the serializer writes for a "
         "device read from a valid document without empty elements is valid again.",
         "all documents, schema versions and reporting modes",
         "Tests validate a few files against few versions; consistency over versions and of written documents is not tested.",
         ["validate.py", "serialize.py", "schema/1.3.11.xsd", "schema/1.0.xsd"],
         [("schema selection and verdict", "validate.py:Validator._validate")],
         over=("inputs", "configurations"), observe=["Validator.validate_xml_*"]),
    prop("P18", "Failures are reported through the documented errors",
         "For every well-formed document, parsing either succeeds or raises a parser error (or the documented not-implemented "
         "error for an unreadable literal), and processing, converting, mapping and serializing either succeed or raise a "
         "processing error; no other exception escapes and no call hangs.",
         "all well-formed documents, valid or not, including randomly damaged real ones, whose templates and copies do not "
         "add up to astronomically many elements",
         "Each test provokes one expected error; the absence of unexpected ones is a claim about all inputs.",
         ["parse.py", "process.py", "resolve/resolver.py", "resolve/graph.py", "serialize.py", "map.py"],
         [("error translation", "process.py:_process_device"), ("parser errors", "parse.py")],
         observe=["every public entry point"]),
    prop("P19", "Repairs are made as documented and always announced",
         "Where the parser tolerates a deviation (surrounding white space, repeated elements, unknown access literals, a missing "
         "schema location, description or interrupt value), it makes exactly the documented repair and announces it with a "
         "parser warning; a document without deviations is parsed without warnings. Markup that carries no meaning (comments, "
         "processing instructions, CDATA, entity references, attribute order, unknown elements) changes nothing.",
         "all documents and all combinations of deviations",
         "Tests check one deviation at a time; that nothing else is altered or left unannounced is universal.",
         ["parse.py"],
         [("text and attribute readers", "parse.py:_parse_element_text,_parse_element_attribute")],
         observe=["Parser: device and warnings"]),
    prop("P20", "Device and CPU metadata survive with documented defaults",
         "The processed device carries the vendor, series, licence, header and addressing metadata of the document unchanged, and "
         "its CPU description with every capability flag and security region as stated, absent items replaced by the documented "
         "defaults only. Device-level register properties absent from the document get the documented defaults.",
         "all combinations of stated and omitted device and CPU items",
         "More than twenty optional items; tests state them all or none.",
         ["process.py", "parse.py"],
         [("CPU processing", "process.py:_process_cpu")],
         observe=["Process.get_processed_device()"]),
    prop("P21", "A log of the resolution observes it without interfering",
         "Processing a document with a resolver log file gives the same device, warnings and error as processing it without, "
         "through every entry point that takes such a file. When processing has ended, whatever the outcome, the file holds a "
         "complete page, which for an accepted document names each derivation path as resolved and each declared element as "
         "processed and shows none of them still waiting.",
         "all documents, accepted or rejected in any phase, and all entry points that take a log file",
         "No test switches the log on; that it is complete at the end and changes nothing is a claim about every resolution.",
         ["resolve/logger.py", "util/html_generator.py", "resolve/graph.py", "resolve/resolver.py"],
         [("what is logged when", "resolve/logger.py"), ("pictures of the graph", "resolve/graph.py:get_svg")],
         observe=["the file named by resolver_logging_file_path", "Process.get_processed_device()"]),
    prop("P22", "Every processed element refers to what declared it",
         "Each part of a processed device, down to address blocks, interrupts, enumerated values, write constraints and security "
         "regions, refers (parsed) to the element of the very device that was processed which declares it: an instance to its "
         "template, a copy made by derivation to the element copied, an inherited part to where it is stated, anything else to its "
         "own declaration. Each entry of a register map refers (processed) to the peripheral or register it stands for.",
         "all accepted documents, with every mixture of replication, derivation, inheritance and reordering",
         "Tests compare values, which are equal for elements that look alike; which object is meant is never looked at.",
         ["process.py", "resolve/resolver.py", "resolve/graph.py", "map.py", "model/process.py"],
         [("references set on creation", "process.py:_process_peripheral,_process_cluster,_process_register,_process_field"),
          ("copies of subtrees", "resolve/graph.py:replicate_descendants")],
         observe=["Process.get_processed_device(): .parsed of every element", "PeripheralRegisterMap: .processed of every entry"]),
]

NOTE = ("TLC decides the property on the explored documents only: exhaustively where the plan lists a model or an enumerated "
        "family, by seeded sampling of the document space elsewhere; the binding to the code is the recorded trace.")


def technique(plan):
    out = "TLA+ specification; TLC trace validation of recorded calls against it"
    if plan.get("prepare") == "session":
        out += "; histories of calls enumerated by TLC (Session) and replayed into the code"
    elif "prepare" in plan:
        out += "; documents enumerated exhaustively by TLC with their results and replayed into the code"
        if plan["prepare"].startswith("varied-"):
            out += "; the laws of processing (Laws) model checked on these documents"
    for m in plan["models"]:
        what = {"ResolveMachine": "the resolution machine", "Laws": "the laws of processing"}.get(m["module"], m["module"])
        out += f"; TLC model checking of {what} (" + ", ".join(m["invariants"] + m.get("properties", [])) + ")"
    return out


def manifest():
    checks, missing = [], []
    for p in PROPERTIES:
        plan = plans.PLANS.get(p["id"])
        if plan is None:
            missing.append({"property": p["id"], "reason": plans.NOT_APPLICABLE[p["id"]]})
            continue
        cmd = f"/opt/venv/bin/python harness/check.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough",
                       "technique": technique(plan),
                       "level": plan["level"], "level_note": plan.get("note", NOTE)})
    return {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py", "checks": checks,
            "not_applicable": missing,
            "notes": "No hooks in /repo: the public interface exposes the abstract state. VERIF_SEED selects the sampled documents."}


if __name__ == "__main__":
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        assert len(re.findall(r"[.;?!](?:\s|$)", re.sub(r";", "", p["statement"]))) <= 3, (p["id"], p["statement"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
