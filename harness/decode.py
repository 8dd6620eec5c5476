"""What bytes denote in each reading (for SvdDecode.tla), found without the code under test."""

import codecs
import re
import warnings
import xml.parsers.expat

from lxml import etree

import project

COMMON = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
MARKS = [(codecs.BOM_UTF32_LE, "utf-32"), (codecs.BOM_UTF32_BE, "utf-32"), (codecs.BOM_UTF8, "utf-8-sig"),
         (codecs.BOM_UTF16_LE, "utf-16"), (codecs.BOM_UTF16_BE, "utf-16")]
DECLARED = re.compile(rb"""<\?xml[^>]*?encoding\s*=\s*["']([A-Za-z0-9._-]+)["']""")


def own(content):
    """The document the bytes are by the rules of XML."""
    for mark, codec in MARKS:
        if content.startswith(mark):
            break
    else:
        if content.startswith(b"<\0?\0"):
            codec = "utf-16-le"
        elif content.startswith(b"\0<\0?"):
            codec = "utf-16-be"
        else:
            m = DECLARED.match(content)
            codec = m.group(1).decode() if m else "utf-8"
    try:
        text = content.decode(codec)
    except (UnicodeError, LookupError):
        return []
    return tree(text)


def tree(text):
    if "\0" in text:  # expat would take it for UTF-16
        return []
    try:
        return [project.xml_tree(text.encode("utf-8"), "utf-8")]
    except (xml.parsers.expat.ExpatError, UnicodeError):
        return []


def text(e):
    """The text before the first child, which comments do not interrupt."""
    parts = [e.text]
    for k in e:
        if isinstance(k.tag, str):
            break
        parts.append(k.tail)
    return ["".join(p or "" for p in parts)] if any(p is not None for p in parts) else []


def element(e, top=True):
    out = {"t": e.tag, "x": text(e),
           "at": [{"n": k, "v": v} for k, v in e.attrib.items()],
           "c": [element(k, False) for k in e if isinstance(k.tag, str)]}
    if top:
        out["ns"] = [{"p": p or "", "u": u} for p, u in e.nsmap.items()]
    return out


def given(content, encoding, recover):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = etree.fromstring(content, parser=etree.XMLParser(encoding=encoding, recover=recover))
        return [] if e is None else [element(e)]
    except etree.XMLSyntaxError:
        return []


def readings(content):
    first = own(content)
    if first:
        return {"own": first, "strict": [], "loose": []}
    strict = [given(content, e, False) for e in COMMON]
    if any(strict):
        return {"own": [], "strict": strict, "loose": []}
    return {"own": [], "strict": [], "loose": [given(content, e, True) for e in COMMON]}
