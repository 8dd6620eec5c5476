"""The log of a resolution: how its pictures are drawn here, and how the page is read.

rustworkx draws through the dot program, and only where Pillow is installed (it is not here); the stand-in draws the
same nodes and edges, with the attributes it is given, as lines of text in an SVG document.
"""

import base64
import gzip
import html
import re
import xml.sax.saxutils

import rustworkx.visualization


def draw(graph, node_attr_fn=None, edge_attr_fn=None, graph_attr=None, filename=None, image_type=None, method=None):
    if image_type != "svg":
        raise ValueError(image_type)
    lines = []
    for node in graph.nodes():
        a = node_attr_fn(node) if node_attr_fn else {}
        lines.append("<text %s>%s</text>" % (attributes({k: v for k, v in a.items() if k != "label"}),
                                             xml.sax.saxutils.escape(a.get("label", ""))))
    for edge in graph.edges():
        lines.append("<path %s/>" % attributes(edge_attr_fn(edge) if edge_attr_fn else {}))
    with open(filename, "w", encoding="utf-8") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" width="1pt">' + "\n".join(lines) + "</svg>")


def attributes(a):
    for k, v in a.items():
        if type(k) is not str or type(v) is not str:
            raise TypeError("dot attributes are strings")
    return " ".join(f"{k}={xml.sax.saxutils.quoteattr(v)}" for k, v in a.items())


rustworkx.visualization.graphviz_draw = draw
rustworkx.visualization.graphviz.graphviz_draw = draw


def read(path):
    """What the page says."""
    with open(path, encoding="utf-8") as f:
        page = f.read()
    if not (page.lstrip().startswith("<!DOCTYPE html>") and page.rstrip().endswith("</html>")):
        raise ValueError("no page")
    packed = re.search(r'const compressedDataBase64 = "([^"]*)"', page)[1]
    body = gzip.decompress(base64.b64decode(packed)).decode()
    body = body[body.index("<body"):]
    told = {"paths": [], "elements": []}
    for title, content in re.findall(r'([^<>\n]*): <div class="scrollable-div">(.*?)</div>', body, re.S):
        items = content.split("<br />")
        if title == "Resolved placeholders":
            told["paths"] += map(html.unescape, items)
        else:
            for item in items:
                m = re.fullmatch(r"\d+: (.*) \((\w+)\)", html.unescape(item), re.S)
                told["elements"].append([m[1], m[2]])
    pictures = re.findall(r'<div class="svg-container".*?</div>', body, re.S)
    last = re.findall(r"<text ([^>]*)>", pictures[-1]) if pictures else []
    return {**told, "pictures": len(pictures), "rounds": len(re.findall(r"<h2>\d+\. Round</h2>", body)),
            "finished": "Repeating steps finished successfully" in body, "loop": "Loop detected" in body,
            "waiting": sum('color="black"' in t for t in last), "unresolved": sum('color="red"' in t for t in last)}
