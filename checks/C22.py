"""C22 - data extension segments: finding segments, their XML content and the re-encoded fixed width header."""
import base64
from xml.etree import ElementTree as ET

from aws.osml.gdal import NITFDESAccessor

BOUNDS = ("headers: version and sub-header length symbolic or at their bounds, every text field at every length up to its width, each field missing; segment "
          "lists: up to 2 lists of up to 3 segments with names, XML prologs and either encoding of the XML content chosen freely")
OUTSIDE = "alignment of texts shorter than their field (content and position of the field are checked); malformed XML; texts longer than their field"
# MIL-STD-2500C Table A-8(A), DESVER .. DESCTLN
F = (("DECLAS", 1), ("DESCLSY", 2), ("DESCODE", 11), ("DESCTLH", 2), ("DESREL", 20), ("DESDCTP", 2), ("DESDCDT", 8), ("DESDCXM", 4), ("DESDG", 1),
     ("DESDGDT", 8), ("DESCLTX", 43), ("DESCATP", 1), ("DESCAUT", 40), ("DESCRSN", 1), ("DESSRDT", 8), ("DESCTLN", 15))


def seg(env, vals, ver, shl, shf, flip, missing=None):
    d = ET.Element("des", name="XML_DATA_CONTENT")
    items = [("DESVER", env.text(ver))] + list(vals.items()) + [("DESSHL", env.text(shl)), ("DESSHF", shf), ("DESDATA", "")]
    for k, v in (reversed(items) if flip else items):
        if k != missing:
            ET.SubElement(d, "field", name=k, value=v)
    return d


def header(env, which, shl, flip):
    vals = {}
    for j, (n, w) in enumerate(F):
        k = env.choice("len", list(range(w + 1))) if n == which else (w if j % 2 else max(w - 1, 0) if w > 1 else 1)
        vals[n] = "".join(chr(ord("A") + (j + i) % 26) for i in range(k))
    ver = env.int("ver", 0, 99)
    shf = "".join("abcdefghij"[i % 10] for i in range(shl))
    h = env.no_raise(lambda: NITFDESAccessor.extract_des_header(seg(env, vals, ver, shl, shf, flip)), "extract_des_header")
    total = 2 + sum(w for _, w in F) + 4 + shl
    env.require(len(h) == total, "the header has its fixed length")
    env.require(env.eqb(env.parse_int(h[:2]), ver), "version in the first two characters")
    p = 2
    for n, w in F:
        env.require(h[p:p + w].strip(" ") == vals[n], "every text is in its own field")
        p += w
    env.require(h[p:p + 4] == f"{shl:04d}", "the sub-header length has four digits")
    env.require(h[p + 4:] == shf, "the user defined sub-header follows")


def shl_any(env):
    """a sub-header length with a sub-header shorter than announced (blank trailing part)"""
    vals = {n: "X" for n, w in F}
    n = env.choice("shl", [1, 2, 9, 10, 100, 4321])
    h = env.no_raise(lambda: NITFDESAccessor.extract_des_header(seg(env, vals, env.int("ver", 0, 99), n, "x", False)), "extract_des_header")
    k = n
    base = 2 + sum(w for _, w in F)
    env.require(len(h) == base + 4 + k, "the header has its announced length")
    env.require(h[base + 4:].strip(" ") == "x", "the user defined sub-header follows")


def missing(env):
    vals = {n: "X" for n, w in F}
    nm = env.choice("nm", ["DESVER", "DESSHL"] + [n for n, _ in F])
    r, e = env.call(lambda: NITFDESAccessor.extract_des_header(seg(env, vals, 1, 0, "", False, missing=nm)))
    env.require(isinstance(e, ValueError), "a missing field is reported, not skipped")


XMLS = ['<SICD xmlns="urn:SICD:1.2.1"><A b="1">caf\u00e9</A><A b="2">t &amp; u</A></SICD>', "<SIDD><X/>\n<Y>1</Y></SIDD>"]


def tree(e):
    return (e.tag, dict(e.attrib), (e.text or "").strip(), [tree(c) for c in e])


def segments(env, nlists):
    want, lists, idx = {"A": [], "XML_DATA_CONTENT": []}, [], 0
    for i in range(nlists):
        s = ['<?xml version="1.0"?>\n<des_list>' if env.bool(f"pro{i}") else "<des_list>"]
        for j in range(2 if nlists > 1 else 3):
            nm = env.choice(f"n{i}{j}", ["XML_DATA_CONTENT", "A", "none"])
            if nm == "none":
                continue
            enc = env.choice(f"e{i}{j}", ["b64", "xml", "empty", "absent"]) if nm != "A" else "absent"
            x = XMLS[idx % 2]
            s.append(f'<des name="{nm}"><field name="ID" value="{idx}"/>')
            if enc == "b64":
                s.append(f'<field name="DESDATA" value="{base64.b64encode(x.encode()).decode()}"/>')
            elif enc == "xml":
                s.append(f'<field name="DESDATA"><xml_content><?xml version="1.0" encoding="UTF-8"?>{x}</xml_content></field>')
            elif enc == "empty":
                s.append('<field name="DESDATA" value=""/>')
            s.append("</des>")
            want[nm].append((str(idx), x if enc in ("b64", "xml") else None))
            idx += 1
        s.append("</des_list>")
        lists.append("".join(s))
    acc = env.no_raise(lambda: NITFDESAccessor(lists), "constructor")
    for nm, w in want.items():
        got = env.no_raise(lambda: acc.get_segments_by_name(nm), "get_segments_by_name")
        ids = [g.find("./field[@name='ID']").get("value") for g in got]
        env.require(ids == [k for k, _ in w], "the segments with that name, in file order")
        for g, (_, x) in zip(got, w):
            r = env.no_raise(lambda: NITFDESAccessor.extract_desdata_xml(g), "extract_desdata_xml")
            if x is None:
                env.require(r is None, "no XML where the segment has none")
            else:
                env.require(isinstance(r, str) and tree(ET.fromstring(r)) == tree(ET.fromstring(x)), "the segment's XML document")
    env.require(env.no_raise(lambda: acc.get_segments_by_name("B"), "get_segments_by_name") == [], "no segment for another name")


def nodes(env):
    for x in (None, []):
        a = env.no_raise(lambda: NITFDESAccessor(x), "constructor")
        env.require(env.no_raise(lambda: a.get_segments_by_name("XML_DATA_CONTENT"), "get_segments_by_name") == [], "images without segments have none")


def cases(tier):
    q = tier == "quick"
    cs = [dict(name=f"header-{n}", body=header, params=dict(which=n, shl=(0, 773, 1, 9999, 5)[i % 5], flip=i % 2 == 1)) for i, (n, w) in enumerate(F)]
    cs += [dict(name="header-shl", body=shl_any), dict(name="missing", body=missing), dict(name="none", body=nodes), dict(name="segments-1", body=segments, params=dict(nlists=1))]
    if not q:
        cs.append(dict(name="segments-2", body=segments, params=dict(nlists=2)))
    return cs
