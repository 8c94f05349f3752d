"""Write a scenario to files: the TMX/TSX/TX or JSON documents it denotes.

render(s) returns ({relative path: bytes}, entry path).  How a document is
spelled (order of keys, noise, indentation, older spellings, escapes) is chosen
by s["style"] and must not change what it means.
"""
import base64
import copy
import gzip
import json
import posixpath
import random
import struct
import zlib

from optional import zstd
from doc import color_text, dec, enc, rec, ungid, untok

# ---------------------------------------------------------------- style


class Style:
    def __init__(self, st, salt=""):
        st = st or {}
        self.st = st
        self.salt = salt
        self.rng = random.Random("%s/%s" % (st.get("seed", 0), salt))
        self.noise = st.get("noise", 0)
        self.shuffle = st.get("shuffle", False)
        self.indent = st.get("indent", 1)
        self.ascii = st.get("ascii", True)
        self.charref = st.get("charref", False)
        self.single = st.get("single", False)
        self.lead = st.get("lead", "")
        self.decl = st.get("decl", True)
        self.legacy = set(st.get("legacy", []))
        self.classkey = st.get("classkey", "type")

    def skip(self):
        """Mixed spellings: this place is written the current way."""
        return self.st.get("mixed") and self.rng.random() < 0.5


# ---------------------------------------------------------------- XML


class Node:
    def __init__(self, tag, attrs=None, children=None, text=None):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.children = list(children or [])
        self.text = text
        self.raw = None  # noise, written as it is
        self.cut = None  # (position in the text, noise)

    def add(self, *nodes):
        self.children.extend(n for n in nodes if n is not None)
        return self


NOISE_WORDS = ["capsule", "mode", "tags", "uid", "guid", "comment", "notes", "selected", "locked", "hidden", "compressionlevel", "blend", "blendmode", "zorder",
               "sortorder", "alpha", "scale", "scalex", "anchor", "pivot", "frames", "shapes", "rect", "rectangle", "box", "circle", "line", "path", "bezier",
               "filename", "url", "href", "position", "pos", "offset", "bounds", "hull", "opacity2", "randomize", "terrain2", "automap", "backend", "layerid",
               "visibility", "enabled", "disabled", "static", "group2", "parent", "children", "childs", "owner", "author", "created", "modified", "time", "date",
               "hash", "crc", "checksum", "size2", "format2", "export", "import", "plugin", "script", "on", "off", "null", "none", "true", "false", "item", "items", "entry", "data2"]
NOISE_ATTR = ["locked", "editorlock", "vp-unknown", "mode", "x-new", "selected", "xml:lang", "_"] + NOISE_WORDS
NOISE_VALUES = ["1", "0", "", "x", "-1", "true", "#ff0000", "1,2", "automatic"]
NOISE_ELEM = ["editorsettings", "vpunknown", "newfeature", "export2"]
NOISE_XML = [
    "<!-- note: a < b -->",
    "<?vp some data?>",
    "<!--<layer name='no'/>-->",
]
# unknown elements, some with content that looks like known content
NOISE_TREE = [
    "<vpunknown/>",
    "<editorsettings><export target='a.json' format='json'/><chunksize width='8' height='8'/></editorsettings>",
    "<vpunknown a='1'><vpinner>text</vpinner></vpunknown>",
    "<newfeature><property name='ghost' value='1'/></newfeature>",
    "<newfeature>1,2,3</newfeature>",
    "<newfeature><properties><property name='ghost' value='1'/></properties></newfeature>",
    "<vpunknown><layer name='g' width='1' height='1'><data encoding='csv'>1</data></layer><objectgroup><object id='9' x='1' y='1'/></objectgroup></vpunknown>",
    "<vpunknown><tileset firstgid='77' name='g' tilewidth='1' tileheight='1' tilecount='1' columns='1'/><tile id='1'/><image source='g.png'/></vpunknown>",
    "<vpunknown><ellipse/><point/><text>ghost</text><polygon points='0,0 1,1'/><chunk x='0' y='0' width='1' height='1'>5</chunk></vpunknown>",
    "<newfeature><wangset name='g' type='edge' tile='1'/><wangcolor/><wangtile/><frame tileid='1' duration='1'/></newfeature>",
    # unknown elements that carry what the known ones carry
    "<vpghost id='7' name='ghost' class='g' visible='1' opacity='1' width='1' height='1'/>",
    "<vpghost id='7' name='ghost' type='string' value='g' gid='1' x='1' y='1' width='2' height='2' rotation='1'/>",
    "<vpghost firstgid='1' source='ghost.tsx' name='ghost' tilewidth='1' tileheight='1' tilecount='1' columns='1' tile='0' probability='1'/>",
    "<vpghost tileid='0' wangid='1,1,1,1,1,1,1,1' duration='1' color='#ff0000' points='0,0 1,1' template='ghost.tx' encoding='csv' compression=''>1</vpghost>",
]


# every keyword of the documents
KNOWN = set("""id name type class x y width height rotation visible gid template opacity offsetx offsety parallaxx parallaxy tintcolor repeatx repeaty draworder source trans
format version tiledversion orientation renderorder tilewidth tileheight infinite nextlayerid nextobjectid hexsidelength staggeraxis staggerindex backgroundcolor parallaxoriginx
parallaxoriginy compressionlevel firstgid tilecount columns spacing margin objectalignment tilerendersize fillmode image imagewidth imageheight transparentcolor tileoffset grid
transformations hflip vflip rotate preferuntransformed tile tiles animation objectgroup objects properties property value wangsets wangset wangcolor wangtile wangcolors colors
wangtiles wangid tileid duration probability color layer layers imagelayer group data encoding compression chunk chunks startx starty ellipse point polygon polyline points text
fontfamily pixelsize bold italic kerning strikeout underline halign valign wrap tileset tilesets map maps patterns regexp multiplierX multiplierY offsetX offsetY fileName
onlyShowAdjacentMaps frame object propertytype terrain terrains tileproperties tilepropertytypes corner edge""".split())


def near(k, rng, taken=()):
    """A name that is not a keyword, but resembles the keyword K."""
    for _ in range(9):
        n = rng.choice([lambda: k + "2", lambda: "x" + k, lambda: "my" + k, lambda: k + "s", lambda: k.upper(), lambda: k.capitalize(), lambda: k[:-1], lambda: k + "_", lambda: "_" + k,
                        lambda: k + "-old", lambda: "old" + k, lambda: k + k, lambda: k.rstrip("s") + "es", lambda: k[1:], lambda: k + "name", lambda: k + "id"])()
        if n and n not in KNOWN and n not in taken and n[0].isalpha() and n.lower()[:3] != "xml":
            return n
    return "vp" + k


def tree_of(node):
    """The tree of a document, for spec/MC_Noise: what it is made of and what may be put where."""
    return {"t": node.tag, "x": node.text is not None, "c": [tree_of(c) for c in node.children]}


def jtree_of(v, key=""):
    if isinstance(v, dict):
        return {"t": "{}" if key not in DATA_KEYS else "data", "x": False, "c": [jtree_of(x, k) for k, x in v.items()]}
    if isinstance(v, list):
        return {"t": "[]", "x": False, "c": [jtree_of(x) for x in v]}
    return {"t": "leaf", "x": True, "c": []}


def noise_at(node, path, what):
    """Put one piece of noise where PATH leads: child indices, then the place there."""
    node = copy.deepcopy(node)
    n = node
    for i in path[:-1]:
        n = n.children[i]
    k, i = what["kind"], path[-1]
    if k == "attr":
        items = list(n.attrs.items())
        name = what["text"]
        if what.get("near") and items:
            name = near(items[what["near"] % len(items)][0], random.Random(what["near"]), n.attrs)
        items.insert(min(i, len(items)), (name, what.get("val", "1")))
        n.attrs = dict(items)
    elif k == "text":
        n.cut = (len(n.text) * i // 2, what["text"])
    else:
        x = Node("")
        x.raw = what["text"]
        n.children.insert(i, x)
    return node


def jnoise_at(v, path, what):
    v = copy.deepcopy(v)
    n = v
    for i in path[:-1]:
        n = n[i] if isinstance(n, list) else list(n.values())[i]
    items = list(n.items())
    name = what["text"]
    if what.get("near") and items:
        name = near(items[what["near"] % len(items)][0], random.Random(what["near"]), n)
    items.insert(path[-1], (name, what["val"]))
    n.clear()
    n.update(items)
    return v


def xesc(t, style, attr=False):
    spell = style.st.get("spell")
    if spell and t in spell["attr" if attr else "elem"]:
        return spell["attr" if attr else "elem"][t]
    out = []
    for ch in t:
        o = ord(ch)
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif attr and ch == '"':
            out.append("&quot;")
        elif attr and ch == "'":
            out.append("&apos;")
        elif ch == "\r" or (attr and ch in "\n\t"):
            out.append("&#%d;" % o)
        elif style.charref and (o > 126 or style.rng.random() < 0.1) and not t.startswith(VPROOT):
            out.append(("&#x%X;" if style.rng.random() < 0.5 else "&#%d;") % o)
        else:
            out.append(ch)
    return "".join(out)


DECLS = ['<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0' encoding='utf-8'?>", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>']


def xml(node, style):
    out = []
    nl = "\n" if style.indent else ""

    def pad(d):
        return (" " * d * style.indent) if style.indent else ""

    def junk(d):
        if style.noise and style.rng.random() < 0.35 * style.noise:
            out.append(pad(d) + style.rng.choice(NOISE_XML) + nl)

    def walk(n, d):
        attrs = list(n.attrs.items())
        if style.shuffle:
            style.rng.shuffle(attrs)
        if style.noise and style.rng.random() < 0.5 * style.noise:
            w = style.rng.choice([w for w in NOISE_ATTR if w not in n.attrs]) + style.rng.choice(["", "", "2", "-x"])
            if n.attrs and style.rng.random() < 0.4:
                w = near(style.rng.choice(list(n.attrs)), style.rng, n.attrs)
            attrs.insert(style.rng.randrange(len(attrs) + 1), (w, style.rng.choice(["1", "0", "", "x", "-1", "true", "#ff0000", "1,2", "automatic"])))
        if style.noise == 3:  # all of them at once
            have = {k for k, _ in attrs}
            for w in dict.fromkeys(NOISE_ATTR):
                if w not in have:
                    attrs.insert(style.rng.randrange(len(attrs) + 1), (w, style.rng.choice(NOISE_VALUES)))
        q = "'" if style.single else '"'
        sp = " "
        if style.noise and style.rng.random() < 0.3:
            sp = style.rng.choice(["  ", "\n   ", "\t"])
        a = "".join(
            "%s%s=%s%s%s" % (sp, k, q, xesc(v, style, True), q) for k, v in attrs
        )
        junk(d)
        if n.raw is not None:
            out.append(pad(d) + n.raw + nl)
            return
        if style.noise == 3 and n.text is None and n.tag not in ("data", "chunk"):
            n = copy.copy(n)
            n.children = list(n.children)
            for w in style.rng.sample(NOISE_WORDS, len(NOISE_WORDS) // 3):
                if w[0].isalpha():
                    c = Node("x", {})
                    c.raw = style.rng.choice(["<%s/>", "<%s>1</%s>", '<%s value="1" name="a" x="3" width="4"/>']).replace("%s", w)
                    n.children.insert(style.rng.randrange(len(n.children) + 1), c)
        if n.text is None and not n.children:
            if style.st.get("openclose"):
                out.append("%s<%s%s></%s>%s" % (pad(d), n.tag, a, n.tag, nl))
            else:
                out.append("%s<%s%s/>%s" % (pad(d), n.tag, a, nl))
            return
        if n.text is not None:
            if style.st.get("cdata") and n.tag in ("text", "property") and "]]>" not in n.text and "\r" not in n.text:
                body = "<![CDATA[%s]]>" % n.text
            else:
                body = xesc(n.text, style)
                if n.cut is not None:
                    i = n.cut[0]
                    body = xesc(n.text[:i], style) + n.cut[1] + xesc(n.text[i:], style)
            out.append("%s<%s%s>%s</%s>%s" % (pad(d), n.tag, a, body, n.tag, nl))
            return
        out.append("%s<%s%s>%s" % (pad(d), n.tag, a, nl))
        for c in n.children:
            if style.noise > 1 and style.rng.random() < 0.2:
                out.append(pad(d + 1) + style.rng.choice(NOISE_TREE) + nl)
            if style.noise > 1 and c.raw is None and style.rng.random() < 0.05:  # something alike, by another name
                x = copy.deepcopy(c)
                x.tag = near(x.tag, style.rng)
                walk(x, d + 1)
            walk(c, d + 1)
        if style.noise > 1 and style.rng.random() < 0.2:
            out.append(pad(d + 1) + style.rng.choice(NOISE_TREE) + nl)
        junk(d + 1)
        out.append("%s</%s>%s" % (pad(d), n.tag, nl))

    if "trees" in style.st:
        style.st["trees"].append({"file": style.salt, "fmt": "tmx", "tree": tree_of(node)})
    at = style.st.get("noiseat")
    if at and at["file"] == style.salt:
        node = noise_at(node, at["path"], at["what"])
    if style.decl and not style.lead:
        out.append(style.rng.choice(DECLS) + nl if style.noise else DECLS[0] + nl)
    if style.noise and style.rng.random() < 0.2:
        out.append('<!DOCTYPE %s SYSTEM "http://mapeditor.org/dtd/1.0/map.dtd">%s' % (node.tag, nl))
    walk(node, 0)
    return (style.lead + "".join(out)).encode("utf-8")


def bit(t):
    return "1" if t == "b:true" else "0"


def xval(t):
    """Attribute text of a token."""
    if t.startswith("b:"):
        return bit(t)
    if t.startswith("n:"):
        return t[2:]
    return untok(t)


def xattrs(attrs, rename=None, colors=()):
    rename = rename or {}
    out = {}
    for k, v in attrs.items():
        key = rename.get(k, k)
        if key is None:
            continue
        out[key] = color_text(v) if isinstance(v, dict) else xval(v)
    return out


CLASS_INNER = [("inner", "n:1"), ("hp", "n:2"), ("name", "s:x")]


def xprops(props):
    if props == []:
        return None
    node = Node("properties")
    for p in props[0]:
        a = {"name": dec(p["name"])}
        t = p["type"]
        if t != "string" or p.get("typed"):
            a["type"] = t
        if p.get("ptype"):
            a["propertytype"] = p["ptype"]
        if t == "class":
            a["propertytype"] = "Klass"
            inner = Node("properties")
            for n in p.get("inner", []):
                inner.add(Node("property", {"name": dec(n), "type": "int", "value": "7"}))
            node.add(Node("property", a, [inner] if inner.children else []))
            continue
        if t == "color":
            v = color_text(p)
        elif t == "bool":
            v = "true" if p["val"] == "b:true" else "false"
        elif t in ("int", "float", "object"):
            v = p["val"][2:]
        else:
            v = "./" * p.get("dots", 0) + untok(p["val"]) if not p.get("unset") else ""
        if t == "string" and "\n" in v:
            node.add(Node("property", a, text=v))
        else:
            a["value"] = v
            node.add(Node("property", a))
    return node


def words(layer_or_chunk):
    if layer_or_chunk.get("bytes"):
        return bytes(layer_or_chunk["bytes"])
    return b"".join(struct.pack("<I", ungid(c)) for c in layer_or_chunk["cells"])


def pack(raw, comp, cut=None, style=None):
    """Base64 of RAW, compressed as COMP; with a STYLE, in any of the ways compressors write that."""
    rng = style.rng if style is not None and cut is None else None
    level = rng.choice([-1, 0, 1, 6, 9]) if rng else -1
    if comp == "zlib":
        z = zlib.compressobj(level, zlib.DEFLATED, rng.choice([9, 12, 15, 15]) if rng else 15)
        raw = z.compress(raw[: len(raw) // 2]) + (z.flush(zlib.Z_FULL_FLUSH) if rng and rng.random() < 0.3 else b"") + z.compress(raw[len(raw) // 2 :]) + z.flush()
    elif comp == "gzip":
        c = rng.random() if rng else 1
        if c < 0.3:  # with the name of a file, a comment, extra fields or a time
            flags, head = 0, b""
            if rng.random() < 0.4:
                flags, head = flags | 4, head + struct.pack("<H", 6) + b"VP\x02\x00ab"
            if rng.random() < 0.7:
                flags, head = flags | 8, head + b"layer.bin\0"
            if rng.random() < 0.4:
                flags, head = flags | 16, head + b"a comment\0"
            z = zlib.compressobj(level, zlib.DEFLATED, -15)
            raw = (
                b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<I", rng.choice([0, 1700000000])) + bytes([rng.choice([0, 2, 4]), rng.choice([3, 255, 0])])
                + head + z.compress(raw) + z.flush() + struct.pack("<II", zlib.crc32(raw), len(raw) & 0xFFFFFFFF)
            )
        elif c < 0.4 and len(raw) > 1:  # in several members
            k = rng.randrange(1, len(raw))
            raw = gzip.compress(raw[:k], 6, mtime=0) + gzip.compress(raw[k:], 9, mtime=0)
        else:
            raw = gzip.compress(raw, 9 if level < 0 else level, mtime=0)
    elif comp == "zstd":
        k = rng.randrange(len(raw) + 1) if rng and rng.random() < 0.3 else 0
        raw = (zstd.compress(raw[:k]) if k else b"") + (zstd.compress(raw[k:]) if k < len(raw) or not k else b"")
    if cut is not None:
        raw = raw[:cut]
    out = base64.b64encode(raw).decode("ascii")
    k = style is not None and style.st.get("wrap")
    return "\n".join(out[i : i + k] for i in range(0, len(out), k)) if k else out


def csv_text(c, style):
    w = c["w"]
    vals = [str(ungid(x)) for x in c["cells"]]
    if style.noise and style.rng.random() < 0.5:
        return " " + " , ".join(vals) + " "
    how = style.rng.random() if style.st.get("layout", True) else 1
    if how < 0.25:  # all in one line
        return style.rng.choice(["", "\n", "  "]) + ",".join(vals) + style.rng.choice(["", "\n", "  "])
    if how < 0.45:  # lines that have nothing to do with rows
        return "".join(v + ("" if i == len(vals) - 1 else style.rng.choice([",", ",", ",\n", ", ", "\n,", ",\t"])) for i, v in enumerate(vals)) + "\n"
    rows = [",".join(vals[i : i + w]) for i in range(0, len(vals), w)]
    if how < 0.55:  # indented
        ind = style.rng.choice([" ", "   ", "\t", "\t\t "])
        end = style.rng.choice(["", "\n", "\n  ", "\n\t", " ", "\n\n  "])
        return "\n" + ind + (",\n" + ind).join(rows) + end
    if how < 0.65:
        return "\r\n" + ",\r\n".join(rows) + "\r\n"
    return "\n" + ",\n".join(rows) + "\n"


def xdata(layer, style):
    node = Node("data")
    e, comp = layer.get("enc", "csv"), layer.get("comp", "")
    node.attrs["encoding"] = e
    if e == "base64" and comp:
        node.attrs["compression"] = comp
    if layer["chunks"] == []:
        if e == "csv":
            node.text = csv_text(layer, style)
        else:
            node.text = "\n   %s\n  " % pack(words(layer), layer.get("payload", comp), layer.get("cut"), style)
        return node
    for c in layer["chunks"][0]:
        a = {"x": str(c["x"]), "y": str(c["y"]), "width": str(c["w"]), "height": str(c["h"])}
        if e == "csv":
            node.add(Node("chunk", a, text=csv_text(c, style)))
        else:
            node.add(Node("chunk", a, text="\n   %s\n  " % pack(words(c), layer.get("payload", comp), None, style)))
    if not node.children and style.st.get("blankdata"):
        node.text = "\n  "
    return node


def measure(t, style):
    """A number that is no whole-number attribute, in any of its spellings."""
    v = t[2:]
    if not style.st.get("expo") or style.rng.random() < 0.5:
        return v
    x = float(v)
    out = [s for s in ("%g" % x, "%.1f" % x, "%e" % x, "%E" % x, "%.3f" % x) if float(s) == x]
    return style.rng.choice(out or [v])


MEASURES = ("x", "y", "width", "height", "rotation", "offsetx", "offsety", "parallaxx", "parallaxy", "opacity", "parallaxoriginx", "parallaxoriginy", "pixelsize")


def jmeasure(v, style):
    """The same for JSON: a number with or without a fraction part."""
    if style.st.get("expo") and isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 50 and style.rng.random() < 0.5:
        return float(v)
    return v


def point_text(points, style):
    return " ".join("%s,%s" % (measure(p[0], style), measure(p[1], style)) for p in points)


def xmeasures(attrs, style):
    return {k: measure(attrs[k], style) for k in MEASURES if k in attrs}


def xshape(o, style):
    k = o["kind"]
    if k in ("ellipse", "point"):
        return Node(k)
    if k in ("polygon", "polyline"):
        return Node(k, {"points": point_text(o["points"], style)})
    if k == "text":
        t = o["text"][0]
        a = rec(t["attrs"])
        return Node("text", dict(xattrs(a), **xmeasures(a, style)), text=untok(t["text"]) or None)
    return None


def classkeys(attrs, style, out, is_xml):
    """Object and tile classes: spelled class, type, or both (class wins)."""
    if "class" not in attrs:
        return
    v = untok(attrs["class"])
    k = style.classkey
    if k == "mix":
        k = style.rng.choice(["type", "class", "both"])
    if k == "both":
        out["type"] = "not-" + v
        out["class"] = v
    else:
        out[k] = v


def xobject(o, style, in_template=False):
    attrs = rec(o["attrs"])
    a = xattrs({k: v for k, v in attrs.items() if k != "class"})
    a.update(xmeasures(attrs, style))
    classkeys(attrs, style, a, True)
    if in_template:
        a.pop("x", None)
        a.pop("y", None)
    if o["gid"] != []:
        a["gid"] = str(ungid(o["gid"][0]))
    if o["template"] != []:
        a["template"] = join(o["template"][0]["src"])
    n = Node("object", a)
    n.add(xprops(o["props"]))
    if o["gid"] == []:
        n.add(xshape(o, style))
    return n


def ximage(segs, w=None, h=None, trans=None):
    a = {"source": join(segs)}
    if trans is not None:
        a["trans"] = color_text(trans)
    if w is not None:
        a["width"] = w[2:]
        a["height"] = h[2:]
    return Node("image", a)


LAYER_TAG = {"tile": "layer", "object": "objectgroup", "image": "imagelayer", "group": "group"}
JSON_TYPE = {"tile": "tilelayer", "object": "objectgroup", "image": "imagelayer", "group": "group"}


def xlayer(l, style):
    attrs = dict(rec(l["attrs"]))
    trans = attrs.pop("transparentcolor", None)
    for k in ("startx", "starty"):
        attrs.pop(k, None)
    a = xattrs(attrs)
    a.update(xmeasures(attrs, style))
    n = Node(LAYER_TAG.get(l["kind"], l["kind"]), a)
    if l["kind"] == "tile":
        n.attrs["width"] = str(l["w"])
        n.attrs["height"] = str(l["h"])
    n.add(xprops(l["props"]))
    if l["kind"] == "tile":
        n.add(xdata(l, style))
    elif l["kind"] == "object":
        n.add(*[xobject(o, style) for o in l["objects"]])
    elif l["kind"] == "image":
        if l["image"] != ["%NONE"]:
            n.add(ximage(l["image"], "n:16", "n:16", trans))
    elif l["kind"] == "group":
        n.add(*[xlayer(c, style) for c in l["children"]])
    return n


def xtileset(t, style, extra=None):
    attrs = dict(rec(t["attrs"]))
    trans = attrs.pop("transparentcolor", None)
    a = dict(extra or {})
    a.update(xattrs(attrs))
    a["tilecount"] = str(t["tilecount"])
    n = Node("tileset", a)
    if t["tileoffset"] != []:
        n.add(Node("tileoffset", xattrs(t["tileoffset"][0])))
    if t["grid"] != []:
        n.add(Node("grid", xattrs(t["grid"][0])))
    if t["transformations"] != []:
        n.add(Node("transformations", xattrs(t["transformations"][0])))
    n.add(xprops(t["props"]))
    if t["image"] != []:
        i = t["image"][0]
        n.add(ximage(i["segs"], i["w"], i["h"], trans))
    for tile in t["tiles"]:
        tattrs = rec(tile["attrs"])
        ta = {"id": str(tile["id"])}
        ta.update(xattrs({k: v for k, v in tattrs.items() if k != "class"}))
        classkeys(tattrs, style, ta, True)
        tn = Node("tile", ta)
        tn.add(xprops(tile["props"]))
        if tile["image"] != []:
            i = tile["image"][0]
            tn.add(ximage(i["segs"], i["w"], i["h"]))
        if tile["objects"] != []:
            tn.add(xlayer(tile["objects"][0], style))
        if tile["animation"] != []:
            tn.add(
                Node(
                    "animation",
                    children=[
                        Node("frame", {"tileid": str(f["tileid"]), "duration": str(f["duration"])})
                        for f in tile["animation"][0]
                    ],
                )
            )
        n.add(tn)
    if t["wangsets"] != []:
        ws = Node("wangsets")
        for w in t["wangsets"][0]:
            wa = {"name": untok(w["name"]), "type": untok(w["type"]), "tile": w["tile"][2:]}
            wa.update(xattrs(rec(w["attrs"])))
            wn = Node("wangset", wa)
            wn.add(xprops(w["props"]))
            for c in w["colors"]:
                ca = {
                    "name": untok(c["name"]),
                    "color": color_text(c["color"]),
                    "tile": c["tile"][2:],
                    "probability": c["probability"][2:],
                }
                ca.update(xattrs(rec(c["attrs"])))
                wn.add(Node("wangcolor", ca, [x for x in [xprops(c["props"])] if x]))
            for wt in w["tiles"]:
                wn.add(
                    Node(
                        "wangtile",
                        {"tileid": str(wt["tileid"]), "wangid": ",".join(str(i) for i in wt["wangid"])},
                    )
                )
            ws.add(wn)
        n.add(ws)
    return n


def xmap(s, style):
    m = s["map"]
    n = Node("map", xattrs(rec(m["attrs"])))
    n.add(xprops(m["props"]))
    for r in m["tsrefs"]:
        if r["how"] == "embedded":
            n.add(xtileset(s["tilesets"][r["ts"]], style, {"firstgid": str(r["first"])}))
        else:
            n.add(Node("tileset", {"firstgid": str(r["first"]), "source": join(r["src"])}))
    for l in m["layers"]:
        n.add(xlayer(l, style))
    return n


def xtemplate(t, style):
    n = Node("template")
    if t["tileset"] != []:
        r = t["tileset"][0]
        n.add(Node("tileset", {"firstgid": "1", "source": join(r["src"])}))
    n.add(xobject(t["object"], style, in_template=True))
    return n


# ---------------------------------------------------------------- JSON


def jval(v):
    return color_text(v) if isinstance(v, dict) else untok(v)


def jattrs(attrs):
    return {k: jval(v) for k, v in attrs.items()}


def jprops(props, style, out):
    if props == []:
        return
    if "props" in style.legacy and not style.skip():
        out["properties"] = {}
        for p in props[0]:
            v = color_text(p) if p["type"] == "color" else untok(p["val"]) if not p.get("unset") else ""
            if p.get("dots"):
                v = "./" * p["dots"] + v
            out["properties"][dec(p["name"])] = v
        return
    res = []
    for p in props[0]:
        e = {"name": dec(p["name"]), "type": p["type"]}
        if p.get("ptype"):
            e["propertytype"] = p["ptype"]
        if p["type"] == "class":
            e["propertytype"] = "Klass"
            e["value"] = {dec(n): 7 for n in p.get("inner", [])}
        elif p["type"] == "color":
            e["value"] = color_text(p)
        else:
            e["value"] = untok(p["val"]) if not p.get("unset") else ""
            if p.get("dots"):
                e["value"] = "./" * p["dots"] + e["value"]
        res.append(e)
    out["properties"] = res


def jdata(c, layer, style):
    if layer.get("enc", "csv") == "csv":
        return [ungid(x) for x in c["cells"]]
    return pack(words(c), layer.get("payload", layer.get("comp", "")), layer.get("cut"), style)


def jobject(o, style, in_template=False):
    attrs = rec(o["attrs"])
    out = jattrs({k: v for k, v in attrs.items() if k != "class"})
    out.update({k: jmeasure(out[k], style) for k in MEASURES if k in out})
    if o["template"] == []:
        for k, d in (("width", 0), ("height", 0), ("rotation", 0), ("visible", True), ("name", "")):
            out.setdefault(k, d)
        if "class" not in attrs and style.rng.random() < 0.7:
            attrs = dict(attrs)
            attrs["class"] = "s:"
            out["type"] = ""
    if in_template:
        out.pop("x", None)
        out.pop("y", None)
    a = rec(o["attrs"])
    if "class" in a:
        classkeys(a, style, out, False)
    if o["gid"] != []:
        out["gid"] = ungid(o["gid"][0])
    if o["template"] != []:
        out["template"] = join(o["template"][0]["src"])
    jprops(o["props"], style, out)
    if style.st.get("falsekinds") and not in_template and o["template"] == []:
        for k in ("ellipse", "point"):
            if style.rng.random() < 0.4:
                out[k] = False
    if o["gid"] == []:
        k = o["kind"]
        if k in ("ellipse", "point"):
            out[k] = True
        elif k in ("polygon", "polyline"):
            out[k] = [{"x": jmeasure(untok(p[0]), style), "y": jmeasure(untok(p[1]), style)} for p in o["points"]]
        elif k == "text":
            t = o["text"][0]
            out["text"] = dict(jattrs(rec(t["attrs"])), text=untok(t["text"]))
    return out


def jlayer(l, style):
    attrs = dict(rec(l["attrs"]))
    out = jattrs(attrs)
    out["type"] = JSON_TYPE.get(l["kind"], l["kind"])
    out.setdefault("name", "")
    out.setdefault("opacity", 1)
    out.setdefault("visible", True)
    out["x"] = 0
    out["y"] = 0
    jprops(l["props"], style, out)
    if l["kind"] == "tile":
        out["width"], out["height"] = l["w"], l["h"]
        if l.get("enc", "csv") == "base64":
            out["encoding"] = "base64"
            if not (l.get("comp", "") == "" and style.st.get("nocompkey")):
                out["compression"] = l.get("comp", "")
        elif style.st.get("enckey"):
            out["encoding"] = "csv"
        if l["chunks"] == []:
            out["data"] = jdata(l, l, style)
        else:
            out.setdefault("startx", 0)
            out.setdefault("starty", 0)
            out["chunks"] = [
                {"x": c["x"], "y": c["y"], "width": c["w"], "height": c["h"], "data": jdata(c, l, style)}
                for c in l["chunks"][0]
            ]
    elif l["kind"] == "object":
        out.setdefault("draworder", "topdown")
        out["objects"] = [jobject(o, style) for o in l["objects"]]
    elif l["kind"] == "image":
        out["image"] = "" if l["image"] == ["%NONE"] else join(l["image"])
    elif l["kind"] == "group":
        out["layers"] = [jlayer(c, style) for c in l["children"]]
    return out


def jtileset(t, style):
    out = jattrs(rec(t["attrs"]))
    if "version" in out and "version" in style.legacy:
        out["version"] = float(out["version"]) if "." in out["version"] else int(out["version"])
    if "columns" not in out and "columns" not in style.legacy:
        out["columns"] = 1
    out.setdefault("spacing", 0)
    out.setdefault("margin", 0)
    out["tilecount"] = t["tilecount"]
    if style.rng.random() < 0.5 and "nokind" not in style.st:
        out["type"] = "tileset"
    if t["tileoffset"] != []:
        out["tileoffset"] = jattrs(t["tileoffset"][0])
    if t["grid"] != []:
        out["grid"] = jattrs(t["grid"][0])
    if t["transformations"] != []:
        out["transformations"] = jattrs(t["transformations"][0])
    jprops(t["props"], style, out)
    if t["image"] != []:
        i = t["image"][0]
        out["image"] = join(i["segs"])
        out["imagewidth"] = untok(i["w"])
        out["imageheight"] = untok(i["h"])
    tiles = []
    for tile in t["tiles"]:
        a = rec(tile["attrs"])
        e = {"id": tile["id"]}
        e.update(jattrs({k: v for k, v in a.items() if k != "class"}))
        classkeys(a, style, e, False)
        jprops(tile["props"], style, e)
        if tile["image"] != []:
            i = tile["image"][0]
            e["image"] = join(i["segs"])
            e["imagewidth"] = untok(i["w"])
            e["imageheight"] = untok(i["h"])
        if tile["objects"] != []:
            e["objectgroup"] = jlayer(tile["objects"][0], style)
        if tile["animation"] != []:
            e["animation"] = [dict(f) for f in tile["animation"][0]]
        tiles.append(e)
    if tiles:
        if "tiles" in style.legacy and not style.skip():
            out["tiles"] = {str(e.pop("id")): e for e in tiles}
        else:
            out["tiles"] = tiles
    if t["wangsets"] != []:
        out["wangsets"] = []
        for w in t["wangsets"][0]:
            we = {"name": untok(w["name"]), "type": untok(w["type"]), "tile": untok(w["tile"])}
            we.update(jattrs(rec(w["attrs"])))
            jprops(w["props"], style, we)
            we["colors"] = []
            for c in w["colors"]:
                ce = {
                    "name": untok(c["name"]),
                    "color": color_text(c["color"]),
                    "tile": untok(c["tile"]),
                    "probability": untok(c["probability"]),
                }
                ce.update(jattrs(rec(c["attrs"])))
                jprops(c["props"], style, ce)
                we["colors"].append(ce)
            we["wangtiles"] = [{"tileid": x["tileid"], "wangid": list(x["wangid"])} for x in w["tiles"]]
            out["wangsets"].append(we)
    for k in style.st.get("empties", []):  # written, but empty
        out.setdefault(k, [])
    return out


def jmap(s, style):
    m = s["map"]
    out = jattrs(rec(m["attrs"]))
    out["type"] = "map"
    if "version" in style.legacy:
        v = out["version"]
        out["version"] = float(v) if "." in v else int(v)
    jprops(m["props"], style, out)
    out["tilesets"] = []
    for r in m["tsrefs"]:
        if r["how"] == "embedded":
            e = jtileset(s["tilesets"][r["ts"]], style)
            e["firstgid"] = r["first"]
        else:
            e = {"firstgid": r["first"], "source": join(r["src"])}
        out["tilesets"].append(e)
    out["layers"] = [jlayer(l, style) for l in m["layers"]]
    return out


def jtemplate(t, style):
    out = {"type": "template", "object": jobject(t["object"], style, in_template=True)}
    if t["tileset"] != []:
        out["tileset"] = {"firstgid": 1, "source": join(t["tileset"][0]["src"])}
    return out


NOISE_JSON = [
    ("vp_unknown", 1),
    ("locked", True),
    ("editorsettings", {"export": {"format": "json", "target": "a"}}),
    ("newfeature", [{"name": "ghost", "type": "int", "value": 1}]),
    ("mode", "multiply"),
    ("x-layers", [{"type": "vp"}]),
    ("nothing", None),
    ("capsule", True), ("rect", [1, 2]), ("bounds", {"x": 1, "y": 2, "width": 3, "height": 4}), ("compressionlevel", -1), ("filename", "x.tmx"),
    ("hidden", 0), ("children", []), ("empty", ""), ("scale", 0.5), ("tags", ["a"]), ("comment", {"type": "group", "layers": [{"type": "vp"}]}),
] + [(w, v) for w, v in zip(NOISE_WORDS, [1, 0, True, False, None, "", "x", [], {}, [{}], 0.5, -1] * 9) if w not in ("capsule", "rect", "bounds", "compressionlevel", "filename", "hidden", "scale", "tags", "comment", "children", "mode", "locked")]
# objects of the document whose keys are data, not keywords, get no noise
DATA_KEYS = ("properties", "tiles", "value")


# strings that also are keys or keywords of the documents
RESERVED = {"", "a", "0"}


def jnoise(v, style, parent=None):
    if isinstance(v, dict):
        items = [(k, jnoise(x, style, k)) for k, x in v.items()]
        if parent not in DATA_KEYS:
            if style.noise and style.rng.random() < 0.5 * style.noise:
                k, x = style.rng.choice(NOISE_JSON)
                if v and style.rng.random() < 0.4:
                    k = near(style.rng.choice(list(v)), style.rng, v)
                    if style.rng.random() < 0.4:
                        x = "automatic"
                if k not in v:
                    items.insert(style.rng.randrange(len(items) + 1), (k, x))
            if style.noise == 3:  # all of them at once
                have = {k for k, _ in items}
                items += [(w, style.rng.choice([1, 0, True, False, None, "", "x", [], {}, [{}], 0.5, -1, [1, 2], "#ff0000"])) for w in NOISE_WORDS if w not in have and w not in v]
            if style.shuffle:
                style.rng.shuffle(items)
        return dict(items)
    if isinstance(v, list):
        return [jnoise(x, style, None) for x in v]
    return v


def jtext(v, style):
    if "trees" in style.st:
        style.st["trees"].append({"file": style.salt, "fmt": "json", "tree": jtree_of(v)})
    at = style.st.get("noiseat")
    if at and at["file"] == style.salt:
        v = jnoise_at(v, at["path"], at["what"])
    v = jnoise(v, style)
    ind = style.indent if style.indent else None
    sep = (",", ":") if not style.indent else (",", ": ")
    if style.noise and style.rng.random() < 0.3:
        sep = (" , ", " : ")
    text = json.dumps(v, indent=ind, ensure_ascii=style.ascii, separators=sep)
    spell = style.st.get("spell")
    if spell:
        for t, src in spell["json"].items():
            text = text.replace(json.dumps(t, ensure_ascii=style.ascii), '"' + src + '"')
    return (style.lead + text).encode(
        "utf-8", "surrogatepass"
    )


# ---------------------------------------------------------------- scenario


VPROOT = "/@VPROOT@"  # the worker's scratch directory: begins an absolute path


def join(*segs):
    return "/".join(VPROOT if x == "//" else dec(x) for part in segs for x in part)


def real(path, links, seen=None):
    """Where a walk along PATH ends, when the directories LINKS lead elsewhere."""
    here = []
    for x in path.split("/"):
        if x == VPROOT[1:]:
            here = []
        elif x == "..":
            here = here[:-1]
        elif x not in ("", "."):
            here = here + [x]
            if seen is not None and "/".join(here) not in links:
                seen.add("/".join(here))
            here = links.get("/".join(here), "/".join(here)).split("/")
    return "/".join(here)


def write_tileset(t, how, style):
    if how == "tmx":
        return xml(xtileset(t, style), style)
    return jtext(jtileset(t, style), style)


def render(s):
    files = {}
    st = s.get("style") or {}

    links = {join(l["at"]): join(l["to"]) for l in s.get("links", [])}

    def put(path, data):
        norm = real(path, links)
        if norm in files and files[norm] != data:
            raise AssertionError("two contents for " + norm)
        files[norm] = data
        return norm

    fmt = s["fmt"]
    if s["call"] == "tileset":
        name = join(s["mapdir"], [s.get("file", "set.tsx" if fmt == "tmx" else "set.tsj")])
        data = write_tileset(s["tilesets"][s["entry"]], fmt, Style(st, "entry"))
        return {put(name, data): data}, name
    name = join(s["mapdir"], [s.get("file", "map.tmx" if fmt == "tmx" else "map.tmj")])
    style = Style(st, "map")
    data = xml(xmap(s, style), style) if fmt == "tmx" else jtext(jmap(s, style), style)
    put(name, data)
    dirs = [name]
    for r in s["map"]["tsrefs"]:
        if r["how"] != "embedded":
            p = join(s["mapdir"], r["src"])
            dirs.append(p)
            put(p, write_tileset(s["tilesets"][r["ts"]], r["how"], Style(st, "ts" + real(p, links))))

    def objs(ls):
        for l in ls:
            yield from l.get("objects", [])
            yield from objs(l.get("children", []))

    for o in objs(s["map"]["layers"]):
        if o["template"] == []:
            continue
        tr = o["template"][0]
        p = join(s["mapdir"], tr["src"])
        dirs.append(p)
        t = s["templates"][tr["tpl"]]
        tst = Style(st, "tpl" + real(p, links))
        put(p, xml(xtemplate(t, tst), tst) if t["fmt"] == "tmx" else jtext(jtemplate(t, tst), tst))
        if t["tileset"] != []:
            r = t["tileset"][0]
            q = posixpath.dirname(p) + "/" + join(r["src"]) if posixpath.dirname(p) else join(r["src"])
            dirs.append(q)
            put(q, write_tileset(s["tilesets"][r["ts"]], r["how"], Style(st, "ts" + real(q, links))))
    # directories a written path goes through must exist
    extra = set(links.values())
    for p in dirs:
        real(posixpath.dirname(p), links, extra)
    files["//dirs"] = sorted(extra)
    return files, name
