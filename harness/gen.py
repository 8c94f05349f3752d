"""Seeded generator of scenarios (abstract documents, see spec/Tiled.tla).

Gen(rng, focus) makes documents rich in the features named by FOCUS and plain
in the others, so that each check explores its own subject deeply.
"""
import copy
import json

from doc import enc, encpath, flag, gid, num, rec, txt, untok

PLAIN = ["a", "Ground", "layer 1", "x_1", "Tile Layer 2"]
FUNNY = [
    "", " ", "  lead", "trail  ", "a\tb", "line1\nline2", "\n", "quote\"'", "<b>&amp;</b>", "&lt;", "]]>", "--",
    "é", "日本語", "😀 emoji", "Привет", "a\u00a0b", "\u200b", "0", "false", "None", "null", "#ff0000", "a/b", "\\n", "%41", "ß\u0301",
    "x" * 70, "a  b", "\u2028", "1e5", "-0", "true", "\r\n", "a\rb", "\ufeffz", "${x}", "{}", "[]", "ＡＢ", "tab\t", "\u0085",
    # equal to others only after some normalisation
    "e\u0301", "\u212b", "A\u030a", "\ufb01", "\u2460", "\uac00", "\u1100\u1161", "\u00df", "ss", "\u0130", "i\u0307", "\u03c2", "\uff21", "\u2003", "\u00ad", "\u200d", "\u202e",
    "\ufffd", "\ue000", "\U0010fffd", "A", "MiXeD", "UPPER",
    # that look like something else
    "file:x.png", "http://a.b/c?d=e&f=g#h", "C:\\dir\\x", "../up", "./x", "~/x", "#abc", "ff0000", "1.0", "1,2,3", "nan", "inf", "yes", "on", "True", "none", "undefined", "0x10", "1_000",
    "%d %s", "{0}", "$1", "\\u0041", "\\x41", "&amp;amp;", "&#65;", "<!-- c -->", "<?pi?>", "<![CDATA[x]]>", "\\", "\\\\", "/", "//", "'", '"', "''", "`", ";", "=", "a=b", "@", "*", "?", ".", "..", "-", "_",
    "template", "properties", "w" * 300 + "\u00e9", "line\n" * 40, "  two  ", "\n\nx\n\n", "a\n  b\n\tc",
]
# text that could be taken for something else
LOOKALIKE = ["007", "00", "0", "1", "-1", "+5", "1.50", "1e3", ".5", "5.", "1_0", "0x1F", " 12 ", "12 ", "true", "false", "True", "FALSE", "yes", "no", "on", "none", "None", "null", "nan", "inf",
             "-inf", "[]", "{}", "()", "#112233", "#80112233", "112233", "a/b", "../a", "a.png", "file:a", "C:\\a", "1,2", "int", "bool", "class", "12345678901234567890", "0.1000", "1.0", "\u0661", "\u00bd", "''", '""', '"a"',
             "%20", "&lt;", "\\n", "2024-01-01", "12:30", "a<br>b", "<br/>", "<i>x</i>", "[b]x[/b]", "**x**", "&nbsp;", "%s", "{x}", "$HOME", "a\\tb", ":smile:", "\\", "a\\", "\\r\\n", "x\\u00e9", "# x", "// x", "x;y", "...", "--", "(c)",
             "object", "Enum", "\u2212" + "1", "1\u00a0000"]
NUMS = ["n:0", "n:1", "n:2", "n:16", "n:-1", "n:0.5", "n:-3.25", "n:100000", "n:0.1", "n:33.3333", "n:-0.001", "n:1234567.125", "n:1e-05", "n:-2.5e-07",
        "n:1000000", "n:-16777217", "n:4294967296", "n:0.30000000000000004", "n:359.99", "n:-360", "n:720", "n:1e-10"]
INTS = ["n:0", "n:1", "n:2", "n:3", "n:16", "n:255", "n:1000"]
ORIENT = ["orthogonal", "isometric", "staggered", "hexagonal"]
ORDERS = ["right-down", "right-up", "left-down", "left-up"]
ENCS = [("csv", ""), ("base64", ""), ("base64", "zlib"), ("base64", "gzip")]
HEX = list(range(16))
# names of images: without a suffix, with blanks, other scripts, other cases, several dots
IMAGES = [["noext"], ["dir", "noext"], ["a%20b.png"], ["my%20dir", "x.png"], ["Upper.PNG"], ["%E6%97%A5%E6%9C%AC.png"], ["%C3%A9", "%C3%BC.jpg"],
          ["a%2520b.png"], ["%2541%2542.png"], ["dir%5Cx.png"], ["a%2Bb.png"], ["%24HOME", "x.png"], ["a%26amp%3Bb.png"], ["C%3A", "x.png"], ["file%3Ax.png"], ["e%CC%81.png"], ["%20lead.png"], ["trail%20"], ["x%3By%2Cz.png"],
          ["t.PNG"], ["v1.2.final.png"], [".hidden"], ["x.tsx"], ["d.ir", "y"], ["%23hash%3F.png"], ["100%25.png"], ["~", "t.png"], ["a", "b", "c", "d.png"]]


# what a document can have a great many (or a great size) of
BIG = ["objects", "points", "layers", "tilesets", "tiles", "props", "strings", "chunks", "frames", "wang", "templates", "ids", "ints", "words"]


class Gen:
    def __init__(self, rng, focus=(), fmt="tmx", plain=False, big=()):
        self.r = rng
        self.big = set(big)
        self.crowded = set()
        self.plain = plain
        self.focus = set(focus)
        self.fmt = fmt
        self.next_obj = self.start()
        self.next_layer = self.start()

    def f(self, feature, hi=0.7, lo=0.08):
        return self.r.random() < (hi if feature in self.focus else 0 if self.plain else lo)

    def some(self, usual, what, top):
        """How many: usually one of USUAL, a great many in a big document."""
        if "crowd" in self.big and what in self.big:  # beyond every usual number, but once
            if what not in self.crowded or self.r.random() < 0.02:
                self.crowded.add(what)
                return self.r.randrange(top * 4, top * 12)
            return self.r.choice(usual)
        return self.r.randrange(top // 3, top + 1) if what in self.big and self.r.random() < 0.7 else self.r.choice(usual)

    def start(self):
        return self.r.choice([250, 9990, 65530, 99998, 16777210]) if "ids" in self.big else 1

    # ------------------------------------------------------------ values
    def string(self):
        if "strings" in self.big and self.r.random() < 0.1:
            return self.r.choice(["x", "ab ", "\u00e9", "\u65e5\u672c", "line of text\n", "1,2,"]) * self.r.choice([150, 1000, 4100, 9000]) + "."
        if "words" in self.big:
            return " ".join(self.r.choice(PLAIN + FUNNY) for _ in range(self.r.randrange(2, 60)))
        if "text" in self.focus and self.r.random() < 0.8 or self.r.random() < 0.1:
            s = self.r.choice(FUNNY)
            if self.r.random() < 0.3:
                s += self.r.choice(FUNNY)
            if self.r.random() < 0.15:
                s = "".join(chr(self.r.choice([self.r.randrange(0x20, 0x7F), self.r.randrange(0xA1, 0x600), self.r.randrange(0x2000, 0x2070), self.r.randrange(0xFE00, 0xFE10), self.r.choice([0x2028, 0x2029, 0x85, 0xAD, 0xFEFF, 0x3000, 0x1680, 0x180E, 0x61C]), self.r.randrange(0x3040, 0x30FF), self.r.randrange(0x1F300, 0x1F5FF)])) for _ in range(self.r.randrange(1, 9)))
            return s
        return self.r.choice(PLAIN)

    def text(self):
        return txt(self.string())

    def num(self):
        c = self.r.random()
        if c < 0.25:
            return num(round(self.r.uniform(-500, 500), self.r.choice([0, 1, 3, 6])))
        if c < 0.32:
            return num(round(self.r.uniform(-1, 1), self.r.choice([2, 4, 8])) * self.r.choice([1, 1000, 100000]))
        return self.r.choice(NUMS)

    def posnum(self):
        if self.r.random() < 0.25:
            return num(round(self.r.uniform(0, 900), self.r.choice([0, 1, 3, 6])))
        return self.r.choice([n for n in NUMS if not n.startswith("n:-")])

    def side(self):
        return self.r.choice(["n:-1", "n:-0.5", "n:-16", "n:-123.25"]) if self.r.random() < 0.04 else self.posnum()

    def fraction(self):
        """Between nothing and all, with any number of digits."""
        if self.r.random() < 0.5:
            return num(round(self.r.random(), self.r.choice([1, 2, 3, 4, 6])))
        return self.r.choice(["n:0", "n:0", "n:0.5", "n:1", "n:0.33", "n:0.125", "n:0.004"])

    def int_(self, lo=0, hi=2000):
        if "ints" in self.big and self.r.random() < 0.5:
            return "n:%d" % self.r.choice([65535, 65536, 100000, 8388608, 16777217, 2147483647, self.r.randrange(1 << 31)])
        if self.r.random() < 0.4:
            return "n:%d" % self.r.randrange(lo, hi)
        return self.r.choice([n for n in INTS if int(n[2:]) >= lo])

    def color(self):
        n = self.r.choice([6, 8])
        h = [self.r.choice(HEX) for _ in range(n)]
        c = self.r.random()
        if c < 0.15:
            h = [self.r.choice([0, 15])] * n
        elif c < 0.25:  # gray
            h[-6:] = h[-2:] * 3
        elif c < 0.32:  # two channels equal, or a channel and the alpha
            i, j = self.r.sample(range(0, n, 2), 2)
            h[i : i + 2] = h[j : j + 2]
        elif c < 0.38:  # one channel only
            i = self.r.randrange(0, n, 2)
            h = [x if j in (i, i + 1) else 0 for j, x in enumerate(h)]
        elif c < 0.42:  # the digits of each channel equal
            h = [h[j // 2 * 2] for j in range(n)]
        elif c < 0.48:  # letters only
            h = [self.r.randrange(10, 16) for _ in range(n)]
        elif c < 0.54:  # no letters
            h = [self.r.randrange(10) for _ in range(n)]
        elif c < 0.58:  # the digits in a row
            a, d = self.r.randrange(16), self.r.choice([1, -1])
            h = [(a + d * j) % 16 for j in range(n)]
        elif c < 0.68:  # few different bytes, and special ones
            pool = self.r.sample([(0, 0), (15, 15), (7, 15), (8, 0), (0, 15), (15, 0), (1, 0), (0, 1), (10, 10), (15, 14), (self.r.choice(HEX), self.r.choice(HEX))], self.r.choice([2, 2, 3]))
            h = [x for _ in range(n // 2) for x in self.r.choice(pool)]
        elif c < 0.72 and n == 8:  # gray, with a special alpha
            h = list(self.r.choice([(0, 0), (15, 15), (8, 0), (7, 15)])) + [self.r.choice(HEX), self.r.choice(HEX)] * 3
        return {"hex": h, "hash": self.r.random() < 0.8, "upper": self.r.random() < 0.4}

    def hashed(self):
        c = self.color()
        c["hash"] = True
        return c

    def opt(self, attrs, key, make, hi=0.6, lo=0.05, feature="attrs"):
        if self.f(feature, hi, lo):
            attrs[key] = make()

    # ------------------------------------------------------------ properties
    def prop(self, name, types=None):
        t = self.r.choice(types or ["string", "string", "int", "float", "bool", "file", "color", "object"])
        p = {"name": enc(name), "type": t, "val": "none", "hex": []}
        if t == "string":
            s = self.string() if self.r.random() < 0.7 else self.r.choice(LOOKALIKE)
            if self.r.random() < 0.25:
                s = self.r.choice(["", "two\nlines", "a\n\nb\n", "\nx", "0", "false", "None", " "])
            p["val"] = txt(s)
            if self.r.random() < 0.2:
                p["typed"] = True
        elif t == "int":
            p["val"] = self.r.choice(["n:0", "n:1", "n:-7", "n:2147483647", "n:-2147483648", "n:42", "n:%d" % self.r.randrange(-9999, 99999)])
        elif t == "float":
            p["val"] = self.num()
        elif t == "bool":
            p["val"] = flag(self.r.random() < 0.5)
        elif t == "file":
            p["val"] = "p:" + self.r.choice(["a.png", "../b/c.txt", "dir/x.json", "a%20b.png", "../z", ".", "noext", "A/B.C/d", "%C3%A9.png", "../../up", "a.b.c", ".hidden", "dir/.x/y", "dir%5Csub%5Cx.png", "..%5Cup.png", "50%25.txt", "a%2520b.png", "~/x", "%24HOME/x",
                                           "%24%7BX%7D.png", "C%3A/x/y", "file%3Ax", "%23a%3Fb%3Dc", "a%2Bb", "A.PNG", "e%CC%81.png", "%20a%20", "a%0Ab"])
            if self.r.random() < 0.1:
                p["val"] = self.r.choice(["p:/", "p:/abs/x.png", "p:/a%20b/.c", "p:/usr/share/x"])
            elif p["val"] == "p:." and self.r.random() < 0.6:
                p["unset"] = True
            elif self.r.random() < 0.2 and p["val"] != "p:.":
                p["dots"] = self.r.choice([1, 1, 2])
        elif t == "color":
            p.update(self.color())
        elif t == "object":
            p["val"] = self.r.choice(["n:0", "n:1", "n:17", "n:%d" % self.r.randrange(2000)])
        elif t == "class":
            p["inner"] = [enc(n) for n in self.r.sample(["hp", "a", "b", "inner", "n1"], 2)]
        if t in ("string", "int") and self.r.random() < 0.15:
            p["ptype"] = "Enum"
        return p

    def propnames(self, k):
        if k > 8:
            return ["p%d" % i for i in self.r.sample(range(1000), k)]
        pool = ["a", "b", "n1", "hp", "Name", "name", "value", "type", "Z z", "x.y", "class", "properties"]
        if "text" in self.focus:
            pool = pool + [f for f in FUNNY if f]
        return self.r.sample(pool, k)

    def props(self, hi=0.7, lo=0.06, plain=False, feature="props"):
        if not self.f(feature, hi, lo):
            return []
        names = self.propnames(self.some([1, 1, 2, 3, 5], "props", 60))
        types = ["string", "int", "float", "bool"] if plain else None
        out = [self.prop(n, types) for n in names]
        if not plain and self.r.random() < 0.15:
            out.insert(self.r.randrange(len(out) + 1), self.prop("klass", ["class"]))
        if self.r.random() < 0.03:
            out = [self.prop(n, ["class"]) for n in names[:1]]
        return [out]

    # ------------------------------------------------------------ objects
    def points(self):
        n = self.some([1, 2, 3, 4, 7, 12, 25], "points", 300)
        ps = [[self.num(), self.num()] for _ in range(n)]
        if n > 2 and self.r.random() < 0.3:
            ps[-1] = ps[0]
        return ps

    def textdoc(self):
        a = {}
        self.opt(a, "color", self.hashed, 0.5, 0.1, "objects")
        self.opt(a, "fontfamily", self.text, 0.5, 0.1, "objects")
        self.opt(a, "pixelsize", lambda: self.r.choice(["n:0", "n:8", "n:16", "n:33", "n:%d" % self.r.randrange(300), "n:12.5", self.posnum()]), 0.5, 0.1, "objects")
        for k in ("bold", "italic", "kerning", "strikeout", "underline", "wrap"):
            self.opt(a, k, lambda: flag(self.r.random() < 0.5), 0.5, 0.1, "objects")
        self.opt(a, "halign", lambda: self.r.choice(["s:left", "s:center", "s:right", "s:justify"]), 0.5, 0.1, "objects")
        self.opt(a, "valign", lambda: self.r.choice(["s:top", "s:center", "s:bottom"]), 0.5, 0.1, "objects")
        return {"text": self.text(), "attrs": a}

    def oattrs(self, hi=0.6, feature="objects"):
        a = {}
        self.opt(a, "width", self.side, hi, 0.4, feature)
        self.opt(a, "height", self.side, hi, 0.4, feature)
        self.opt(a, "rotation", self.num, hi, 0.1, feature)
        self.opt(a, "visible", lambda: flag(self.r.random() < 0.3), hi, 0.1, feature)
        self.opt(a, "name", self.text, hi, 0.4, feature)
        self.opt(a, "class", self.text, hi, 0.1, feature)
        return a

    def base_object(self):
        a = self.oattrs()
        a["id"] = "n:%d" % self.next_obj
        self.next_obj += 1
        a["x"], a["y"] = self.num(), self.num()
        return {
            "attrs": a, "kind": "rectangle", "points": [], "text": [], "gid": [],
            "props": self.props(0.5), "template": [],
        }

    def shape(self, o, kinds=None):
        k = self.r.choice(kinds or ["rectangle", "ellipse", "point", "polygon", "polyline", "text"] + ["polygon", "polyline"] * 3 * ("points" in self.big))
        o["kind"] = k
        if k in ("polygon", "polyline"):
            o["points"] = self.points()
        if k == "text":
            o["text"] = [self.textdoc()]
        return o

    def flags(self):
        return self.r.choice([0, 0, 8, 4, 2, 1, 12, 15, 10])

    def object_(self, gids=None):
        o = self.base_object()
        if gids and self.r.random() < 0.3:
            o["kind"] = "tile"
            o["gid"] = [[self.flags(), self.r.choice(gids)]]
            return o
        return self.shape(o)

    # ------------------------------------------------------------ layers
    def lattrs(self, kind):
        a = {}
        if self.r.random() < 0.9:
            a["id"] = "n:%d" % self.next_layer
            self.next_layer += 1
        if self.r.random() < 0.9:
            a["name"] = self.text()
        self.opt(a, "opacity", self.fraction)
        self.opt(a, "visible", lambda: flag(self.r.random() < 0.3))
        self.opt(a, "offsetx", self.num)
        self.opt(a, "offsety", self.num)
        self.opt(a, "parallaxx", self.num)
        self.opt(a, "parallaxy", self.num)
        if self.f("attrs", 0.4, 0.03) or self.f("colors", 0.7, 0):
            a["tintcolor"] = self.color()
        self.opt(a, "class", self.text)
        self.opt(a, "repeatx", lambda: flag(self.r.random() < 0.6))
        self.opt(a, "repeaty", lambda: flag(self.r.random() < 0.6))
        if kind == "object":
            self.opt(a, "draworder", lambda: self.r.choice(["s:topdown", "s:index"]))
        if kind == "image" and (self.f("attrs", 0.4, 0.05) or self.f("colors", 0.7, 0)):
            a["transparentcolor"] = self.color()
        return a

    def cellv(self):
        c = self.r.random()
        if c < 0.3:
            return 0
        if c < 0.7:
            return self.r.randrange(0, 300)
        if c < 0.85:
            return self.r.randrange(0, 1 << 32)
        return self.r.choice([0x80000001, 0x40000001, 0x20000001, 0xFFFFFFFF, 0x10000000, 255, 256, 65535, 65536, 1 << 24, 0xE0000010, 0x7FFFFFFF])

    def cells(self, w, h):
        return [gid(self.cellv()) for _ in range(w * h)]

    def size(self):
        return self.r.choice([1, 1, 2, 3, 4, 5]), self.r.choice([1, 1, 2, 3, 4])

    def layer(self, kind, infinite=False, depth=0, gids=None, collision=False):
        l = {
            "kind": kind, "attrs": self.lattrs(kind), "props": self.props(0.5), "w": 0, "h": 0, "cells": [],
            "chunks": [], "enc": "csv", "comp": "", "objects": [], "image": [], "children": [],
        }
        if kind == "tile":
            if not self.plain or self.focus & {"data", "chunks"}:
                l["enc"], l["comp"] = self.r.choice(ENCS)
            l["w"], l["h"] = self.size()
            if infinite:
                n = self.some([0, 1, 1, 2, 3], "chunks", 80)
                l["chunks"] = [[]]
                for _ in range(n):
                    w, h = self.size()
                    l["chunks"][0].append(
                        {"x": self.r.choice([0, -16, 16, -32, 5, 16 * self.r.randrange(-9999, 9999)]), "y": self.r.choice([0, -16, 16, 48, 16 * self.r.randrange(-9999, 9999)]), "w": w, "h": h, "cells": self.cells(w, h)}
                    )
                if self.fmt == "json" and (self.f("attrs", 0.5, 0.3) or self.f("chunks", 0.5, 0)):
                    at = lambda k: "n:%d" % min(c[k] for c in l["chunks"][0]) if l["chunks"][0] and self.r.random() < 0.5 else self.r.choice(["n:0", "n:-16", "n:5", "n:16", "n:-32", "n:48"])
                    l["attrs"]["startx"], l["attrs"]["starty"] = at("x"), at("y")
            else:
                l["cells"] = self.cells(l["w"], l["h"])
        elif kind == "object":
            n = self.some([1], "objects", 150) if "objects" in self.big and not collision else self.r.choice([4, 8, 12]) if "points" in self.big else self.r.choice([0, 1, 2, 4, 4, 12]) if ("objects" in self.focus or collision) else self.r.choice([0, 1, 1])
            l["objects"] = [self.object_(None if collision else gids) for _ in range(n)]
        elif kind == "image":
            l["image"] = self.r.choice(IMAGES + [["bg.png"], ["..", "img", "b.png"], [".", "c.png"], ["d", "..", "e.png"]])
        return l

    def forest(self, n, depth, infinite, gids):
        out = []
        for _ in range(n):
            kinds = ["tile", "object", "image"]
            if depth > 0:
                kinds += ["group", "group"] if "layers" in self.focus else ["group"]
            if self.big & {"objects", "points"}:
                kinds += ["object"] * 4
            k = self.r.choice(kinds)
            l = self.layer(k, infinite, depth, gids)
            if k == "group":
                l["children"] = self.forest(self.r.choice([0, 1, 2, 3]), depth - 1, infinite, gids)
            out.append(l)
        return out

    # ------------------------------------------------------------ tilesets
    def imgsegs(self):
        return self.r.choice(IMAGES + [["t.png"], ["img", "t.png"], ["..", "t.png"], [".", "t.png"], ["..", "..", "up.png"], ["a", "..", "b.png"]])

    def image(self):
        return {"segs": self.imgsegs(), "w": "n:%d" % self.r.choice([16, 64, 100, self.r.randrange(5000)]), "h": "n:%d" % self.r.choice([16, 32, 7, self.r.randrange(5000)])}

    def tile(self, i, coll):
        a = {}
        self.opt(a, "class", self.text, 0.5, 0.1, "tiles")
        if self.f("tiles", 0.3, 0.03):
            for k in ("x", "y", "width", "height"):
                if self.r.random() < 0.6:
                    a[k] = self.int_()
        t = {"id": i, "attrs": a, "image": [], "animation": [], "objects": [], "props": self.props(0.5)}
        if coll:
            t["image"] = [self.image()]
        if self.f("tiles", 0.4, 0.05):
            t["animation"] = [[{"tileid": self.r.randrange(self.r.choice([9, 2000])), "duration": self.r.choice([0, 1, 100, 250, self.r.randrange(100000)])} for _ in range(self.some([0, 1, 1, 2, 2, 4, 4, 13], "frames", 200))]]
        if self.f("tiles", 0.4, 0.08):
            l = self.layer("object", collision=True)
            if "name" not in l["attrs"]:
                l["attrs"]["name"] = "s:"
            l["attrs"].pop("repeatx", None)
            t["objects"] = [l]
        return t

    def wangset(self, count):
        cols = [
            {
                "name": self.text(), "attrs": {"class": self.text()} if self.f("wang", 0.5) else {}, "color": self.color(),
                "probability": self.fraction() if self.r.random() < 0.7 else self.posnum(), "tile": self.r.choice(["n:-1", "n:0", "n:3", "n:%d" % self.r.randrange(2000)]),
                "props": self.props(0.4),
            }
            for _ in range(self.some([0, 1, 2, 3, 12], "wang", 60))
        ]
        k = self.some([0, 1, 2, 4, 11], "wang", 200)
        ids = self.r.sample(range(0, max(k, self.r.choice([30, 1500]))), k)
        top = self.r.choice([5, 5, 255])
        return {
            "name": self.text(), "attrs": {"class": self.text()} if self.f("wang", 0.5) else {},
            "tile": self.r.choice(["n:-1", "n:0", "n:5", "n:%d" % self.r.randrange(2000)]), "type": self.r.choice(["s:corner", "s:edge", "s:mixed"]),
            "props": self.props(0.4), "colors": cols,
            "tiles": [{"tileid": i, "wangid": [self.r.randrange(0, top) for _ in range(8)]} for i in ids],
        }

    def tileset(self, name, coll=None):
        a = {"name": txt(name), "tilewidth": self.int_(1), "tileheight": self.int_(1)}
        if self.r.random() < 0.9:
            a["columns"] = self.int_()
        self.opt(a, "spacing", self.int_)
        self.opt(a, "margin", self.int_)
        self.opt(a, "tilerendersize", lambda: self.r.choice(["s:tile", "s:grid"]))
        self.opt(a, "fillmode", lambda: self.r.choice(["s:stretch", "s:preserve-aspect-fit"]))
        self.opt(a, "tiledversion", lambda: self.r.choice(["s:1.10.1", "s:2020.09.01", "s:1.9"]))
        self.opt(a, "version", lambda: self.r.choice(["s:1.10", "s:1.9", "s:1.6"]))
        self.opt(a, "class", self.text)
        self.opt(a, "objectalignment", lambda: self.r.choice(["s:unspecified", "s:topleft", "s:bottom"]))
        if self.f("attrs", 0.4, 0.03) or self.f("colors", 0.7, 0):
            a["backgroundcolor"] = self.color()
        if coll is None:
            coll = self.r.random() < 0.3
        count = self.some([1, 2, 4, 6, 10, 10, 300], "tiles", 5000)
        t = {
            "attrs": a, "tilecount": count, "image": [], "tileoffset": [], "grid": [], "transformations": [],
            "props": self.props(0.5), "tiles": [], "wangsets": [],
        }
        if not coll:
            t["image"] = [self.image()]
            if self.f("attrs", 0.4, 0.03) or self.f("colors", 0.7, 0):
                a["transparentcolor"] = self.color()
        if self.f("attrs", 0.5, 0.05):
            t["tileoffset"] = [{"x": self.r.choice(["n:0", "n:-4", "n:7", "n:%d" % self.r.randrange(-300, 300)]), "y": self.r.choice(["n:0", "n:-4", "n:9", "n:%d" % self.r.randrange(-300, 300)])}]
        if self.f("attrs", 0.5, 0.05):
            t["grid"] = [{"orientation": self.r.choice(["s:orthogonal", "s:isometric"]), "width": self.int_(), "height": self.int_()}]
        if self.f("attrs", 0.5, 0.05):
            t["transformations"] = [{k: flag(self.r.random() < 0.5) for k in ("hflip", "vflip", "rotate", "preferuntransformed")}]
        if coll:
            count = t["tilecount"] = min(count, 60 if "tiles" in self.big else 12)
            ids = list(range(count))
            if self.r.random() < 0.5:
                ids = sorted(self.r.sample(range(count * self.r.choice([3, 120])), count))
            if self.r.random() < 0.3:
                self.r.shuffle(ids)
            t["tiles"] = [self.tile(i, True) for i in ids]
        elif self.f("tiles", 0.9, 0.15):
            ids = self.r.sample(range(count), self.r.choice([k for k in (1, 2, 4) if k <= count]) if "tiles" not in self.big else min(count, self.r.randrange(1, 120)))
            t["tiles"] = [self.tile(i, False) for i in ids]
        if self.f("wang", 0.9, 0.05):
            t["wangsets"] = [[self.wangset(count) for _ in range(self.some([1, 1, 2], "wang", 6))]]
        return t

    @staticmethod
    def extent(t):
        return max([t["tilecount"]] + [x["id"] + 1 for x in t["tiles"]])

    # ------------------------------------------------------------ map
    def mattrs(self, infinite):
        a = {
            "width": self.int_(1), "height": self.int_(1), "tilewidth": self.int_(1), "tileheight": self.int_(1),
            "orientation": txt(self.r.choice(ORIENT)), "renderorder": txt(self.r.choice(ORDERS)),
            "version": self.r.choice(["s:1.10", "s:1.9", "s:1.2"]), "nextobjectid": self.int_(),
            "infinite": flag(infinite),
        }
        if self.f("attrs", 0.15, 0.04):
            a.update({k: "n:0" for k in self.r.choice([("width", "height"), ("width", "height"), ("width",), ("tilewidth", "tileheight")])})
        if not infinite and self.f("attrs", 0.2, 0.02):
            del a["infinite"]
        if not self.f("attrs", 0.2, 0.02):
            a["nextlayerid"] = self.int_()
        if not self.f("attrs", 0.2, 0.02):
            a["tiledversion"] = self.r.choice(["s:1.10.2", "s:1.9.0", "s:2018.01.01"])
        if self.f("attrs", 0.4, 0.05) or self.f("colors", 0.7, 0):
            a["backgroundcolor"] = self.color()
        self.opt(a, "hexsidelength", self.int_)
        self.opt(a, "staggeraxis", lambda: self.r.choice(["s:x", "s:y"]))
        self.opt(a, "staggerindex", lambda: self.r.choice(["s:odd", "s:even"]))
        self.opt(a, "class", self.text)
        self.opt(a, "parallaxoriginx", self.num)
        self.opt(a, "parallaxoriginy", self.num)
        return a

    def tsname(self, i):
        return "set%d" % i if "text" not in self.focus else self.string() + str(i)

    def place(self, how, i):
        ext = "tsx" if how == "tmx" else "tsj"
        return self.r.choice(
            [["set%d.%s" % (i, ext)], ["tilesets", "set%d.%s" % (i, ext)], ["..", "shared", "set%d.%s" % (i, ext)],
             [".", "set%d.%s" % (i, ext)], ["tilesets", "..", "set%d.%s" % (i, ext)], ["my%20sets", "set%d.%s" % (i, ext)]]
            + [[self.r.choice(["set%%2520%d.%s", "a%%2Bset%d.%s", "%%C3%%89t%d.%s", "SET%d.%s", "%%23set%d%%3Fx.%s", "%%24set%d.%s", "v1.%d.x.%s", "%%2541%d.%s", "set%d.v2.%s", "e%%CC%%81%d.%s", "a%%26amp%%3B%d.%s", "a%%5C%d.%s"]) % (i, ext)]]
        )

    def map_(self, sid, hows=None):
        infinite = self.f("chunks", 0.95, 0.1)
        s = {
            "id": sid, "call": "map", "fmt": self.fmt, "mapdir": ["p", "q", "r"] + self.r.choice([["m"], ["m", "sub"], ["w%20x"], ["m", "sub", "deep"]]),
            "file": "map.tmx" if self.fmt == "tmx" else "map.tmj", "via": "abs",
            "map": {}, "tilesets": {}, "templates": {}, "style": {"seed": self.r.randrange(1 << 20)},
        }
        nts = self.some([0, 1, 2, 3] if "tilesets" in self.focus else [0, 1, 1, 2], "tilesets", 30)
        refs, first, gids = [], self.r.choice([1] * 7 + [2, 5, 40, 3000]), []
        for i in range(nts):
            k = "t%d" % i
            t = self.tileset(self.tsname(i))
            s["tilesets"][k] = t
            how = self.r.choice(hows or ["embedded", "tmx", "json"])
            refs.append({"first": first, "ts": k, "how": how, "src": [] if how == "embedded" else self.place(how, i)})
            gids += [first, first + t["tilecount"] - 1]
            first += self.extent(t) + self.r.choice([0, 0, 0, 1, 50, 5000] + [65536, 1 << 20] * ("ids" in self.big))
        for i in range(2):
            if "tilesets" in self.focus and self.r.random() < 0.06:  # a collection that has no image yet
                k = "none%d" % i
                t = self.tileset(self.r.choice(list("ab") + [untok(s["tilesets"][r["ts"]]["attrs"]["name"]) for r in refs]))
                t.update(tilecount=0, image=[], tiles=[], wangsets=[])
                t["attrs"].pop("transparentcolor", None)
                s["tilesets"][k] = t
                how = self.r.choice(hows or ["embedded", "tmx", "json"])
                refs.append({"first": first, "ts": k, "how": how, "src": [] if how == "embedded" else self.place(how, 90 + i)})
                first += 1 + self.r.choice([0, 0, 7])
        if refs and "tilesets" in self.focus and self.r.random() < 0.3:  # the same tileset once more
            r = copy.deepcopy(self.r.choice(refs))
            if r["src"] and self.r.random() < 0.3:  # by another spelling
                r["src"] = ["."] + r["src"]
            r["first"] = first
            first += self.extent(s["tilesets"][r["ts"]])
            refs.insert(self.r.randrange(len(refs) + 1), r)
        if len(refs) > 1 and "tilesets" in self.focus and self.r.random() < 0.25:
            self.r.shuffle(refs)
        s["map"] = {"attrs": self.mattrs(infinite), "props": self.props(0.7), "tsrefs": refs, "layers": []}
        n = self.some([1, 2, 3, 5] if "layers" in self.focus else [1, 1, 2], "layers", 90)
        s["map"]["layers"] = self.forest(n, 3 if "layers" in self.focus else 1, infinite, gids)
        if "layers" in self.focus and self.r.random() < 0.12:  # far down
            ls = s["map"]["layers"]
            i = self.r.randrange(len(ls))
            for _ in range(self.r.choice([3, 4, 5, 8, 8, 20, 40, 80])):
                g = self.layer("group", infinite)
                g["children"] = [ls[i]]
                if self.r.random() < 0.4:
                    g["children"].insert(self.r.randrange(2), self.layer(self.r.choice(["tile", "object", "image"]), infinite, gids=gids))
                ls[i] = g
        if self.r.random() < 0.04:
            s["map"]["layers"] = []
        return s

    def tileset_call(self, sid):
        s = {
            "id": sid, "call": "tileset", "fmt": self.fmt, "mapdir": ["p", "q", "m", "sub"], "file": "set.tsx" if self.fmt == "tmx" else "set.tsj",
            "via": "abs", "entry": "t0", "tilesets": {"t0": self.tileset(self.tsname(0))}, "templates": {},
            "style": {"seed": self.r.randrange(1 << 20)},
        }
        return s

    # ------------------------------------------------------------ templates
    def add_templates(self, s, tiles_too=True, count=None):
        """Place template instances (and plain tile objects) all over the map."""
        r = self.r
        tfmt = s["fmt"]
        nt = self.some([1, 2, 3], "templates", 14)
        names = []
        shared = {}
        for i in range(nt):
            o = self.base_object()
            o["attrs"]["id"] = "n:%d" % r.choice([1, 2, 99])
            o["attrs"].pop("x", None)
            o["attrs"].pop("y", None)
            t = {"object": o, "tileset": [], "fmt": tfmt, "dir": r.choice([[], ["templates"], ["..", "tpl"]])}
            if tiles_too and r.random() < 0.7:
                # a tileset of the map, of another template, or a new one
                how = r.choice(["tmx", "json"])
                c = r.random()
                tdir = _norm(s["mapdir"] + t["dir"])
                ext = [x for x in s["map"]["tsrefs"] if x["how"] != "embedded" and s["tilesets"][x["ts"]]["tilecount"]]
                if c < 0.35 and ext:
                    x = r.choice(ext)
                    path, key, how = _norm(s["mapdir"] + x["src"]), x["ts"], x["how"]
                elif c < 0.5 and ext:
                    # one like it, not quite the same, beside it
                    x = r.choice(ext)
                    key, how = "tt%d" % i, x["how"]
                    s["tilesets"][key] = self.alike(s["tilesets"][x["ts"]])
                    at = _norm(s["mapdir"] + x["src"])
                    path = at[:-1] + ["%s.%s" % (key, "tsx" if how == "tmx" else "tsj")]
                elif c < 0.65 and shared:
                    path, (key, how) = r.choice(list(shared.items()))
                    path = list(path)
                else:
                    key = "tt%d" % i
                    nm = "tset%d" % i
                    old = [k for k in s["tilesets"]]
                    if old and r.random() < 0.3:  # same name, other content
                        nm = s["tilesets"][r.choice(old)]["attrs"]["name"][2:]
                    s["tilesets"][key] = self.tileset("x")
                    s["tilesets"][key]["attrs"]["name"] = "s:" + nm
                    path = _norm(tdir + r.choice([[], ["..", "shared"], ["ts"]]) + ["%s.%s" % (key, "tsx" if how == "tmx" else "tsj")])
                shared[tuple(path)] = (key, how)
                t["tileset"] = [{"src": _rel(tdir, path), "how": how, "ts": key}]
                o["kind"] = "tile"
                ts = s["tilesets"][key]
                if not ts["tilecount"]:  # no tile to show
                    ts = s["tilesets"][key] = self.tileset("x", False)
                local = r.choice([x["id"] for x in ts["tiles"]] or [0])
                if r.random() < 0.5:
                    local = r.randrange(ts["tilecount"]) if not ts["tiles"] else local
                o["gid"] = [[self.flags(), local + 1]]
            else:
                self.shape(o)
            key = "tpl%d" % i
            t["file"] = "%s.%s" % (key, "tx" if tfmt == "tmx" else "tj")
            s["templates"][key] = t
            names.append(key)
        layers = []

        def collect(ls):
            for l in ls:
                if l["kind"] == "object":
                    layers.append(l)
                collect(l["children"])

        collect(s["map"]["layers"])
        if not layers:
            l = self.layer("object")
            s["map"]["layers"].append(l)
            layers.append(l)
        own = [x["first"] for x in s["map"]["tsrefs"]]
        for _ in range(count or self.some([1, 2, 3, 5], "templates", 60)):
            k = r.choice(names)
            l = r.choice(layers)
            l["objects"].insert(r.randrange(len(l["objects"]) + 1), self.instance(s, k, own))
        for t in s["templates"].values():
            t.pop("file", None)
            t.pop("dir", None)
        return s

    def alike(self, t):
        """A tileset that differs from T in one thing."""
        r = self.r
        t = copy.deepcopy(t)
        c = r.randrange(8)
        if c == 0 and t["tiles"]:
            x = r.choice(t["tiles"])
            x["attrs"]["class"] = txt("other")
        elif c == 1 and t["tiles"]:
            r.choice(t["tiles"])["props"] = [[self.prop("other", ["string", "int"])]]
        elif c == 2 and t["tiles"]:
            r.choice(t["tiles"])["animation"] = [[{"tileid": r.randrange(99), "duration": 77}]]
        elif c == 3:
            t["attrs"]["margin"] = "n:%d" % r.randrange(3000, 4000)
        elif c == 4:
            t["wangsets"] = [[self.wangset(t["tilecount"])]]
        elif c == 5:
            t["attrs"]["class"] = txt("other")
        elif c == 6 and t["image"]:
            t["image"][0]["w"] = "n:%d" % r.randrange(6000, 7000)
        else:
            t["props"] = [[self.prop("other", ["string", "int"])]]
        return t

    def instance(self, s, key, own):
        r = self.r
        t = s["templates"][key]
        i = self.base_object()
        i["attrs"] = {k: v for k, v in i["attrs"].items() if k in ("id", "x", "y") or r.random() < 0.5}
        i["kind"] = "inherit"
        if "template" in self.focus and r.random() < 0.5:
            i["props"] = self.props(1, 1, feature="template")
        tp = t["object"]
        if i["props"] != [] and tp["props"] != [] and r.random() < 0.7:
            # override one of the template's own properties
            n = r.choice(tp["props"][0])
            if n["type"] != "class":
                i["props"][0] = [p for p in i["props"][0] if p["name"] != n["name"]]
                from doc import dec
                i["props"][0].append(self.prop(dec(n["name"]), [n["type"]]))
        if tp["gid"] == [] and r.random() < 0.3:
            if tp["kind"] in ("polygon", "polyline", "text"):
                self.shape(i, [tp["kind"]])
        elif tp["gid"] != [] and own and r.random() < 0.2:
            i["gid"] = [[self.flags(), r.choice(own)]]
        i["template"] = [{"src": t["dir"] + [t["file"]], "tpl": key}]
        return i


def _norm(segs):
    out = []
    for x in segs:
        if x == ".":
            continue
        if x == "..":
            if out:
                out.pop()
            continue
        out.append(x)
    return out


def _rel(frm, to):
    i = 0
    while i < len(frm) and i < len(to) - 1 and frm[i] == to[i]:
        i += 1
    return [".."] * (len(frm) - i) + to[i:]


def walk_props(v):
    """Every list of custom properties in a scenario."""
    if isinstance(v, dict):
        for k, x in v.items():
            if k == "props" and x:
                yield x[0]
            else:
                yield from walk_props(x)
    elif isinstance(v, list):
        for x in v:
            yield from walk_props(x)


def noclass(s):
    """Drop the properties of type class (what they load as is not specified)."""
    for ps in walk_props(s):
        ps[:] = [p for p in ps if p["type"] != "class"]
    return s


def noempty(s):
    """Drop property lists without a property (XML and JSON differ in whether they are there)."""

    def go(v):
        if isinstance(v, dict):
            for k, x in v.items():
                if k == "props" and x == [[]]:
                    v[k] = []
                else:
                    go(x)
        elif isinstance(v, list):
            for x in v:
                go(x)

    go(s)
    return s


OTHER = {"tmx": "json", "json": "tmx"}


def swap_sets(s):
    """Save every external tileset in the other format."""

    def flip(r):
        if r["how"] != "embedded":
            r["how"] = OTHER[r["how"]]
            f = r["src"][-1]
            r["src"] = r["src"][:-1] + [f[:-4] + (".tsj" if f.endswith(".tsx") else ".tsx") if f[-4:] in (".tsx", ".tsj") else f]

    for r in s.get("map", {}).get("tsrefs", []):
        flip(r)
    for t in (s.get("templates") or {}).values():
        for r in t["tileset"]:
            flip(r)
    return s


def swap(s, fmt, sets=False):
    """The same scenario saved in FMT (templates follow; external tilesets too if SETS)."""
    t = copy.deepcopy(s)
    if t["fmt"] == fmt:
        return t
    t["templates"] = rec(t["templates"])
    if sets:
        swap_sets(t)
    t["fmt"] = fmt
    if t.get("file") in ("map.tmx", "map.tmj"):
        t["file"] = "map.tmx" if fmt == "tmx" else "map.tmj"
    if t["call"] == "tileset" and t.get("file") in ("set.tsx", "set.tsj"):
        t["file"] = "set.tsx" if fmt == "tmx" else "set.tsj"
    for x in t["templates"].values():
        x["fmt"] = fmt
    if fmt == "tmx" and "map" in t:
        def strip(ls):
            for l in ls:
                l["attrs"].pop("startx", None) if isinstance(l["attrs"], dict) else None
                l["attrs"].pop("starty", None) if isinstance(l["attrs"], dict) else None
                strip(l["children"])
        strip(t["map"]["layers"])
    return t


# ------------------------------------------------------------ unusual neighbours and values

EDGE_NUM = ["n:0", "n:1", "n:-1", "n:0.5", "n:-0.5", "n:0.001", "n:1e-07", "n:65536", "n:16777217", "n:2147483648", "n:-2147483649", "n:4294967296", "n:9007199254740991", "n:1e+20", "n:0.1", "n:-0.1",
            "n:0.30000000000000004", "n:3.141592653589793", "n:360", "n:-90", "n:100", "n:255"]
EDGE_INT = ["n:0", "n:1", "n:255", "n:256", "n:65535", "n:65536", "n:16777217", "n:2147483647"]
FLOATS = {"x", "y", "rotation", "offsetx", "offsety", "parallaxx", "parallaxy", "parallaxoriginx", "parallaxoriginy"}
INTS_OF = {"spacing", "margin", "columns", "hexsidelength", "nextlayerid", "nextobjectid"}
TEXTS = {"name", "class", "fontfamily"}


def edge_num(v):
    from doc import num as tok

    x = float(v[2:])
    return tok(int(x) if x == int(x) else x)


def objects_of(layers):
    for l in layers:
        yield from l.get("objects", [])
        yield from objects_of(l.get("children", []))


def absolute(rng, s, much=0.5):
    """The same files, some of them named by absolute paths."""
    go = lambda: rng.random() < much
    dots = lambda segs: segs if rng.random() < 0.8 or len(segs) < 2 else segs[:-1] + rng.choice([["."], ["..", segs[-2]]]) + segs[-1:]
    tplof, setof = {}, {}
    where = s["mapdir"]
    if s["call"] == "map":
        for o in objects_of(s["map"]["layers"]):
            for t in o["template"]:
                f = _norm(where + t["src"])
                tplof[t["tpl"]] = f
                if go():
                    t["src"] = ["//"] + dots(f)
        for r in s["map"]["tsrefs"]:
            if r["src"]:
                f = _norm(where + r["src"])
                setof.setdefault(r["ts"], f[:-1])
                if go():
                    r["src"] = ["//"] + dots(f)
        for k, t in s["templates"].items():
            if k in tplof:
                for r in t["tileset"]:
                    f = _norm(tplof[k][:-1] + r["src"])
                    setof.setdefault(r["ts"], f[:-1])
                    if go():
                        r["src"] = ["//"] + dots(f)
        for l in _layers(s["map"]["layers"]):
            if l["image"] and l["image"] != ["%NONE"] and go():
                l["image"] = ["//"] + rng.choice([["img", "x.png"], where + ["x.png"], ["a", "..", "b.png"]])
    for k, t in s["tilesets"].items():
        d = setof.get(k, where)
        for x in [t] + t["tiles"]:
            for im in x["image"]:
                if go():
                    im["segs"] = ["//"] + dots(rng.choice([_norm(d + im["segs"]), ["abs", "x.png"], _norm(im["segs"]) or ["i.png"], ["only.png"]]))
    return s


def _layers(ls):
    for l in ls:
        yield l
        yield from _layers(l.get("children", []))


def linked(rng, s):
    """The same files, some of them reached through links to directories."""
    links = []

    def hop(d, target):
        """A link in directory D, and from where it leads back to TARGET."""
        to = target + rng.choice([[], ["deep"], ["deep", "er"]]) if rng.random() < 0.7 else ["far", "z%d" % len(links)]
        old = [l for l in links if l["at"][:-1] == d]
        if old and rng.random() < 0.3:
            l = rng.choice(old)
        else:
            l = {"at": d + [rng.choice(["ln%d", "a%%20ln%d", "ln.%d"]) % len(links)], "to": to}
            links.append(l)
        return [l["at"][-1]] + _rel(l["to"], target)

    def through(d, src):
        f = _norm(d + src)
        if rng.random() < 0.6:
            return rng.choice([[], [], ["."]]) + hop(d, f[:-1]) + f[-1:]
        if src[0] == "." or rng.random() < 0.5:
            return src
        return hop(d, d) + src

    dirs = {}
    where = s["mapdir"]
    tplof = {}
    for o in objects_of(s["map"]["layers"]):
        for t in o["template"]:
            f = _norm(where + t["src"])
            tplof[t["tpl"]] = f
            t["src"] = through(where, t["src"])
    for r in s["map"]["tsrefs"]:
        if r["src"]:
            dirs.setdefault(r["ts"], _norm(where + r["src"])[:-1])
            r["src"] = through(where, r["src"])
    for k, t in s["templates"].items():
        if k in tplof:
            for r in t["tileset"]:
                d = tplof[k][:-1]
                dirs.setdefault(r["ts"], _norm(d + r["src"])[:-1])
                r["src"] = through(d, r["src"])
    for k, d in dirs.items():
        for x in [s["tilesets"][k]] + s["tilesets"][k]["tiles"]:
            for im in x["image"]:
                if rng.random() < 0.6:
                    im["segs"] = through(d, im["segs"])
    if rng.random() < 0.5:  # the map itself
        at = rng.choice([["way"], ["p", "way"], ["p", "q", "other", "way"]])
        if rng.random() < 0.5:
            links.append({"at": at, "to": where})
            s["mapdir"] = at
        else:
            links.append({"at": at, "to": where + ["inner"]})
            s["mapdir"] = at + [".."]
    if links:
        s["links"] = links
    return s


def nodes(s):
    """Every layer, object, tileset, tile, wang set and color of a scenario by kind."""
    out = {k: [] for k in ("layer", "object", "tileset", "tile", "wangset", "wangcolor", "map", "tplobject", "layers", "objects", "points", "frames", "chunks", "wangsets", "colors", "props", "text")}

    def obj(o, kind):
        out[kind].append(o)
        if o["points"]:
            out["points"].append(o["points"])
        out["text"] += o["text"]
        out["props"] += o["props"]

    def walk(ls, listed=True):
        if listed:
            out["layers"].append(ls)
        for l in ls:
            out["layer"].append(l)
            out["props"] += l["props"]
            if l["kind"] == "object":
                out["objects"].append(l["objects"])
            for o in l["objects"]:
                obj(o, "object")
            out["chunks"] += l["chunks"]
            if l["kind"] == "group":
                walk(l["children"])

    if "map" in s and s["map"]:
        out["map"].append(s["map"])
        out["props"] += s["map"]["props"]
        walk(s["map"]["layers"])
    for t in rec(s["tilesets"]).values():
        out["tileset"].append(t)
        out["props"] += t["props"]
        for x in t["tiles"]:
            out["tile"].append(x)
            out["props"] += x["props"]
            out["frames"] += x["animation"]
            walk(x["objects"], False)
        for w in t["wangsets"]:
            out["wangsets"].append(w)
            for y in w:
                out["wangset"].append(y)
                out["props"] += y["props"]
                out["colors"].append(y["colors"])
                for c in y["colors"]:
                    out["wangcolor"].append(c)
                    out["props"] += c["props"]
    for t in rec(s["templates"]).values():
        obj(t["object"], "tplobject")
    return out


def twist(rng, s, times):
    """Make some things equal to others, some values unusual, some lists empty."""
    for _ in range(times):
        n = nodes(s)
        c = rng.random()
        if c < 0.3:  # the same thing once more
            ls = [l for k in ("layers", "layers", "objects", "points", "frames", "chunks", "wangsets", "colors") for l in n[k] if 0 < len(l) < 40]
            if ls:
                l = rng.choice(ls)
                x = copy.deepcopy(rng.choice(l))
                if len(json.dumps(x)) < 30000:
                    if isinstance(x, dict) and "attrs" in x and "kind" in x and x["kind"] in ("tile", "object", "image", "group") and "children" in x and rng.random() < 0.5:
                        for y in l:
                            y["attrs"].pop("id", None)
                        x["attrs"].pop("id", None)
                    l.insert(rng.randrange(len(l) + 1), x)
        elif c < 0.5:  # one value in two places
            ls = n[rng.choice(["layer", "object", "tileset", "tile", "wangset", "wangcolor"])]
            if len(ls) > 1:
                a, b = rng.sample(ls, 2)
                ks = [k for k in ("name", "class", "opacity", "visible", "width", "height", "x", "y", "rotation", "offsetx", "offsety", "tintcolor", "id", "draworder") if k in a["attrs"]]
                if ks and (a.get("kind") == "tile") == (b.get("kind") == "tile"):
                    k = rng.choice(ks)
                    if not (k == "draworder" and b["kind"] != "object"):
                        b["attrs"][k] = copy.deepcopy(a["attrs"][k])
                for k in ("name", "color", "tile", "type", "probability"):
                    if k in a and k in b and "probability" in a and rng.random() < 0.4:
                        b[k] = copy.deepcopy(a[k])
                if a["props"] and rng.random() < 0.3:
                    b["props"] = copy.deepcopy(a["props"])
        elif c < 0.85:  # an unusual value
            d = rng.random()
            if d < 0.3 and n["props"]:
                ps = [p for l in n["props"] for p in l if p["type"] in ("string", "int", "float", "object")]
                if ps:
                    p = rng.choice(ps)
                    p["val"] = txt(rng.choice(LOOKALIKE + FUNNY)) if p["type"] == "string" else edge_num(rng.choice(EDGE_NUM)) if p["type"] == "float" else rng.choice(EDGE_INT + (["n:-1", "n:-2147483648"] if p["type"] == "int" else []))
            elif d < 0.4 and n["text"]:
                rng.choice(n["text"])["text"] = txt(rng.choice(FUNNY + LOOKALIKE))
            elif d < 0.5 and n["points"]:
                rng.choice(rng.choice(n["points"]))[rng.randrange(2)] = edge_num(rng.choice(EDGE_NUM))
            else:
                x = rng.choice([y for k in ("layer", "object", "tplobject", "tileset", "tile", "wangset", "map", "text") for y in n[k]])
                ks = [k for k in x["attrs"] if k in TEXTS | INTS_OF or (k in FLOATS and "objects" not in x or k.startswith(("off", "par")))]
                if "kind" in x and "points" in x:
                    ks += [k for k in ("width", "height") if k in x["attrs"]]
                if ks:
                    k = rng.choice(ks)
                    x["attrs"][k] = txt(rng.choice(FUNNY + LOOKALIKE)) if k in TEXTS else rng.choice(EDGE_INT) if k in INTS_OF else edge_num(rng.choice(EDGE_NUM))
        else:  # nothing in it
            ls = [l for k in ("layers", "objects", "chunks", "wangsets", "colors") for l in n[k] if 0 < len(l) < 6]
            if ls:
                rng.choice(ls)[:] = []
    return s
