"""What each check explores: models exhaustively, then seeded documents beyond their bounds."""
import base64
import copy
import gzip
import json
import os
import posixpath
import random
import re
import struct
import unicodedata
import zlib

import decoys
import files
import gen
import render
import vp
import world
from core import variant
from decoys import neighbours
from gen import Gen, noclass, noempty, swap

FMTS = ("tmx", "json")
ENCS = [("csv", ""), ("base64", ""), ("base64", "zlib"), ("base64", "gzip")]


def style(rng, level=1):
    """A random spelling."""
    st = {"seed": rng.randrange(1 << 20)}
    if rng.random() < 0.3 * level:
        st.update(
            indent=rng.choice([0, 1, 4]), single=rng.random() < 0.5, ascii=rng.random() < 0.5,
            charref=rng.random() < 0.3, shuffle=rng.random() < 0.5, openclose=rng.random() < 0.3,
            cdata=rng.random() < 0.3, wrap=rng.choice([0, 0, 4, 57, 76]), classkey=rng.choice(["type", "class", "both"]),
            nocompkey=rng.random() < 0.5, enckey=rng.random() < 0.5, blankdata=rng.random() < 0.5, expo=rng.random() < 0.3, falsekinds=rng.random() < 0.3,
        )
    return st


# what a check about a subject should also see a great many of
MANY = {
    "layers": ["layers", "ids", "words"], "attrs": ["ints", "ids"], "objects": ["objects", "points", "strings", "ids"], "tilesets": ["tilesets", "ids", "ints"],
    "tiles": ["tiles", "frames"], "wang": ["wang"], "props": ["props", "strings"], "chunks": ["chunks"], "template": ["templates", "ids"], "text": ["strings", "words"],
}


SUBJECTS = ["attrs", "layers", "objects", "tilesets", "tiles", "wang", "props", "colors", "chunks", "data", "text", "template"]


def doc(rng, focus, fmt, plain=True, templates=None, call="map", hows=None, styled=1, big=None, absolute=False):
    g = Gen(rng, focus, fmt, plain=plain, big=big or (rng.sample(gen.BIG, rng.choice([1, 2])) if rng.random() < 0.03 else ()))
    if call == "tileset":
        s = g.tileset_call("x")
    else:
        s = g.map_("x", hows)
        if templates if templates is not None else (not plain and rng.random() < 0.3):
            g.add_templates(s)
    if rng.random() < 0.4:
        gen.twist(rng, s, rng.choice([1, 2, 4, 8]))
    s["style"] = style(rng, styled)
    s["via"] = rng.choice(["abs", "abs", "rel", "relroot", "dots"])
    if absolute and rng.random() < 0.08:
        gen.absolute(rng, s, rng.choice([0.2, 0.6]))
    return s


CROWDS = ["objects", "points", "layers", "tilesets", "props", "frames", "wang"]


def mix(run, focus, n, templates=None, calls=("map",), mixed=0.3, hows=None, what="random"):
    """n seeded documents: most about FOCUS only, some about everything."""
    for rng in run.rngs(n, "mix" + what):
        fmt = rng.choice(FMTS)
        plain = rng.random() >= mixed
        also = rng.sample(SUBJECTS, rng.choice([0, 0, 1, 1, 2, 3]))
        s = doc(rng, focus + also, fmt, plain, templates, rng.choice(calls), hows, absolute=True)
        if rng.random() < 0.15:
            s["style"]["empties"] = rng.choice([["tiles"], ["wangsets"], ["tiles", "wangsets"]])
        run.load(s, what)
    for dim in sorted({d for f in focus for d in MANY.get(f, [])}):
        for i, rng in enumerate(run.rngs(run.pick(4, 24), "many %s %s" % (dim, what))):
            run.load(doc(rng, focus, FMTS[i % 2], True, templates, rng.choice(calls), hows, big=[dim]), "a great many " + dim)
        if dim in CROWDS:
            for i, rng in enumerate(run.rngs(run.pick(4 if dim == "layers" else 2, 8), "crowd %s %s" % (dim, what))):
                s = doc(rng, focus, FMTS[i % 2], True, templates, "map", hows, big=[dim, "crowd"])
                if dim == "layers" and i % 4 < 2:  # all of them in one group
                    s["map"]["layers"] = [dict(files.layer("group"), children=s["map"]["layers"])]
                run.load(s, "a crowd of " + dim)


def models(run, *names):
    """Start the models (the deeper configuration in the thorough tier)."""
    return [run.model(n, n + ("" if run.quick else "_deep")) for n in names]


def sample(run, docs, k, label=""):
    if len(docs) <= k:
        return docs
    return random.Random("%s/%d/%s" % (run.pid, run.seed, label)).sample(docs, k)


# ------------------------------------------------------------------ P01


def P01(run):
    ms = models(run, "MC_Layers", "MC_Chunks", "MC_Gids")
    focuses = [
        ["layers", "attrs"], ["objects", "props"], ["props", "layers"], ["tilesets", "tiles"], ["wang", "props", "tiles"],
        ["data", "layers"], ["chunks", "attrs"], ["colors", "attrs", "objects"], ["text", "objects", "props"],
        ["template", "objects", "props"], ["tilesets", "attrs"],
        ["layers", "objects", "props", "tilesets", "tiles", "attrs", "wang", "colors"],
    ]
    for rng in run.rngs(run.pick(700, 8000), "pairs"):
        focus = rng.choice(focuses)
        s = noempty(noclass(doc(rng, focus, "tmx", rng.random() < 0.5, "template" in focus or None, rng.choice(["map"] * 6 + ["tileset"]))))
        run.pair(s, swap(s, "json", sets=rng.random() < 0.6), "random pair")
    for m in ms:
        docs = [d for d in m.result() if d["fmt"] == "tmx"]
        for s in sample(run, docs, run.pick(120, 2000)):
            run.pair(s, swap(s, "json", sets=True), "model pair")
    run.execute()


# ------------------------------------------------------------------ P02


def P02(run):
    ms = models(run, "MC_Layers")
    mix(run, ["layers"], run.pick(250, 3000))
    mix(run, ["layers", "tilesets", "tiles"], run.pick(60, 600), what="with collision shapes")
    for m in ms:
        for s in m.result():
            run.load(s, "model")
    run.execute()


# ------------------------------------------------------------------ P03, P04


def repack(run, docs, per, infinite, encs=ENCS, has=()):
    """The layers of many one-layer documents, in every encoding and format, packed into a few maps."""
    layers = [d["map"]["layers"][0] for d in docs]
    rng = random.Random("%s/%d/pack" % (run.pid, run.seed))
    todo = [(l, e) for l in layers for e in encs]
    rng.shuffle(todo)
    base = docs[0]
    for i in range(0, len(todo), per):
        out = []
        for k, (l, (e, c)) in enumerate(todo[i : i + per]):
            l = copy.deepcopy(l)
            l["enc"], l["comp"] = e, c
            l["attrs"] = {"name": "s:L%d" % k, "id": "n:%d" % (k + 1)}
            if k % 3 == 2:
                g = copy.deepcopy(l)
                g.update(kind="group", cells=[], chunks=[], enc="csv", comp="", w=0, h=0, children=[l], attrs={"name": "s:G%d" % k})
                l = g
            out.append(l)
        s = copy.deepcopy(base)
        s["map"]["layers"] = out
        s["style"] = style(rng)
        s["map"]["attrs"]["infinite"] = "b:true" if infinite else "b:false"
        for fmt in FMTS:
            run.load(swap(dict(s, has=list(has)) if has else s, fmt), "model")


def zstd(run, docs, chunked):
    """The same with the optional module zstd in place: one more compression, the others as before."""
    encs = ENCS + [("base64", "zstd")] * 3
    for rng in run.rngs(run.pick(60, 600), "zstd"):
        fmt = rng.choice(FMTS)
        g = Gen(rng, ["data", "layers"], fmt, plain=rng.random() < 0.5)
        s = dict(g.map_("x"), has=["zstd"])
        s["map"]["attrs"]["infinite"] = "b:true" if chunked else "b:false"
        s["map"]["layers"] = [g.layer("tile", chunked) for _ in range(rng.choice([1, 2, 4, 12]))]
        for l in s["map"]["layers"]:
            l["enc"], l["comp"] = rng.choice(encs)
            if not chunked and rng.random() < 0.3:
                l["w"], l["h"] = rng.choice([(1, 64), (64, 1), (17, 31), (7, 100), (255, 2), (256, 2), (40, 40)])
                l["cells"] = [[0, 0]] * (l["w"] * l["h"]) if rng.random() < 0.2 else g.cells(l["w"], l["h"])
        run.load(s, "with zstd")
    for rng in run.rngs(0 if chunked else run.pick(30, 300), "zstd reject"):
        fmt = rng.choice(FMTS)
        g = Gen(rng, ["data"], fmt, plain=True)
        s = dict(g.map_("x"), has=["zstd"])
        l = g.layer("tile")
        l["enc"] = "base64"
        if rng.random() < 0.5:
            l["comp"], l["payload"] = rng.choice(["lzma", "Zstd", "zstandard", "ZSTD", "zst", " zstd", "lz4"]), rng.choice(["", "zlib", "zstd"])
        else:
            l["comp"] = "zstd"
            l["cut"] = rng.randrange(1, len(base64.b64decode(render.pack(render.words(l), "zstd"))))
        s["map"]["layers"].insert(rng.randrange(len(s["map"]["layers"]) + 1), l)
        run.load(s, "rejected with zstd")
    for ds in docs:
        repack(run, sample(run, ds, run.pick(60, 2000)), 16, chunked, encs[3:6], ["zstd"])
    run.execute(extra_env={"PYTHONPATH": os.pathsep.join([vp.REPO, os.path.join(vp.HERE, "optional")])})
    run.assumptions.append("zstd is stood in for by a decoder of raw and repeated blocks with the interface of the module of that name")


SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513]


def shapes(run, chunked):
    """Strips and blocks of every size, in every encoding and format."""
    rng = random.Random("%s/%d/shapes" % (run.pid, run.seed))
    wh = [(a, b) for a in (1, 2, 3) for b in SIZES] + [(b, a) for a in (1, 2, 3) for b in SIZES] + [(a, a) for a in SIZES if 3 < a < 40]
    todo = [(s, e, f) for s in wh for e in ENCS for f in FMTS]
    rng.shuffle(todo)
    if run.quick:
        todo = todo[: len(todo) * 2 // 5]
    for fmt in FMTS:
        mine = [t for t in todo if t[2] == fmt]
        for i in range(0, len(mine), 12):
            g = Gen(rng, ["chunks" if chunked else "data"], fmt, plain=True)
            s = g.map_("x")
            s["map"]["layers"] = []
            s["map"]["attrs"]["infinite"] = "b:true" if chunked else "b:false"
            for (w, h), (e, c), _ in mine[i : i + 12]:
                l = g.layer("tile", chunked)
                l["enc"], l["comp"] = e, c
                cells = lambda: [[0, 0]] * (w * h) if rng.random() < 0.05 else g.cells(w, h)
                if chunked:
                    l["chunks"] = [[{"x": 16 * rng.randrange(-9, 9), "y": 16 * k, "w": w, "h": h, "cells": cells()} for k in range(rng.choice([1, 1, 2]))]]
                else:
                    l["w"], l["h"], l["cells"] = w, h, cells()
                s["map"]["layers"].append(l)
            s["style"] = style(rng)
            run.load(s, "shapes")


def looks(rng, fmt):
    """A tile layer whose bytes, or whose base64, could be taken for something else."""
    n = 4 * rng.choice([1, 1, 2, 3, 8])
    c = rng.random()
    if c < 0.5:
        chars = rng.choice(["0123456789", "abcdef", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "+/", "A", "/", "abcdefghijklmnopqrstuvwxyz", "0", "01", "null", "true"])
        t = "".join(rng.choice(chars) for _ in range(4 * n))
        t = rng.choice(["", "", "", "H4sI", "eJwB", "KLUv", "PHht", "eyJh", "data", "null", "true", "MSwy", "AAAA"]) + t
        raw = base64.b64decode(t[: 4 * n])
    elif c < 0.8:
        raw = rng.choice([b"\x1f\x8b\x08\x00", b"\x78\x9c\x01\x02", b"\x78\x01xx", b"\x28\xb5\x2f\xfd", b"<?xm", b"1,2,", b"[1,2", b"PK\x03\x04", b"BZh9", b"\xfd7zX"]) + bytes(rng.randrange(256) for _ in range(4 * rng.choice([0, 1, 3, 8])))
    else:
        raw = rng.choice([zlib.compress(b"\x01\0\0\0" * 9), gzip.compress(b"\x02\0\0\0" * 9), b"1,2,3,4,", b"0,0,0,0\n", b"        ", base64.b64encode(b"\x03\0\0\0" * 3)])
        raw = raw + b"\0" * (-len(raw) % 4)
    l = files.layer("tile")
    l["enc"], l["comp"] = rng.choice([("base64", "")] * 3 + ENCS)
    k = len(raw) // 4
    l["w"] = rng.choice([d for d in range(1, k + 1) if k % d == 0])
    l["h"] = k // l["w"]
    l["cells"] = [gen.gid(v) for v in struct.unpack("<%dI" % k, raw)]
    return l


def P03(run):
    ms = models(run, "MC_Data")
    mix(run, ["data", "layers"], run.pick(250, 4000))
    for rng in run.rngs(run.pick(60, 600), "large"):
        fmt = rng.choice(FMTS)
        g = Gen(rng, ["data"], fmt, plain=True)
        s = g.map_("x")
        l = g.layer("tile")
        l["w"], l["h"] = rng.choice([(1, 64), (64, 1), (17, 31), (50, 40), (100, 3), (7, 100), (64, 64), (255, 2), (256, 2)])
        l["cells"] = [[0, 0]] * (l["w"] * l["h"]) if rng.random() < 0.15 else g.cells(l["w"], l["h"])
        s["map"]["layers"] = [l]
        s["map"]["attrs"]["infinite"] = "b:false"
        run.load(s, "large layer")
    for i, rng in enumerate(run.rngs(run.pick(4, 16), "huge")):
        g = Gen(rng, ["data"], FMTS[i % 2], plain=True)
        s = g.map_("x")
        l = g.layer("tile")
        l["enc"], l["comp"] = ENCS[i // 2 % 4] if not run.quick else rng.choice(ENCS)
        l["w"], l["h"] = (300, 230) if i < 2 else rng.choice([(200, 120), (1100, 18), (19, 1030)])
        l["cells"] = g.cells(l["w"], l["h"])
        s["map"]["layers"] = [l]
        s["map"]["attrs"]["infinite"] = "b:false"
        run.load(s, "huge layer")
    shapes(run, False)
    for rng in run.rngs(run.pick(60, 600), "looks"):
        fmt = rng.choice(FMTS)
        s = Gen(rng, ["data"], fmt, plain=True).map_("x")
        s["map"]["attrs"]["infinite"] = "b:false"
        s["map"]["layers"] = [looks(rng, fmt) for _ in range(6)]
        run.load(s, "data that looks like something else")
    # compressions the library does not know, and data cut short, must not load
    for rng in run.rngs(run.pick(60, 400), "reject"):
        fmt = rng.choice(FMTS)
        g = Gen(rng, ["data"], fmt, plain=True)
        s = g.map_("x")
        l = g.layer("tile")
        l["enc"] = "base64"
        if rng.random() < 0.5:
            l["comp"] = rng.choice(["zstd", "lzma", "gzip2", "Zlib", "deflate", "bz2", "GZIP", "zip", " zlib", "none"])
            l["payload"] = rng.choice(["", "zlib", "gzip"])  # whatever the data really is
        else:
            l["comp"] = rng.choice(["zlib", "gzip"])
            raw = render.words(l)
            full = len(base64.b64decode(render.pack(raw, l["comp"])))
            l["cut"] = rng.randrange(1, full)
        s["map"]["layers"].insert(rng.randrange(len(s["map"]["layers"]) + 1), l)
        run.load(s, "rejected")
    for m in ms:
        repack(run, m.result(), 24, False)
    run.execute()
    zstd(run, [m.result() for m in ms], False)


def P04(run):
    ms = models(run, "MC_Chunks")
    mix(run, ["chunks", "layers"], run.pick(250, 4000))
    mix(run, ["chunks", "attrs", "data"], run.pick(80, 1000), what="with starts")
    for i, rng in enumerate(run.rngs(run.pick(6, 40), "large chunks")):
        g = Gen(rng, ["chunks"], FMTS[i % 2], plain=True)
        s = g.map_("x")
        l = g.layer("tile", True)
        l["enc"], l["comp"] = rng.choice(ENCS)
        l["chunks"] = [[{"x": 64 * k, "y": -64, "w": w, "h": h, "cells": g.cells(w, h)}
                        for k, (w, h) in enumerate(rng.sample([(64, 64), (16, 16), (1, 200), (200, 1), (300, 20), (33, 65), (256, 3)], 3))]]
        s["map"]["layers"] = [l]
        s["map"]["attrs"]["infinite"] = "b:true"
        run.load(s, "large chunks")
    for i, rng in enumerate(run.rngs(run.pick(2, 8), "many chunks")):
        g = Gen(rng, ["chunks"], FMTS[i % 2], plain=True)
        s = g.map_("x")
        l = g.layer("tile", True)
        l["enc"], l["comp"] = rng.choice(ENCS)
        at = rng.sample([(x, y) for x in range(-40, 40) for y in range(-20, 20)], rng.randrange(1030, 1100))
        l["chunks"] = [[{"x": x, "y": y, "w": 1, "h": 1, "cells": g.cells(1, 1)} for x, y in at]]
        big = g.layer("tile", True)
        big["enc"], big["comp"] = rng.choice(ENCS)
        big["chunks"] = [[{"x": 0, "y": 0, "w": 256, "h": 260, "cells": g.cells(256, 260)}]]
        s["map"]["layers"] = [l, big]
        s["map"]["attrs"]["infinite"] = "b:true"
        run.load(s, "many chunks")
    shapes(run, True)
    for m in ms:
        repack(run, m.result(), 8, True)
    run.execute()
    zstd(run, [m.result() for m in ms], True)


# ------------------------------------------------------------------ P05


def P05(run):
    ms = models(run, "MC_Gids")
    mix(run, ["tilesets", "template"], run.pick(350, 4000), templates=True, mixed=0.1)
    mix(run, ["tilesets", "objects", "tiles"], run.pick(80, 600), what="no templates")
    for m in ms:
        for s in sample(run, m.result(), run.pick(600, 20000)):
            run.load(s, "model")
    run.execute()


# ------------------------------------------------------------------ packing


def pack(run, docs, per, key="layers", what="model", shuffle=True):
    """Fewer, larger documents: the layers of several documents that agree in everything else."""
    groups = {}
    for d in docs:
        rest = json.dumps({k: (v if k != "map" else {x: y for x, y in v.items() if x != "layers"}) for k, v in d.items()}, sort_keys=True)
        groups.setdefault(rest, []).append(d)
    rng = random.Random("%s/%d/pack" % (run.pid, run.seed))
    for ds in groups.values():
        if shuffle:
            rng.shuffle(ds)
        for i in range(0, len(ds), per):
            s = copy.deepcopy(ds[i])
            s["map"]["layers"] = [l for d in ds[i : i + per] for l in d["map"]["layers"]]
            s["style"] = style(rng)
            run.load(s, what)


def packsets(run, sets, per, what="model"):
    """Tilesets of many documents as the tilesets of a few maps, in every storage and format."""
    rng = random.Random("%s/%d/packsets" % (run.pid, run.seed))
    sets = list(sets)
    rng.shuffle(sets)
    for i in range(0, len(sets), per):
        for fmt in FMTS:
            s = files.base(fmt)
            s["templates"], s["tilesets"] = {}, {}
            s["map"]["layers"], s["map"]["tsrefs"] = [], []
            s["mapdir"] = ["p", "m"]
            for k, t in enumerate(sets[i : i + per]):
                how = ("embedded", "tmx", "json")[(i + k + (fmt == "tmx")) % 3]
                s["tilesets"]["t%d" % k] = t
                src = [] if how == "embedded" else [["."], ["s"], [".."]][k % 3] + ["t%d.%s" % (k, "tsx" if how == "tmx" else "tsj")]
                s["map"]["tsrefs"].append({"first": 1 + 100 * k, "ts": "t%d" % k, "how": how, "src": src})
            s["style"] = style(rng)
            run.load(s, what)


# ------------------------------------------------------------------ P06


def P06(run):
    ms = models(run, "MC_Template")
    mix(run, ["template", "objects", "props"], run.pick(300, 4000), templates=True)
    for m in ms:
        pack(run, m.result(), 40)
    run.execute()


# ------------------------------------------------------------------ P07


def P07(run):
    ms = models(run, "MC_Objects")
    mix(run, ["objects"], run.pick(250, 4000))
    mix(run, ["objects", "tilesets", "tiles", "props"], run.pick(60, 600), what="also as collision shapes")
    mix(run, ["objects", "text"], run.pick(80, 800), what="odd texts")
    for m in ms:
        pack(run, m.result(), 40)
    run.execute()


# ------------------------------------------------------------------ carriers of properties and colors


def carriers(fmt, rng, how=None):
    """A document with every place that can carry properties and colors: (scenario, prop slots, color slots)."""
    how = how or rng.choice(["embedded", "tmx", "json"])
    s = files.base(fmt, setfmt="tmx" if how == "embedded" else how, nested=rng.random() < 0.5)
    if how == "embedded":
        s["map"]["tsrefs"][0].update(how="embedded", src=[])
    s["map"]["tsrefs"].append({"first": 50, "ts": "w", "how": rng.choice(["embedded", "tmx", "json"]), "src": []})
    r = s["map"]["tsrefs"][1]
    if r["how"] != "embedded":
        r["src"] = ["w" + (".tsx" if r["how"] == "tmx" else ".tsj")]
    a = s["tilesets"]["a"]
    coll = files.layer("object", objects=[files.obj(9)])
    coll["attrs"]["name"] = "s:"
    a["tiles"] = [
        {"id": 1, "attrs": {}, "image": [], "animation": [], "objects": [coll], "props": []},
        {"id": 0, "attrs": {"class": "s:c"}, "image": [], "animation": [], "objects": [], "props": []},
    ]
    w = files.tset("W", "w.png")
    color = lambda n: {"name": "s:" + n, "attrs": {}, "color": {"hex": [1, 2, 3, 4, 5, 6], "hash": True}, "probability": "n:1", "tile": "n:0", "props": []}
    w["wangsets"] = [[{"name": "s:ws%d" % i, "attrs": {}, "tile": "n:0", "type": "s:mixed", "props": [], "colors": [color("c0"), color("c1")],
                       "tiles": [{"tileid": 0, "wangid": [1, 0, 1, 0, 2, 0, 2, 0]}]} for i in range(2)]]
    s["tilesets"]["w"] = w
    top = s["map"]["layers"]
    objs = []
    for i, k in enumerate(["rectangle", "ellipse", "point", "polygon", "polyline", "text", "tile"]):
        o = files.obj(20 + i)
        o["kind"] = k
        if k in ("polygon", "polyline"):
            o["points"] = [["n:0", "n:0"], ["n:1", "n:2"]]
        if k == "text":
            o["text"] = [{"text": "s:t", "attrs": {}}]
        if k == "tile":
            o["gid"] = [[0, 3]]
        objs.append(o)
    top.append(files.layer("object", objects=objs))
    top.append(files.layer("image", image=["i.png"]))
    top.append(files.layer("group", children=[files.layer("image", image=["j.png"]), files.layer("tile", w=1, h=1, cells=[[0, 1]])]))
    slots, colors = [s["map"], a, w, a["tiles"][0], a["tiles"][1], coll, coll["objects"][0]], []
    for ws in w["wangsets"][0]:
        slots.append(ws)
        for c in ws["colors"]:
            slots.append(c)
            colors.append((c, "color"))
    slots.append(s["templates"]["t"]["object"])

    def walk(ls):
        for l in ls:
            slots.append(l)
            colors.append((l["attrs"], "tintcolor"))
            if l["kind"] == "image":
                colors.append((l["attrs"], "transparentcolor"))
            slots.extend(l["objects"])
            for o in l["objects"]:
                if o["text"]:
                    colors.append((o["text"][0]["attrs"], "color"))
            walk(l["children"])

    walk(top)
    for t in (a, w):
        colors += [(t["attrs"], "backgroundcolor"), (t["attrs"], "transparentcolor")]
    colors.append((s["map"]["attrs"], "backgroundcolor"))
    colors.append((coll["attrs"], "tintcolor"))
    return s, slots, colors


# ------------------------------------------------------------------ P08


def P08(run):
    ms = models(run, "MC_Props")
    mix(run, ["props", "objects", "layers"], run.pick(120, 1500))
    mix(run, ["props", "wang", "tiles", "tilesets"], run.pick(120, 1500), calls=["map", "map", "tileset"], what="tilesets")
    for m in ms:
        lists = [d["map"]["props"] for d in m.result()]
        rng = random.Random("P08/%d" % run.seed)
        for rep in range(run.pick(4, 2)):
            rng.shuffle(lists)
            i = 0
            while i < len(lists):
                s, slots, _ = carriers(rng.choice(FMTS), rng)
                rng.shuffle(slots)
                for x in slots:
                    if rng.random() < 0.9 and i < len(lists):
                        x["props"] = copy.deepcopy(lists[i])
                        i += 1
                s["style"] = style(rng)
                run.load(s, "model")
    # the first list in every carrier of its own, the others without
    for fmt in FMTS:
        for rng in run.rngs(2, "single" + fmt):
            n = len(carriers(fmt, random.Random(str(rng.random())), "embedded")[1])
            for i in range(n):
                s, slots, _ = carriers(fmt, rng)
                if i < len(slots):
                    slots[i]["props"] = [[{"name": "only", "type": "string", "val": "s:here", "hex": []}, {"name": "n", "type": "int", "val": "n:%d" % i, "hex": []}]]
                run.load(s, "one carrier")
    run.execute()


# ------------------------------------------------------------------ P09


def P09(run):
    ms = models(run, "MC_Color")
    mix(run, ["colors", "attrs", "props"], run.pick(150, 2000))
    mix(run, ["colors", "tilesets", "wang", "objects"], run.pick(100, 1000), what="more carriers")
    # written without a digit too few or too many: no color
    for rng in run.rngs(run.pick(60, 400), "bad"):
        s, slots, colors = carriers(rng.choice(FMTS), rng)
        c = {"hex": [rng.randrange(16) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 10]))], "hash": True, "upper": rng.random() < 0.5}
        if rng.random() < 0.3:
            x = rng.choice(slots)
            x["props"] = [[dict(c, name="col", type="color", val="none")]]
        else:
            o, k = rng.choice(colors)
            o[k] = c
        run.load(s, "rejected")
    for m in ms:
        hexes = [d["hex"] for d in m.result()]
        rng = random.Random("P09/%d" % run.seed)
        for rep in range(run.pick(3, 6)):
            rng.shuffle(hexes)
            i = 0
            while i < len(hexes):
                s, slots, colors = carriers(rng.choice(FMTS), rng)
                for o, k in colors:
                    if i < len(hexes):
                        o[k] = {"hex": hexes[i], "hash": rng.random() < 0.8 or k == "color", "upper": rng.random() < 0.5}
                        i += 1
                for x in slots:
                    if rng.random() < 0.5 and i < len(hexes):
                        x["props"] = [[{"hex": hexes[i], "hash": rng.random() < 0.8, "upper": rng.random() < 0.5, "name": "col", "type": "color", "val": "none"}]]
                        i += 1
                s["style"] = style(rng)
                run.load(s, "model")
    run.execute()


# ------------------------------------------------------------------ P10


def P10(run):
    ms = models(run, "MC_Optional")
    mix(run, ["attrs", "layers"], run.pick(150, 2500))
    mix(run, ["attrs", "tilesets", "tiles"], run.pick(150, 2000), calls=["map", "tileset"], what="tilesets")
    mix(run, ["attrs", "chunks"], run.pick(60, 600), what="infinite")
    for m in ms:
        docs = m.result()
        sets = [d["tilesets"]["s"] for d in docs if d["map"]["tsrefs"]]
        rest = [d for d in docs if not d["map"]["tsrefs"]]
        pack(run, rest, 20)
        packsets(run, sets, 20)
    run.execute()


# ------------------------------------------------------------------ P11


def P11(run):
    ms = models(run, "MC_Tilesets")
    mix(run, ["tilesets", "tiles", "attrs", "wang", "props"], run.pick(200, 3000))
    for rng in run.rngs(run.pick(150, 2000), "storages"):
        # one tileset, stored four ways and loaded by itself
        fmt = rng.choice(FMTS)
        g = Gen(rng, ["tiles", "attrs", "wang", "props", "colors"], fmt, plain=rng.random() < 0.5)
        one = g.tileset_call("x")
        t = noempty(noclass(one["tilesets"]["t0"]))
        first = rng.choice([1, 2, 100, 3001])
        empties = [k for k in ("tiles", "wangsets", "properties") if rng.random() < 0.5] if rng.random() < 0.2 else []  # only JSON can write those
        for k in empties:
            if rng.random() < 0.8:
                t[{"properties": "props"}.get(k, k)] = []
        jobs = []
        for f in FMTS:
            s = {"call": "tileset", "fmt": f, "mapdir": ["q", "sets"], "file": "t0.ts" + f[0], "via": "abs", "entry": "t0", "tilesets": {"t0": t},
                 "templates": {}, "style": dict(style(rng), empties=empties), "id": "x"}
            if f == "json" or not empties:
                jobs.append(run.render(s))
            for how in ("embedded", "tmx", "json"):
                if empties and (how == "tmx" or how == "embedded" and f == "tmx"):
                    continue
                m = files.base(f)
                m["templates"], m["map"]["layers"] = {}, []
                m["tilesets"] = {"t0": t}
                m["map"]["tsrefs"] = [{"first": first, "ts": "t0", "how": how, "src": [] if how == "embedded" else ["sets", "t0." + how]}]
                m["style"] = dict(style(rng), empties=empties)
                jobs.append(run.render(m, pick=first))
        a = jobs[rng.randrange(len(jobs))]
        for b in jobs:
            if b is not a:
                run.pair(None, None, "another storage", ja=copy.deepcopy(a), jb=copy.deepcopy(b))
    for m in ms:
        for s in sample(run, m.result(), run.pick(800, 20000)):
            run.load(s, "model")
    run.execute()


# ------------------------------------------------------------------ P12, P13


def P12(run):
    ms = models(run, "MC_Tiles")
    mix(run, ["tiles", "tilesets"], run.pick(200, 3000), calls=["map", "map", "tileset"])
    mix(run, ["tiles", "tilesets", "objects", "props"], run.pick(60, 1000), what="collision shapes")
    for m in ms:
        docs = m.result()
        one = [d["tilesets"]["s"] for d in docs if len(d["tilesets"]["s"]["tiles"]) == 1]
        more = [d["tilesets"]["s"] for d in docs if len(d["tilesets"]["s"]["tiles"]) > 1]
        packsets(run, one + sample(run, more, run.pick(2000, 40000)), 24)
    run.execute()


def P13(run):
    ms = models(run, "MC_Wang")
    mix(run, ["wang", "tilesets"], run.pick(200, 3000), calls=["map", "map", "tileset"])
    mix(run, ["wang", "tilesets", "props", "colors"], run.pick(60, 1000), what="with properties")
    for m in ms:
        packsets(run, [d["tilesets"]["s"] for d in sample(run, m.result(), run.pick(5000, 60000))], 24)
    run.execute()


# ------------------------------------------------------------------ P14


def P14(run):
    ms = models(run, "MC_Paths")
    mix(run, ["tilesets", "tiles"], run.pick(250, 3000))
    mix(run, ["tilesets", "template"], run.pick(150, 2000), templates=True, what="templates")
    for rng in run.rngs(run.pick(250, 3000), "links"):
        tpl = rng.random() < 0.4
        s = doc(rng, ["tilesets", "template" if tpl else "tiles"], rng.choice(FMTS), rng.random() < 0.7, tpl)
        s["via"] = rng.choice(["abs", "rel", "relroot", "dots"])
        run.load(gen.linked(rng, s), "links")
    for rng in run.rngs(run.pick(200, 3000), "absolute"):
        s = doc(rng, ["tilesets", "tiles", rng.choice(["template", "layers"])], rng.choice(FMTS), rng.random() < 0.5, rng.random() < 0.5, rng.choice(["map"] * 4 + ["tileset"]))
        run.load(gen.absolute(rng, s, rng.choice([0.2, 0.5, 1])), "absolute paths")
    for m in ms:
        for s in m.result():
            run.load(s, "model")
    run.execute()


# ------------------------------------------------------------------ P15


def worlds(run, docs, what):
    for s in docs:
        jid = run.job(world.job(s))
        run.count(what, json.dumps(s, sort_keys=True))
        run.recs.append(({"id": "r%d" % len(run.recs), "mode": "world", "s": s}, {"obs": jid}))


def P15(run):
    ms = models(run, "MC_World")
    worlds(run, (world.scenario(r, True) for r in run.rngs(run.pick(1200, 12000), "worlds")), "random")
    for m in ms:
        worlds(run, sample(run, m.result(), run.pick(3000, 40000)), "model")
    run.execute()


# ------------------------------------------------------------------ P16


def P16(run):
    ms = models(run, "MC_Detect")
    # unknown types of layers
    for rng in run.rngs(run.pick(40, 300), "layer types"):
        s = doc(rng, ["layers"], "json")
        ls = s["map"]["layers"]
        while ls and rng.random() < 0.5 and any(x["kind"] == "group" for x in ls):
            ls = rng.choice([x for x in ls if x["kind"] == "group"])["children"]
        kind = rng.choice(["vplayer", "", "TileLayer", "objects", "tilelayer2", "imageLayer"])
        ls.insert(rng.randrange(len(ls) + 1), dict(files.layer("image", image=["x.png"]), kind=kind))
        run.load(s, "unknown layer type")
    # templates of the other format
    for rng in run.rngs(run.pick(60, 400), "other templates"):
        fmt = rng.choice(FMTS)
        s = doc(rng, ["objects", "template", "layers"], fmt, rng.random() < 0.8, True)
        used = sorted({o["template"][0]["tpl"] for o in gen.objects_of(s["map"]["layers"]) if o["template"]})
        for t in rng.sample(used, rng.choice([1, len(used)]) if used else 0):
            s["templates"][t]["fmt"] = "json" if fmt == "tmx" else "tmx"
        run.load(s, "templates of the other format")
    for m in ms:
        for i, e in enumerate(sample(run, m.result(), run.pick(4000, 60000))):
            s, job = files.case_job(vp, e, nested=i % 2 == 1, salt=str(run.seed))
            run.file(e["c"], job, "model")
            if e["c"]["content"] in ("xml", "json") and (e["c"]["role"] != "template" or e["c"]["mapfmt"] == ("tmx" if e["body"] == "xml" else "json")):
                jid = run.job(copy.deepcopy(job))
                run.recs.append(({"id": "r%d" % len(run.recs), "mode": "load", "s": s}, {"obs": jid}))
    run.execute()


# ------------------------------------------------------------------ P21


def P21(run):
    docs, built = [], []
    rng = random.Random("P21/%d" % run.seed)
    for role in ("map", "tileset", "world", "exttileset", "template", "tpltileset"):
        for mapfmt in FMTS:
            for fmt in FMTS:
                if role in ("map", "tileset") and fmt != mapfmt or role == "template" and fmt != mapfmt or role == "world" and (mapfmt, fmt) != ("json", "json"):
                    continue
                if role == "world":
                    ws = world.scenario(rng)
                    while not ws["maps"]:
                        ws = world.scenario(rng)
                    ws["style"] = {"seed": 1, "indent": 1}
                    job = world.job(ws)
                    path = job["entry"]
                else:
                    s, path = files.scenario(role, mapfmt, fmt, nested=rng.random() < 0.5)
                    s["style"] = dict(style(rng), ascii=False, indent=rng.choice([0, 1]))
                    s["tilesets"]["a"]["attrs"]["name"] = "s:%C3%A9t%E6%97%A5"
                    if role == "map":
                        s["map"]["layers"][0].update(enc="base64", comp=rng.choice(["", "zlib"]))
                    job = vp.job_of(s)
                data = files.get(job, path)
                lead = rng.choice([b"", b"\n", b"  \n"])
                if lead and fmt == "tmx":
                    data = files.strip_decl(data)
                data = lead + data
                docs.append({"role": role, "mapfmt": mapfmt, "fmt": fmt, "lead": len(lead), "end": len(data.rstrip())})
                built.append((job, path, data))
    f = os.path.join(vp.scratch(), "docs.ndjson")
    with open(f, "w") as fh:
        for d in docs:
            fh.write(json.dumps(d) + "\n")
    m = run.model("MC_Torn", env={"DOCS": f})
    # compressed data cut short, at every byte
    for rng2 in run.rngs(run.pick(6, 40), "data"):
        for comp in ("zlib", "gzip"):
            g = Gen(rng2, ["data"], "tmx", plain=True)
            l = g.layer("tile")
            l.update(enc="base64", comp=comp)
            full = len(base64.b64decode(render.pack(render.words(l), comp)))
            for cut in range(1, full):
                s = files.base(rng2.choice(FMTS))
                s["templates"], s["map"]["tsrefs"] = {}, []
                s["map"]["layers"] = [dict(l, cut=cut)]
                if rng2.random() < 0.3:
                    s["map"]["layers"] = [files.layer("group", children=s["map"]["layers"])]
                run.load(s, "compressed data cut")
    for e in m.result():
        job, path, data = built[e["doc"] - 1]
        job = copy.deepcopy(job)
        end = docs[e["doc"] - 1]["end"]
        files.put(job, path, data if e["cut"] == end else data[: e["cut"]])
        run.file(e["c"], job, "every cut")
    run.extra["exhaustive"] = True
    run.execute()


# ------------------------------------------------------------------ P17


def allprops(v):
    """A custom property of every type."""
    return [[{"name": "s", "type": "string", "val": "s:" + v, "hex": []}, {"name": "i", "type": "int", "val": "n:5", "hex": []},
             {"name": "f", "type": "float", "val": "n:0.5", "hex": []}, {"name": "b", "type": "bool", "val": "b:true", "hex": []},
             {"name": "p", "type": "file", "val": "p:a/b.png", "hex": []}, {"name": "o", "type": "object", "val": "n:3", "hex": []},
             {"name": "c", "type": "color", "val": "none", "hex": [1, 2, 3, 4, 5, 6, 7, 8], "hash": True}]]


def enrich_set(ts, fmt):
    """A tileset that has everything."""
    ts["props"][0] += allprops("V0")[0]
    ts["attrs"].update(backgroundcolor={"hex": [9, 9, 9, 9, 9, 9], "hash": True}, spacing="n:1", version="s:1.10", **{"class": "s:V0"})
    ts["tileoffset"] = [{"x": "n:1", "y": "n:2"}]
    ts["grid"] = [{"orientation": "s:isometric", "width": "n:3", "height": "n:4"}]
    ts["transformations"] = [{"hflip": "b:true", "vflip": "b:false", "rotate": "b:true", "preferuntransformed": "b:false"}]
    color = lambda n: {"name": "s:V0" + n, "attrs": {"class": "s:V0"}, "color": {"hex": [1, 2, 3, 4, 5, 6], "hash": True}, "probability": "n:0.5", "tile": "n:0",
                       "props": allprops("V0" + n)}
    ts["wangsets"] = [[{"name": "s:V0w%d" % i, "attrs": {}, "tile": "n:0", "type": "s:mixed", "props": allprops("V0") if i else [], "colors": [color("c%d" % k) for k in range(2 + i)],
                        "tiles": [{"tileid": k, "wangid": [1, 0, 1, 0, 2, 0, 2, i]} for k in range(2)]} for i in range(2)]]
    ts["wangsets"][0].append({"name": "s:none", "attrs": {}, "tile": "n:-1", "type": "s:edge", "props": [[]] if fmt == "json" else [], "colors": [], "tiles": []})


def session_files(fmt, setfmt, rng):
    """The files of MC_Session in one pair of formats: {letter: (path, [versions])}, and what loads them."""
    tplfmt = fmt

    def tail(s, v):
        """Version V of a document: the same size, other values everywhere."""
        def walk(x):
            if isinstance(x, dict):
                return {k: (y if k in ("segs", "src", "image", "file", "mapdir", "style", "template", "templates_", "tsrefs", "how", "type") else walk(y)) for k, y in x.items()}
            if isinstance(x, list):
                return [walk(y) for y in x]
            if isinstance(x, str) and x.startswith("s:V0"):
                return "s:V%d" % v + x[4:]
            return x
        return walk(s)

    m = files.base(fmt, setfmt=setfmt, tplfmt=tplfmt, tplsetfmt="tmx" if setfmt == "json" else "json", nested=True)
    m["map"]["props"] = [[{"name": "p", "type": "string", "val": "s:V0m", "hex": []}]]
    a, b, tp = m["tilesets"]["a"], m["tilesets"]["b"], m["templates"]["t"]
    for k, ts in (("a", a), ("b", b)):
        ts["attrs"]["name"] = "s:V0" + k
        ts["props"] = [[{"name": "q", "type": "string", "val": "s:V0" + k, "hex": []}]]
        coll = files.layer("object", objects=[files.obj(9)])
        ts["tiles"] = [
            {"id": 0, "attrs": {"class": "s:V0"}, "image": [], "animation": [[{"tileid": 0, "duration": 10}]] if k == "a" else [], "objects": [coll], "props": []},
            {"id": 1, "attrs": {}, "image": [], "animation": [], "objects": [], "props": [[{"name": "z", "type": "int", "val": "n:1", "hex": []}]]},
        ]
        enrich_set(ts, fmt)
        for x in ts["tiles"]:
            x["animation"] = x["animation"] and [x["animation"][0]]
    tp["object"]["attrs"]["name"] = "s:V0t"
    tp["object"]["props"] = [[{"name": "r", "type": "string", "val": "s:V0t", "hex": []}]]
    ol = m["map"]["layers"][1]["children"][0]
    inst = copy.deepcopy(ol["objects"][1])
    inst["attrs"]["id"] = "n:8"
    plain = files.obj(11)
    text = files.obj(12)
    text.update(kind="text", text=[{"text": "s:V0txt", "attrs": {}}])
    poly = files.obj(13)
    poly.update(kind="polygon", points=[["n:0", "n:0"], ["n:1", "n:2"], ["n:4", "n:2"]])
    ol["objects"] += [inst, plain, text, poly]
    m["map"]["layers"].append(files.layer("image", image=["i.png"]))
    for k in ("ellipse", "point", "polyline", "tile"):
        x = files.obj(20)
        x["attrs"].update(name="s:V0" + k, rotation="n:4", width="n:2")
        x.update(kind=k, points=[["n:0", "n:0"], ["n:9", "n:2"]] if k == "polyline" else [], gid=[[8, 2]] if k == "tile" else [])
        x["props"] = allprops("V0" + k)
        ol["objects"].append(x)
    grp = files.layer("group", children=[files.layer("image", image=["j.png"]), files.layer("group", children=[])])
    for l in (grp, grp["children"][0], m["map"]["layers"][0], ol):
        l["props"] = allprops("V0")
        l["attrs"].update(opacity="n:0.5", offsetx="n:3", tintcolor={"hex": [1, 2, 3, 4, 5, 6], "hash": True}, **{"class": "s:V0c"})
    m["map"]["layers"].append(grp)
    m["map"]["layers"].append(files.layer("object"))
    if fmt == "json":  # written, but empty
        grp["children"][1]["props"] = [[]]
        m["map"]["layers"][-1]["props"] = [[]]
        plain["props"] = [[]]
        text["props"] = [[]]
    o = files.base(fmt, setfmt=setfmt, nested=False)
    o["file"] = "o" + o["file"]
    o["map"]["attrs"]["infinite"] = "b:true"
    chunk = {"x": -16, "y": 0, "w": 2, "h": 1, "cells": [[0, 2], [8, 1]]}
    o["map"]["layers"] = [files.layer("tile", w=1, h=1, chunks=[[chunk, dict(chunk, x=0)]], enc="base64", comp="zlib"),
                          files.layer("tile", w=1, h=1, chunks=[[chunk]]), files.layer("tile", w=1, h=1, chunks=[[]]), files.layer("object", objects=[files.obj(1), files.obj(2)])]
    o["map"]["tsrefs"] = [copy.deepcopy(m["map"]["tsrefs"][0]),
                          {"first": 9, "ts": "b", "how": tp["tileset"][0]["how"], "src": ["tpl"] + tp["tileset"][0]["src"]}]
    o["tilesets"] = m["tilesets"]
    o["templates"] = {}
    mdir = render.join(m["mapdir"])
    paths = {
        "m": mdir + "/" + m["file"], "a": mdir + "/" + render.join(m["map"]["tsrefs"][0]["src"]),
        "t": mdir + "/" + render.join(inst["template"][0]["src"]), "b": mdir + "/tpl/" + render.join(tp["tileset"][0]["src"]),
        "w": mdir + "/w.world",
    }
    vs = {k: [] for k in paths}
    for v in (0, 1):
        got = {k: base64.b64decode(x) for k, x in vp.job_of(tail(m, v))["files"].items()}
        for k in "matb":
            vs[k].append(got[paths[k]])
        w = {"mapdir": m["mapdir"], "maps": [{"file": ["x%d.tmx" % (v + 1)], "w": "n:1", "h": "n:1", "x": "n:0", "y": "n:0"}],
             "patterns": [{"atoms": [{"t": "lit", "c": ["g"]}, {"t": "num", "c": []}, {"t": "lit", "c": ["-"]}, {"t": "num", "c": []}], "mx": 4, "my": 4, "ox": [v * 4], "oy": []}],
             "entries": [{"name": list("g1-2"), "kind": "file"}], "adjacent": "b:false", "style": {"seed": 1}}
        wj = world.job(w)
        vs["w"].append(base64.b64decode(wj["files"][wj["entry"]]))
    vs["m"].append(vs["m"][0][: len(vs["m"][0]) - 9])
    vs["a"].append(vs["a"][0][: len(vs["a"][0]) // 2])
    vs["t"].append(b"  neither <")
    ojob = vp.job_of(o)
    fs = {}
    for k, p in paths.items():
        n = max(len(x) for x in vs[k])
        fs[p] = [base64.b64encode(x.ljust(n)).decode("ascii") for x in vs[k]]
    fs[ojob["entry"]] = [ojob["files"][ojob["entry"]]]
    fs[mdir + "/g1-2"] = [""]
    # files that something else than the directory of the naming file would lead to
    extra, place = {}, decoys.Place({"files": dict(fs), "dirs": [mdir]})
    for sc in (m, o):
        for d, p, what in decoys.written(sc):
            for b in ("", mdir, mdir + "/tpl"):
                for q in (posixpath.join(b, p), posixpath.join(b, posixpath.basename(p))):
                    place.put(q, decoys.CONTENT[what])
    extra = {p: v for p, v in place.fs.items() if p not in fs}
    entries = [["m", "map", paths["m"]], ["o", "map", ojob["entry"]], ["a", "tileset", paths["a"]], ["w", "world", paths["w"]]]
    return {"files": fs, "paths": paths, "entries": entries, "mdir": mdir, "decoys": extra}


REACH = {"m": ["m", "a", "t", "b"], "o": ["a", "b"], "a": ["a"], "w": ["w"]}
WHICH = ["m", "o", "a", "w"]


def points(trace, which):
    """Where to consider a switch: at those occurrences of every source line, and at its last one."""
    count, last, out = {}, {}, {len(trace)}
    for i, line in enumerate(trace):
        count[line] = count.get(line, 0) + 1
        last[line] = i + 1
        if count[line] in which:
            out.add(i + 1)
    return sorted(out | set(last.values()))


def P17(run):
    ms = models(run, "MC_Session")
    long = run.model("MC_Session", "MC_Session_long", args=(
        "-simulate", "num=%d" % run.pick(150, 3000), "-depth", "9", "-seed", str(run.seed), "-aril", "0"), workers=1)
    flavours = [session_files(f, g, None) for f, g in (("tmx", "tmx"), ("json", "json"), ("tmx", "json"), ("json", "tmx"))]
    hists = [(h, "model") for m in ms for h in sample(run, m.result(), run.pick(3500, 60000))] + [(h, "long") for h in sample(run, long.result(), run.pick(600, 12000))]
    # what a process that loads for the first time gets, for every combination of versions that occurs
    todo, need = [], {}
    for n, (h, what) in enumerate(hists):
        fl = n % len(flavours)
        F = flavours[fl]
        files_, dir_ = {k: 0 for k in F["paths"]}, ""
        steps, keys = [], []
        for st in h:
            st = dict(st)
            if st["op"] == "rewrite":
                files_[st["file"]] = st["v"]
                steps.append(dict(st, file=F["paths"][st["file"]]))
            elif st["op"] == "chdir":
                dir_ = st["dir"]
                steps.append(dict(st, dir=F["mdir"] if dir_ == "m" else "."))
            elif st["op"] == "load":
                e = st["entry"]
                key = e + (" from " + dir_ if st["via"] == "rel" else "") + " " + "".join(str(files_[k]) for k in REACH[e])
                need.setdefault((fl, key), {"entry": e, "via": st["via"], "dir": dir_, "files": dict(files_)})
                keys.append(key)
                steps.append(dict(st, entry=WHICH.index(e)))
            else:
                steps.append(st)
        todo.append((fl, h, steps, keys, what))
    jobs, order = [], sorted(need)
    for i, (fl, key) in enumerate(order):
        F, x = flavours[fl], need[(fl, key)]
        fs = {p: [v[0]] for p, v in F["files"].items()}
        for k, p in F["paths"].items():
            fs[p] = [F["files"][p][x["files"][k]]]
        jobs.append({"id": str(i), "kind": "fresh", "files": fs, "dirs": [], "entries": F["entries"], "steps": [
            {"op": "chdir", "dir": F["mdir"] if x["dir"] == "m" else "."}, {"op": "load", "entry": WHICH.index(x["entry"]), "via": x["via"]}]})
    base = vp.run_worker("session.py", jobs)
    fresh = {k: base[str(i)]["steps"][1]["digest"] for i, k in enumerate(order)}
    for (fl, key), d in fresh.items():  # versions that could not be told apart would make the sessions blind
        for k in range(len(key) - 1, key.rfind(" "), -1):
            other = fresh.get((fl, key[:k] + {"0": "1", "1": "0", "2": "2"}[key[k]] + key[k + 1 :]))
            if key[k] != "2" and other == d and not d.startswith("raise"):
                raise vp.Failure("versions of %s do not differ" % key)
    run.extra["first loads"] = len(fresh)
    run.extra["different first loads"] = len(set(fresh.values()))
    for fl, h, steps, keys, what in todo:
        F = flavours[fl]
        jid = run.job({"kind": "session", "files": dict(F["files"], **F["decoys"]), "dirs": [], "entries": F["entries"], "steps": steps, "entry": what})
        run.count(what + " session", json.dumps([fl, h]))
        run.recs.append(({
            "id": "r%d" % len(run.recs), "mode": "session", "reach": REACH, "init": {k: 0 for k in F["paths"]}, "steps": h,
            "fresh": {k: fresh[(fl, k)] for k in keys} or {"none": "none"}}, {"obs": jid}))
    run.execute("session.py")
    # two documents of any kind under two trees, in which files of the same names have other content
    jobs, todo = [], []
    for i, rng in enumerate(run.rngs(run.pick(300, 4000), "random")):
        parts, fmt = [], rng.choice(FMTS)
        for _ in range(2):
            focus = ["tilesets", "template"] + rng.sample(SUBJECTS, rng.choice([2, 4, 12])) if rng.random() < 0.8 else rng.sample(SUBJECTS, 3)
            parts.append(vp.job_of(doc(rng, sorted(set(focus)), fmt if rng.random() < 0.8 else rng.choice(FMTS), rng.random() < 0.5, rng.random() < 0.6, rng.choice(["map"] * 7 + ["tileset"]))))
        fs, dirs, entries = {}, [], []
        for k, (j, at) in enumerate(zip(parts, ("", "zz/"))):
            fs.update({at + p: v for p, v in j["files"].items()})
            dirs += [at + d for d in j.get("dirs") or []]
            entries.append(["mo"[k], j["call"], at + j["entry"]])
            jobs.append({"id": "%d%s" % (i, "mo"[k]), "kind": "fresh", "files": {at + p: [v] for p, v in j["files"].items()}, "dirs": [at + d for d in j.get("dirs") or []],
                         "entries": [entries[-1]], "steps": [{"op": "load", "entry": 0, "via": "abs"}]})
        steps = [{"op": "load", "entry": 0, "via": "abs"}, {"op": "load", "entry": 1, "via": "abs"}, {"op": "mutate", "held": 0, "how": rng.choice(["grow", "clear"])},
                 {"op": "load", "entry": 0, "via": "abs"}, {"op": "load", "entry": 1, "via": "abs"}]
        todo.append((i, fs, dirs, entries, steps))
    base = vp.run_worker("session.py", jobs)
    for i, fs, dirs, entries, steps in todo:
        jid = run.job({"kind": "session", "files": {p: [v] for p, v in fs.items()}, "dirs": dirs, "entries": entries, "steps": steps, "entry": "random"})
        run.count("two random documents", json.dumps(sorted(fs.items())))
        run.recs.append(({
            "id": "r%d" % len(run.recs), "mode": "session", "reach": {"m": ["m"], "o": ["o"]}, "init": {"m": 0, "o": 0},
            "steps": [dict(st, entry="mo"[st["entry"]]) if st["op"] == "load" else st for st in steps],
            "fresh": {k + " 0": base["%d%s" % (i, k)]["steps"][0]["digest"] for k in "mo"}}, {"obs": jid}))
        # the same two at the same time, each to be interrupted anywhere
        rng = random.Random("%d/%d/threads" % (run.seed, i))
        for _ in range(run.pick(3, 4)):
            plan, longest = [], rng.choice([2, 5, 20, 60, 400])
            for k in range(rng.choice([1, 2, 6, 20, 80])):
                plan.append([k % 2, rng.randrange(1, longest * 2)])
            jid = run.job({"kind": "sched", "files": fs, "dirs": dirs, "loads": [e[1:] for e in entries], "plan": plan, "entry": "threads"})
            run.count("two random documents in threads", json.dumps([plan, sorted(fs.items())]))
            run.recs.append(({"id": "r%d" % len(run.recs), "mode": "sched", "alone": [base["%d%s" % (i, k)]["steps"][0]["digest"] for k in "mo"]}, {"obs": jid}))
    run.extra["random documents that load"] = sum(not base["%d%s" % (t[0], k)]["steps"][0]["digest"].startswith("raise") for t in todo for k in "mo")
    run.execute("session.py")
    # loads in two threads; those of capital letters from another tree, in which everything is different
    pairs, probes = [], []
    for F, (x, y) in zip([flavours[k] for k in (0, 1, 0, 1, 2, 3, 0, 1, 0, 1, 0, 1)], ["mm", "mm", "ma", "mo", "om", "wm", "mM", "mM", "aM", "Om", "oO", "oO"]):
        loads = [(F["entries"] if k in WHICH else [[n, c, "zz/" + p] for n, c, p in F["entries"]])[WHICH.index(k.lower())][1:] for k in (x, y)]
        pairs.append((F, loads))
    for F in flavours:
        F["now"] = {p: v[0] for p, v in F["files"].items()}
        F["now"].update({"zz/" + p: v[min(1, len(v) - 1)] for p, v in F["files"].items()})
    for i, (F, loads) in enumerate(pairs):
        fs = F["now"]
        probes.append({"id": "p%d" % i, "kind": "sched", "files": fs, "dirs": [], "loads": loads, "plan": [], "trace": True})
    got = vp.run_worker("session.py", probes)
    alone = []
    for i, (F, loads) in enumerate(pairs):
        jobs = [{"id": str(k), "kind": "fresh", "files": {p: [v] for p, v in F["now"].items()}, "dirs": [], "entries": [["x", *l]],
                 "steps": [{"op": "load", "entry": 0, "via": "abs"}]} for k, l in enumerate(loads)]
        b = vp.run_worker("session.py", jobs)
        alone.append([b[str(k)]["steps"][0]["digest"] for k in range(len(loads))])
    f = os.path.join(vp.scratch(), "loads.ndjson")
    with open(f, "w") as fh:
        for i in range(len(pairs)):
            o = got["p%d" % i]
            fh.write(json.dumps({"lines": o["lines"], "points": [points(t, run.pick((1, 2) if i in (6, 7) else (1,), (1, 2, 3, 5))) for t in o["trace"]]}) + "\n")
    run.extra["line events per load"] = [got["p%d" % i]["lines"] for i in range(len(pairs))]
    docs = run.model("MC_Sched", "MC_Sched" if run.quick else "MC_Sched_deep", env={"LOADS": f}).result()
    apart = [e for e in docs if e["pair"] > 6]
    for e in sample(run, apart, run.pick(4000, 30000)) + sample(run, [e for e in docs if e["pair"] <= 6], run.pick(1500, 15000)):
        F, loads = pairs[e["pair"] - 1]
        fs = F["now"]
        jid = run.job({"kind": "sched", "files": fs, "dirs": [], "loads": loads, "plan": e["plan"], "entry": "threads"})
        run.count("schedule", json.dumps(e))
        run.recs.append(({"id": "r%d" % len(run.recs), "mode": "sched", "alone": alone[e["pair"] - 1]}, {"obs": jid}))
    run.execute("session.py")
    # the same in interpreters that are set up otherwise
    for k, env in enumerate(SETUPS):
        for rng in run.rngs(run.pick(30, 400), "setup%d" % k):
            s = doc(rng, rng.sample(SUBJECTS, rng.choice([2, 4, 12])), rng.choice(FMTS), rng.random() < 0.5, rng.random() < 0.4, rng.choice(["map"] * 5 + ["tileset"]))
            run.load(gen.linked(rng, s) if s["call"] == "map" and rng.random() < 0.3 else s, "other set-ups")
        run.execute(extra_env=env)


SETUPS = [
    {"PYTHONOPTIMIZE": "1"}, {"PYTHONOPTIMIZE": "2"}, {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "2718281828"}, {"PYTHONDEVMODE": "1"},
    {"VP_THREAD": "1"}, {"PYTHONWARNINGS": "error"}, {"TZ": "Asia/Tokyo", "HOME": "/nonexistent", "COLUMNS": "1", "LANGUAGE": "tr", "USER": "x"},
]


# ------------------------------------------------------------------ P18


def watch(run, s, job, what):
    run.count(what, json.dumps([job["files"], job.get("via")], sort_keys=True))
    run.recs.append(({"id": "r%d" % len(run.recs), "mode": "access", "s": s}, {"obs": run.job(job)}))


def P18(run):
    ms = models(run, "MC_Access", "MC_Paths", "MC_Gids")
    for rng in run.rngs(run.pick(500, 6000), "watched"):
        focus = rng.choice([["tilesets", "template"], ["tilesets", "tiles"], ["template", "objects", "props"], ["layers", "tilesets"],
                            ["data", "chunks"], ["text", "objects", "props", "colors"], ["wang", "tiles"]])
        s = doc(rng, focus, rng.choice(FMTS), rng.random() < 0.5, "template" in focus or None, rng.choice(["map"] * 5 + ["tileset"]), None, 3)
        if s["fmt"] == "json" and rng.random() < 0.5:
            s = older(rng, numeric(rng, plainprops(s)))
        if rng.random() < 0.3:
            s["style"].update(noise=rng.choice([1, 2]), shuffle=rng.random() < 0.5)
        if rng.random() < 0.15:
            gen.absolute(rng, s)
        watch(run, s, neighbours(run.render(s), s, rng), "random")
    for rng in run.rngs(run.pick(150, 1500), "worlds"):
        s = world.scenario(rng)
        s["call"] = "world"
        s.setdefault("file", "w.world")
        job = neighbours(world.job(s), s, rng)
        for m in s["maps"]:
            p = os.path.normpath(os.path.join(render.join(s["mapdir"]), render.join(m["file"])))
            if not p.startswith("..") and not any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in list(job["files"]) + (job.get("dirs") or [])):
                job["files"][p] = base64.b64encode(b"<map/>").decode("ascii")
        watch(run, s, job, "world")
    # loads that fail
    for rng in run.rngs(run.pick(60, 600), "failing"):
        role = rng.choice(["map", "tileset", "exttileset", "template", "tpltileset"])
        fmt = rng.choice(FMTS)
        s, path = files.scenario(role, fmt, fmt)
        job = vp.job_of(s)
        data = files.get(job, path)
        files.put(job, path, rng.choice([data[: rng.randrange(len(data))], b"", b"rubbish", data.replace(b"a", b"", 3)]))
        watch(run, s, neighbours(job, s, rng), "failing")
    for m in ms:
        for k, s in enumerate(sample(run, m.result(), run.pick(400, 10000))):
            watch(run, s, neighbours(run.render(s), s, random.Random("%d/%d" % (run.seed, k))), "model")
    run.execute("access.py")


# ------------------------------------------------------------------ P19

CHARS = {
    "a": "a", "lt": "<", "amp": "&", "gt": ">", "quot": '"', "apos": "'", "nl": "\n", "tab": "\t", "sp": " ", "cr": "\r", "e9": "\u00e9",
    "emoji": "\U0001F600", "rbr": "]", "bsl": "\\", "nbsp": "\u00a0", "zero": "0", "ls": "\u2028", "slash": "/", "pct": "%",
}
LOCALES = [
    {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    {"LC_ALL": "POSIX", "LANG": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    {"LC_ALL": "C.UTF-8"},
    {"PYTHONUTF8": "1", "LC_ALL": "C"},
]


def spelled(e):
    """(text, its source) of an MC_Text behaviour."""
    out = []
    for how, c in e["src"]:
        ch = CHARS[c]
        if how == "raw":
            out.append(ch)
        elif how == "ent":
            out.append("&%s;" % c)
        elif how == "ref":
            out.append("&#%d;" % ord(ch))
        elif how == "hex":
            out.append("&#x%x;" % ord(ch))
        elif how == "uni":
            out.append(json.dumps(ch)[1:-1] if ord(ch) > 126 else "\\u%04x" % ord(ch))
        elif how == "short":
            out.append({"\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"', "\\": "\\\\", "/": "\\/"}[ch])
    return "".join(CHARS[c] for c in e["str"]), "".join(out)


def textplaces(fmt, rng):
    """A document, and the places of it that hold free text: (scenario, in attributes, in elements)."""
    s, slots, _ = carriers(fmt, rng)
    attr, elem = [], []
    for i, x in enumerate(slots):
        x["props"] = [[{"name": "k%d" % k, "type": "string", "val": "s:", "hex": []} for k in range(3)]]
        for p in x["props"][0]:
            attr.append((p, "val"))
        attr.append((x["props"][0][0], "name"))
    a, w = s["tilesets"]["a"], s["tilesets"]["w"]
    for t in (a, w):
        attr += [(t["attrs"], "name"), (t["attrs"], "class")]
    attr.append((s["map"]["attrs"], "class"))
    for ws in w["wangsets"][0]:
        attr += [(ws, "name"), (ws["attrs"], "class")]
        for c in ws["colors"]:
            attr += [(c, "name"), (c["attrs"], "class")]
    for t in a["tiles"]:
        attr.append((t["attrs"], "class"))

    def walk(ls):
        for l in ls:
            attr.extend([(l["attrs"], "name"), (l["attrs"], "class")])
            for o in l["objects"]:
                attr.extend([(o["attrs"], "name"), (o["attrs"], "class")])
                for t in o["text"]:
                    elem.append((t, "text"))
                    attr.append((t["attrs"], "fontfamily"))
            walk(l["children"])

    walk(s["map"]["layers"])
    walk(a["tiles"][0]["objects"])
    ol = [l for l in s["map"]["layers"] if l["kind"] == "object"][-1]
    for i in range(40):
        o = files.obj(60 + i)
        o.update(kind="text", text=[{"text": "s:", "attrs": {}}])
        ol["objects"].append(o)
        elem.append((o["text"][0], "text"))
    return s, attr, elem


def textdocs(run, cases):
    """Documents holding the texts of MC_Text, spelled as it says."""
    rng = random.Random("P19/%d" % run.seed)
    by = {"attr": [], "attr1": [], "elem": [], "json": []}
    for e in cases:
        by[e["place"]].append(spelled(e))
    for place, items in by.items():
        rng.shuffle(items)
        i = 0
        while i < len(items):
            fmt = "json" if place == "json" else "tmx"
            s, attr, elem = textplaces(fmt, rng)
            spell = {"attr": {}, "elem": {}, "json": {}}
            slots = elem if place == "elem" else attr + elem if place == "json" else attr
            rng.shuffle(slots)
            skipped = []
            for o, k in slots:
                if i >= len(items):
                    break
                t, src = items[i]
                i += 1
                if k == "val" and "\n" in t and fmt == "tmx" or k == "name" and "props" not in o and "hex" in o and not t:
                    skipped.append((t, src))
                    continue
                kind = "json" if place == "json" else "elem" if place == "elem" else "attr"
                if t in spell[kind] and spell[kind][t] != src:
                    skipped.append((t, src))
                    continue
                if kind == "json" and t in render.RESERVED:
                    continue
                spell[kind][t] = src
                o[k] = "s:" + render.enc(t) if not (k == "name" and "hex" in o and "val" in o) else render.enc(t)
            items.extend(skipped[: len(slots) // 2]) if len(skipped) < len(slots) // 2 else None
            s["style"] = {"seed": rng.randrange(999), "single": place == "attr1", "ascii": place != "json" and rng.random() < 0.5, "spell": spell}
            yield s


def alphabets(run, rng):
    """Every character at some place, and the ones that are not quite letters at every place."""
    legal = [c for c in range(0x20, 0x11000) if not 0x7F <= c < 0x85 and not 0x86 <= c < 0xA0 and not 0xD800 <= c < 0xE000 and c not in (0xFFFE, 0xFFFF)] + [9]
    legal += [c for c in range(0x11000, 0x110000, 1 if not run.quick else 997) if c & 0xFFFE != 0xFFFE]
    odd = [chr(c) for c in legal if unicodedata.category(chr(c)) in ("Cf", "Zs", "Zl", "Zp", "Cc") or 0x20 <= c < 0x7F and not chr(c).isalnum() or 0xFE00 <= c < 0xFE10]
    size = 1500
    stripes = [legal[i : i + size] for i in range(0, len(legal), size)]
    rng.shuffle(stripes)
    snippets = [x for x in gen.FUNNY + gen.LOOKALIKE if len(x) < 100]
    for i in range(3):
        for fmt in FMTS:
            s, attr, elem = textplaces(fmt, rng)
            more, k = [], 0
            if fmt == "json" and not any(r["how"] == "tmx" for r in s["map"]["tsrefs"]):
                more = [chr(c) for c in range(0x20) if c not in (9, 10, 13)] + ["\x7f", "\x80", "\x9f"]
            for n, (o, f) in enumerate(attr + elem):
                cs = odd + more + (["\n", "\r"] if f != "val" else [])
                rng.shuffle(cs)
                t = "x" + "".join(cs) + "y"
                if i == 2:  # whatever could be rewritten
                    rng.shuffle(snippets)
                    t = "x" + "x".join(x for x in snippets if f != "val" or not set(x) & set("\r\n")) + "x"
                elif i and k < len(stripes) * 2:  # the whole alphabet, in stripes
                    t = "".join(map(chr, stripes[k % len(stripes)]))
                    k += 1
                o[f] = render.enc(t) if f == "name" and "hex" in o and "val" in o else "s:" + render.enc(t)
            s["style"] = {"seed": rng.randrange(999), "ascii": rng.random() < 0.3}
            yield s


def asciipaths(v):
    """Only image names that any locale can name (what a path may be is not what P19 is about)."""
    if isinstance(v, dict):
        for k, x in v.items():
            if k in ("segs", "src") or k == "image" and x and isinstance(x[0], str):
                v[k] = [y if all(ord(c) < 128 for c in render.dec(y)) else "u" + re.sub("[^0-9a-z.]", "", y.lower()) for y in x]
            else:
                asciipaths(x)
    elif isinstance(v, list):
        for x in v:
            asciipaths(x)


def P19(run):
    ms = models(run, "MC_Text")
    env = lambda i: LOCALES[i % len(LOCALES)]
    texts = [s for m in ms for s in textdocs(run, m.result())]
    alpha = [s for rng in run.rngs(run.pick(1, 12), "alphabets") for s in alphabets(run, rng)]
    for i, loc in enumerate(LOCALES):
        for s in texts[i :: len(LOCALES)] if run.quick else texts:
            run.load(s, "model")
        for s in alpha[i :: len(LOCALES)] if run.quick else alpha:
            run.load(s, "alphabets")
        for rng in run.rngs(run.pick(90, 1500), "text%d" % i):
            fmt = rng.choice(FMTS)
            s = doc(rng, ["text", rng.choice(["objects", "layers", "wang", "tilesets", "tiles", "template"]), "props"], fmt, rng.random() < 0.5,
                    None, rng.choice(["map"] * 4 + ["tileset"]), None, 3)
            s["style"]["ascii"] = rng.random() < 0.3
            asciipaths(s)
            run.load(s, "random text")
        ws = []
        for rng in run.rngs(run.pick(30, 300), "worlds%d" % i):
            w = world.scenario(rng)
            w["entries"], w["patterns"] = [e for e in w["entries"] if "".join(e["name"]) == "w.world"], []
            w["maps"] = [{"file": [gen.encpath(rng.choice(gen.FUNNY).strip("./\n\r ").replace("/", "") or "x") + "%d.tmx" % k], "w": "n:1", "h": "n:1", "x": "n:0", "y": "n:0"}
                         for k in range(rng.choice([1, 3]))]
            w["style"] = {"seed": rng.randrange(999), "ascii": rng.random() < 0.5}
            ws.append(w)
        worlds(run, ws, "world text")
        run.execute(extra_env=loc)


# ------------------------------------------------------------------ P20


def older(rng, s):
    """An older spelling of the same JSON document."""
    st = dict(s.get("style") or {})
    st["legacy"] = [x for x in ("props", "tiles", "version", "columns") if rng.random() < 0.6]
    st["classkey"] = rng.choice(["class", "type", "both", "mix"])
    if rng.random() < 0.4:
        st["mixed"] = True
    return dict(s, style=st)


def plainprops(s):
    """Older spellings give properties no type: only those that need none."""
    for ps in gen.walk_props(s):
        ps[:] = [p for p in ps if p["type"] in ("string", "int", "float", "bool")]
        for i in range(len(ps) - 1, -1, -1):
            if any(p["name"] == ps[i]["name"] for p in ps[:i]):
                del ps[i]
    return s


def numeric(rng, s):
    """Format versions that are the same as text and as a number."""
    for t in list(s["tilesets"].values()) + [s.get("map") or {"attrs": {}}]:
        if "version" in t["attrs"]:
            t["attrs"]["version"] = rng.choice(["s:1.9", "s:1", "s:1.2", "s:1.6"])
    return s


def P20(run):
    ms = models(run, "MC_Legacy")
    for rng in run.rngs(run.pick(350, 5000), "older"):
        s = doc(rng, ["props", rng.choice(["objects", "tiles", "attrs", "template", "wang"]), "tiles", "tilesets"], "json", rng.random() < 0.7,
                None, rng.choice(["map"] * 3 + ["tileset"]), rng.choice([None, ["json", "embedded"]]))
        s = noempty(plainprops(s))
        numeric(rng, s)
        for t in list(s["tilesets"].values()) + [s.get("map") or {"attrs": {}}]:
            if "columns" in t["attrs"] and rng.random() < 0.3:
                del t["attrs"]["columns"]
            elif "tilecount" in t:
                t["attrs"].setdefault("columns", "n:1")
        if "map" in s:
            for k in ("nextlayerid", "tiledversion") + (() if s["map"]["attrs"].get("infinite") == "b:true" else ("infinite",)):
                if rng.random() < 0.3:
                    s["map"]["attrs"].pop(k, None)
        o = older(rng, s)
        run.load(o, "older spelling")
        run.pair(dict(s, style=dict(s["style"], classkey="class")), o, "older and current")
    for m in ms:
        for s in m.result():
            run.load(s, "model")
            if not run.quick or run.n % 3 == 0:
                run.pair(dict(s, style={"seed": 1, "classkey": "class"}), s, "model, older and current")
    run.execute()


# ------------------------------------------------------------------ P22

XNOISE = {
    "attr": ["vp-unknown", "locked0", "x-new", "editorlock", "_a", "mode9", "vpid"],
    "elem": render.NOISE_TREE,
    "comment": render.NOISE_XML,
    "text": render.NOISE_XML,
}


def noisedocs(run, n):
    """Base documents for noise: rich ones, in both formats."""
    for i, rng in enumerate(run.rngs(n, "noise")):
        fmt = FMTS[i % 2]
        c = i // 2 % 4
        if c == 0:
            s, slots, colors = carriers(fmt, rng)
            for x in slots:
                x["props"] = [[{"name": "p", "type": "int", "val": "n:3", "hex": []}, {"name": "q", "type": "string", "val": "s:a%0Ab", "hex": []}]]
            for l in s["map"]["layers"]:
                if l["kind"] == "tile":
                    l["enc"], l["comp"] = rng.choice(ENCS)
        elif c == 1:
            s = files.base(fmt, nested=True, setfmt=rng.choice(FMTS), tplsetfmt=rng.choice(FMTS))
            l = files.layer("tile", w=2, h=1, chunks=[[{"x": 0, "y": 0, "w": 2, "h": 1, "cells": [[0, 1], [0, 2]]}, {"x": 16, "y": 0, "w": 1, "h": 1, "cells": [[0, 3]]}]])
            l["enc"], l["comp"] = rng.choice(ENCS)
            s["map"]["attrs"]["infinite"] = "b:true"
            s["map"]["layers"][0] = l
        elif c == 2:
            g = Gen(rng, ["layers", "objects", "template", "data"], fmt, plain=True)
            s = g.map_("x")
            g.add_templates(s)
        else:
            g = Gen(rng, ["tiles", "wang", "attrs", "tilesets"], fmt, plain=True)
            s = g.map_("x")
        s["style"] = {"seed": i, "indent": 1}
        s["via"] = "abs"
        yield s


def P22(run):
    bases, trees, base_job = [], [], []
    for s in noisedocs(run, run.pick(8, 48)):
        s["style"]["trees"] = []
        run.render(s)
        for t in s["style"].pop("trees"):
            trees.append(dict(t, doc=len(bases)))
        bases.append(s)
        base_job.append(None)
    f = os.path.join(vp.scratch(), "trees.ndjson")
    with open(f, "w") as fh:
        for t in trees:
            fh.write(json.dumps(t) + "\n")
    m = run.model("MC_Noise", "MC_Noise" + ("" if run.quick else "_deep"), env={"DOCS": f}, mem="10g")
    for rng in run.rngs(run.pick(250, 4000), "spread"):
        focus = [rng.choice(["layers", "attrs"]), rng.choice(["objects", "tiles", "wang", "data", "chunks"]), rng.choice(["props", "tilesets", "colors", "text"])]
        s = doc(rng, focus, rng.choice(FMTS), rng.random() < 0.5, None, rng.choice(["map"] * 5 + ["tileset"]))
        st = {"seed": rng.randrange(1 << 20), "noise": rng.choice([1, 2, 2, 3]), "shuffle": rng.random() < 0.6, "indent": rng.choice([0, 1, 3]),
              "single": rng.random() < 0.3, "openclose": rng.random() < 0.3, "lead": "" if s["fmt"] == "tmx" else rng.choice(["", "\n", " \t"])}
        quiet = {"seed": st["seed"], "indent": 1}
        run.load(dict(s, style=st), "noise everywhere")
        if rng.random() < 0.4:
            run.pair(dict(s, style=quiet), dict(s, style=st), "with and without")
    ws = []
    for rng in run.rngs(run.pick(150, 2000), "worlds"):
        w = world.scenario(rng)
        w["style"].update(noise=rng.choice([1, 2, 3]), shuffle=True)
        ws.append(w)
    worlds(run, ws, "world")
    cases = m.result()
    run.extra["places"] = len(cases)
    cases = sample(run, cases, run.pick(5000, 50000))
    for k in range(0, len(cases), 20000):
        base_job = [None] * len(bases)
        for e in cases[k : k + 20000]:
            t = trees[e["doc"] - 1]
            p = e["place"]
            s = bases[t["doc"]]
            if p["kind"] == "key":
                key, val = render.NOISE_JSON[(p["n"] - 1) % len(render.NOISE_JSON)]
                what = {"kind": "key", "text": "vp" + key, "val": val}
                if (p["n"] + run.seed + len(run.recs)) % 3 == 0:
                    what["near"] = p["n"] + len(run.recs)
            else:
                pool = XNOISE[p["kind"]]
                what = {"kind": p["kind"], "text": pool[(p["n"] - 1 + (0 if p["kind"] == "attr" else len(p["path"]) + run.seed)) % len(pool)]}
                if p["kind"] == "attr" and (p["n"] + run.seed + len(run.recs)) % 3 == 0:
                    what.update(near=p["n"] + len(run.recs), val=["1", "", "x", "#f", "-1"][len(run.recs) % 5])
            if base_job[t["doc"]] is None:
                j = run.render(s)
                j["flat"] = True
                base_job[t["doc"]] = run.job(j)
            st = dict(s["style"], noiseat={"file": t["file"], "path": p["path"], "what": what})
            j = run.render(dict(s, style=st))
            j["flat"] = True
            run.count("one place", json.dumps([t["doc"], t["file"], p], sort_keys=True))
            run.recs.append(({"id": "r%d" % len(run.recs), "mode": "pair", "valid": True}, {"a": base_job[t["doc"]], "b": run.job(j)}))
        run.execute()


# ------------------------------------------------------------------ P23


def P23(run):
    ms = models(run, "MC_Optional", "MC_Objects", "MC_Tiles", "MC_Wang", "MC_Props")
    T = {"types": True}
    for rng in run.rngs(run.pick(700, 8000), "types"):
        focus = rng.choice([
            ["layers", "attrs"], ["objects", "props", "text"], ["tilesets", "tiles", "attrs"], ["wang", "props", "tiles"], ["data", "layers"],
            ["chunks", "attrs"], ["colors", "attrs", "objects", "wang"], ["template", "objects", "props"], ["props", "layers"],
        ])
        s = doc(rng, focus, rng.choice(FMTS), rng.random() < 0.5, "template" in focus or None, rng.choice(["map"] * 5 + ["tileset"]), None, 2)
        noclass(s)
        if s["fmt"] == "json" and rng.random() < 0.3:
            s = older(rng, plainprops(s))
        run.load(s, "random", mode="types", types=True)
    for rng in run.rngs(run.pick(100, 1000), "worlds"):
        jid = run.job(world.job(world.scenario(rng), types=True))
        run.count("world", str(rng.random()))
        run.recs.append(({"id": "r%d" % len(run.recs), "mode": "types"}, {"obs": jid}))
    for k, m in enumerate(ms):
        docs = m.result()
        if k in (0, 2, 3):
            sets = [t for d in docs if d["map"]["tsrefs"] for t in d["tilesets"].values()]
            packtypes(run, sample(run, sets, run.pick(600, 20000), str(k)))
            docs = [d for d in docs if not d["map"]["tsrefs"]]
        for d in sample(run, docs, run.pick(250, 6000), "d%d" % k):
            for fmt in FMTS:
                run.load(swap(d, fmt), "model", mode="types", types=True)
    run.execute()


def packtypes(run, sets):
    load = run.load
    run.load = lambda s, what: load(s, what, mode="types", types=True)
    try:
        packsets(run, sets, 20)
    finally:
        run.load = load
