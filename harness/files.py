"""Loads of which one file is whole, torn or rubbish (see spec/Files.tla)."""
import base64
import copy
import posixpath
import random

import render
import world

BLANK = {"sp": b" ", "nl": b"\n", "tab": b"\t", "cr": b"\r\n"}
RUBBISH = {
    "none": [b""],
    "lt": [b"<this is < not & xml", b"<", b"<map", b"<map>", b"<map></tileset>", b"<?xml version='1.0'?>", b"<!-- only a comment -->", b"<>", b"<{}>", b"<map a='\xff'/>", b"<map a=1/>"],
    "brace": [b"{ not json", b"{", b"{'a': 1}", b'{"a": 1,}', b'{"a": 1} {"b": 2}', b"{<map/>}", b'{"name": "\xff\xfe"}', b'{"a": tru}', b'{"a": "\n"}'],
    "letter": [b"some text\nmore < text\n", b"x", b"map", b"xml <map/>", b"json {}", b"nullx", b"PK\x03\x04", b"a{}\n"],
    "quote": [b'"open', b"'single'", b'"', b'"map', b'"<map/>'],
    "byte": [b"\xff\xfe\x00\xd8", b"\x89PNG\r\n\x1a\n\x00\xff", b"\x80abc", b"\xc3(", b"\xff{}", b"\xff<map/>"],
    "bracket": [b"[1, 2", b"[", b"]", b"[{]", b"[<map/>"],
    "colon": [b": 1", b",", b"}", b"// {}", b"#<map/>", b"-- <map/>"],
}
EXT = {
    "map": {"tmx": ".tmx", "json": ".tmj"}, "tileset": {"tmx": ".tsx", "json": ".tsj"}, "template": {"tmx": ".tx", "json": ".tj"},
}
OTHER = {"tmx": "json", "json": "tmx"}
KIND = {"map": "map", "tileset": "tileset", "exttileset": "tileset", "template": "template", "tpltileset": "tileset"}


def fname(stem, kind, fmt, names="right"):
    if names == "none":
        return stem
    if names in ("plain", "crossed"):  # .xml and .json
        return stem + {"tmx": ".xml", "json": ".json"}[fmt if names == "plain" else OTHER[fmt]]
    if names == "other":  # of another kind of file
        return stem + EXT["map" if kind != "map" else "template"][OTHER[fmt]]
    if names == "upper":
        return stem.upper() + EXT[kind][fmt].upper()
    if names == "png":
        return stem + ".png"
    return stem + EXT[kind][fmt if names == "right" else OTHER[fmt]]


def tset(name, img):
    return {
        "attrs": {"name": "s:" + name, "tilewidth": "n:16", "tileheight": "n:16", "columns": "n:2"}, "tilecount": 4,
        "image": [{"segs": [img], "w": "n:32", "h": "n:32"}], "tileoffset": [], "grid": [], "transformations": [], "props": [],
        "tiles": [], "wangsets": [],
    }


def obj(i):
    return {"attrs": {"id": "n:%d" % i, "x": "n:1", "y": "n:2"}, "kind": "rectangle", "points": [], "text": [], "gid": [], "props": [], "template": []}


def layer(kind, **kw):
    l = {"kind": kind, "attrs": {"name": "s:L"}, "props": [], "w": 0, "h": 0, "cells": [], "chunks": [], "enc": "csv", "comp": "",
         "objects": [], "image": [], "children": []}
    l.update(kw)
    return l


def base(fmt, setfmt="tmx", tplfmt=None, tplsetfmt="json", names=None, nested=False):
    """A map that uses an external tileset and, in an object layer, a template with a tileset of its own."""
    tplfmt = tplfmt or fmt
    n = dict({"map": "right", "exttileset": "right", "template": "right", "tpltileset": "right"}, **(names or {}))
    tplname = fname("t", "template", tplfmt, n["template"])
    inst = obj(3)
    inst.update(kind="inherit", template=[{"src": ["tpl", tplname], "tpl": "t"}])
    tobj = obj(1)
    tobj["attrs"] = {"id": "n:1", "name": "s:from template"}
    tobj["attrs"]["name"] = "s:tpl"
    tobj.update(kind="tile", gid=[[0, 2]])
    ol = layer("object", objects=[obj(2), inst])
    layers = [layer("tile", w=2, h=1, cells=[[0, 1], [0, 0]]), layer("group", children=[ol]) if nested else ol]
    return {
        "id": "x", "call": "map", "fmt": fmt, "mapdir": ["m"], "file": fname("map", "map", fmt, n["map"]), "via": "abs", "style": {"seed": 1},
        "map": {
            "attrs": {"width": "n:2", "height": "n:1", "tilewidth": "n:16", "tileheight": "n:16", "orientation": "s:orthogonal",
                      "renderorder": "s:right-down", "version": "s:1.10", "nextobjectid": "n:4", "infinite": "b:false"},
            "props": [], "layers": layers,
            "tsrefs": [{"first": 1, "ts": "a", "how": setfmt, "src": [fname("a", "tileset", setfmt, n["exttileset"])]}],
        },
        "tilesets": {"a": tset("A", "a.png"), "b": tset("B", "b.png")},
        "templates": {"t": {"object": tobj, "fmt": tplfmt,
                            "tileset": [{"src": [fname("b", "tileset", tplsetfmt, n["tpltileset"])], "how": tplsetfmt, "ts": "b"}]}},
    }


def setdoc(fmt, names="right"):
    return {"id": "x", "call": "tileset", "fmt": fmt, "mapdir": ["m"], "file": fname("a", "tileset", fmt, names), "via": "abs", "entry": "a",
            "tilesets": {"a": tset("A", "a.png")}, "templates": {}, "style": {"seed": 1}}


def scenario(role, mapfmt, fmt, names="right", nested=False):
    """The whole load in which the file of ROLE has format FMT; and that file's path."""
    if role == "tileset":
        s = setdoc(fmt, names)
        return s, render.join(s["mapdir"], [s["file"]])
    if role == "map":
        s = base(fmt, names={"map": names}, nested=nested)
        return s, render.join(s["mapdir"], [s["file"]])
    kw = {"exttileset": "setfmt", "template": "tplfmt", "tpltileset": "tplsetfmt"}[role]
    s = base(mapfmt, names={role: names}, nested=nested, **{kw: fmt})
    if role == "exttileset":
        p = ["m"] + s["map"]["tsrefs"][0]["src"]
    elif role == "template":
        p = ["m", "tpl", fname("t", "template", fmt, names)]
    else:
        p = ["m", "tpl"] + s["templates"]["t"]["tileset"][0]["src"]
    return s, posixpath.normpath("/".join(p))


def lead_bytes(lead, rng=None):
    """Every blank of the model stands for one or many of its kind."""
    return b"".join(BLANK[b] * (rng.choice([1, 1, 2, 7, 300, 5000, 9000]) if rng else 1) for b in lead)


def put(job, path, data):
    assert path in job["files"], (path, list(job["files"]))
    job["files"][path] = base64.b64encode(data).decode("ascii")
    return job


def get(job, path):
    return base64.b64decode(job["files"][path])


def strip_decl(data):
    """An XML declaration must be the first thing of a file."""
    if data.startswith(b"<?xml"):
        return data[data.index(b"?>") + 2 :].lstrip()
    return data


def case_job(vp, e, nested=False, salt=""):
    """The load of an MC_Detect case."""
    c = e["c"]
    fmt = {"xml": "tmx", "json": "json"}.get(e["body"])
    right = fmt or ("json" if c["role"] == "tpltileset" else c["mapfmt"])
    s, path = scenario(c["role"], c["mapfmt"], right, e["names"], nested)
    job = vp.job_of(s)
    rng = random.Random(repr(sorted(e.items(), key=str)) + salt)
    lead = lead_bytes(e["lead"], rng)
    if fmt:
        data = get(job, path)
        put(job, path, lead + (strip_decl(data) if lead and fmt == "tmx" else data))
    else:
        put(job, path, lead + rng.choice(RUBBISH[e["body"]]))
    return s, job
