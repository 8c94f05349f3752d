"""Files that must not be mistaken for the ones a document refers to.

A reference resolved against any directory but the right one, or by any name but
its own, leads to one of these: whole documents that say something else, so that
taking one shows in what is loaded.
"""
import base64
import html
import os
import posixpath
import unicodedata
import urllib.parse

import render

TSX = b"<?xml version='1.0'?><tileset version='1.10' name='DECOY' tilewidth='3' tileheight='5' tilecount='7' columns='7'><properties><property name='decoy' value='1'/></properties><image source='decoy.png' width='21' height='5'/></tileset>"
TSJ = b'{"columns":7,"image":"decoy.png","imageheight":5,"imagewidth":21,"margin":0,"name":"DECOY","properties":[{"name":"decoy","type":"string","value":"1"}],"spacing":0,"tilecount":7,"tileheight":5,"tilewidth":3,"type":"tileset","version":"1.10"}'
TX = b"<?xml version='1.0'?><template><object name='DECOY' type='decoy' width='91' height='92'><properties><property name='decoy' value='1'/></properties><ellipse/></object></template>"
TJ = b'{"type":"template","object":{"ellipse":true,"height":92,"id":9,"name":"DECOY","properties":[{"name":"decoy","type":"string","value":"1"}],"rotation":0,"type":"decoy","visible":true,"width":91}}'
JUNK = b"\x89PNG\r\n\x1a\n not an image"
AWAY = "zz-away"
EXTS = (".tsx", ".tsj", ".json", ".tmx", ".tx", ".tj", ".xml", ".png", "")


def norm(p):
    return posixpath.normpath(p) if p else ""


def cwd(job):
    d = posixpath.dirname(job["entry"])
    return {"rel": d, "relroot": "", "dots": posixpath.join(d, "zz-sub")}.get(job.get("via", "abs"), AWAY)


def written(s):
    """Every path written in the scenario: (directory of the file it is written in, path, what)."""
    out = []
    links = {render.join(l["at"]): render.join(l["to"]) for l in s.get("links", [])}
    mapdir = render.real(render.join(s["mapdir"]), links)

    def imgs(t, d):
        for i in t["image"]:
            out.append((d, render.join(i["segs"]), "image"))
        for x in t["tiles"]:
            for i in x["image"]:
                out.append((d, render.join(i["segs"]), "image"))

    if s["call"] == "tileset":
        imgs(s["tilesets"][s["entry"]], mapdir)
        return out

    def tset(r, d):
        t = s["tilesets"][r["ts"]]
        if r.get("how") == "embedded":
            imgs(t, d)
            return
        p = render.join(r["src"])
        out.append((d, p, r["how"] + " set"))
        imgs(t, render.real(posixpath.join(d, posixpath.dirname(p)), links))

    for r in s["map"]["tsrefs"]:
        tset(r, mapdir)
    seen = set()

    def layers(ls):
        for l in ls:
            if l["image"] and l["image"] != ["%NONE"]:
                out.append((mapdir, render.join(l["image"]), "image"))
            for o in l["objects"]:
                for tr in o["template"]:
                    p = render.join(tr["src"])
                    t = s["templates"][tr["tpl"]]
                    out.append((mapdir, p, t["fmt"] + " template"))
                    d = render.real(posixpath.join(mapdir, posixpath.dirname(p)), links)
                    if (d, tr["tpl"]) not in seen:
                        seen.add((d, tr["tpl"]))
                        for r in t["tileset"]:
                            tset(r, d)
            layers(l["children"])

    layers(s["map"]["layers"])
    return out


CONTENT = {"tmx set": TSX, "json set": TSJ, "tmx template": TX, "json template": TJ, "image": JUNK}


class Place:
    """Adds files to a job where nothing else needs the place."""

    def __init__(self, job, extra=()):
        self.fs = job["files"]
        self.links = dict(job.get("links") or [])
        self.dirs = set(self.links) | {"" if d == "." else d for d in list(job.get("dirs") or []) + list(extra)}
        for p in list(self.fs) + list(self.dirs):
            while p:
                p = posixpath.dirname(p)
                self.dirs.add(p)

    def at(self, p):
        """Where the file of a plain path is, links followed."""
        p = norm(p)
        return p if p.startswith("..") else render.real(p, self.links)

    def put(self, p, data):
        p = self.at(p)
        if p.startswith("..") or p in (".", "") or p in self.fs or p in self.dirs:
            return
        q, parents = posixpath.dirname(p), []
        while q:
            if q in self.fs:
                return
            parents.append(q)
            q = posixpath.dirname(q)
        self.dirs.update(parents)
        self.fs[p] = data


def b64(data):
    return base64.b64encode(data).decode("ascii")


CONTENT = {k: b64(v) for k, v in CONTENT.items()}


def spellings(p):
    """Names that equal P only after some rewriting."""
    h, b = posixpath.split(p)
    stem, end = posixpath.splitext(b)
    out = {p.upper(), p.swapcase()} | {posixpath.join(h, x) for x in (b.upper(), b.title(), b.swapcase(), stem + end.upper(), b + end, "." + b, b + "~", stem + "@2x" + end, stem.rstrip("0123456789") + end)}
    out |= {urllib.parse.unquote(p), urllib.parse.quote(p), p.replace("\\", "/"), p.lower(), b.lower(), posixpath.join(h, b.strip()), html.unescape(p), urllib.parse.unquote_plus(p)}
    out |= {unicodedata.normalize(n, p) for n in ("NFC", "NFD")}
    out |= {p.split("#")[0], p.split("?")[0], p.strip()}
    return sorted(q for q in out - {p} if q and not q.startswith("/"))


def add(job, s, rng, much=1.0):
    """Put decoys around the files of JOB, which renders S."""
    refs = written(s)
    links = dict(job.get("links") or [])
    bases = {"", render.join(s["mapdir"]), cwd(job), posixpath.dirname(job["entry"])}
    bases = {render.real(b, links) for b in bases} | ({norm(b) for b in bases} if not links else set()) | {d for d, _, _ in refs}
    bases = {"" if b == "." else b for b in bases}
    place = Place(job, bases)
    right = {render.real(posixpath.join(d, p), links) for d, p, _ in refs}
    n = len(job["files"])
    for d, p, what in rng.sample(refs, len(refs)):
        if len(job["files"]) > n + 40:
            break
        if p.startswith(render.VPROOT):  # as if it were not absolute
            for b in sorted(bases):
                for q in (p[len(render.VPROOT) + 1 :], posixpath.basename(p)):
                    q = norm(posixpath.join(b, q))
                    if place.at(q) not in right and rng.random() < 0.7 * much:
                        place.put(q, CONTENT[what])
            continue
        for b in sorted(bases):
            q = norm(posixpath.join(b, p))
            if place.at(q) not in right and rng.random() < much:
                place.put(q, CONTENT[what])
            q = norm(posixpath.join(b, posixpath.basename(p)))
            if place.at(q) not in right and rng.random() < 0.5 * much:
                place.put(q, CONTENT[what])
        for q in spellings(posixpath.join(d, p)):  # what the name would be if it were not taken as written
            q = render.real(norm(q), links)
            if q not in right and rng.random() < 0.6 * much:
                place.put(q, CONTENT[what])
        if what == "image":
            if rng.random() < 0.3 * much:  # some images are really there
                place.put(render.real(posixpath.join(d, p), links), CONTENT[what])
        elif rng.random() < 0.5 * much:  # the same name with another ending
            stem = posixpath.splitext(render.real(posixpath.join(d, p), links))[0]
            for e in rng.sample(EXTS, 3):
                if place.at(stem + e) not in right:
                    place.put(stem + e, CONTENT[what])
    job["dirs"] = sorted(set(job.get("dirs") or []) | {b for b in bases if b})
    return job


NEAR = (".tmx", ".tmj", ".json", ".tsx", ".tsj", ".tx", ".tj", ".world", ".png", ".bak", ".xml", "", ".cache", ".lock")
LOOSE = ("tiled.tiled-project", "propertytypes.json", "objecttypes.xml", ".tiled", "default.json")


def neighbours(job, s, rng):
    """Neighbours that nothing names, and the images that are named but must not be opened."""
    place = Place(job)
    junk = b64(JUNK)
    for d, p, what in written(s) if s.get("call") in ("map", "tileset") else []:
        if what == "image":
            if rng.random() < 0.5:
                place.put(posixpath.join(d, p), junk)
            else:
                for q in (lambda qs: rng.sample(qs, min(4, len(qs))))(spellings(posixpath.join(d, p))):
                    place.put(q, junk)
    for rel, data in list(job["files"].items())[:12]:
        d, b = posixpath.split(rel)
        stem = posixpath.splitext(b)[0]
        for n in rng.sample([stem + e for e in NEAR] + [b + "~", b + ".bak", b + ".cache", *LOOSE], 6):
            place.put(posixpath.join(d, n), data if rng.random() < 0.5 else junk)
    return job
