"""World files of a scenario (see spec/World.tla)."""
import json
import copy
import posixpath
import random
import re

from doc import dec, enc, untok
from render import Style, join, jtext


def regex(atoms, rng=None):
    """The pattern as an expression, in one of its spellings."""
    if rng is None:
        rng = random.Random(0)
        pick = lambda *a: a[0]
    else:
        pick = lambda *a: rng.choice(a)

    def literal(cs):
        out = ""
        for c in cs:
            c = dec(c)
            if c in ".^$*+?{}[]\\|()":
                out += pick("\\" + c, "\\" + c, "[%s]" % c if c not in "^[]\\" else "\\" + c)
            elif not c.isalnum() and ord(c) < 128 and c not in "_<>'\"`":
                out += pick(c, c, "\\" + c)
            else:
                out += pick(c, c, c, c, c, "[%s]" % c, "(?:%s)" % c)
        return pick(out, out, out, "(?:%s)" % out)

    out = pick("", "", "", "^", "(?:)")
    for a in atoms:
        out += {
            "lit": lambda: literal(a["c"]),
            "end": lambda: pick("$", "$", "\\Z", "(?!.)"),
            "num": lambda: pick("([0-9]+)", "(\\d+)", "([0-9]{1,})", "(?P<n%d>\\d+)" % len(out), "((?:[0-9])+)"),
            "snum": lambda: pick("(-?[0-9]+)", "(-?\\d+)", "([-]?\\d+)", "(-{0,1}[0-9]+)"),
            "zeros": lambda: pick("0*", "[0]*", "(?:0*)", "0{0,}"),
            "digits": lambda: pick("[0-9]+", "\\d+", "(?:\\d+)"),
            "any": lambda: pick(".*", "(?:.*)", ".{0,}"),
        }[a["t"]]()
    return out


LINKS = ("link", "dirlink", "dangling")  # to a file, to a directory, to nothing


def q(n):
    return n // 4 if n % 4 == 0 else n / 4


def world(s):
    out = {}
    if s["maps"] or "nomaps" not in (s.get("style") or {}):
        out["maps"] = [
            {"fileName": join(m["file"]), "width": untok(m["w"]), "height": untok(m["h"]), "x": untok(m["x"]), "y": untok(m["y"])}
            for m in s["maps"]
        ]
    if s["patterns"] or "nopatterns" not in (s.get("style") or {}):
        out["patterns"] = []
        st = s.get("style") or {}
        rng = random.Random("re%s" % st["seed"]) if st.get("spelled") else None
        for p in s["patterns"]:
            e = {"regexp": regex(p["atoms"], rng), "multiplierX": q(p["mx"]), "multiplierY": q(p["my"])}
            if p["ox"]:
                e["offsetX"] = q(p["ox"][0])
            if p["oy"]:
                e["offsetY"] = q(p["oy"][0])
            out["patterns"].append(e)
    if s["adjacent"] != "none":
        out["onlyShowAdjacentMaps"] = s["adjacent"] == "b:true"
    out["type"] = "world"
    return out


def job(s, **kw):
    """The world's file, and the entries of its directory (their content is never looked at)."""
    import base64

    d = join(s["mapdir"])
    name = s.get("file", "w.world")
    files, dirs, links = {}, [], []
    for e in s["entries"]:
        p = posixpath.join(d, "".join(dec(c) for c in e["name"]))
        if e["kind"] in LINKS:
            links.append([p, {"link": "away/file", "dirlink": "away/dir", "dangling": "away/none"}[e["kind"]]])
            dirs.append("away/dir")
            files["away/file"] = b"\x00\xffnot a map"
        elif e["kind"] == "dir":
            dirs.append(p)
        elif p != posixpath.join(d, name):
            files[p] = b"\x00\xffnot a map"
    files[posixpath.join(d, name)] = jtext(world(s), Style(s.get("style"), "world"))
    j = {
        "id": "x", "call": "world", "entry": posixpath.join(d, name), "dirs": dirs, "via": s.get("via", "abs"),
        "files": {k: base64.b64encode(v).decode("ascii") for k, v in files.items()},
    }
    if links:
        j["filelinks"] = links
    j.update(kw)
    return j


# ------------------------------------------------------------- seeded worlds

NUMQ = [0, 4, 64, -64, 6, 1, 400, -13]


def scenario(rng, links=False):
    """A world with several patterns and a directory full of near misses."""

    def lit():
        return {"t": "lit", "c": [c for c in rng.choice(["m", "map", "w_", "-", "x", ".", ".tmx", "_", "a.b", "(", "é", "+1", "lvl ", " ", "# ", "#", "  x", "a b c", "~", "&", ",", "-x-", "^", "$", "|a", "[b]", "*", "?", "{2}", "d", "s", "\\w" if links else "w", "'", "=", "\u00df"])]}

    def pattern():
        a = [lit() if rng.random() < 0.8 else {"t": "any", "c": []}]
        if rng.random() < 0.2:
            a.append({"t": "zeros", "c": []})
        a.append({"t": rng.choice(["num", "snum"]), "c": []})
        a.append(rng.choice([lit(), lit(), {"t": "any", "c": []}]))
        if rng.random() < 0.15:
            a.append({"t": "digits", "c": []})
            a.append(lit())
        a.append({"t": rng.choice(["num", "snum"]), "c": []})
        if rng.random() < 0.7:
            a.append({"t": "lit", "c": list(".tmx")})
        if rng.random() < 0.4:
            a.append({"t": "end", "c": []})
        return {
            "atoms": a, "mx": rng.choice(NUMQ), "my": rng.choice(NUMQ),
            "ox": [rng.choice(NUMQ)] if rng.random() < 0.5 else [], "oy": [rng.choice(NUMQ)] if rng.random() < 0.5 else [],
        }

    def name(p):
        """A name the pattern (nearly) matches."""
        out = []
        for a in p["atoms"]:
            t = a["t"]
            if t == "lit":
                out += a["c"]
            elif t in ("num", "digits"):
                v = str(rng.choice([0, 1, 7, 10, 42, 305, 99999, 123456]))
                out += list(v if rng.random() < 0.8 else v.zfill(rng.choice([2, 3, 3, 7, 9, 12, 20])))
            elif t == "snum":
                out += list(str(rng.choice([0, 1, -1, -12, 33, -70001])))
            elif t == "zeros":
                out += list(rng.choice(["", "0", "00"]))
            elif t == "any":
                out += list(rng.choice(["", "z", "x1", "12-", "_"]))
        c = rng.random()
        if c < 0.15 and out:
            del out[rng.randrange(len(out))]
        elif c < 0.25:
            out.insert(rng.randrange(len(out) + 1), rng.choice("aX0-."))
        elif c < 0.3:
            out += list(".bak")
        elif c < 0.35:
            out = list("old ") + out
        elif c < 0.4:
            out = [x.upper() for x in out]
        return out

    pats = [pattern() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    names, entries = set(), []
    for _ in range(rng.choice([0, 2, 5, 9])):
        n = name(rng.choice(pats)) if pats and rng.random() < 0.9 else list(rng.choice(["readme", "m1x2.tmx", "x", ".hidden"]))
        t = "".join(n)
        if any(int(v) > 5000000 for v in re.findall("[0-9]+", t)):  # TLC's integers
            continue
        if not t or t in (".", "..", "sub") or t in names or "/" in t:
            continue
        names.add(t)
        kind = "dir" if rng.random() < 0.15 else "file"
        if links and rng.random() < 0.2:
            kind = rng.choice(("link", "link") + LINKS)
        entries.append({"name": n, "kind": kind})
    if "w.world" not in names:
        entries.append({"name": list("w.world"), "kind": "file"})
    for e in entries:
        e["name"] = [enc(c) for c in e["name"]]
    for p in pats:
        for a in p["atoms"]:
            a["c"] = [enc(c) for c in a["c"]]
    maps = []
    for i in range(rng.choice([0, 0, 1, 2, 4]) if rng.random() > 0.004 else rng.randrange(300, 700)):
        num = lambda: rng.choice(["n:0", "n:16", "n:-320", "n:0.5", "n:1000", "n:%d" % rng.randrange(-99999, 99999), "n:-0.25", "n:16777217", "n:123456.125"])
        maps.append({"file": rng.choice([["a%d.tmx" % i], ["sub", "b.tmj"], ["..", "c.tmx"], ["a%20b.tmx"], [".", "d.tmx"], ["%20lead.tmx"], ["trail%20"], ["%20"], ["sub%20", "%20x.tmj"], ["~", "m.tmx"], ["%24x.tmx"], ["%2541.tmx"], ["b%5Cc.tmx"],
                                              ["UP.TMX"], ["%C3%A9.tmx"], ["e%CC%81.tmx"], ["x%23y%3F.tmx"], ["...", "m"], ["sub", "..", "m.tmx"], ["//", "away", "m.tmx"], ["//", "p", "..", "q", "m"]] if rng.random() < 0.5 else [["a%d.tmx" % i]]),
                     "w": num(), "h": num(), "x": num(), "y": num()})
    if pats and rng.random() < 0.25:  # one of the patterns once more, the same or otherwise placed
        p = copy.deepcopy(rng.choice(pats))
        if rng.random() < 0.6:
            p[rng.choice(["mx", "my"])] = rng.choice(NUMQ)
        pats.insert(rng.randrange(len(pats) + 1), p)
    if maps and rng.random() < 0.25:  # one of the maps once more
        m = dict(rng.choice(maps))
        if rng.random() < 0.5:
            m[rng.choice("whxy")] = num()
        maps.insert(rng.randrange(len(maps) + 1), m)
    return {
        "call": "world", "mapdir": rng.choice([["w"], ["w", "d%20d"], ["p", "q", "w"]]), "maps": maps, "patterns": pats,
        "entries": entries, "adjacent": rng.choice(["none", "b:true", "b:false"]),
        "via": rng.choice(["abs", "rel", "relroot", "dots"]),
        "style": {"seed": rng.randrange(1 << 20), "shuffle": rng.random() < 0.5, "noise": rng.choice([0, 0, 1]), "indent": rng.choice([0, 1, 2]), "spelled": rng.random() < 0.6,
                  **({"nomaps": 1} if rng.random() < 0.5 else {}), **({"nopatterns": 1} if rng.random() < 0.5 else {})},
    }
