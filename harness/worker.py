"""Runs the real library on rendered scenarios and records what it reports.

usage: worker.py JOBS.ndjson OBS.ndjson SCRATCH      (run with /opt/venv/bin/python)
Each job: {"id", "call": "map|tileset|world", "files": {rel: base64}, "dirs": [...],
           "entry": rel, "via": "abs|rel|dots", "types": bool}
Each observation: {"id", "out": "ok|raise", "err", "map"|"tileset"|"world", "types"}
"""
import base64
import json
import os
import re
import shutil
import sys
from pathlib import Path, PurePath

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from doc import enc, encpath, gid  # noqa: E402
from doc import num as numtok  # noqa: E402

import pytiled_parser  # noqa: E402
from pytiled_parser import common_types  # noqa: E402

ROOT = None
SHOWN = None  # the last result as it shows itself
LINKED = False  # links among the directories of this job


def where(p):
    """The place of a file, by any of its names."""
    return Path(os.path.realpath(p) if LINKED else os.path.normpath(os.path.abspath(p)))


def pathtok(p):
    t = p.as_posix()
    if LINKED and p.is_absolute() and os.path.normpath(t) == t:
        t = os.path.realpath(t)  # any name of the place will do
    if ROOT and (t == ROOT or t.startswith(ROOT + "/")):
        t = "$ROOT" + t[len(ROOT):]
    return "p:" + (("$ROOT" + encpath(t[5:])) if t.startswith("$ROOT") else encpath(t))


def tok(v):
    if v is None:
        return "none"
    if v is True:
        return "b:true"
    if v is False:
        return "b:false"
    if isinstance(v, (int, float)):
        return numtok(v)
    if isinstance(v, str):
        return "s:" + enc(v)
    if isinstance(v, PurePath):
        return pathtok(v)
    if isinstance(v, common_types.Color) or (isinstance(v, tuple) and len(v) == 4):
        if all(isinstance(x, int) for x in v):
            return "c:%d,%d,%d,%d" % tuple(v)
    return "odd:" + enc(repr(v)[:200])


def at(o, name):
    """A field's value; a field that is not there is reported as such."""
    return getattr(o, name, "<missing>")


def pair(v, i):
    if v is None:
        return "none"
    try:
        return tok(v[i])
    except Exception:
        return "odd:" + enc(repr(v)[:80])


def small(v):
    return v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**31 else -99999


def cell(v):
    if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2**32:
        return gid(v)
    if isinstance(v, float) and v == int(v) and 0 <= v < 2**32:
        return gid(int(v))
    return [-1, -1]


def rows(data):
    return [[cell(v) for v in row] for row in data]


def props(p):
    if p is None:
        return []
    return [{enc(k): tok(v) for k, v in p.items()}]


KINDS = {
    "Rectangle": "rectangle", "Ellipse": "ellipse", "Point": "point", "Polygon": "polygon",
    "Polyline": "polyline", "Text": "text", "Tile": "tile",
}
LKINDS = {"TileLayer": "tile", "ObjectLayer": "object", "ImageLayer": "image", "LayerGroup": "group"}
TEXTF = [
    "text", "color", "font_family", "font_size", "bold", "italic", "kerning", "strike_out",
    "underline", "horizontal_align", "vertical_align", "wrap",
]


def p_object(o):
    kind = KINDS.get(type(o).__name__, "odd:" + type(o).__name__)
    res = {
        "kind": kind,
        "attrs": {
            "id": tok(at(o, "id")),
            "x": pair(at(o, "coordinates"), 0),
            "y": pair(at(o, "coordinates"), 1),
            "width": pair(at(o, "size"), 0),
            "height": pair(at(o, "size"), 1),
            "rotation": tok(at(o, "rotation")),
            "visible": tok(at(o, "visible")),
            "name": tok(at(o, "name")),
            "class": tok(at(o, "class_")),
        },
        "points": [],
        "text": [],
        "props": props(at(o, "properties")),
        "gid": [],
    }
    if kind in ("polygon", "polyline"):
        res["points"] = [[pair(p, 0), pair(p, 1)] for p in o.points]
    if kind == "text":
        res["text"] = [{f: tok(at(o, f)) for f in TEXTF}]
    if kind == "tile":
        res["gid"] = [cell(o.gid)]
    return res


def p_layer(l):
    kind = LKINDS.get(type(l).__name__, "odd:" + type(l).__name__)
    res = {
        "kind": kind,
        "attrs": {
            "name": tok(at(l, "name")),
            "opacity": tok(at(l, "opacity")),
            "visible": tok(at(l, "visible")),
            "repeat_x": tok(at(l, "repeat_x")),
            "repeat_y": tok(at(l, "repeat_y")),
            "coord_x": pair(at(l, "coordinates"), 0),
            "coord_y": pair(at(l, "coordinates"), 1),
            "par_x": pair(at(l, "parallax_factor"), 0),
            "par_y": pair(at(l, "parallax_factor"), 1),
            "off_x": pair(at(l, "offset"), 0),
            "off_y": pair(at(l, "offset"), 1),
            "id": tok(at(l, "id")),
            "class": tok(at(l, "class_")),
            "size_w": pair(at(l, "size"), 0),
            "size_h": pair(at(l, "size"), 1),
            "tint": tok(at(l, "tint_color")),
        },
        "props": props(at(l, "properties")),
        "draworder": "none",
        "image": "none",
        "trans": "none",
        "data": [],
        "chunks": [],
        "objects": [],
        "children": [],
    }
    if kind == "tile":
        if l.data is not None:
            res["data"] = [rows(l.data)]
        if l.chunks is not None:
            res["chunks"] = [
                [
                    {
                        "x": small(c.coordinates[0]), "y": small(c.coordinates[1]),
                        "w": small(c.size[0]), "h": small(c.size[1]), "data": rows(c.data),
                    }
                    for c in l.chunks
                ]
            ]
    elif kind == "object":
        res["draworder"] = tok(at(l, "draw_order"))
        res["objects"] = [p_object(o) for o in l.tiled_objects]
    elif kind == "image":
        res["image"] = tok(at(l, "image"))
        res["trans"] = tok(at(l, "transparent_color"))
    elif kind == "group":
        if l.layers is None:
            res["kind"] = "odd:group without a list of layers"
        else:
            res["children"] = [p_layer(c) for c in l.layers]
    return res


def p_tile(key, t):
    return {
        "key": small(key),
        "tile": {
            "id": small(t.id),
            "attrs": {
                "class": tok(at(t, "class_")),
                "x": tok(at(t, "x")), "y": tok(at(t, "y")),
                "width": tok(at(t, "width")), "height": tok(at(t, "height")),
                "image_width": tok(at(t, "image_width")), "image_height": tok(at(t, "image_height")),
                "opacity": tok(at(t, "opacity")),
                "hflip": tok(at(t, "flipped_horizontally")), "vflip": tok(at(t, "flipped_vertically")), "dflip": tok(at(t, "flipped_diagonally")),
            },
            "image": tok(at(t, "image")),
            "animation": []
            if t.animation is None
            else [[{"tileid": small(f.tile_id), "duration": small(f.duration)} for f in t.animation]],
            "objects": [] if t.objects is None else [p_layer(t.objects)],
            "props": props(at(t, "properties")),
        },
    }


def p_wangset(w):
    return {
        "attrs": {
            "name": tok(at(w, "name")), "class": tok(at(w, "class_")),
            "tile": tok(at(w, "tile")), "type": tok(at(w, "wang_type")),
        },
        "props": props(at(w, "properties")),
        "colors": [
            {
                "attrs": {
                    "name": tok(at(c, "name")), "class": tok(at(c, "class_")),
                    "color": tok(at(c, "color")), "probability": tok(at(c, "probability")),
                    "tile": tok(at(c, "tile")),
                },
                "props": props(at(c, "properties")),
            }
            for c in w.wang_colors
        ],
        "tiles": [
            {"key": small(k), "tile_id": small(t.tile_id), "wang_id": [small(i) for i in t.wang_id]}
            for k, t in w.wang_tiles.items()
        ],
    }


def p_tileset(t):
    tr = at(t, "transformations")
    gr = at(t, "grid")
    off = at(t, "tile_offset")
    return {
        "firstgid": small(at(t, "firstgid")),
        "tilecount": small(at(t, "tile_count")),
        "attrs": {
            "name": tok(at(t, "name")),
            "tile_width": tok(at(t, "tile_width")), "tile_height": tok(at(t, "tile_height")),
            "columns": tok(at(t, "columns")),
            "spacing": tok(at(t, "spacing")), "margin": tok(at(t, "margin")),
            "type": tok(at(t, "type")),
            "tile_render_size": tok(at(t, "tile_render_size")),
            "fill_mode": tok(at(t, "fill_mode")),
            "tiled_version": tok(at(t, "tiled_version")),
            "version": tok(at(t, "version")),
            "class": tok(at(t, "class_")),
            "alignment": tok(at(t, "alignment")),
            "background": tok(at(t, "background_color")),
            "transparent": tok(at(t, "transparent_color")),
            "image_width": tok(at(t, "image_width")), "image_height": tok(at(t, "image_height")),
            "offset_x": pair(off, 0), "offset_y": pair(off, 1),
            "grid_orientation": "none" if gr is None else tok(gr.orientation),
            "grid_width": "none" if gr is None else tok(gr.width),
            "grid_height": "none" if gr is None else tok(gr.height),
            "hflip": "none" if tr is None else tok(tr.hflip),
            "vflip": "none" if tr is None else tok(tr.vflip),
            "rotate": "none" if tr is None else tok(tr.rotate),
            "prefer": "none" if tr is None else tok(tr.prefer_untransformed),
        },
        "image": tok(at(t, "image")),
        "props": props(at(t, "properties")),
        "tiles": [] if t.tiles is None else [[p_tile(k, v) for k, v in t.tiles.items()]],
        "wangsets": [] if t.wang_sets is None else [[p_wangset(w) for w in t.wang_sets]],
    }


def p_map(m):
    return {
        "attrs": {
            "infinite": tok(at(m, "infinite")),
            "width": pair(at(m, "map_size"), 0), "height": pair(at(m, "map_size"), 1),
            "tile_width": pair(at(m, "tile_size"), 0), "tile_height": pair(at(m, "tile_size"), 1),
            "next_layer_id": tok(at(m, "next_layer_id")),
            "next_object_id": tok(at(m, "next_object_id")),
            "orientation": tok(at(m, "orientation")),
            "render_order": tok(at(m, "render_order")),
            "tiled_version": tok(at(m, "tiled_version")),
            "version": tok(at(m, "version")),
            "background": tok(at(m, "background_color")),
            "hex_side_length": tok(at(m, "hex_side_length")),
            "stagger_axis": tok(at(m, "stagger_axis")),
            "stagger_index": tok(at(m, "stagger_index")),
            "class": tok(at(m, "class_")),
            "origin_x": pair(at(m, "parallax_origin"), 0), "origin_y": pair(at(m, "parallax_origin"), 1),
        },
        "file": pathtok(where(m.map_file)),
        "props": props(at(m, "properties")),
        "tilesets": [{"key": small(k), "ts": p_tileset(t)} for k, t in m.tilesets.items()],
        "layers": [p_layer(l) for l in m.layers],
    }


def p_world(w):
    return {
        "maps": [
            {
                "file": pathtok(where(m.map_file)),
                "width": pair(m.size, 0), "height": pair(m.size, 1),
                "x": pair(m.coordinates, 0), "y": pair(m.coordinates, 1),
            }
            for m in w.maps
        ],
        "adjacent": tok(at(w, "only_show_adjacent")),
    }


PROJ = {"map": p_map, "tileset": p_tileset, "world": p_world}

# ------------------------------------------------------------- flat form

KEYED = {"tilesets": "key", "tiles": "key"}


def flatten(kind, v):
    """The projection as a list of [field, place, value] triples."""
    out = []

    def leaf(f, at, x):
        out.append([f, at, x if isinstance(x, str) else json.dumps(x, separators=(",", ":"))])

    def walk(x, f, at):
        if isinstance(x, dict):
            if f.endswith(".props"):
                out.append([f, at, "some"])
            chunked = f.endswith(".layer") and x.get("chunks", []) != []
            for k, y in x.items():
                g = f + "." + k
                if k == "children":
                    g = f
                elif k == "attrs":
                    g = f
                elif k in ("coord_x", "coord_y"):
                    g = f + "." + k
                walk(y, g, at + "/" + k)
            if chunked:
                for i, t in enumerate(out):
                    for c in ("x", "y"):
                        if t[0] == "map.layer.coord_" + c and t[1] == at + "/attrs/coord_" + c:
                            out[i] = ["map.layer.start_" + c, t[1], t[2]]
        elif isinstance(x, list):
            name = f.rsplit(".", 1)[-1]
            if x and (not isinstance(x[0], (dict, list)) or name in ("data", "points", "gid", "animation", "wang_id")):
                leaf(f, at, x)
                return
            out.append([f + ".len", at, str(len(x))])
            key = KEYED.get(name)
            if f == "map.layers":
                f = "map.layer"
            for i, y in enumerate(x):
                if isinstance(y, list) and name in KEYED:
                    for z in y:
                        walk(z, f, at + "/#" + str(z["key"]))
                    continue
                walk(y, f, at + "/" + ("#" + str(y[key]) if key and isinstance(y, dict) and key in y else str(i)))
        else:
            leaf(f, at, x)

    walk(v, kind, "")
    return out


# ------------------------------------------------------------- value types

SCALARS = (type(None), bool, int, float, str)


def typename(v):
    if isinstance(v, PurePath):
        return "Path"
    if v is None:
        return "None"
    return type(v).__name__


def walk_types(v, where, out, seen):
    out.add((where, typename(v)))
    if isinstance(v, SCALARS) or isinstance(v, PurePath):
        return
    if id(v) in seen:
        return
    seen.add(id(v))
    if hasattr(v, "_fields"):
        for f in v._fields:
            walk_types(getattr(v, f), where + "." + f, out, seen)
    elif isinstance(v, dict):
        for k, x in v.items():
            walk_types(k, where + ".key", out, seen)
            walk_types(x, where + ".value", out, seen)
    elif isinstance(v, (list, tuple, set)):
        for x in v:
            walk_types(x, where + "[]", out, seen)
    elif hasattr(v, "__dict__"):
        cls = type(v).__name__
        if cls == "Tile":
            cls = "TileObject" if hasattr(v, "gid") else "TilesetTile"
        for k, x in vars(v).items():
            if k.startswith("_") or k in ("new_tileset", "new_tileset_path"):
                continue
            walk_types(x, cls + "." + k, out, seen)


def types_of(v):
    out = set()
    walk_types(v, "result", out, set())
    return sorted([list(x) for x in out])


# ------------------------------------------------------------- running

def put_files(root, files, dirs, links=(), filelinks=()):
    for d in dirs or []:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for at, to in links:
        p = os.path.join(root, at)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink(os.path.join(root, to), p)
    for rel, data in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(base64.b64decode(data).replace(b"/@VPROOT@", os.path.realpath(root).encode("ascii")))
    for at, to in filelinks:
        os.makedirs(os.path.dirname(os.path.join(root, at)), exist_ok=True)
        os.symlink(os.path.join(root, to), os.path.join(root, at))


def call(kind, path):
    return {
        "map": pytiled_parser.parse_map,
        "tileset": pytiled_parser.parse_tileset,
        "world": pytiled_parser.parse_world,
    }[kind](path)


def given(root, entry, via):
    """The path the caller gives; also moves to the directory it is relative to."""
    if via == "rel":  # relative to the file's directory
        os.chdir(os.path.join(root, os.path.dirname(entry)))
        return Path(os.path.basename(entry))
    if via == "relroot":
        os.chdir(root)
        return Path(entry)
    if via == "dots":
        d = os.path.dirname(entry)
        sub = os.path.join(root, d, "zz-sub")
        os.makedirs(sub, exist_ok=True)
        os.chdir(sub)
        return Path("..") / os.path.basename(entry)
    away = os.path.join(root, "zz-away")
    os.makedirs(away, exist_ok=True)
    os.chdir(away)
    return Path(root) / entry


def errname(e):
    return type(e).__name__


def observe(job, scratch):
    global ROOT, LINKED
    root = os.path.join(scratch, "r%d" % os.getpid())
    if os.path.exists(root):
        os.chdir("/")
        shutil.rmtree(root)
    os.makedirs(root)
    ROOT = os.path.realpath(root)
    put_files(root, job["files"], job.get("dirs"), job.get("links", ()), job.get("filelinks", ()))
    LINKED = bool(job.get("links"))
    obs = {"id": job["id"], "out": "ok", "err": "none"}
    try:
        res = call(job["call"], given(ROOT, job["entry"], job.get("via", "abs")))
    except Exception as e:
        obs["out"] = "raise"
        obs["err"] = errname(e)
        obs["msg"] = enc(str(e)[:200])
        return obs
    global SHOWN
    SHOWN = re.sub(" at 0x[0-9a-f]+", "", repr(res)) if os.environ.get("VP_THREAD") else None
    try:
        obs[job["call"]] = PROJ[job["call"]](res)
        if job.get("types"):
            obs["types"] = types_of(res)
        if job.get("flat"):
            kind, v = job["call"], obs.pop(job["call"])
            if "pick" in job:  # one tileset of a map, as if loaded by itself
                kind, v = "tileset", [t["ts"] for t in v["tilesets"] if t["key"] == job["pick"]][0]
            obs["flat"] = flatten(kind, v)
    except Exception as e:  # a result the projection cannot read is not a result
        obs = {"id": job["id"], "out": "odd", "err": errname(e), "msg": enc(str(e)[:200])}
    finally:
        os.chdir("/")
    return obs


def threaded(job, scratch):
    """The same load in a thread of its own (a daemon, started by another thread)."""
    import threading

    global SHOWN
    got = []
    SHOWN = None
    observe(job, scratch)
    shown, SHOWN = SHOWN, None
    inner = lambda: got.append(observe(job, scratch))
    t = threading.Thread(target=inner, name="loader", daemon=True)
    u = threading.Thread(target=lambda: (t.start(), t.join()))
    u.start()
    u.join()
    if SHOWN != shown:  # the very same files, the very same path
        return {"id": job["id"], "out": "odd", "err": "differs", "msg": "the thread's result is another"}
    return got[0]


def main():
    jobs, out, scratch = sys.argv[1:4]
    observe = threaded if os.environ.get("VP_THREAD") else globals()["observe"]
    with open(jobs) as f, open(out, "w") as g:
        for line in f:
            g.write(json.dumps(observe(json.loads(line), scratch)) + "\n")


if __name__ == "__main__":
    main()
