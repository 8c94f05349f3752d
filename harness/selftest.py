"""Shows that the binding has teeth: every value of a recorded observation matters.

usage: python3 harness/selftest.py [COUNT]
Loads rich documents with the real library, changes one place of one observation at a time (another value, one
entry fewer, one more, two entries exchanged) and has Judge read the result: it must find a difference every time.
Places the specification leaves open are listed in OPEN.
"""
import copy
import json
import random
import sys

sys.dont_write_bytecode = True
import checks  # noqa: E402
import core  # noqa: E402
import vp  # noqa: E402
import world  # noqa: E402
from gen import Gen, noclass  # noqa: E402


def places(v, at=()):
    """(path, kind of change) of everything that can be changed."""
    if isinstance(v, dict):
        for k in sorted(v):
            yield from places(v[k], at + (k,))
        if at and at[-1] not in ("attrs", "s", "map", "tileset", "world", "tile", "ts") and at[-2:-1] == ("props",):
            yield at, "addkey"
            for k in v:
                yield at + (k,), "delkey"
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from places(x, at + (i,))
        if len(v) == 2 and not isinstance(v[0], (dict, list)):
            return  # a pair by construction of the projection
        if v:
            yield at, "pop"
            yield at, "dup"
        for i in range(len(v) - 1):
            if v[i] != v[i + 1]:
                yield at, ("swap", i)
    else:
        yield at, "value"


def change(o, path, how):
    o = copy.deepcopy(o)
    x = o
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    if how == "value":
        v = x[k]
        x[k] = v + 1 if isinstance(v, int) else "n:424242" if v.startswith("n:") else "b:true" if v == "b:false" else v + "x" if v[:2] in ("s:", "p:") else "s:odd"
    elif how == "pop":
        x[k] = x[k][:-1]
    elif how == "dup":
        x[k] = x[k] + x[k][-1:]
    elif how == "addkey":
        x[k]["invented"] = "s:v"
    elif how == "delkey":
        del x[k]
    else:
        i = how[1]
        x[k][i], x[k][i + 1] = x[k][i + 1], x[k][i]
    return o


def open_(path, how):
    """What the specification leaves open."""
    # neither the tilesets that templates add nor the maps that patterns match have an order
    if isinstance(how, tuple) and path[-1] in ("tilesets", "maps"):
        return True
    # the same entry twice is no other table
    if how == "dup" and (path[-1] == "tilesets" or path[-1] == "tiles" or path[-2:-1] == ("tiles",)):
        return True
    # an optional part (a list of none or one) has no second entry
    return how == "dup" and path[-1] in ("props", "text", "gid", "data", "wangsets", "chunks")


def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 4000
    run = core.Run("P01", "quick")
    rng = random.Random(5)
    scen = []
    for fmt in ("tmx", "json"):
        for how in ("embedded", "tmx", "json"):
            s, slots, _ = checks.carriers(fmt, rng, how)
            for x in slots:
                x["props"] = checks.allprops("v")
            scen.append(s)
        for i in range(6):
            g = Gen(rng, ["layers", "objects", "props", "tiles", "wang", "attrs", "colors", "chunks", "data", "tilesets"], fmt, plain=False)
            s = g.map_("x", None)
            if i % 2:
                g.add_templates(s)
            scen.append(noclass(s))
        g = Gen(rng, ["tiles", "wang", "attrs", "props"], fmt, plain=True)
        scen.append(noclass(g.tileset_call("x")))
    recs, total = [], 0
    jobs = []
    for i, s in enumerate(scen):
        s = dict(s, id="s%d" % i, style={"seed": i})
        s.setdefault("via", "abs")
        scen[i] = s
        jobs.append(vp.job_of(s))
    wscen = [world.scenario(rng) for _ in range(20)]
    for i, w in enumerate(wscen):
        jobs.append(dict(world.job(w), id="w%d" % i))
    obs = vp.run_worker("worker.py", jobs)
    todo = []
    for i, s in enumerate(scen + wscen):
        name = "s%d" % i if i < len(scen) else "w%d" % (i - len(scen))
        o = obs[name]
        o.pop("id")
        assert o["out"] == "ok", o
        call = s.get("call", "world")
        for path, how in places(o[call], (call,)):
            if not open_(path, how):
                todo.append((i, path, how))
    total = len(todo)
    rng.shuffle(todo)
    todo = todo[:count]
    allscen = scen + wscen
    for n, (i, path, how) in enumerate(todo):
        s = allscen[i]
        name = "s%d" % i if i < len(scen) else "w%d" % (i - len(scen))
        recs.append({"id": "r%d" % n, "mode": "load" if i < len(scen) else "world", "s": s, "obs": change(obs[name], path, how)})
    got = {v["id"] for v in vp.judge(recs, env={"PROP": "P01"})}
    missed = [(allscen[i].get("fmt"), path, how) for n, (i, path, how) in enumerate(todo) if "r%d" % n not in got]
    print("%d places, %d changed, %d noticed, %d not" % (total, len(todo), len(got), len(missed)))
    for m in missed[:60]:
        print("  not noticed:", *m)
    vp.cleanup()
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main())
