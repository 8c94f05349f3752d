"""Sessions of loads, rewrites, mutations and directory changes; and loads interleaved with other loads.

usage: session.py JOBS.ndjson OBS.ndjson SCRATCH      (see spec/Session.tla)
Job:  {"id", "kind": "session", "files": {rel: [base64 of each version]}, "dirs", "entries": [[name, call, rel]],
       "steps": [{"op": "load", "entry": i, "via"} | {"op": "rewrite", "file": rel, "v", "stamp"} |
                 {"op": "mutate", "held": i, "how"} | {"op": "chdir", "dir"}]}
      {"id", "kind": "sched", "files", "dirs", "loads": [[call, rel], ...], "plan": [[thread, lines], ...]}
Obs:  {"id", "steps": [{"digest", "held": [...], "shared"}]}      {"id", "digests": [...], "lines": [...]}
"""
import base64
import hashlib
import json
import os
import shutil
import sys
import threading
from pathlib import Path, PurePath

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker  # noqa: E402
import pytiled_parser  # noqa: E402

PKG = os.path.dirname(os.path.realpath(pytiled_parser.__file__))


def digest(kind, res):
    v = worker.PROJ[kind](res)
    if kind == "map":
        v["file"] = str(res.map_file).replace(worker.ROOT, "$ROOT")
    if kind == "world":
        for m, x in zip(v["maps"], res.maps):
            m["file"] = str(x.map_file).replace(worker.ROOT, "$ROOT")
        v["maps"].sort(key=lambda m: json.dumps(m, sort_keys=True))
    return hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:20]


IMMUTABLE = (type(None), bool, int, float, complex, str, bytes, PurePath, type, frozenset)


def mutables(v, seen, twice, path=""):
    """ids of the mutable objects reachable from V; those reached twice go to TWICE."""
    if isinstance(v, IMMUTABLE) or callable(v):
        return
    if isinstance(v, tuple):  # Color, Size, OrderedPair
        for x in v:
            mutables(x, seen, twice, path + "()")
        return
    if id(v) in seen:
        twice.append(path)
        return
    seen[id(v)] = v
    if isinstance(v, dict):
        for k, x in v.items():
            mutables(x, seen, twice, path + "[%r]" % (k,))
    elif isinstance(v, (list, set)):
        for x in v:
            mutables(x, seen, twice, path + "[]")
    elif hasattr(v, "__dict__"):
        for k, x in vars(v).items():
            mutables(x, seen, twice, path + "." + k)


def mutate(v, how, seen=None):
    """Change everything in V that can be changed."""
    seen = set() if seen is None else seen
    if isinstance(v, IMMUTABLE) or isinstance(v, tuple) or id(v) in seen or callable(v):
        return
    seen.add(id(v))
    if isinstance(v, dict):
        for x in list(v.values()):
            mutate(x, how, seen)
        if how == "clear":
            v.clear()
        else:
            v["vp mutated"] = 1
    elif isinstance(v, list):
        for x in list(v):
            mutate(x, how, seen)
        if how == "clear":
            v.clear()
        else:
            v.append(99)
    elif hasattr(v, "__dict__"):
        for k, x in list(vars(v).items()):
            mutate(x, how, seen)
            if isinstance(x, (bool, int, float, str)) or x is None:
                try:
                    setattr(v, k, "vp mutated")
                except Exception:
                    pass


def safe_digest(kind, res, cache):
    try:
        return digest(kind, res)
    except Exception as e:
        return "unreadable " + type(e).__name__


def write(root, rel, data, stamp):
    p = os.path.join(root, rel)
    st = os.stat(p) if os.path.exists(p) else None
    with open(p, "wb") as f:
        f.write(data.replace(b"/@VPROOT@", os.path.realpath(root).encode("ascii")))
    if st and stamp == "same":
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))


def setup(job, scratch):
    root = os.path.join(scratch, "r%d" % os.getpid())
    os.chdir("/")
    if os.path.exists(root):
        shutil.rmtree(root)
    os.makedirs(root)
    worker.ROOT = os.path.realpath(root)
    worker.put_files(root, {k: v[0] if isinstance(v, list) else v for k, v in job["files"].items()}, job.get("dirs"), job.get("links", ()))
    return worker.ROOT


def load(kind, p):
    return worker.call(kind, p)


def session(job, scratch):
    root = setup(job, scratch)
    os.chdir(root)
    held, out = [], []
    for st in job["steps"]:
        o = {"digest": "none"}
        if st["op"] == "load":
            _, kind, rel = job["entries"][st["entry"]]
            p = Path(root) / rel
            if st["via"] == "rel":
                p = Path(os.path.relpath(p, os.getcwd()))
            before = os.getcwd()
            try:
                res = load(kind, p)
                held.append([kind, res])
                o["digest"] = safe_digest(kind, res, None)
            except Exception as e:
                held.append([kind, None])
                o["digest"] = "raise " + type(e).__name__
            o["moved"] = os.getcwd() != before
        elif st["op"] == "rewrite":
            write(root, st["file"], base64.b64decode(job["files"][st["file"]][st["v"]]), st["stamp"])
        elif st["op"] == "mutate":
            if held[st["held"]][1] is not None:
                mutate(held[st["held"]][1], st["how"])
            held[st["held"]][1] = None  # given up: nothing is expected of it any more
            held[st["held"]].append("mutated")
        elif st["op"] == "chdir":
            os.chdir(os.path.join(root, st["dir"]))
        o["held"] = [
            "gone" if len(h) > 2 else "raised" if h[1] is None else safe_digest(h[0], h[1], None) for h in held
        ]
        seen, twice = {}, []
        for h in held:
            if h[1] is not None:
                mutables(h[1], seen, twice, h[0])
        o["shared"] = sorted(set(twice))[:5]
        out.append(o)
    os.chdir("/")
    return {"id": job["id"], "steps": out}


class Scheduler:
    """Runs threads one at a time, switching after the given numbers of line events."""

    def __init__(self, plan, n):
        self.plan = [list(x) for x in plan]
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.lines = [0] * n
        self.trace = [[] for _ in range(n)]
        self.current = None
        self.switches = 0
        self.left = 0

    def pick(self):
        """The next thread to run, or None."""
        while self.plan:
            t, k = self.plan.pop(0)
            if not self.done[t]:
                self.left = k
                return t
        # no more switches: the others first, each to its end
        n = len(self.done)
        for t in [((self.current or 0) + k) % n for k in range(1, n + 1)]:
            if not self.done[t]:
                self.left = -1
                return t
        return None

    def switch(self, me):
        t = self.pick()
        if t != self.current:
            self.switches += 1
        self.current = t
        if t == me:
            return
        if t is not None:
            self.turn[t].release()
        if not self.done[me]:
            self.turn[me].acquire()

    def line(self, me):
        self.lines[me] += 1
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                self.switch(me)

    def run(self, fns, keep=False):
        out = [None] * len(fns)

        def body(i, fn):
            def tracer(frame, event, arg):
                if not frame.f_code.co_filename.startswith(PKG):
                    return None
                if event == "line":
                    if keep:
                        self.trace[i].append("%s:%d" % (frame.f_code.co_filename[len(PKG):], frame.f_lineno))
                    self.line(i)
                return tracer

            self.turn[i].acquire()
            sys.settrace(tracer)
            try:
                out[i] = fn()
            finally:
                sys.settrace(None)
                self.done[i] = True
                self.switch(i)

        ts = [threading.Thread(target=body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in ts:
            t.start()
        self.current = first = self.pick()
        self.turn[first].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise SystemExit("a scheduled load does not end")
        return out


def sched(job, scratch):
    root = setup(job, scratch)
    res = []

    def one(kind, rel):
        def go():
            try:
                return [kind, load(kind, Path(root) / rel)]
            except Exception as e:
                return ["raise", type(e).__name__]
        return go

    s = Scheduler(job["plan"], len(job["loads"]))
    rs = s.run([one(k, rel) for k, rel in job["loads"]], job.get("trace"))
    for r in rs:
        res.append("raise " + r[1] if r[0] == "raise" else safe_digest(r[0], r[1], None))
    seen, twice = {}, []
    for r in rs:
        if r[0] != "raise":
            mutables(r[1], seen, twice, r[0])
    os.chdir("/")
    return {"id": job["id"], "digests": res, "lines": s.lines, "switches": s.switches, "trace": s.trace, "shared": sorted(set(twice))[:5]}


def fresh(job, scratch):
    """The session in a process of its own, which has not loaded anything before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(session(job, scratch)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(os.path.join(scratch, "r%d" % pid), ignore_errors=True)
    return json.loads(text)


KINDS = {"session": session, "sched": sched, "fresh": fresh}


def main():
    jobs, out, scratch = sys.argv[1:4]
    with open(jobs) as f, open(out, "w") as g:
        for line in f:
            job = json.loads(line)
            g.write(json.dumps(KINDS[job["kind"]](job, scratch)) + "\n")


if __name__ == "__main__":
    main()
