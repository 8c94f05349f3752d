"""Driver: scenarios -> files -> real library -> observations -> TLC verdicts."""
import base64
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8

sys.path.insert(0, HERE)
import render  # noqa: E402


class Failure(Exception):
    """The machinery itself failed (exit code 2)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        try:
            _scratch = tempfile.mkdtemp(prefix="vp-", dir=base)
        except OSError:
            _scratch = tempfile.mkdtemp(prefix="vp-")
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def worker_env(extra=None):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch(),
        "LANG": "C.UTF-8",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(scratch(), "pyc"),
        "PYTHONPATH": REPO,
        "PYTHONHASHSEED": "0",
    }
    env.update(extra or {})
    return env


def run_worker(script, jobs, tag="w", extra_env=None, timeout=800, pyargs=()):
    """Run jobs through SCRIPT in up to CORES processes; returns observations by id."""
    d = tempfile.mkdtemp(prefix=tag, dir=scratch())
    n = max(1, min(CORES, (len(jobs) + 19) // 20))
    procs = []
    for i in range(n):
        part = jobs[i::n]
        jf, of = os.path.join(d, "j%d" % i), os.path.join(d, "o%d" % i)
        with open(jf, "w") as f:
            for j in part:
                f.write(json.dumps(j) + "\n")
        sd = os.path.join(d, "s%d" % i)
        os.makedirs(sd)
        procs.append(
            (
                subprocess.Popen(
                    [PY, *pyargs, os.path.join(HERE, script), jf, of, sd],
                    env=worker_env(extra_env),
                    stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE,
                    cwd="/",
                ),
                of,
                part,
            )
        )
    res = {}
    for p, of, part in procs:
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Failure("worker timed out")
        if p.returncode != 0:
            raise Failure("worker failed: " + err.decode("utf-8", "replace")[-2000:])
        with open(of) as f:
            for line in f:
                o = json.loads(line)
                res[o["id"]] = o
    shutil.rmtree(d, ignore_errors=True)
    missing = [j["id"] for j in jobs if j["id"] not in res]
    if missing:
        raise Failure("no observation for %s" % missing[:3])
    return res


def job_of(s, **kw):
    files, entry = render.render(s)
    dirs = files.pop("//dirs", [])
    j = {
        "id": s["id"],
        "call": s["call"],
        "entry": entry,
        "dirs": dirs,
        "files": {k: base64.b64encode(v).decode("ascii") for k, v in files.items()},
        "via": s.get("via", "abs"),
    }
    if s.get("links"):
        j["links"] = [[render.join(l["at"]), render.join(l["to"])] for l in s["links"]]
    j.update(kw)
    return j


def tlc(module, cfg=None, env=None, workers=1, mem="2g", timeout=800, args=(), okcodes=(0,)):
    """Run TLC on spec/MODULE; returns its stdout."""
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Dfile.encoding=UTF-8",
        "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-cp", CP + ":" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
        "-metadir", d, "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg"),
        *args, os.path.join(SPEC, module + ".tla"),
    ]
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Failure("TLC timed out on " + module)
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode not in okcodes:
        raise Failure("TLC %s on %s/%s: %s" % (p.returncode, module, cfg, out[-3000:]))
    return p.returncode, out


def judge(records, module="Judge", cfg=None, env=None):
    """Check recorded behaviours against a trace specification, in parallel batches."""
    if not records:
        return []
    d = tempfile.mkdtemp(prefix="jd", dir=scratch())
    n = max(1, min(CORES, (len(records) + 39) // 40))
    batches = [records[i::n] for i in range(n)]
    # big batches are cut so that one TLC never holds too much
    cut = []
    for b in batches:
        for i in range(0, len(b), 1500):
            cut.append(b[i : i + 1500])

    def one(i):
        return batch(cut[i], str(i))

    def batch(rs, name):
        f, o = os.path.join(d, "in" + name), os.path.join(d, "out" + name)
        with open(f, "w") as fh:
            for r in rs:
                fh.write(json.dumps(r) + "\n")
        open(o, "w").close()
        e = {"OBS": f, "OUT": o}
        e.update(env or {})
        try:
            tlc(module, cfg, e, mem="3g")
        except Failure as x:
            # an observation the specification cannot even evaluate: find it
            if "evaluating" not in str(x) or not all("obs" in r for r in rs):
                raise
            if len(rs) == 1:
                return [{"id": rs[0]["id"], "diffs": [["outcome", "unreadable", "load", "a result of the documented form", str(x)[-300:]]]}]
            h = len(rs) // 2
            found = batch(rs[:h], name + "a")
            return found if any(v["diffs"][0][1] == "unreadable" for v in found) else found + batch(rs[h:], name + "b")
        os.unlink(f)
        res = []
        with open(o) as fh:
            for line in fh:
                v = json.loads(line)
                if isinstance(v, str):
                    v = json.loads(v)
                res.append(v)
        return res

    out = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(one, range(len(cut))):
            out.extend(r)
    shutil.rmtree(d, ignore_errors=True)
    return out


def model(module, cfg=None, env=None, workers=4, emit=True, mem="6g", args=(), timeout=800):
    """Exhaustively check a model; returns (stats, emitted scenarios)."""
    d = tempfile.mkdtemp(prefix="mc", dir=scratch())
    o = os.path.join(d, "out")
    open(o, "w").close()
    e = {"OUT": o}
    e.update(env or {})
    t = time.time()
    _, out = tlc(module, cfg, e, workers=workers, mem=mem, args=args, timeout=timeout)
    stats = {"model": module, "config": cfg or module, "seconds": round(time.time() - t, 1)}
    for line in out.splitlines():
        if not line.startswith("Progress") and "states generated" in line and "distinct states found" in line:
            w = line.replace(",", "").split()
            stats["generated"], stats["distinct"] = int(w[0]), int(w[3])
        if "depth of the complete state graph" in line:
            stats["depth"] = int(line.split()[-1].rstrip("."))
    seen, docs = set(), []
    with open(o) as fh:
        for line in fh:
            if line in seen:
                continue
            seen.add(line)
            v = json.loads(line)
            docs.append(json.loads(v) if isinstance(v, str) else v)
    shutil.rmtree(d, ignore_errors=True)
    docs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return stats, docs


def load_check(scenarios, **kw):
    """Render, load, judge. Returns list of {id, diffs, s, obs}."""
    jobs = [job_of(s, **kw) for s in scenarios]
    obs = run_worker("worker.py", jobs)
    recs = [{"id": s["id"], "s": s, "obs": obs[s["id"]]} for s in scenarios]
    by = {r["id"]: r for r in recs}
    bad = judge(recs)
    for b in bad:
        b["s"] = by[b["id"]]["s"]
        b["obs"] = by[b["id"]]["obs"]
    return bad
