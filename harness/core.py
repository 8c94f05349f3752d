"""One run of a check: collects cases, runs the real code, has TLC judge, writes evidence and replays."""
import base64
import concurrent.futures as cf
import copy
import hashlib
import json
import os
import random
import shutil
import time

import decoys
import vp

KNOWN = os.path.join(vp.VERIF, "KNOWN_FINDINGS.txt")


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.seed = pid, tier, vp.seed()
        self.rng = random.Random("%s/%s/%s" % (pid, self.seed, tier))
        self.t0 = time.time()
        self.models = []
        self.jobs = []
        self.recs = []  # (record skeleton, {slot: job id}, what to keep for a replay)
        self.bad = []
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.pool = cf.ThreadPoolExecutor(4)
        self.n = 0
        self.rendered = 0
        self.decoyed = 0.9 if pid in ("P05", "P06", "P11", "P14", "P17", "P18") else 0 if pid == "P19" else 0.3  # how many loads have decoys around

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    # ------------------------------------------------------------ models
    def model(self, module, cfg=None, **kw):
        """Start checking a model; .result() gives the scenarios it emitted."""

        def go():
            st, docs = vp.model(module, cfg, **kw)
            self.models.append(st)
            return docs

        return self.pool.submit(go)

    def rngs(self, n, label=""):
        for i in range(n):
            yield random.Random("%s/%s/%s/%d" % (self.pid, self.seed, label, i))

    # ------------------------------------------------------------ cases
    def count(self, what, key):
        self.counts[what] = self.counts.get(what, 0) + 1
        self.distinct.add(hashlib.sha256(key.encode()).hexdigest()[:16])

    def job(self, j):
        self.n += 1
        j["id"] = "j%d" % self.n
        self.jobs.append(j)
        return j["id"]

    def render(self, s, **kw):
        s = s if s.get("id") else dict(s, id="x")
        job = vp.job_of(s, **kw)
        self.rendered += 1
        if s["call"] in ("map", "tileset"):
            rng = random.Random("%d/%d/%s" % (self.seed, self.rendered, job["entry"]))
            if rng.random() < self.decoyed:
                decoys.add(job, s, rng)
        return job

    def load(self, s, what="random", mode="load", **kw):
        """The load of a scenario must report what the scenario denotes."""
        jid = self.job(self.render(s, **kw))
        self.count(what, json.dumps(s, sort_keys=True))
        rec = {"id": "r%d" % len(self.recs), "mode": mode}
        if mode != "types":
            rec["s"] = s
        self.recs.append((rec, {"obs": jid}))

    def pair(self, a, b, what="pair", valid=True, ja=None, jb=None):
        """Two scenarios (or prepared jobs) that must load as the same thing."""
        ja = ja or self.render(a)
        jb = jb or self.render(b)
        ja["flat"] = jb["flat"] = True
        self.count(what, json.dumps([ja["files"], jb["files"]], sort_keys=True))
        self.recs.append(
            ({"id": "r%d" % len(self.recs), "mode": "pair", "valid": valid}, {"a": self.job(ja), "b": self.job(jb)})
        )

    def file(self, case, job, what="file"):
        """A load of files of which one is not a whole document of the right format."""
        self.count(what, json.dumps([case, job["files"], job.get("via")], sort_keys=True))
        self.recs.append(({"id": "r%d" % len(self.recs), "mode": "file", "c": case}, {"obs": self.job(job)}))

    # ------------------------------------------------------------ running
    def execute(self, worker="worker.py", extra_env=None, pyargs=(), tag=None):
        """Run the collected jobs on the real code and judge them; clears the queue."""
        jobs, recs = self.jobs, self.recs
        self.jobs, self.recs = [], []
        if not recs:
            return
        obs = vp.run_worker(worker, jobs, extra_env=extra_env, pyargs=pyargs)
        byid = {j["id"]: j for j in jobs}
        k = sum(1 for o in obs.values() if o.get("switches", 0) >= 2)
        if k:
            self.extra["runs that really interleaved"] = k
        full = []
        for rec, slots in recs:
            r = dict(rec)
            for slot, jid in slots.items():
                o = dict(obs[jid])
                o.pop("id", None)
                r[slot] = o
            full.append(r)
        for what in ("load", "pair", "file", "world", "types", "access", "session", "sched"):
            n = sum(1 for r in full if r["mode"] == what)
            if n:
                self.extra["judged_" + what] = self.extra.get("judged_" + what, 0) + n
        if len(self.samples) < 3:
            for rec, slots in recs[:: max(1, len(recs) // 2)][:2]:
                j = byid[list(slots.values())[0]]
                self.samples.append(
                    {"mode": rec["mode"], "entry": j["entry"],
                     "files": {k: base64.b64decode(v).decode("utf-8", "replace")[:900] for k, v in [(k, v[0] if isinstance(v, list) else v) for k, v in j["files"].items()][:2]}}
                )
        byrec = {r["id"]: (r, slots) for r, (_, slots) in zip(full, recs)}
        for v in vp.judge(full, env={"PROP": self.pid}):
            r, slots = byrec[v["id"]]
            self.bad.append(
                {"diffs": v["diffs"], "record": r, "jobs": {k: byid[j] for k, j in slots.items()},
                 "worker": worker, "env": extra_env or {}, "pyargs": list(pyargs), "tag": tag}
            )

    # ------------------------------------------------------------ the end
    def violation(self, diffs, record, jobs=None, **kw):
        self.bad.append(dict({"diffs": diffs, "record": record, "jobs": jobs or {}}, **kw))

    def finish(self, level="model_checking"):
        for m in self.models:
            m.pop("x", None)
        nviol = len(self.bad)
        rdir = os.path.join(vp.EVID, "replay", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        lines = []
        for i, b in enumerate(self.bad[:5]):
            d = os.path.join(rdir, str(i))
            os.makedirs(d)
            with open(os.path.join(d, "verdict.json"), "w") as f:
                json.dump(b, f, indent=1, default=str)
            for slot, j in b["jobs"].items():
                for rel, data in j.get("files", {}).items():
                    data = data[0] if isinstance(data, list) else data
                    p = os.path.join(d, "files", slot, rel)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(base64.b64decode(data))
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(d, "verdict.json")))
            for x in b["diffs"][:4]:
                lines.append("   " + " | ".join(str(y)[:160] for y in x))
        if nviol > 5:
            lines.append("   (%d more)" % (nviol - 5))
        lines += known(self)
        cov = {
            "states": sum(m.get("distinct", 0) for m in self.models),
            "transitions": sum(m.get("generated", 0) for m in self.models),
            "traces_validated_against_impl": sum(self.counts.values()),
            "distinct_nontrivial": len(self.distinct),
            "models": self.models,
            "by_source": self.counts,
            "samples": self.samples,
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": nviol,
        }
        os.makedirs(vp.EVID, exist_ok=True)
        with open(os.path.join(vp.EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for line in lines:
            print(line)
        print(
            "%s %s: %d states, %d loads judged, %d violations, %.1f s"
            % (self.pid, self.tier, cov["states"], cov["traces_validated_against_impl"], nviol, ev["wall_s"])
        )
        return 1 if any(x.startswith("VIOLATION") for x in lines) else 0


# ------------------------------------------------------------------ known findings


def findings(pid):
    if not os.path.exists(KNOWN):
        return []
    out = []
    with open(KNOWN) as f:
        for line in f:
            if line.startswith("finding: property=%s " % pid):
                w = line.split(None, 4)
                out.append({"id": w[2].split("=", 1)[1], "probe": w[3].split("=", 1)[1], "what": w[4].strip()})
    return out


def known(run):
    """Probe the listed findings of this property: each is one specific input and the way it fails."""
    lines = []
    for k in findings(run.pid):
        with open(os.path.join(vp.VERIF, k["probe"])) as f:
            probe = json.load(f)
        r2 = Run(run.pid, run.tier)
        for c in probe["cases"]:
            if c["mode"] == "pair":
                r2.pair(c["a"], c["b"])
            else:
                r2.load(c["s"])
        r2.execute()
        got = sorted(json.dumps(b["diffs"], sort_keys=True) for b in r2.bad)
        want = sorted(json.dumps(x, sort_keys=True) for x in probe["diffs"])
        if got and got == want:
            lines.append("KNOWN-FINDING: property=%s %s: %s" % (run.pid, k["id"], k["what"]))
        elif got:
            d = os.path.join(vp.EVID, "replay", run.pid, k["id"])
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "verdict.json"), "w") as f:
                json.dump(r2.bad, f, indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (run.pid, os.path.join(d, "verdict.json")))
    return lines


def variant(s, **style):
    t = copy.deepcopy(s)
    t["style"] = dict(t.get("style") or {}, **style)
    return t
