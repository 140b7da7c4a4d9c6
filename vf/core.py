"""Running the jobs of one property's check and reporting."""
import concurrent.futures as cf
import json, os, sys, threading, time
import stage, engines
from engines import Inconclusive

CPUS = os.cpu_count() or 4


class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.counts, self.distinct, self.samples = {}, {}, []
        self.violations, self.inconclusive, self.known = [], [], []
        self.engines = {}
        self.assumptions = []
        self.extra = {}

    def add_stats(self, label, st):
        for k, v in st.get("counts", {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
            e = self.engines.setdefault(label, {})
            e[k] = e.get(k, 0) + v
        self.distinct.setdefault(label, set()).update(st.get("distinct", []))
        for s in st.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(f"{label}: {s}")

    def count(self, k, n=1, label=None):
        self.counts[k] = self.counts.get(k, 0) + n
        if label:
            e = self.engines.setdefault(label, {})
            e[k] = e.get(k, 0) + n

    def see(self, label, key):
        self.distinct.setdefault(label, set()).add(key)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, what, replay):
        self.violations.append((what, replay))

    def ndistinct(self):
        u = set()
        for k, v in self.distinct.items():
            u |= v
        return len(u)


def known_findings():
    p = os.path.join(stage.VERIF, "known_findings.jsonl")
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def jobs(res, js, builds, timeout_pad=120):
    """js: dicts engine, args(list), shards, millis, miriflags(list of str or None), env. Runs everything in parallel."""
    tasks = []
    for j in js:
        b = builds[j["engine"] + j.get("key", "")]  # a future, or a build that is done
        n = j.get("shards", 1)
        flags = j.get("miriflags", [""])
        for k in range(n):
            args = list(j["args"]) + ["--seed", str(res.seed + j.get("seed_off", 0)), "--shard", f"{k}/{n}"]
            if j.get("millis"):
                args += ["--millis", str(j["millis"])]
            tasks.append((j, b, args, flags[k % len(flags)]))

    sem = threading.Semaphore(CPUS)

    def go(t):
        j, b, args, mf = t
        if isinstance(b, cf.Future):
            b = b.result()
        with sem:
            return go_built((j, b, args, mf))

    def go_built(t):
        j, b, args, mf = t
        env = engines.runtime_env(b, mf)
        env.update(j.get("env", {}))
        to = j.get("millis", 60000) / 1000 * j.get("slack", 3) + timeout_pad
        rc, out = engines.run(b.exe + args, env, b.cwd, to)
        return t, rc, out, engines.classify(b, rc, out)

    # a job starts as soon as its own build is there, while the others are still compiling
    with cf.ThreadPoolExecutor(max(1, len(tasks))) as ex:
        for t, rc, out, (verdict, info) in ex.map(go, tasks):
            j, b, args, mf = t
            label = j.get("label", b.engine)
            if verdict == "ok":
                res.add_stats(label, info)
                res.engines.setdefault(label, {}).setdefault("observer", engines.ENGINES[b.engine]["obs"])
            elif verdict == "violation":
                res.violate(info, dict(engine=b.engine, command=b.exe + args, cwd=b.cwd, miriflags=mf, output=out[-6000:]))
            else:
                if rc is None and b.engine != "miri" and j.get("millis"):
                    res.violate("the workload did not terminate: " + info, dict(engine=b.engine, command=b.exe + args, miriflags=mf, output=out[-3000:]))
                else:
                    res.inconclusive.append(f"{label}: {info}")


def build_all(res, specs, feats=""):
    """specs: list of (key, kwargs for engines.build) or engine names (with features `feats`). Builds concurrently; -> futures."""
    ex = cf.ThreadPoolExecutor(8)
    out = {}
    for s in specs:
        key, kw = (s, dict(engine=s, extra_feats=feats)) if isinstance(s, str) else s
        out[key] = ex.submit(engines.build, **kw)
    ex.shutdown(wait=False)
    return out


def finish(res, level, rule, evaluations_key=None, assumptions=(), min_events=None):
    """Writes evidence and replay files, prints the verdict; returns the exit status."""
    os.makedirs(os.path.join(stage.VERIF, "evidence"), exist_ok=True)
    known = [k for k in known_findings() if k.get("status") == "known" and k["property"] == res.prop]
    unlisted = []
    for what, replay in res.violations:
        hit = [k for k in known if k.get("match") and k["match"] in what]
        if hit:
            res.known.append(hit[0])
        else:
            unlisted.append((what, replay))
    ev = sum(v for k, v in res.counts.items()) if evaluations_key is None else sum(res.counts.get(k, 0) for k in ([evaluations_key] if isinstance(evaluations_key, str) else evaluations_key))
    doc = {
        "property": res.prop,
        "tier": res.tier,
        "seed": res.seed,
        "level": level,
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": res.ndistinct(),
            "rule": rule,
            "samples": [s[:700] for s in res.samples] or ["-"],
            "events": res.counts,
            "per_observer": {k: v for k, v in res.engines.items()},
            **res.extra,
        },
        "wall_s": round(time.time() - res.t0, 2),
        "assumptions": list(assumptions) + res.assumptions,
        "violations": [w[:3000] for w, _ in unlisted[:60]],
        "known_findings": [k["what"] for k in res.known],
        "inconclusive": res.inconclusive,
    }
    with open(os.path.join(stage.VERIF, "evidence", res.prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    for k in {json.dumps(k) for k in res.known}:
        k = json.loads(k)
        print(f"KNOWN-FINDING: property={res.prop} {k['what']}")
    if unlisted:
        rd = os.path.join(stage.VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, (what, replay) in enumerate(unlisted):
            if what in seen or len(seen) >= 5:
                continue
            seen.add(what)
            p = os.path.join(rd, f"{res.prop}-{len(seen)}.json")
            with open(p, "w") as f:
                json.dump({"property": res.prop, "what": what, **(replay or {})}, f, indent=1, ensure_ascii=False)
            print(f"  {what[:1200]}")
            print(f"VIOLATION property={res.prop} replay={p}")
        return 1
    if res.inconclusive:
        print(f"INCONCLUSIVE property={res.prop}")
        for i in res.inconclusive[:6]:
            print("  " + i[:2000])
        return 2
    bad = [k for k, n in (min_events or {}).items() if res.counts.get(k, 0) < n]
    if bad:
        print(f"INCONCLUSIVE property={res.prop}: the workload observed too little: " + ", ".join(f"{k}={res.counts.get(k, 0)}" for k in bad))
        return 2
    print(f"OK property={res.prop} tier={res.tier} evaluations={ev} distinct={res.ndistinct()} wall={doc['wall_s']}s")
    return 0
