"""Evidence, violations, known findings, replay files."""
import inspect
import hashlib
import json
import os
import sys
import time

import mlenv
import symx

KNOWN = os.path.join(mlenv.VERIF, "known_findings.jsonl")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.samples = []
        self.cov = {}
        self.functions = {}
        self.bounds = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = {}
        self.counts = {}
        self.obligations = 0
        self.discharged = 0
        self.replays = 0
        self.errors = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line and not line.startswith("#"):
                    try:
                        d = json.loads(line)
                    except Exception:
                        continue
                    if d.get("property") == pid and d.get("status") == "known":
                        self.known[d["key"]] = d

    @property
    def thorough(self):
        return self.tier == "thorough"

    def encoded(self, *fns):
        """Record the real functions executed symbolically (with a source digest)."""
        for f in fns:
            try:
                src = inspect.getsource(f)
                name = f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)}"
                self.functions[name] = hashlib.sha1(src.encode()).hexdigest()[:10]
            except Exception:
                self.functions[str(f)] = "?"

    def encoded_files(self, *paths):
        """Code that is compiled from its source (not Python)."""
        for p in paths:
            with open(p, "rb") as f:
                self.functions[os.path.basename(p)] = hashlib.sha1(f.read()).hexdigest()[:10]

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def obligation(self, ok=True):
        self.obligations += 1
        if ok:
            self.discharged += 1

    def violation(self, key, what, replay):
        """key: stable identity of the failing input; replay: dict reproducing it."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return False
        self.violations.append((key, what, replay))
        return True

    def parallel(self, items, fn, procs=None):
        """Run fn(item) for every item in forked workers and merge what they recorded."""
        import multiprocessing as mp

        procs = procs or min(8, os.cpu_count() or 2, max(1, len(items)))
        ctx = mp.get_context("fork")
        global _job
        _job = (self, fn)
        with ctx.Pool(procs, maxtasksperchild=None) as pool:
            for d in pool.imap_unordered(_run_item, list(items), chunksize=1):
                if "crash" in d:
                    self.errors.append(d["crash"])
                    continue
                for k, v in d["stats"].items():
                    symx.STATS[k] += v
                for k, v in d["counts"].items():
                    self.count(k, v)
                self.obligations += d["obligations"]
                self.discharged += d["discharged"]
                self.replays += d["replays"]
                self.errors += d["errors"]
                for s in d["samples"]:
                    self.sample(s)
                for k in d["known_hit"]:
                    if k not in self.known_hit:
                        self.known_hit.append(k)
                seen = {v[0] for v in self.violations}
                self.violations += [v for v in d["violations"] if v[0] not in seen]
                self.functions.update(d["functions"])

    def enough(self, n=12):
        return len(self.violations) >= n

    def finish(self):
        wall = time.time() - self.t0
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {' '.join(self.known[k]['what'].split())}")
        paths = []
        if self.violations:
            d = os.path.join(mlenv.VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (key, what, rep) in enumerate(self.violations[:int(os.environ.get("VERIF_SHOW", "5"))]):
                p = os.path.join(d, f"{self.pid}_{i}.json")
                json.dump({"property": self.pid, "key": key, "what": what, "replay": rep},
                          open(p, "w"), indent=1, default=str)
                paths.append((p, what))
        st = symx.STATS
        cov = {
            "functions_encoded": self.functions,
            "bounds": self.bounds,
            "queries": st["queries"],
            "solver_s": round(st["solver_s"], 3),
            "paths": st["paths"],
            "obligations": self.obligations,
            "discharged": self.discharged,
            "unknown": st["unknown"],
            "states": st["paths"],
            "transitions": max(st["queries"], st["paths"]),
            "traces_validated_against_impl": self.replays,
            "reachability_twins": st["reach"],
            "counts": self.counts,
            "known_findings_observed": self.known_hit,
            "samples": self.samples,
        }
        if self.level == "translation_validation":
            cov["programs"] = st["paths"]
            cov["disagreements_checked"] = self.obligations
        cov.update(self.cov)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(mlenv.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(mlenv.VERIF, "evidence", f"{self.pid}.json"), "w"),
                  indent=1, default=str)
        for p, what in paths:
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"  {what}"[:600])
        print(f"{self.pid} {self.tier}: paths={st['paths']} obligations={self.obligations} "
              f"discharged={self.discharged} queries={st['queries']} solver={st['solver_s']:.1f}s "
              f"unknown={st['unknown']} violations={len(self.violations)} wall={wall:.1f}s")
        if self.violations:
            return 1
        if self.errors or st["unknown"]:
            print(f"{self.pid}: INCONCLUSIVE unknown={st['unknown']}")
            for e in self.errors[:3]:
                print(e)
            return 2
        if self.obligations == 0 or self.discharged != self.obligations:
            print(f"{self.pid}: INCONCLUSIVE obligations {self.discharged}/{self.obligations}")
            return 2
        return 0


_job = None


def _run_item(item):
    ck, fn = _job
    ck.obligations = ck.discharged = ck.replays = 0
    ck.counts, ck.samples, ck.errors, ck.violations, ck.known_hit = {}, [], [], [], []
    for k in symx.STATS:
        symx.STATS[k] = 0
    try:
        fn(item)
    except Exception:
        import traceback

        return {"crash": f"{item}: " + traceback.format_exc()[-1500:]}
    return {"stats": dict(symx.STATS), "counts": ck.counts, "obligations": ck.obligations,
            "discharged": ck.discharged, "replays": ck.replays, "errors": ck.errors,
            "samples": ck.samples[:2], "known_hit": ck.known_hit,
            "violations": [(k, w, json.loads(json.dumps(r, default=str))) for k, w, r in ck.violations[:20]],
            "functions": ck.functions}


def main(fn):
    """Run a check; anything unexpected is an error of the check (exit 2)."""
    try:
        rc = fn()
    except Exception:
        import traceback

        traceback.print_exc()
        print("CHECK-ERROR")
        rc = 2
    import shutil

    if getattr(mlenv, "SCRATCH", None):
        shutil.rmtree(mlenv.SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
