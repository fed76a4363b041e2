"""python -m vf.main --property C01 [--tier quick|thorough] | --replay FILE"""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import worker

ROOT = worker.ROOT
REPO = os.environ.get("VF_REPO", "/repo")

TRUSTED = [
    "vf/rewrite.py: routing of identity, membership, formatting, calls, iteration and displays of /repo/fastkml through hooks; with concrete operands the hooks do the original operation (tools/instrumented_tests.py runs the repository's tests on the instrumented modules)",
    "vf/core.py, vf/seq.py, vf/stubs.py: symbolic semantics of the Python operations fastkml uses",
    "vf/xmlmodel.py: assumed contract of the ElementTree API (Element, SubElement, append, find, findall, get, set, tostring/fromstring as inverse)",
    "z3 4.x (and cvc5 1.1.2 in the thorough tier) decide the obligations",
    "floats are treated as mathematical reals (no NaN, infinity or rounding); str/float and str/int are mutually inverse",
    "str.strip, str.lower and number recognition are uninterpreted functions with CPython's values on all constants met",
]


class Runner:
    def __init__(self, prop, tier, seed, jobs=8):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.harns = [h for h in worker.load_specs().values() if prop in h.props]
        only = os.environ.get("VF_ONLY")
        if only:
            import re
            self.harns = [h for h in self.harns if re.search(only, h.name)]
        self.jobs = jobs
        self.t0 = time.time()
        self.violations = []
        self.findings = []
        self.notes = []
        self.proved = {}      # harness -> result
        self.bounded = {}     # harness -> why
        self.pooled = {}
        self.deadline = self.t0 + (420 if tier == "quick" else 780)

    def run(self):
        ctx = mp.get_context("spawn")
        n = max(2, self.jobs)
        nsym = max(1, n // 2) if any(h.mode != "concrete" for h in self.harns) else 0
        ncon = max(1, n - nsym)
        self.sym = cf.ProcessPoolExecutor(nsym or 1, mp_context=ctx, initializer=worker.init, initargs=("symbolic", REPO))
        self.con = cf.ProcessPoolExecutor(ncon, mp_context=ctx, initializer=worker.init, initargs=("concrete", REPO))
        try:
            self.loop()
        finally:
            self.sym.shutdown(wait=False, cancel_futures=True)
            self.con.shutdown(wait=False, cancel_futures=True)

    def submit(self, fut_set, pool, spec):
        f = pool.submit(worker.job, spec)
        f.spec = spec
        fut_set.add(f)

    def sym_spec(self, h, unroll=None):
        quick = self.tier == "quick"
        opts = {"budget": h.budget if quick else 4 * h.budget, "max_paths": 4000 if quick else 40000}
        if unroll is not None:
            opts["unroll"] = unroll
            opts["budget"] = opts["budget"] / 2
        if not quick:
            opts["second_solver"] = True
        return {"job": "symbolic", "name": h.name, "prop": self.prop, "opts": opts, "limit": 60 + opts["budget"] * 2}

    def pool_spec(self, h, lo, hi, budget=None):
        return {"job": "pool", "name": h.name, "prop": self.prop, "lo": lo, "hi": hi, "seed": self.seed,
                "budget": budget or (20 if self.tier == "quick" else 120), "limit": 180 if self.tier == "quick" else 600}

    def loop(self):
        by = {h.name: h for h in self.harns}
        futs = set()
        scale = 1 if self.tier == "quick" else 12
        for h in sorted(self.harns, key=lambda h: -h.weight):
            if h.mode != "concrete":
                self.submit(futs, self.sym, self.sym_spec(h))
            if h.mode != "symbolic":
                n = (h.pool if h.mode == "concrete" else h.cross) * scale
                step = 400
                for lo in range(0, n, step):
                    self.submit(futs, self.con, self.pool_spec(h, lo, min(n, lo + step)))
        while futs:
            done, futs = cf.wait(futs, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    r = f.result()
                except cf.process.BrokenProcessPool:
                    r = {"name": f.spec["name"], "job": f.spec["job"], "spec": f.spec, "hang": True}
                except Exception as e:  # noqa: BLE001
                    r = {"name": f.spec["name"], "job": f.spec["job"], "spec": f.spec, "crash": repr(e)}
                self.handle(by[r["name"]], r, futs)
            if time.time() > self.deadline:
                for f in futs:
                    f.cancel()
                self.notes.append(f"time budget reached with {len(futs)} jobs left")
                for f in futs:
                    if f.spec["job"] == "symbolic":
                        self.bounded.setdefault(f.spec["name"], []).append("not run: time budget")
                break

    def handle(self, h, r, futs):
        job = r["job"]
        if r.get("init_error"):
            if job != "symbolic":
                raise SystemExit("cannot load the library:\n" + r["init_error"])
            self.bounded.setdefault(h.name, []).append("instrumented import failed: " + r["init_error"][-300:])
            self.fallback(h, futs)
            return
        if r.get("crash"):
            raise SystemExit(f"worker: {r['crash']} in {h.name}")
        if job == "symbolic":
            self.on_symbolic(h, r, futs)
        elif job == "replay":
            self.on_replay(h, r, futs)
        else:
            self.on_pool(h, r)

    def fallback(self, h, futs):
        if h.mode == "symbolic":
            return
        lo = 10**6
        self.submit(futs, self.con, self.pool_spec(h, lo, lo + h.pool * (1 if self.tier == "quick" else 8)))

    def on_symbolic(self, h, r, futs):
        if r.get("hang"):
            self.bounded.setdefault(h.name, []).append("symbolic run exceeded its time limit")
            self.fallback(h, futs)
            return
        unroll = r["spec"]["opts"].get("unroll")
        total = r["proved"] + len(r["refuted"]) + len(r["unknown"])
        if r["refuted"]:
            r["pending"] = 0
            seen = set()
            for x in r["refuted"]:
                key = (x["label"], json.dumps(x["model"], sort_keys=True, default=str))
                if key in seen or len(seen) >= 6:
                    continue
                seen.add(key)
                if h.mode == "symbolic":
                    # stated over assumed callees: there is no input to run the library on
                    if not x["tainted"]:
                        self.violation(h, x["label"], {"model": x["model"], "verifier": {k: x[k] for k in ("label", "why", "pc", "model")}}, False)
                    continue
                r["pending"] += 1
                self.submit(futs, self.con, {"job": "replay", "name": h.name, "prop": self.prop, "model": x["model"] or {},
                                             "limit": 60, "label": x["label"], "x": {k: x[k] for k in ("label", "tainted", "why", "pc", "model")}})
            self.proved[h.name] = r if total else r
            self.bounded.setdefault(h.name, []).append("obligation refuted by the solver; see replay")
            r["dirty"] = True
            self.fallback(h, futs)
            return
        if r["errors"] or r["unknown"]:
            why = (r["errors"] or ["unknown: " + r["unknown"][0]])[0]
            if unroll is None and h.unroll is not None and "time budget" not in why:
                self.bounded.setdefault(h.name, []).append(why)
                self.submit(futs, self.sym, self.sym_spec(h, h.unroll))
                return
            self.bounded.setdefault(h.name, []).append(why)
            self.fallback(h, futs)
            return
        if total == 0:
            self.bounded.setdefault(h.name, []).append("no obligation reached")
            self.fallback(h, futs)
            return
        if unroll is not None:
            self.bounded.setdefault(h.name, []).append(f"proved for sequences up to length {unroll}")
            r["unrolled"] = unroll
            self.fallback(h, futs)
        self.proved[h.name] = r

    def on_replay(self, h, r, futs):
        x = r["spec"]["x"]
        if r.get("hang"):
            self.violation(h, "does not terminate", {"model": x["model"], "verifier": x}, True)
            return
        for run in r["runs"]:
            if run["status"] == "violated":
                self.violation(h, run["info"][0], {"model": x["model"], "record": run["record"], "detail": run["info"][1],
                                                   "backend": run["backend"], "verifier": x}, True)
                return
        if all(run["status"] == "ok" and run["checks"] for run in r["runs"]):
            self.notes.append(f"{h.name}: countermodel of '{x['label']}' is spurious (the real code satisfies the contract on it)" + (f': {x.get("model")}' if os.environ.get('VF_DEBUG') else ''))
            return
        errs = [run["info"] for run in r["runs"] if run["status"] == "error"]
        if errs:
            self.notes.append(f"{h.name}: replay failed: {errs[0][-300:]}")
            return
        if x["tainted"]:
            self.notes.append(f"{h.name}: countermodel of '{x['label']}' rests on {x['why']}; no failing input")
            return
        self.violation(h, x["label"], {"model": x["model"], "verifier": x}, False)

    def on_pool(self, h, r):
        if r.get("hang"):
            self.violation(h, "does not terminate within the time limit", {"spec": r["spec"]}, True)
            return
        p = self.pooled.setdefault(h.name, {"runs": 0, "checks": 0, "distinct": 0, "skipped": 0, "sample": None, "covered": set()})
        for k in ("runs", "checks", "distinct", "skipped"):
            p[k] += r[k]
        p["sample"] = p["sample"] or r["sample"]
        p["covered"] |= set(r["covered"])
        if r["violated"]:
            v = r["violated"]
            if h.finding and v["label"] == "known finding":
                self.findings.append((h, v))
            else:
                self.violation(h, v["label"], v, True)
        if r["error"]:
            self.violation(h, "unexpected exception: " + r["error"]["label"], r["error"], True)

    def violation(self, h, label, info, found):
        self.violations.append({"harness": h.name, "label": label, "found": found, "info": info})

    # ------------------------------------------------------------------
    def report(self):
        out = 0
        for h, v in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {h.finding}")
        vs = sorted(self.violations, key=lambda v: (not v["found"], v["harness"], v["label"]))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        shown = set()
        for v in vs:
            key = (v["harness"], v["label"])
            if key in shown or len(shown) >= 8:
                continue
            shown.add(key)
            hsh = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, "replays", f"{self.prop}-{hsh}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, **v}, f, indent=1, default=str)
            print(f"failed obligation: {v['harness']}: {v['label']}")
            print(f"VIOLATION property={self.prop} replay={path}" + ("" if v["found"] else " no-failing-input-found"))
            out = 1
        self.evidence(len(shown))
        return out

    def evidence(self, nviol):
        full = {n: r for n, r in self.proved.items() if not r.get("dirty") and not r.get("unrolled")}
        part = {n: r for n, r in self.proved.items() if r.get("unrolled")}
        dirty = {n: r for n, r in self.proved.items() if r.get("dirty")}
        obligations = sum(sum(r["labels"].values()) for r in self.proved.values())
        discharged = sum(r["proved"] for r in full.values())
        backs = {}
        for r in full.values():
            for k, n in r["back"].items():
                backs[k] = backs.get(k, 0) + n
        fns = sorted({f for r in full.values() for f in r["functions"]})
        fns_b = sorted({f for r in part.values() for f in r["functions"]} - set(fns))
        cov = {
            "obligations": obligations,
            "discharged": discharged,
            "discharged_bounded_only": sum(r["proved"] for r in part.values()),
            "contracts": {"proved": len(full), "bounded": len(set(self.bounded) - set(full)),
                          "concrete_only": sum(1 for h in self.harns if h.mode == "concrete")},
            "back_ends": backs,
            "solver_time_s": round(sum(r["solver_time"] for r in self.proved.values()), 2),
            "solver_queries": sum(r["queries"] for r in self.proved.values()),
            "paths": sum(r["paths"] for r in self.proved.values()),
            "functions_under_contract": fns,
            "functions_bounded_only": fns_b,
            "checker_cmd": f"cd /verif && ./check {self.prop} {self.tier}",
            "trusted_base": TRUSTED + sorted({f"assumed at call sites: contract of {c}" for r in self.proved.values() for c in r["contracts"]}),
            "bounded": {n: w[-1][:200] for n, w in sorted(self.bounded.items()) if n not in full},
            "concrete_only": {h.name: h.why for h in self.harns if h.mode == "concrete"},
            "concrete_cross_check": {"evaluations": sum(p["runs"] for p in self.pooled.values()),
                                     "distinct_nontrivial": sum(p["distinct"] for p in self.pooled.values()),
                                     "checks": sum(p["checks"] for p in self.pooled.values()),
                                     "rule": "inputs drawn from seeded pools for each contract and run on the unmodified library; non-trivial: precondition met and at least one check evaluated; distinct by recorded inputs",
                                     "samples": [p["sample"] for p in self.pooled.values() if p["sample"]][:3]},
            "notes": self.notes[:40],
        }
        if dirty:
            cov["refuted_or_undecided"] = sorted(dirty)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "proof", "coverage": cov,
              "assumptions": sorted({a for r in self.proved.values() for a in r["assumptions"]}) + [
                  "nested objects are taken by the contract of their class (induction over nesting depth)"],
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if os.environ.get("VF_DEBUG"):
            for n, w in sorted(self.bounded.items()):
                if n not in full:
                    print("bounded", n, "|", " || ".join(x[:160] for x in w))
            for x in self.notes:
                print("note", x[:400])
        print(f"{self.prop} {self.tier}: contracts proved {len(full)}, bounded {len(cov['bounded'])}, "
              f"concrete {cov['contracts']['concrete_only']}; obligations discharged {discharged}/{obligations}; "
              f"runs on the real code {cov['concrete_cross_check']['evaluations']}; {ev['wall_s']} s")


def replay(path):
    d = json.load(open(path))
    worker.init("concrete", REPO)
    if worker.INIT_ERROR:
        sys.exit(worker.INIT_ERROR)
    h = worker.HARN[d["harness"]]
    i = d["info"]
    spec = {"prop": d["property"], "model": i.get("model")}
    if i.get("model") is None:
        spec["seed"] = i["seed"]
    print(json.dumps(worker.replay(h, spec), indent=1, default=str))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        replay(a.replay)
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Runner(a.property, a.tier, seed, jobs=min(8, os.cpu_count() or 4))
    if not r.harns:
        print("no contract for", a.property)
        return 2
    r.run()
    code = r.report()
    if code == 0 and not any(p["checks"] for p in r.pooled.values()) and not r.proved:
        print("nothing was checked")
        return 2
    return code


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
