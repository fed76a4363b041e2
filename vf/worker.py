"""Worker processes: one kind runs harnesses symbolically on the instrumented
library, the other runs them on the unmodified library with concrete values."""
from __future__ import annotations

import importlib
import os
import signal
import sys
import time
import traceback

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KIND = None
INIT_ERROR = None
HARN = {}
POOLS = None
REPO = "/repo"


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang


def load_specs():
    from . import harness
    mods = ["attrs", "reads", "whole", "areas"]
    for m in mods:
        if os.path.exists(os.path.join(ROOT, "spec", m + ".py")):
            importlib.import_module("spec." + m)
    for h in harness.REGISTRY:
        assert h.name not in HARN or HARN[h.name] is h, h.name
        HARN[h.name] = h
    return HARN


def init(kind, repo):
    global KIND, INIT_ERROR, POOLS, REPO
    KIND, REPO = kind, repo
    sys.dont_write_bytecode = True
    if VT not in sys.path:
        sys.path.append(VT)
    sys.path.insert(0, repo)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    try:
        if kind == "symbolic":
            from . import rewrite
            rewrite.install(repo)
            import fastkml  # noqa: F401
            from fastkml import config
            from . import xmlmodel
            config.etree = xmlmodel.etree
            monitor()
        else:
            import fastkml  # noqa: F401
            assert os.path.realpath(fastkml.__file__).startswith(os.path.realpath(repo) + os.sep), fastkml.__file__
            from . import pools
            POOLS = pools.make(repo)
        load_specs()
    except BaseException:  # noqa: BLE001
        INIT_ERROR = traceback.format_exc()
    signal.signal(signal.SIGALRM, _alarm)


# -- which functions of the library were executed

SEEN = set()
TOOL = 3


def monitor():
    m = sys.monitoring
    m.use_tool_id(TOOL, "vf")

    def start(code, off):
        if "/fastkml/" in code.co_filename and "_vf_for" not in code.co_varnames:
            SEEN.add(code.co_filename.rsplit("/fastkml/", 1)[1][:-3].replace("/", ".") + "." + code.co_qualname)
        return m.DISABLE

    m.register_callback(TOOL, m.events.PY_START, start)
    m.set_events(TOOL, m.events.PY_START)


def job(spec):
    kind = spec["job"]
    t = time.time()
    if INIT_ERROR:
        return {"name": spec["name"], "init_error": INIT_ERROR, "job": kind, "spec": spec}
    h = HARN[spec["name"]]
    signal.alarm(int(spec.get("limit", 120)))
    try:
        if kind == "symbolic":
            r = symbolic(h, spec)
        elif kind == "replay":
            r = replay(h, spec)
        else:
            r = pool(h, spec)
    except Hang:
        r = {"hang": True}
    except MemoryError:
        r = {"hang": True}
    finally:
        signal.alarm(0)
    r.update(name=spec["name"], job=kind, spec=spec, t=time.time() - t)
    return r


def symbolic(h, spec):
    from . import symbolic as sy
    SEEN.clear()
    sys.monitoring.restart_events()
    try:
        r = sy.run_symbolic(h, spec["prop"], spec["opts"])
    except Exception:  # noqa: BLE001
        return {"errors": [traceback.format_exc()[-1500:]], "proved": 0, "refuted": [], "unknown": [], "paths": 0,
                "labels": {}, "back": {}, "assumptions": [], "contracts": [], "solver_time": 0.0, "queries": 0,
                "functions": sorted(SEEN), "wall": 0.0, "bounded": spec["opts"].get("unroll")}
    r["functions"] = sorted(SEEN)
    return r


def backend(name):
    from fastkml import config
    if name == "etree":
        import xml.etree.ElementTree as ET
        config.set_etree_implementation(ET)
    else:
        import lxml.etree
        config.set_etree_implementation(lxml.etree)
    config.set_default_namespaces()


def one(h, prop, source, back):
    from . import harness
    backend(back)
    S = harness.Concrete(h, prop, source)
    S.backend = back
    try:
        h.fn(S)
    except harness.Skip:
        return "skip", None, S
    except harness.Violated as e:
        return "violated", (e.args[0], plain(e.args[1])), S
    except Hang:
        raise
    except Exception:  # noqa: BLE001
        return "error", traceback.format_exc()[-1800:], S
    return "ok", None, S


def replay(h, spec):
    """Run the real code on the values of a countermodel."""
    from . import harness
    out = []
    for back in ("lxml", "etree"):
        src = harness.ModelSource(spec["model"], 0, POOLS) if spec.get("model") is not None else \
            harness.PoolSource(spec["seed"], POOLS)
        st, info, S = one(h, spec["prop"], src, back)
        out.append({"backend": back, "status": st, "info": info, "checks": S.checks, "record": rec(S)})
    return {"runs": out}


def plain(v, depth=3):
    """Details of a violation as plain text."""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v if not isinstance(v, str) else v[:6000]
    if isinstance(v, (list, tuple)) and depth:
        return [plain(x, depth - 1) for x in v[:20]]
    if isinstance(v, dict) and depth:
        return {str(k)[:80]: plain(x, depth - 1) for k, x in list(v.items())[:40]}
    try:
        return repr(v)[:6000]
    except BaseException as e:  # noqa: BLE001
        return f"<{type(v).__name__}: {type(e).__name__}>"


def rec(S):
    return {k: plain(v) if not isinstance(v, str) else repr(v) for k, v in list(S.record.items())[:200]}


def pool(h, spec):
    from . import harness
    r = {"runs": 0, "skipped": 0, "checks": 0, "violated": None, "error": None, "distinct": 0, "sample": None, "covered": []}
    seen = set()
    cov = set()
    t0 = time.time()
    for i in range(spec["lo"], spec["hi"]):
        if time.time() - t0 > spec.get("budget", 30):
            r["cut"] = i
            break
        seed = f"{spec['seed']}:{h.name}:{i}"
        src = harness.PoolSource(seed, POOLS)
        back = ("lxml", "lxml", "etree")[i % 3] if not h.backend else h.backend
        st, info, S = one(h, spec["prop"], src, back)
        r["runs"] += 1
        if st == "skip":
            r["skipped"] += 1
            continue
        r["checks"] += S.checks
        cov |= S.covered
        if S.checks:
            seen.add(hash(tuple(sorted((k, repr(v)) for k, v in S.record.items()))))
        if r["sample"] is None and S.checks:
            r["sample"] = {"harness": h.name, "inputs": dict(list(rec(S).items())[:12])}
        if st == "violated":
            r["violated"] = {"label": info[0], "detail": info[1], "seed": seed, "backend": back, "record": rec(S)}
            break
        if st == "error":
            r["error"] = {"label": info.strip().splitlines()[-1][:200], "detail": info, "seed": seed, "backend": back, "record": rec(S)}
            break
    r["distinct"] = len(seen)
    r["covered"] = sorted(cov)
    return r
