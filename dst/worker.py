"""
Worker: a fresh interpreter with a given hash seed; forks one process per simulated run.

  python -m dst.worker PROP --group G --seed S --tier quick|thorough --start A --count N --deadline SECONDS
  python -m dst.worker PROP --serve        (reads cases, writes results; one JSON document per line)
"""

import argparse
import hashlib
import importlib
import json
import os
import random
import sys
import typing

from . import core


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def run_rng(seed, prop, group, i):
    h = hashlib.sha256(f"{seed}/{prop}/{group}/{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def forgetful():
    "Python remembers generic types by equality, which would make the order of members depend on types made before."
    for f in typing._caches:
        typing._caches[f] = f


def execute(mod, case, timeout):
    forgetful()
    try:
        return core.fork_call(lambda: mod.execute(case), timeout)
    except core.LibraryFailure as ex:
        v = {"class": ex.kind, "detail": str(ex)[-1500:]}
        return {"violation": v, "stats": {}, "nontrivial": False, "key": "", "trace": None, "digest": []}


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def batch(mod, a, out):
    stats, keys, samples = {}, set(), []
    n = nontrivial = violations = 0
    start = core._clock()
    truncated = False
    for i in range(a.start, a.start + a.count):
        if core._clock() - start > a.deadline:
            truncated = True
            break
        group = a.group if not getattr(mod, "SAME_CASES", False) else 0
        rng = run_rng(a.seed, mod.ID, group, i)
        case = mod.gen(rng, a.tier)
        if case is None:
            continue
        case["prop"] = mod.ID
        case["hashseed"] = int(os.environ.get("PYTHONHASHSEED", "0"))
        case["run"] = [a.seed, group, i]
        r = execute(mod, case, getattr(mod, "TIMEOUT", 200))
        n += 1
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        if r["nontrivial"]:
            nontrivial += 1
            keys.add(digest({k: v for k, v in case.items() if k not in ("plan", "run")}) + "/" + str(r["key"]))
            if len(samples) < 2:
                samples.append({"case": case, "decisions": len(r.get("trace", ())), "stats": r["stats"]})
        if "digest" in r and not r["violation"]:
            out({"digest": [i, r["digest"]]})
        if r["violation"]:
            out({"violation": r["violation"], "case": case, "trace": r.get("trace"), "i": i})
            if not getattr(mod, "signature", None) or mod.signature(case, r["violation"]) not in a.known:
                violations += 1
                if violations == 6:
                    break
    out(
        {
            "done": {
                "runs": n,
                "nontrivial": nontrivial,
                "stats": stats,
                "keys": sorted(hashlib.sha256(k.encode()).hexdigest()[:16] for k in keys),
                "samples": samples,
                "truncated": truncated,
                "wall": core._clock() - start,
            }
        }
    )


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--group", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--count", type=int, default=10)
    ap.add_argument("--deadline", type=float, default=1e9)
    ap.add_argument("--known", default="[]")
    ap.add_argument("--serve", action="store_true")
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    a.known = json.loads(a.known)
    # results go to a private copy of standard output, nothing printed by code under test can interfere
    fd = os.dup(1)
    os.dup2(2, 1)

    def out(doc):
        data = json.dumps(doc).encode() + b"\n"
        while data:
            n = os.write(fd, data)
            data = data[n:]

    core.setup()
    mod = load(a.prop)
    if hasattr(mod, "worker_setup"):
        mod.worker_setup()
    if a.serve:
        for line in sys.stdin:
            case = json.loads(line)
            try:
                r = execute(mod, case, getattr(mod, "TIMEOUT", 200))
            except core.HarnessError as ex:
                r = {"harness": str(ex)}
            out(r)
        return
    try:
        batch(mod, a, out)
    except core.HarnessError as ex:
        out({"harness": str(ex)})


if __name__ == "__main__":
    main()
