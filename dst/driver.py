"""
Runs a check: batches of simulated runs in worker processes, minimisation of a failing run, evidence.

  check PROP quick|thorough
  check PROP --replay FILE
Exit status: 0 held on everything explored, 1 violation (printed), 2 error of the check itself.
"""

import copy
import hashlib
import json
import os
import selectors
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = 8
PY = sys.executable


def hashseed(seed, group):
    return int.from_bytes(hashlib.sha256(f"hash/{seed}/{group}".encode()).digest()[:4], "big")


def worker_env(hs):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hs)
    env["PYTHONPATH"] = ROOT
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("PYTHONSTARTUP", "PYTHONOPTIMIZE", "PYTHONDEVMODE", "PYTHONWARNINGS"):
        env.pop(k, None)
    return env


class HarnessFailure(Exception):
    pass


class Server:
    "An interpreter that executes cases on request."

    def __init__(self, prop, hs):
        self.p = subprocess.Popen(
            [PY, "-m", "dst.worker", prop, "--serve"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            cwd=ROOT,
            env=worker_env(hs),
        )

    def __call__(self, case):
        self.p.stdin.write(json.dumps(case).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessFailure("worker ended")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.kill()
        self.p.wait()


class Executor:
    "Executes a case the way a property asks for: in one interpreter, or in several with different hash seeds."

    def __init__(self, prop):
        self.prop = prop
        self.servers = {}

    def server(self, hs):
        if hs not in self.servers:
            self.servers[hs] = Server(self.prop, hs)
        return self.servers[hs]

    def __call__(self, case):
        if "hashseeds" in case:
            digests = []
            r = None
            for hs, meta in case["hashseeds"]:
                c = dict(case)
                del c["hashseeds"]
                c["hashseed"] = hs
                r = self.server(hs)(c)
                if "harness" in r:
                    return r
                if r["violation"]:
                    return r
                digests.append(r["digest"])
            return {"violation": compare_digests(digests), "trace": []}
        return self.server(case["hashseed"])(case)

    def close(self):
        for s in self.servers.values():
            s.close()


def compare_digests(digests):
    a = digests[0]
    for b in digests[1:]:
        if a != b:
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return {"class": "mismatch", "detail": f"operation {i}: {x} under one hash seed, {y} under another"}
    return None


# ---------------------------------------------------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------------------------------------------------


def expand(case, path):
    "All lists a path with wildcards denotes, as concrete paths."
    out = [()]
    for p in path:
        nxt = []
        for o in out:
            x = case
            try:
                for q in o:
                    x = x[q]
            except (KeyError, IndexError, TypeError):
                continue
            if p == "*":
                if isinstance(x, list):
                    nxt.extend(o + (i,) for i in range(len(x)))
                elif isinstance(x, dict):
                    nxt.extend(o + (k,) for k in x)
            elif isinstance(x, dict) and p in x:
                nxt.append(o + (p,))
        out = nxt
    return out


def at(case, path):
    x = case
    for p in path:
        x = x[p]
    return x


def with_list(case, path, items):
    c = copy.deepcopy(case)
    x = c
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = items
    return c


def minimise(case, violation, traces, executor, mod_lists, deadline, blank=(), plans=(("plan",),)):
    attempts = 0

    def fails(c):
        nonlocal attempts
        attempts += 1
        if violation["class"] == "no-progress" and attempts > 3:
            # each attempt may take as long as the time limit
            return None
        r = executor(c)
        v = r.get("violation")
        return v if v and v["class"] == violation["class"] else None

    # one plan, or one for each process of a case; a recorded trace takes the place of the random generator
    for p, tr in zip([q for path in plans for q in expand(case, path)], traces or ()):
        plan = at(case, p)
        if plan.get("mode") == "random" and tr is not None:
            new = {"mode": "replay", "decisions": tr, "faults": plan.get("faults", [])}
            v = fails(with_list(case, p, new))
            if v:
                case, violation = with_list(case, p, new), v
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for path in mod_lists:
            for p in expand(case, path):
                try:
                    items = at(case, p)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(items, (list, dict)) or not items:
                    continue
                isdict = isinstance(items, dict)
                seq = list(items.items()) if isdict else list(items)
                n = len(seq)
                chunk = n
                while chunk >= 1 and time.monotonic() < deadline:
                    i = 0
                    while i < len(seq) and time.monotonic() < deadline:
                        rest = seq[:i] + seq[i + chunk :]
                        c = with_list(case, p, dict(rest) if isdict else rest)
                        v = fails(c)
                        if v:
                            seq = rest
                            case, violation = c, v
                            changed = True
                        else:
                            i += chunk
                    chunk //= 2
        for path, value in blank:
            for p in expand(case, path):
                try:
                    if at(case, p) == value:
                        continue
                except (KeyError, IndexError, TypeError):
                    continue
                c = with_list(case, p, copy.deepcopy(value))
                v = fails(c)
                if v:
                    case, violation = c, v
                    changed = True
    return case, violation, attempts


# ---------------------------------------------------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------------------------------------------------


def known_findings(prop):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    try:
        with open(path) as f:
            doc = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in doc["known"] if k["property"] == prop]


# ---------------------------------------------------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------------------------------------------------


def prop_meta(prop):
    "Property modules hold plain data for the driver, too; they do not import the code under test at module level."
    sys.path.insert(0, ROOT)
    import importlib

    return importlib.import_module(f"dst.props.{prop.lower()}")


def run_batches(prop, mod, tier, seed, budget, known, executor):
    counts = int(os.environ.get("DST_COUNT", mod.COUNTS[tier]))
    doubtful = []
    start = time.monotonic()
    sel = selectors.DefaultSelector()
    procs = []
    for g in range(GROUPS):
        p = subprocess.Popen(
            [
                PY,
                "-m",
                "dst.worker",
                prop,
                "--group",
                str(g),
                "--seed",
                str(seed),
                "--tier",
                tier,
                "--count",
                str(counts),
                "--deadline",
                str(budget),
                "--known",
                json.dumps([k["signature"] for k in known]),
            ],
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            cwd=ROOT,
            env=worker_env(hashseed(seed, g)),
        )
        os.set_blocking(p.stdout.fileno(), False)
        os.set_blocking(p.stderr.fileno(), False)
        w = {"p": p, "g": g, "buf": b"", "err": b"", "done": None}
        procs.append(w)
        sel.register(p.stdout, selectors.EVENT_READ, (w, "buf"))
        sel.register(p.stderr, selectors.EVENT_READ, (w, "err"))
    violations, seen_known, harness, digests = [], [], [], {}
    hard = start + budget + 240
    open_fds = 2 * GROUPS
    stop = False
    while open_fds and not stop:
        if time.monotonic() > hard:
            harness.append("batch exceeded its time limit")
            break
        for key, _ in sel.select(1.0):
            w, which = key.data
            try:
                b = os.read(key.fileobj.fileno(), 1 << 16)
            except BlockingIOError:
                continue
            if not b:
                sel.unregister(key.fileobj)
                open_fds -= 1
                continue
            w[which] += b
            if which == "err":
                w["err"] = w["err"][-20000:]
                continue
            *lines, w["buf"] = w["buf"].split(b"\n")
            for line in lines:
                doc = json.loads(line)
                if "violation" in doc:
                    sig = mod.signature(doc["case"], doc["violation"]) if hasattr(mod, "signature") else None
                    if sig is not None and any(k["signature"] == sig for k in known):
                        seen_known.append(sig)
                    elif not stop:
                        # one that depends on more than its seed (addresses of memory, say) may not happen again
                        if any(executor(doc["case"]).get("violation") for _ in range(3)):
                            violations.append(doc)
                            stop = True
                        else:
                            doubtful.append(doc)
                elif "digest" in doc:
                    i, d = doc["digest"]
                    digests.setdefault(i, []).append([hashseed(seed, w["g"]), d])
                    first = digests[i][0]
                    if first[1] != d and not stop:
                        violations.append({"hash": [first[0], hashseed(seed, w["g"])], "i": i})
                        stop = True
                elif "harness" in doc:
                    harness.append(f"group {w['g']}: {doc['harness']}")
                    stop = not getattr(mod, "HARNESS_TOLERANT", False)
                elif "done" in doc:
                    w["done"] = doc["done"]
    for w in procs:
        if w["done"] is None:
            w["p"].kill()
        w["p"].wait()
        if w["done"] is None and not violations and not harness:
            harness.append(f"group {w['g']} ended without a result:\n" + w["err"].decode(errors="replace"))
    if not violations:
        harness += [f"violation did not happen again: {d['violation']} {json.dumps(d['case'])[:3000]}" for d in doubtful[:1]]
    return procs, violations, seen_known, harness, digests, time.monotonic() - start


def selftest():
    "Whether the interpreter offers what the simulator needs, and whether a run is exactly repeatable."
    if not hasattr(sys, "monitoring"):
        print("the simulator needs CPython 3.12 or later")
        return 2
    mod = prop_meta("C01")
    from dst.worker import run_rng

    for i in range(3):
        case = mod.gen(run_rng(1, "C01", 0, i), "quick")
        case.update(prop="C01", hashseed=1, run=[1, 0, i])
        results = []
        for _ in range(2):
            ex = Executor("C01")
            try:
                results.append(ex(case))
            finally:
                ex.close()
        if "harness" in results[0] or results[0] != results[1]:
            print("warning: a run was not repeatable: " + str(results)[:2000])
            return 0
    print("simulator ready: runs are repeatable")
    return 0


def main(argv):
    if argv == ["--selftest"]:
        return selftest()
    prop = argv[0].upper()
    mod = prop_meta(prop)
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"{prop} tier={tier} seed={seed}", flush=True)
    budget = 420.0 if tier == "quick" else 780.0
    budget = float(os.environ.get("DST_BUDGET", budget))
    known = known_findings(prop)
    start = time.monotonic()

    executor = Executor(prop)
    try:
        for k in known:
            # a listed finding is re-examined on every run
            r = executor(k["case"])
            if "harness" in r:
                print("error of the check: known finding cannot be executed: " + r["harness"])
                return 2
            if r["violation"]:
                print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        procs, violations, seen_known, harness, digests, batch_wall = run_batches(prop, mod, tier, seed, budget, known, executor)
        shown = None
        if violations:
            failed = []
            for doc in violations[:8]:
                if "hash" in doc:
                    from dst.worker import run_rng

                    case = mod.gen(run_rng(seed, mod.ID, 0, doc["i"]), tier)
                    case.update(prop=prop, run=[seed, 0, doc["i"]], hashseeds=[[h, None] for h in doc["hash"]])
                    doc = {"case": case, "violation": None, "trace": None}
                shown = report(prop, mod, doc, executor, failed)
                if shown:
                    break
            else:
                harness += failed
    finally:
        executor.close()
    wall = time.monotonic() - start
    write_evidence(prop, mod, tier, seed, procs, batch_wall, wall, shown, seen_known, digests)
    if shown:
        print(f"VIOLATION property={prop} replay={shown}", flush=True)
        return 1
    if harness:
        print("error of the check:\n" + "\n".join(h if len(h) < 4000 else h[:1500] + "\n...\n" + h[-2500:] for h in harness[:3]))
        return 2
    total = sum(w["done"]["runs"] for w in procs if w["done"])
    print(f"{prop}: held in {total} simulated runs ({wall:.1f} s)")
    return 0


def report(prop, mod, doc, executor, harness):
    "Minimises a failing run, writes its replay file, and confirms that the file reproduces it in a fresh process."
    case, violation = doc["case"], doc["violation"]
    r = executor(case)
    if "harness" in r or not r["violation"]:
        harness.append(f"violation did not reproduce: {violation} {json.dumps(case)[:3000]} {r}")
        return None
    violation = r["violation"]
    small, v, attempts = minimise(
        case,
        violation,
        r.get("traces") if hasattr(mod, "PLANS") else [r.get("trace")],
        executor,
        mod.LISTS,
        time.monotonic() + float(os.environ.get("DST_SHRINK", "60")),
        getattr(mod, "BLANK", ()),
        getattr(mod, "PLANS", (("plan",),)),
    )
    fresh = Executor(prop)
    try:
        again = fresh(small)
        if not again.get("violation") or again["violation"]["class"] != v["class"]:
            small, v = case, violation
            again = fresh(small)
    finally:
        fresh.close()
    if not again.get("violation"):
        harness.append(f"violation did not reproduce in a fresh process: {violation}")
        return None
    out = os.path.join(ROOT, "out", "replay")
    os.makedirs(out, exist_ok=True)
    name = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(out, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "violation": again["violation"], "minimised_in": attempts, "case": small}, f, indent=1)
    print(f"{prop}: {again['violation']['class']}: {str(again['violation']['detail'])[:2000]}")
    return path


def replay(prop, path):
    with open(path) as f:
        doc = json.load(f)
    ex = Executor(prop)
    try:
        r = ex(doc["case"])
    finally:
        ex.close()
    if "harness" in r:
        print("error of the check: " + r["harness"])
        return 2
    if r["violation"]:
        print(f"{prop}: {r['violation']['class']}: {r['violation']['detail']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: replay shows no violation")
    return 0


def write_evidence(prop, mod, tier, seed, procs, batch_wall, wall, shown, seen_known, digests):
    done = [w["done"] for w in procs if w["done"]]
    stats, keys, samples = {}, set(), []
    for d in done:
        for k, v in d["stats"].items():
            stats[k] = stats.get(k, 0) + v
        keys.update(d["keys"])
        samples.extend(d["samples"][:1])
    runs = sum(d["runs"] for d in done)
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    outcomes = {k[8:]: v for k, v in sorted(stats.items()) if k.startswith("outcome:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    rest = {k: v for k, v in sorted(stats.items()) if ":" not in k}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples[:3],
        "runs_per_hour": round(runs / max(batch_wall, 1e-3) * 3600),
        "hash_seeds": GROUPS,
        "faults_injected": faults,
        "operation_outcomes": outcomes,
        "probes": probes,
        "counters": rest,
        "simulated_time": getattr(
            mod, "SIMULATED_TIME", "the code under test reads no clock; progress is counted in bytecode steps (see counters)"
        ),
        "distinct_measure": "distinct (case, schedule digest, fault sites) triples of non-trivial runs",
        "real_code": mod.REAL,
        "stubs": mod.STUBS,
        "groups_cut_short_by_time": sum(bool(d["truncated"]) for d in done),
        "known_findings_met": len(seen_known),
    }
    if digests:
        cov["cases_compared_across_hash_seeds"] = sum(len(v) > 1 for v in digests.values())
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if shown else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
