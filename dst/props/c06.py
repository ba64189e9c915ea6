"C06: acknowledged records survive a faulty stream, crash and restart intact."

ID = "C06"
COUNTS = {"quick": 400, "thorough": 6000}
PLANS = (("sessions", "*", "plan"), ("read", "plan"))
LISTS = [
    ("sessions", "*", "threads", "*"),
    ("sessions", "*", "plan", "decisions"),
    ("sessions", "*", "plan", "faults"),
    ("sessions", "*", "device"),
    ("read", "threads", "*"),
    ("read", "plan", "decisions"),
]
RULE = (
    "1-3 producer processes (1-3 threads each) serialize random objects of a random type universe and append them to one "
    "simulated device with short and interrupted writes, errors, torn writes and crashes at random points (device or "
    "bytecode); then a fresh consumer process decodes the complete records, duplicated and reordered, from 1-3 threads. "
    "Non-trivial: a fault fired or threads were preempted, and at least one record was acknowledged."
)
REAL = [
    "strong_typing.serializer",
    "strong_typing.deserializer",
    "strong_typing.serialization (json_dump)",
    "io.TextIOWrapper, io.BufferedWriter, json",
]
STUBS = ["storage device", "thread scheduler", "process crash and restart", "delivery of records to the consumer"]
ASSUMPTIONS = [
    "bytes the device has taken survive a crash; a stream that failed stays closed, and an application cuts off an "
    "unterminated record when it opens the stream anew",
]


def wire(model, c):
    def plain(x):
        if isinstance(x, tuple):
            return [plain(i) for i in x[1]]
        if isinstance(x, list):
            return [plain(i) for i in x]
        if isinstance(x, dict):
            return {k: plain(v) for k, v in x.items()}
        return x

    return plain(model.ser(c))


def gen(rng, tier):
    from .. import core
    from ..device import random_faults
    from ..work import Gen, Model, case_sched, gen_canon, root_type

    profile = {
        "recursive": rng.choice([0.3, 0.7]),
        "custom": rng.choice([0.0, 0.15]),
        "future": rng.choice([0, 0.4]),
        "ambiguous": 0.2,
        "namedtuple": 0.2,
        "alias": rng.choice([0.1, 0.3]),
        "keyword": rng.choice([0.1, 0.3]),
        "default": rng.choice([0.25, 0.5]),
    }
    spec = Gen(rng, **profile).universe()
    model = Model(spec)
    roots = [root_type(rng, spec) for _ in range(rng.choice([1, 2, 3]))]
    case = {"u": spec, "sessions": []}
    rid = 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = {"threads": [], "device": [], "stream": rng.choice(["unbuffered", "small", "line", "plain"])}
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                t = rng.choice(roots)
                v = gen_canon(rng, model, t, budget=15)
                if v is None:
                    continue
                # members of unions must be distinguishable for the value to be recovered
                o = model.outcome(t, wire(model, v))
                if o[0] != "ok":
                    continue
                if normal(model, v) != o[1]:
                    continue
                ops.append({"id": rid, "t": t, "v": v, "via": rng.choice(["object", "object", "typed"])})
                rid += 1
            s["threads"].append(ops)
        s["plan"] = case_sched(rng, 5000)
        case["sessions"].append(s)
    case["read"] = {
        "seed": rng.getrandbits(32),
        "threads": [[rng.randrange(10**6) for _ in range(rng.randint(3, 8))] for _ in range(rng.choice([1, 1, 2, 3]))],
        "plan": case_sched(rng, 8000),
    }
    # place faults where there is something to disturb
    for s in case["sessions"]:
        x = rng.random()
        if x < 0.25:
            continue
        info = core.rehearse(lambda s=s: session(case, s, b"", dry=True))
        if info is None:
            continue
        if x < 0.75:
            s["device"] = random_faults(rng, info["writes"])
        if x > 0.65:
            tids = [i for i, n in enumerate(info["steps"]) if n]
            if tids:
                i = rng.choice(tids)
                kind = rng.choice(["crash", "crash", "interrupt", "memory"])
                s["plan"]["faults"].append([i, rng.randint(1, info["steps"][i]), kind, None])
    return case


def normal(model, c):
    "An absent optional member counts as its default."
    k = c[0]
    if k in ("list", "tuple", "set"):
        return [k, [normal(model, x) for x in c[1]]]
    if k == "dict":
        return [k, [[a, normal(model, b)] for a, b in c[1]]]
    if k == "custom":
        return [k, c[1], normal(model, c[2])]
    if k == "obj":
        fields = {f["name"]: (f, m) for f, m in model.all_fields(c[1], model.by_cid[c[1]])}
        out = []
        for n, v in c[2]:
            f, m = fields[n]
            if v[0] == "none" and ("default" in f or "factory" in f):
                v = model.default(f, m)
            out.append([n, normal(model, v)])
        return [k, c[1], out]
    return c


def session(case, s, content, dry=False):
    "A producer process: appends records, acknowledges them, and perhaps crashes."
    import io

    from .. import core, sched
    from ..device import Crash, Device, text_stream
    from ..values import build
    from ..work import Env, run_threads

    env = Env(case)
    dev = Device(content, () if dry else s["device"])
    stream = text_stream(dev, s["stream"])
    acked, started, errors = [], [], []
    state = {"broken": False}
    core.instrument()

    def body(t, i, op):
        if state["broken"] or dev.dead:
            return None
        obj = build(op["v"], env.u)
        m = env.u.module()
        typ = env.typ(op["t"]) if op["via"] == "typed" else None
        stage = "serialize"
        try:
            with sched.traced(t):
                if op["via"] == "typed":
                    doc = env.create_serializer(typ, m).generate(obj)
                else:
                    doc = env.lib.object_to_json(obj)
            started.append(op["id"])
            stage = "write"
            with sched.traced(t):
                env.lib.json_dump({"id": op["id"], "v": doc}, stream)
            # a stream that failed to write in the meantime cannot confirm anything
            if dev.failed or dev.dead:
                state["broken"] = True
                return None
            stream.flush()
            acked.append(op["id"])
        except sched.SimDeadlock:
            raise
        except Crash:
            dev.dead = True
        except BaseException as ex:
            t.traced = False
            name = core.errname(ex)
            injected = name in ("KeyboardInterrupt", "MemoryError") and any(f[0] == t.id for f in sim[0].fired)
            if stage == "write":
                state["broken"] = True
            if not injected and not (stage == "write" and isinstance(ex, OSError)):
                errors.append([op["id"], stage, name, str(ex)[:200]])
        return None

    sim = []
    plan = dict(s["plan"], faults=[]) if dry else s["plan"]

    class Sim(sched.Sim):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            sim.append(self)

    real, sched.Sim = sched.Sim, Sim
    try:
        sim_, _ = run_threads(env, dict(case, threads=s["threads"], plan=plan), body)
    finally:
        sched.Sim = real
    crashed = sim_.problem == "crash"
    out = {
        "data": bytes(dev.data).hex(),
        "acked": acked,
        "started": started,
        "errors": errors,
        "writes": dev.writes,
        "steps": [t.steps for t in sim_.threads],
        "fired": dev.fired + [f[2] for f in sim_.fired],
        "hash": f"{sim_.hash:x}/{dev.fired}/{sim_.fired}",
        "switches": sim_.switches,
        "total": sim_.steps,
        "trace": sim_.trace,
        "problem": None if crashed else sim_.problem,
    }
    # what is still in buffers is lost with the process
    dev.write = lambda b: len(b)
    assert io
    return out


def consumer(case, lines):
    "A fresh process decodes records."
    import json
    import random

    from .. import core
    from ..work import Env, perform, run_threads

    env = Env(case)
    ops = {op["id"]: op for s in case["sessions"] for th in s["threads"] for op in th}
    r = case["read"]
    records = []
    for line in lines:
        doc = json.loads(line)
        op = ops[doc["id"]]
        records.append({"op": "de", "id": doc["id"], "t": op["t"], "doc": doc["v"]})
    rng = random.Random(r["seed"])
    threads = []
    todo = list(range(len(records)))
    rng.shuffle(todo)
    for k, picks in enumerate(r["threads"]):
        # every record is delivered, some repeatedly
        th = [records[i] for i in todo[k :: len(r["threads"])]]
        for p in picks:
            if records and p % 3 == 0:
                th.insert(p % (len(th) + 1), records[p % len(records)])
        threads.append([dict(x, via=rng.choice(["object", "generic", "caller", "create"])) for x in th])
    core.instrument()
    sim, outcomes = run_threads(env, dict(case, threads=threads, plan=r["plan"]), lambda t, i, op: perform(env, op, t))
    return {
        "outcomes": [[[op["id"], o] for op, o in zip(th, outs)] for th, outs in zip(threads, outcomes)],
        "problem": sim.problem,
        "steps": sim.steps,
        "switches": sim.switches,
        "hash": f"{sim.hash:x}",
        "trace": sim.trace,
    }


def execute(case):
    import json

    from .. import core
    from ..model import Model

    model = Model(case["u"])
    ops = {op["id"]: op for s in case["sessions"] for th in s["threads"] for op in th}
    stats = {"steps": 0, "switches": 0, "records": 0, "acknowledged": 0}
    content = b""
    acked, started = set(), set()
    traces = []
    key = []
    fired = 0

    def done(violation=None):
        return {
            "violation": violation,
            "stats": stats,
            "nontrivial": bool(acked) and (fired > 0 or stats["switches"] > 1),
            "key": "|".join(key),
            "traces": traces,
        }

    for s in case["sessions"]:
        out = core.fork_call(lambda s=s: session(case, s, content))
        traces.append(out["trace"])
        key.append(out["hash"])
        stats["steps"] += out["total"]
        stats["switches"] += out["switches"]
        for f in out["fired"]:
            stats[f"fault:{f}"] = stats.get(f"fault:{f}", 0) + 1
            fired += 1
        if out["problem"]:
            return done({"class": "stuck", "detail": out["problem"]})
        if out["errors"]:
            return done({"class": "cannot be written", "detail": [[ops[e[0]], e[1:]] for e in out["errors"]]})
        content = bytes.fromhex(out["data"])
        acked.update(out["acked"])
        started.update(out["started"])
        # on restart the application cuts off an unterminated record
        cut = content.rfind(b"\n") + 1
        if cut < len(content):
            stats["fault:torn record"] = stats.get("fault:torn record", 0) + 1
        content = content[:cut]
    lines = content.split(b"\n")[:-1]
    stats["records"] += len(lines)
    stats["acknowledged"] += len(acked)
    found = set()
    for line in lines:
        try:
            doc = json.loads(line)
            ok = type(doc) is dict and set(doc) == {"id", "v"} and doc["id"] in started
        except ValueError:
            ok = False
        if not ok:
            return done({"class": "garbage", "detail": line.decode("utf-8", "replace")})
        if doc["id"] in found:
            return done({"class": "duplicate", "detail": line.decode("utf-8", "replace")})
        found.add(doc["id"])
    if acked - found:
        return done({"class": "lost", "detail": sorted(acked - found)})
    out = core.fork_call(lambda: consumer(case, lines))
    traces.append(out["trace"])
    key.append(out["hash"])
    stats["steps"] += out["steps"]
    stats["switches"] += out["switches"]
    if out["problem"]:
        return done({"class": "stuck", "detail": out["problem"]})
    for th in out["outcomes"]:
        for i, o in th:
            stats["outcome:" + o[0]] = stats.get("outcome:" + o[0], 0) + 1
            e = ["val", normal(model, ops[i]["v"])]
            if o != e:
                return done({"class": "differs", "detail": {"op": ops[i], "expected": e, "got": o}})
    return done()
