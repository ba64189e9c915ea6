"C15: calls share no mutable data with each other or with their input."

ID = "C15"
COUNTS = {"quick": 700, "thorough": 12000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("plan", "faults"), ("docs",), ("objects",), ("engines",)]
RULE = (
    "1-3 threads deserialize and serialize 2-8 times each, through separate calls and shared engines, from documents and "
    "objects that several calls and threads share; callers destroy results, and documents that nobody needs any more, at "
    "random points between and during calls of others; some calls are aborted. Checked: inputs are as they were, results and "
    "inputs have no mutable part in common (by identity), each result equals that of the call alone in a process of its "
    "own, and results that nobody touched are unchanged at the end. Non-trivial: something was destroyed and a later or "
    "overlapping call of the same type was made."
)
REAL = ["strong_typing.deserializer", "strong_typing.serializer"]
STUBS = ["thread scheduler", "callers that destroy data"]
ASSUMPTIONS = [
    "default values that are not made by factories are immutable",
    "user-defined from_json and to_json hooks are not part of the workload",
]


def gen(rng, tier):
    from ..work import Gen, Model, case_sched, gen_canon, gen_message, root_type

    spec = Gen(
        rng,
        custom=0.0,
        recursive=rng.choice([0.2, 0.6]),
        default=rng.choice([0.2, 0.7]),
        json=rng.choice([0.05, 0.2]),
        future=rng.choice([0, 0.3]),
        union=rng.choice([0.1, 0.3]),
    ).universe()
    case = {"u": spec, "engines": {}, "docs": {}, "objects": {}, "threads": []}
    model = Model(spec)
    roots = [root_type(rng, spec) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.5:
        case["engines"]["d"] = {"kind": "de", "t": rng.choice(roots), "skip": False}
    if rng.random() < 0.5:
        case["engines"]["s"] = {"kind": "ser", "t": rng.choice(roots)}
    types = {}
    for i in range(rng.choice([1, 2, 3])):
        t = case["engines"]["d"]["t"] if "d" in case["engines"] and rng.random() < 0.5 else rng.choice(roots)
        case["docs"][f"d{i}"] = gen_message(rng, model, t, bad=0.1, budget=15)
        types[f"d{i}"] = t
    for i in range(rng.choice([0, 1, 2])):
        t = case["engines"]["s"]["t"] if "s" in case["engines"] and rng.random() < 0.5 else rng.choice(roots)
        v = gen_canon(rng, model, t, budget=15)
        if v is None:
            continue
        if rng.random() < 0.2:
            v = rng.choice([["plain", [["k", v]]], ["list", [v, ["list", []]]], ["dict", [[["str", "k"], v]]]])
            t = None
        case["objects"][f"o{i}"] = v
        types[f"o{i}"] = t
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 8)):
            k = rng.choice(sorted(types))
            t = types[k]
            if k[0] == "d":
                op = {"op": "de", "in": k, "t": t, "via": rng.choice(["object", "object", "generic", "create"])}
                if case["engines"].get("d", {}).get("t") == t and rng.random() < 0.5:
                    op["via"] = "d"
                if rng.random() < 0.1:
                    op["skip"] = True
            else:
                op = {"op": "ser", "in": k, "via": "object"}
                if t is not None and rng.random() < 0.3:
                    op["via"] = "typed"
                    op["t"] = t
                if t is not None and case["engines"].get("s", {}).get("t") == t and rng.random() < 0.5:
                    op["via"] = "s"
            op["then"] = rng.choice(["keep", "keep", "destroy", "destroy later"])
            if rng.random() < 0.2:
                # works on a copy of the input of its own, and destroys it afterwards
                op["own"] = True
            ops.append(op)
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 8000)
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 2])):
            tid = rng.randrange(len(case["threads"]))
            case["plan"]["faults"].append([tid, rng.randint(1, 6000), rng.choice(["interrupt", "memory", "recursion"]), None])
    return case


def inner(env, op, source):
    "The call, given its input."
    u = env.u
    if op["op"] == "de":
        m = u.module()
        via = op["via"]
        kw = {"options": env.options(skip_unassigned=True)} if op.get("skip") and via != "d" else {}
        if via == "d":
            return lambda: env.engines["d"].parse(source)
        typ = env.typ(op["t"])
        if via == "object":
            return lambda: env.lib.json_to_object(typ, source, context=m, **kw)
        if via == "generic":
            return lambda: env.lib.json_to_generic(typ, source, context=m, **kw)
        return lambda: env.create_deserializer(typ, m, **kw).parse(source)
    if op["via"] == "object":
        return lambda: env.lib.object_to_json(source)
    if op["via"] == "s":
        return lambda: env.engines["s"].generate(source)
    typ = env.typ(op["t"])
    return lambda: env.create_serializer(typ, u.module()).generate(source)


def show(env, op, x):
    import json

    from ..values import canon
    from ..work import readable

    return readable(lambda x: ["val", canon(x, env.u)] if op["op"] == "de" else ["json", json.dumps(x)], x)


def snapshot(env, k, x):
    "Contents of an input, and its mutable parts by identity."
    from ..values import canon, mutable_parts

    parts = {}
    mutable_parts(x, parts)
    if k[0] == "d":
        text = repr(x)
    else:
        text = repr([canon(x, env.u), sorted(str(canon(v, env.u)) for v in getattr(x, "__dict__", {}).values())])
    return text, parts


def execute(case):
    import copy

    from .. import core, sched
    from ..values import build, mutable_parts, mutate
    from ..work import Env, Solo, result, run_threads, tally

    env = Env(case)

    def source(k):
        return copy.deepcopy(case["docs"][k]) if k[0] == "d" else build(case["objects"][k], env.u)

    def have(op):
        return op["in"] in case["docs"] or op["in"] in case["objects"]

    def alone(env, op):
        try:
            x = inner(env, op, source(op["in"]))()
        except Exception as ex:
            return ["err", core.errname(ex)]
        return show(env, op, x)

    case = dict(case, threads=[[op for op in th if have(op) and op["via"] in (*case["engines"], "object", "generic", "create", "typed")] for th in case["threads"]])
    solo = Solo(env, alone)
    expected = [[solo({k: v for k, v in op.items() if k not in ("then", "own")}) for op in th] for th in case["threads"]]
    env.setup()
    shared = {k: source(k) for k in sorted([*case["docs"], *case["objects"]])}
    before = {k: snapshot(env, k, x) for k, x in shared.items()}
    # mutable parts of inputs and of results that are still in use, by identity
    live = {}
    for k, (_, parts) in before.items():
        live.update({i: (p, "input " + k) for i, p in parts.items()})
    kept = []
    garbage = []
    stats = {}
    problems = []
    core.instrument()

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def destroy(x):
        parts = {}
        mutable_parts(x, parts)
        mutate(x)
        # kept alive, such that identities are not used again
        garbage.append((x, parts))
        count("fault:result destroyed")

    def body(t, i, op):
        x = source(op["in"]) if op.get("own") else shared[op["in"]]
        own = None
        if op.get("own"):
            own = snapshot(env, op["in"], x)
            live.update({j: (p, "own input") for j, p in own[1].items()})
        fired = len(t.sim.fired)
        try:
            with sched.traced(t):
                r = inner(env, op, x)()
        except sched.SimDeadlock:
            raise
        except BaseException as ex:
            t.traced = False
            o = ["err", core.errname(ex)]
            r = None
        else:
            o = show(env, op, r)
            parts = {}
            mutable_parts(r, parts)
            for j, p in parts.items():
                if j in live and live[j][0] is p:
                    problems.append(["shared", op, live[j][1]])
                live[j] = (p, "result of an earlier call")
        if own is not None:
            if snapshot(env, op["in"], x)[0] != own[0]:
                problems.append(["input changed", op, ""])
            destroy(x)
            count("fault:input destroyed")
        if r is not None:
            if op["then"] == "destroy":
                destroy(r)
            elif op["then"] == "destroy later":
                kept.append((r, op, o, t.id))
            else:
                kept.append((r, op, o, None))
        for e in [e for e in kept if e[3] == t.id and e[0] is not r]:
            kept.remove(e)
            destroy(e[0])
        return o, any(f[0] == t.id for f in t.sim.fired[fired:])

    sim, outcomes = run_threads(env, case, body)
    violation = None
    if not sim.problem:
        for th, outs, exp in zip(case["threads"], outcomes, expected):
            for op, (o, hit), e in zip(th, outs, exp):
                tally(stats, o)
                if o != e and not (hit and o[0] == "err") and violation is None:
                    violation = {"class": "result differs", "detail": {"op": op, "expected": e, "got": o}}
        for p in problems:
            if violation is None:
                violation = {"class": p[0], "detail": {"op": p[1], "with": p[2]}}
        for k, x in shared.items():
            if violation is None and snapshot(env, k, x)[0] != before[k][0]:
                violation = {"class": "input changed", "detail": {"input": k}}
        for r, op, o, _ in kept:
            if violation is None and show(env, op, r) != o:
                violation = {"class": "earlier result changed", "detail": {"op": op, "was": o, "is": show(env, op, r)}}
    destroyed = stats.get("fault:result destroyed", 0)
    return result(sim, violation, stats, nontrivial=destroyed and sum(map(len, case["threads"])) > 1, extra_key=str(sim.fired))
