"C04: a deserialization call depends on its own arguments only."

ID = "C04"
COUNTS = {"quick": 650, "thorough": 9000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("engines",)]
RULE = (
    "Random histories of 3-14 deserialization calls over one or two modules with equally named classes, with options set "
    "or not, options objects that the caller keeps changing, engines kept for later, types given by name in different "
    "contexts, intact and damaged documents with unknown members; each outcome is compared with the same call alone in a "
    "process of its own and with a reference model. Non-trivial: two calls use the same type with different options, "
    "contexts or outcomes."
)
REAL = ["strong_typing.deserializer", "strong_typing.serialization", "strong_typing.inspection", "strong_typing.mapping"]
STUBS = ["thread scheduler (in histories with two threads)"]
ASSUMPTIONS = ["an options object is not changed while a call that uses it is in progress"]


def gen(rng, tier):
    from ..work import Gen, Model, case_sched, gen_message, overlapping_roots, root_type

    profile = {
        "modules": rng.choice([1, 1, 2]),
        "recursive": rng.choice([0.2, 0.6]),
        "custom": rng.choice([0.0, 0.1]),
        "union": rng.choice([0.12, 0.3]),
        "tagged": rng.choice([0.25, 0.8]),
        "variant": rng.choice([0.1, 0.5]),
    }
    if rng.random() < 0.5:
        profile.update(classes=(2, 3), depth=1)
    spec = Gen(rng, **profile).universe()
    if profile["modules"] == 2 and rng.random() < 0.5:
        twin_modules(rng, spec)
    model = Model(spec)
    roots = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        mi = rng.randrange(len(spec["modules"]))
        t = root_type(rng, spec, mi)
        if rng.random() < 0.3:
            t = ["ref", rng.choice(spec["modules"][mi]["classes"])["name"]]
        roots.append((t, spec["modules"][mi]["name"]))
    if rng.random() < 0.25:
        roots = roots[:1] + [(t, spec["modules"][0]["name"]) for t in overlapping_roots(rng, rng.choice([2, 3]))]
    case = {"u": spec, "engines": {}, "threads": []}
    for i in range(rng.choice([0, 0, 1, 2])):
        t, m = rng.choice(roots)
        e = {"kind": "de", "t": t, "module": m, "skip": rng.random() < 0.5}
        if rng.random() < 0.5:
            e["o"] = rng.choice(["o0", "o1"])
        case["engines"][f"e{i}"] = e
    threads = rng.choice([1, 1, 2])
    for _ in range(threads):
        ops = []
        for _ in range(rng.randint(3, 14 // threads)):
            t, m = rng.choice(roots)
            op = {"op": "de", "t": t, "module": m}
            if case["engines"] and rng.random() < 0.35:
                k = rng.choice(sorted(case["engines"]))
                e = case["engines"][k]
                op.update(t=e["t"], module=e["module"], via=k)
                skip = e["skip"]
            else:
                op["via"] = rng.choice(["object", "generic", "caller", "create"])
                skip = rng.choice([None, False, True])
                op["skip"] = skip
                if skip is not None and rng.random() < 0.5:
                    op["o"] = rng.choice(["o0", "o1"]) if threads == 1 else f"t{len(case['threads'])}"
            doc = gen_message(rng, model, op["t"], bad=0.25, module=op["module"], budget=12)
            if rng.random() < 0.5:
                doc = add_unknown(rng, doc)
            op["doc"] = doc
            ops.append(op)
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 8000)
    return case


def twin_modules(rng, spec):
    "Gives the second module classes of the same names as the first."
    import copy

    m = copy.deepcopy(spec["modules"][0])
    m["name"] = spec["modules"][1]["name"]
    for c in m["classes"]:
        if c.get("fields") and c["kind"] in ("dataclass", "typed") and rng.random() < 0.5 and not c.get("base"):
            f = rng.choice(c["fields"])
            if f["type"][0] == "int" and "default" not in f:
                f["type"] = ["str"]
            elif "default" not in f and "factory" not in f and f["type"][0] in ("str", "float", "bool"):
                f["type"] = ["int"]
    spec["modules"][1] = m


def add_unknown(rng, doc):
    "Adds an unknown member at some nesting level."
    import copy

    from ..damage import get, nodes

    doc = copy.deepcopy(doc)
    objs = [p for p in nodes(doc) if type(get(doc, p)) is dict]
    if objs:
        get(doc, rng.choice(objs))[rng.choice(["extra", "zz", "b_", "unknown"])] = rng.choice([1, None, "x", {}])
    return doc


def skip_of(case, op):
    via = op.get("via")
    if via in case["engines"]:
        return bool(case["engines"][via]["skip"])
    return bool(op.get("skip"))


def model_verdict(model, case, op, o, skip=None, stats=None):
    "Compares an outcome with the reference model; returns a description of the difference."
    skip = skip_of(case, op) if skip is None else skip
    m = model.outcome(op["t"], op["doc"], skip=skip, module=op.get("module"))
    if stats is not None:
        k = {"ok": "specified value", "maybe": "value or error", "rej": "error specified", "any": "unspecified"}[m[0]]
        stats[f"probe:model {k}"] = stats.get(f"probe:model {k}", 0) + 1
    if m[0] == "any":
        return None
    if o[0] == "err":
        return f"model: {m}" if m[0] == "ok" else None
    if m[0] == "rej" or o[1] != m[1]:
        return f"model: {m}"
    return None


def execute(case):
    from .. import core
    from ..work import Env, Model, Solo, ops_of, perform, result, run_threads, tally

    env = Env(case)
    solo = Solo(env)
    expected = {id(op): solo(op) for op in ops_of(case)}
    if any(e[0] == "engine" for e in expected.values()):
        return result(None, nontrivial=False, extra_key="engine", stats={"probe:engine cannot be created": 1})
    env.setup()
    stats = {}
    if len(case["threads"]) > 1:
        core.instrument()
        sim, outcomes = run_threads(env, case, lambda t, i, op: perform(env, op, t))
    else:
        sim = None
        outcomes = [[perform(env, op) for op in th] for th in case["threads"]]
    violation = None
    model = Model(case["u"])
    seen = {}
    mixed = False
    if sim is None or not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                tally(stats, o)
                if o != expected[id(op)] and violation is None:
                    violation = {"class": "depends on history", "detail": {"op": op, "alone": expected[id(op)], "got": o}}
                d = model_verdict(model, case, op, o, stats=stats)
                if d and violation is None:
                    violation = {"class": "differs from model", "detail": {"op": op, "got": o, "why": d}}
                k = str(op["t"])
                v = (skip_of(case, op), op.get("module"), o[0])
                mixed = mixed or seen.setdefault(k, v) != v
    return result(sim, violation, stats, nontrivial=mixed, extra_key="" if sim else "sequential")
