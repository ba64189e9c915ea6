"C10: schema generation is repeatable and isolated."

ID = "C10"
COUNTS = {"quick": 230, "thorough": 9000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("plan", "faults"), ("register",), ("engines",)]
RULE = (
    "1-3 threads make 2-8 schema requests each for random types (registered or not, documented or not, with examples), with "
    "random options, dialects, failing description callbacks and generator objects that a thread uses repeatedly; some "
    "requests are aborted by an interrupt or memory exhaustion; callers scramble every schema they get. Each result is "
    "compared, text for text, with the same request made alone in a process of its own. Non-trivial: a type is requested at "
    "least twice, or threads overlap."
)
REAL = ["strong_typing.schema", "strong_typing.docstring", "strong_typing.inspection", "strong_typing.name", "jsonschema"]
STUBS = ["thread scheduler"]
ASSUMPTIONS = ["a generator object belongs to one thread and handles one request at a time"]


# types with a schema that no value is made of here
RAW = [
    "JsonObject",
    "JsonArray",
    "Any",
    "decimal.Decimal",
    "type[int]",
    "type[str]",
    "dict[int, str]",
    "Annotated[decimal.Decimal, Precision(5, 2)]",
    "Annotated[bytes, 'note']",
    "list[JsonObject]",
    "list[Any]",
    "dict[str, JsonArray]",
    "tuple[JsonObject, Any]",
    "Optional[JsonObject]",
    "Optional[Any]",
    "Annotated[JsonObject, 'note']",
    "Annotated[datetime.datetime, 'note']",
    "Literal['one']",
    "Literal[1]",
]


def add_raw(rng, spec):
    "Members of classes with further kinds of types, possibly documented."
    for c in spec["modules"][0]["classes"]:
        if c["kind"] not in ("dataclass", "typed") or c.get("base") or rng.random() < 0.4:
            continue
        used = {f["name"] for f in c["fields"]}
        for name in rng.sample(["raw_a", "raw_b", "raw_c"], rng.randint(1, 3)):
            if name in used:
                continue
            c["fields"].insert(0, {"name": name, "type": ["raw", rng.choice(RAW)]})
            if c.get("doc") and rng.random() < 0.7:
                c["doc"] += ("" if ":param" in c["doc"] else "\n") + f"\n:param {name}: Member {name} of {c['name']}."


def gen(rng, tier):
    from ..work import case_sched, gen_schema_op, schema_universe

    profile = {
        "docs": rng.choice([0.0, 0.6]),
        "explicit": rng.choice([0.0, 0.4]),
        "recursive": rng.choice([0.1, 0.5]),
        "default": rng.choice([0.2, 0.6]),
        "classes": rng.choice([(2, 4), (3, 6)]),
    }
    spec, register = schema_universe(rng, **profile)
    if rng.random() < 0.5:
        add_raw(rng, spec)
    case = {"u": spec, "register": register, "engines": {}, "threads": []}
    for k in range(rng.choice([1, 1, 2, 3])):
        mine = []
        if rng.random() < 0.6:
            opts = {}
            if rng.random() < 0.4:
                opts["use_descriptions"] = False
            if rng.random() < 0.3:
                opts["describe"] = "plain"
            if rng.random() < 0.2:
                opts["use_examples"] = False
            case["engines"][f"g{k}"] = {"kind": "gen", "opts": opts}
            mine.append(f"g{k}")
        ops = [gen_schema_op(rng, spec, mine) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.2:
            ops.append({"op": "schema", "t": ["raw", rng.choice(RAW)], "via": rng.choice([*mine, "generator", None])})
        ops += [dict(rng.choice(ops)) for _ in range(rng.randint(1, 4))]
        rng.shuffle(ops)
        for op in ops:
            op["scramble"] = rng.choice([None, rng.getrandbits(16)])
            if rng.random() < 0.08:
                op["abort"] = [rng.choice(["interrupt", "memory"]), rng.randint(1, 3000)]
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 20000)
    return case


def scramble(x, rng, seen):
    "What a careless caller may do to a document."
    if id(x) in seen:
        return
    seen.add(id(x))
    if type(x) is dict:
        for v in list(x.values()):
            scramble(v, rng, seen)
        k = rng.random()
        if k < 0.3:
            x.clear()
        elif k < 0.8:
            x["scrambled"] = True
        for key in list(x):
            if rng.random() < 0.3:
                x[key] = "scrambled"
    elif type(x) is list:
        for v in list(x):
            scramble(v, rng, seen)
        if rng.random() < 0.5:
            x.append("scrambled")
        else:
            x.clear()


def one(env, op, t):
    import json
    import random

    from .. import core, sched
    from ..work import prepare, readable

    call, _ = prepare(env, op)
    if t is not None and op.get("abort"):
        kind, after = op["abort"]
        t.faults.append([t.steps + after, kind, None])
    try:
        if t is None:
            x = call()
        else:
            with sched.traced(t):
                x = call()
    except sched.SimDeadlock:
        raise
    except BaseException as ex:
        if t is not None:
            t.traced = False
            if op.get("abort") and not t.faults:
                return ["aborted", core.errname(ex)]
        return ["err", core.errname(ex)]
    finally:
        if t is not None:
            t.faults.clear()
    out = readable(lambda x: ["schema", json.dumps(x)], x)
    if t is not None and op.get("scramble") is not None:
        scramble(list(x) if type(x) is tuple else x, random.Random(op["scramble"]), set())
    return out


def execute(case):
    from .. import core
    from ..work import Env, Solo, ops_of, result, run_threads, tally

    env = Env(case)
    solo = Solo(env, lambda env, op: one(env, op, None))

    def plain(op):
        return {k: v for k, v in op.items() if k not in ("scramble", "abort")}

    expected = {id(op): solo(plain(op)) for op in ops_of(case)}
    env.setup()
    core.instrument()
    sim, outcomes = run_threads(env, case, lambda t, i, op: one(env, op, t))
    stats = {}
    violation = None
    asked = set()
    again = False
    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                tally(stats, o)
                again = again or str(op["t"]) in asked
                asked.add(str(op["t"]))
                if o[0] == "aborted":
                    continue
                if o != expected[id(op)] and violation is None:
                    violation = {"class": "differs", "detail": {"op": op, "alone": expected[id(op)], "got": o}}
    return result(sim, violation, stats, nontrivial=again or sim.switches > 1, extra_key=str(sim.fired))
