"C12: outcomes do not depend on hash randomization."

ID = "C12"
COUNTS = {"quick": 600, "thorough": 7000}
SAME_CASES = True
LISTS = [("threads", "*"), ("register",), ("plan", "decisions")]
RULE = (
    "The same random case (types with overlapping and tagged unions, sets, enumerations, recursive, registered and documented "
    "types; 4-12 deserialization, serialization and schema calls in 1-2 simulated threads) is carried out in eight processes "
    "that differ in PYTHONHASHSEED and in the hash codes of classes, and the outcomes are compared: values and kinds of "
    "errors, JSON up to the order of elements of sets, schema text byte for byte. One evaluation is one case under one hash "
    "seed. Non-trivial: the case has at least two outcomes that are not errors."
)
REAL = ["strong_typing.deserializer", "strong_typing.serializer", "strong_typing.schema", "strong_typing.inspection"]
STUBS = ["hash seed of the interpreter", "hash codes of classes (meta class)", "thread scheduler"]
ASSUMPTIONS = ["hash codes of enumerations and named tuples are those of CPython"]


def gen(rng, tier):
    from ..work import Gen, Model, case_sched, gen_message, gen_schema_op, gen_ser_op, root_type, schema_universe

    case = {"register": [], "threads": [], "engines": {}}
    mode = rng.choice(["serde", "schema"])
    if mode == "schema":
        spec, case["register"] = schema_universe(
            rng,
            docs=0.4,
            union=0.3,
            tagged=rng.choice([0.2, 0.6]),
            recursive=rng.choice([0.1, 0.5]),
            enum=rng.choice([0.15, 0.4]),
            constrained=0.2,
            classes=rng.choice([(2, 4), (3, 7)]),
        )
    else:
        spec = Gen(
            rng,
            custom=0.05,
            union=rng.choice([0.15, 0.4]),
            ambiguous=rng.choice([0.0, 0.5, 1.0]),
            tagged=rng.choice([0.2, 0.6]),
            discriminators=rng.choice([0.3, 0.9]),
            recursive=rng.choice([0.2, 0.6]),
            enum=rng.choice([0.15, 0.4]),
            classes=rng.choice([(2, 4), (3, 7)]),
            variant=rng.choice([0.15, 0.6]),
        ).universe()
    case["u"] = spec
    model = Model(spec)
    roots = [root_type(rng, spec) for _ in range(rng.randint(1, 3))]
    unions = [c["name"] for c in spec["modules"][0]["classes"] if c["kind"] == "alias" and c["type"][0] == "union"]
    ops = []
    for _ in range(rng.randint(4, 12)):
        x = rng.random()
        if mode == "schema" and x < 0.6:
            ops.append(gen_schema_op(rng, spec))
        elif x < 0.8:
            t = rng.choice(roots)
            if unions and rng.random() < 0.4:
                # members that tell classes apart contradict each other
                t = ["cls", rng.choice(unions)]
                doc = mixed(rng, gen_message(rng, model, t, bad=0.1, budget=15), gen_message(rng, model, t, bad=0.1, budget=15))
            else:
                doc = gen_message(rng, model, t, bad=0.3, budget=15)
            op = {"op": "de", "t": t, "doc": doc}
            op["via"] = rng.choice(["object", "generic", "caller", "create"])
            if rng.random() < 0.15:
                op["skip"] = rng.random() < 0.5
            ops.append(op)
        else:
            op = gen_ser_op(rng, spec, model, roots)
            if op is not None:
                ops.append(op)
    n = rng.choice([1, 1, 2])
    case["threads"] = [ops[i::n] for i in range(n)]
    case["plan"] = case_sched(rng, 8000)
    return case


def mixed(rng, a, b):
    "A document that is partly this and partly that."
    if not isinstance(a, dict) or not isinstance(b, dict):
        return a
    out = {k: b[k] if k in b and rng.random() < 0.5 else v for k, v in a.items()}
    if rng.random() < 0.4:
        out.update((k, v) for k, v in b.items() if k not in out and rng.random() < 0.5)
    for k in list(out):
        if rng.random() < 0.12:
            del out[k]
        elif rng.random() < 0.08:
            out[k] = rng.choice([None, 5, "", [], {}, False])
    return out


def loose(x):
    if isinstance(x, list):
        import json

        return sorted((loose(i) for i in x), key=json.dumps)
    if isinstance(x, dict):
        return {k: loose(v) for k, v in x.items()}
    return x


def has_set(c):
    return isinstance(c, list) and (c[:1] == ["set"] or any(has_set(x) for x in c))


def execute(case):
    import json
    import zlib

    from .. import core
    from ..work import Env, perform, result, run_threads, tally

    # the hash codes of classes differ along with the hash seed
    env = Env(dict(case, hashmeta=case["hashseed"] + zlib.crc32(json.dumps(case["u"], sort_keys=True).encode())))
    env.setup()
    core.instrument()
    sim, outcomes = run_threads(env, case, lambda t, i, op: perform(env, op, t))
    stats = {"fault:hash seed": 1}
    digest = []
    good = 0
    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                tally(stats, o)
                good += o[0] != "err"
                if o[0] == "json" and has_set(op["v"]):
                    o = ["json", json.dumps(loose(json.loads(o[1])))]
                digest.append(o)
    r = result(sim, None, stats, nontrivial=good >= 2)
    r["digest"] = digest
    return r
