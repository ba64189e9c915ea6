"C01: concurrent deserialization gives what each call gives alone."

ID = "C01"
COUNTS = {"quick": 600, "thorough": 8000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("engines",)]
RULE = (
    "Random type universes (mutual recursion, unions, aliases, hooks that re-enter the library), 2-4 threads with 1-4 "
    "deserialization calls each on overlapping types, seeded schedule at bytecode granularity. Non-trivial: at least two "
    "threads were preempted inside the library."
)
REAL = ["strong_typing.deserializer", "strong_typing.serialization", "strong_typing.inspection", "strong_typing.mapping"]
STUBS = ["thread scheduler (seeded, one thread runs at a time)", "threading.Lock/RLock, sleep, clocks (simulated)"]
ASSUMPTIONS = [
    "CPython 3.12 with the GIL: threads interleave between bytecode instructions; C functions are atomic",
    "user-defined hooks are themselves thread-safe",
]


def gen(rng, tier):
    from ..work import Gen, Model, case_sched, gen_message, root_type

    profile = {"recursive": rng.choice([0.3, 0.8]), "custom": rng.choice([0.0, 0.15, 0.3])}
    if rng.random() < 0.4:
        profile.update(classes=(2, 3), fields=(1, 3), depth=1)
    if rng.random() < 0.15:
        # hooks that call each other
        profile.update(classes=(2, 3), custom=0.6, hook_forward=0.9, enum=0.05)
    spec = Gen(rng, **profile).universe()
    model = Model(spec)
    roots = [root_type(rng, spec) for _ in range(rng.choice([1, 1, 2, 3]))]
    case = {"u": spec, "engines": {}, "threads": []}
    skips = rng.choice([[None], [None, True], [True, False, None]])
    if rng.random() < 0.3:
        for i in range(rng.randint(1, 2)):
            case["engines"][f"e{i}"] = {"kind": "de", "t": rng.choice(roots), "skip": bool(rng.choice(skips))}
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if case["engines"] and rng.random() < 0.6:
                e = rng.choice(sorted(case["engines"]))
                op = {"op": "de", "t": case["engines"][e]["t"], "via": e}
            else:
                op = {
                    "op": "de",
                    "t": rng.choice(roots),
                    "skip": rng.choice(skips),
                    "via": rng.choice(["object", "generic", "caller", "create"]),
                }
            op["doc"] = gen_message(rng, model, op["t"], bad=0.2, budget=15)
            ops.append(op)
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 15000)
    return case


def execute(case):
    from .. import core
    from ..work import Env, Solo, ops_of, perform, result, run_threads, tally

    env = Env(case)
    solo = Solo(env)
    expected = {}
    for op in ops_of(case):
        expected[id(op)] = solo(op)
    if any(e[0] == "engine" for e in expected.values()):
        return result(None, nontrivial=False, extra_key="engine", stats={"probe:engine cannot be created": 1})
    env.setup()
    core.instrument()
    sim, outcomes = run_threads(env, case, lambda t, i, op: perform(env, op, t))
    violation = None
    stats = {"ops": 0}
    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                stats["ops"] += 1
                tally(stats, o)
                if o != expected[id(op)] and violation is None:
                    violation = {"class": "mismatch", "detail": {"op": op, "alone": expected[id(op)], "concurrent": o}}
    return result(sim, violation, stats, nontrivial=sim.switches >= 2)
