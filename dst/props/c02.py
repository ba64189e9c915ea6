"C02: concurrent serialization gives what each call gives alone."

ID = "C02"
COUNTS = {"quick": 700, "thorough": 8000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("engines",)]
RULE = (
    "Random type universes (recursive classes, unions, untyped containers and objects, hooks that re-enter the library), "
    "2-4 threads with 1-4 serialization calls each on values of overlapping types, seeded schedule at bytecode "
    "granularity. Non-trivial: at least two threads were preempted inside the library."
)
REAL = ["strong_typing.serializer", "strong_typing.serialization", "strong_typing.inspection", "strong_typing.mapping"]
STUBS = ["thread scheduler (seeded, one thread runs at a time)", "threading.Lock/RLock, sleep, clocks (simulated)"]
ASSUMPTIONS = [
    "CPython 3.12 with the GIL: threads interleave between bytecode instructions; C functions (functools.lru_cache) are atomic",
    "user-defined hooks are themselves thread-safe",
]


def gen(rng, tier):
    from ..work import Gen, Model, case_sched, gen_ser_op, root_type, typed_root

    profile = {"recursive": rng.choice([0.3, 0.8]), "custom": rng.choice([0.0, 0.15, 0.3]), "future": rng.choice([0, 0.5])}
    if rng.random() < 0.4:
        profile.update(classes=(2, 3), fields=(1, 3), depth=1)
    if rng.random() < 0.15:
        # hooks that call each other
        profile.update(classes=(2, 3), custom=0.6, hook_forward=0.9, enum=0.05)
    spec = Gen(rng, **profile).universe()
    model = Model(spec)
    roots = [root_type(rng, spec) for _ in range(rng.choice([1, 1, 2, 3]))]
    case = {"u": spec, "engines": {}, "threads": []}
    if rng.random() < 0.3:
        for i in range(rng.randint(1, 2)):
            case["engines"][f"e{i}"] = {"kind": "ser", "t": typed_root(rng, spec, rng.choice(roots))}
    given = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if given and rng.random() < 0.25:
                # the same object once more, perhaps by another thread
                ops.append(dict(rng.choice(given)))
                continue
            op = gen_ser_op(rng, spec, model, roots, case["engines"])
            if op is not None:
                ops.append(op)
                given.append(op)
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 8000)
    return case


def execute(case):
    from .c01 import execute as run

    return run(case)
