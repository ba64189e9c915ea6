"C03: a failed or interrupted call leaves no trace."

ID = "C03"
COUNTS = {"quick": 600, "thorough": 10000}
LISTS = [("threads", "*"), ("plan", "faults"), ("plan", "decisions"), ("pre",), ("after",), ("handlers",), ("engines",)]
RULE = (
    "Random type universes; calls (deserialize, serialize, schema, sort) are aborted: an injected KeyboardInterrupt, "
    "MemoryError or RecursionError at a random bytecode instruction, a signal handler that re-enters the library there, a "
    "nearly exhausted call stack, a class that is defined later only, a failing hook or description callback, malformed "
    "data; later calls are compared with the same calls in processes without the aborted one. Non-trivial: at least one "
    "abort took place inside the library."
)
REAL = [
    "strong_typing.deserializer",
    "strong_typing.serializer",
    "strong_typing.schema",
    "strong_typing.topological",
    "strong_typing.inspection",
]
STUBS = ["thread scheduler", "source of asynchronous exceptions and signal handlers", "user-defined hooks and callbacks"]
ASSUMPTIONS = [
    "asynchronous exceptions arrive at function entry, after a call, or at a backward jump, as in CPython 3.12",
    "the standard library keeps its own state intact when aborted by stack exhaustion",
]


def gen(rng, tier):
    from ..work import Gen, Model, case_sched, gen_message, gen_schema_op, gen_ser_op, gen_sort_op, root_type
    from ..work import schema_universe, sort_universe

    mode = rng.choice(["serde", "serde", "serde", "schema", "sort"])
    case = {"engines": {}, "register": [], "pre": [], "threads": [], "after": [], "handlers": []}
    if mode == "sort":
        case["u"] = spec = sort_universe(rng)
        case["hashmeta"] = rng.getrandbits(32)

        def make(kind=None):
            return gen_sort_op(rng, spec)

    elif mode == "schema":
        spec, case["register"] = schema_universe(rng, docs=0.5, explicit=0.2)
        case["u"] = spec
        model = Model(spec)
        if rng.random() < 0.6:
            case["engines"]["g"] = {"kind": "gen"}
        roots = [root_type(rng, spec) for _ in range(2)]

        def make(kind=None):
            if rng.random() < 0.8:
                return gen_schema_op(rng, spec, case["engines"])
            return gen_ser_op(rng, spec, model, roots) or gen_schema_op(rng, spec, case["engines"])

    else:
        custom = rng.choice([0.0, 0.25])
        spec = Gen(rng, custom=custom, recursive=rng.choice([0.3, 0.8]), future=rng.choice([0, 0.4])).universe()
        case["u"] = spec
        model = Model(spec)
        roots = [root_type(rng, spec) for _ in range(rng.choice([1, 2]))]
        n = len(spec["modules"][0]["classes"])
        if n > 1 and rng.random() < 0.2:
            # the class of some forward references is defined later
            cut = rng.randrange(1, n)
            if spec["modules"][0]["classes"][cut - 1]["kind"] != "alias":
                case["late"] = cut
                early = {c["name"] for c in spec["modules"][0]["classes"][:cut]}
                roots = [r for r in roots if set(names_of(r)) <= early]
                for c in spec["modules"][0]["classes"][:cut]:
                    for f in c.get("fields", ()):
                        f.pop("default", None)
                        f.pop("factory", None)
                        f["type"] = safe_late(f["type"], early)
                while len(roots) < 2:
                    r = rng.choice(sorted(early))
                    roots.append(["cls", r])
                model = Model(spec)

        def make(kind=None):
            if rng.random() < 0.25:
                op = gen_ser_op(rng, spec, model, roots)
                if op is not None and not (case.get("late") and mentions_late(case, op)):
                    if custom and rng.random() < 0.2:
                        op["boom"] = rng.randint(0, 2)
                    return op
            t = rng.choice(roots)
            op = {"op": "de", "t": t, "doc": gen_message(rng, model, t, bad=0.2, budget=12)}
            op["via"] = rng.choice(["object", "generic", "caller", "create"])
            if rng.random() < 0.15:
                op["skip"] = rng.random() < 0.5
            if custom and rng.random() < 0.2:
                op["boom"] = rng.randint(0, 2)
            return op

    def no_boom(op, shared=False):
        op.pop("boom", None)
        if shared and op["op"] == "schema" and op.get("via") == "g":
            # a generator object belongs to a single thread, and handles one call at a time
            del op["via"]
            op["opts"] = {}
        return op

    # nearly exhausted call stack
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = make()
        op["limit"] = rng.choice([rng.randint(3, 40), rng.randint(3, 200)])
        case["pre"].append(op)
    if rng.random() < 0.3:
        case["pre"].append(make())
    for k in range(rng.choice([1, 1, 1, 2])):
        case["threads"].append([no_boom(make(), k > 0) for _ in range(rng.choice([1, 1, 2, 3]))])
    case["after"] = [make() for _ in range(rng.choice([1, 2, 3]))]
    case["plan"] = case_sched(rng, 8000)
    if rng.random() < 0.05:
        # one call after another is aborted
        from .. import core

        base = [no_boom(make()) for _ in range(rng.choice([1, 1, 2]))]
        case["threads"] = [base]
        sizes = (core.rehearse(lambda: measure(case)) or [[]])[0]
        if len(sizes) == len(base):
            kinds = rng.choice([["interrupt"], ["memory"], ["recursion"], ["interrupt", "memory", "recursion"]])
            case["threads"] = [[]]
            same = rng.random() < 0.5
            points = [rng.randint(1, max(1, b - a)) for a, b in sizes]
            for _ in range(rng.choice([20, 40, 60])):
                i = rng.randrange(len(base))
                a, b = sizes[i]
                after = points[i] if same else rng.randint(1, max(1, b - a))
                case["threads"][0].append(dict(base[i], strike=[rng.choice(kinds), after]))
        return case
    if rng.random() < 0.05:
        # so does one call after another that finds little room on the call stack, or whose hook fails
        op = make("storm")
        how = rng.choice(["limit", "boom"]) if custom_hooks(case) else "limit"
        for _ in range(rng.choice([20, 40, 60])):
            again = dict(no_boom(dict(op)))
            again[how] = rng.randint(3, 120) if how == "limit" else 0
            case["pre"].append(again)
    if rng.random() < 0.85:
        from .. import core

        sizes = core.rehearse(lambda: measure(case)) or [[] for _ in case["threads"]]
        kinds = rng.choice([["interrupt"], ["memory"], ["recursion"], ["interrupt", "memory", "recursion"], ["reenter"]])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            tid = rng.randrange(len(case["threads"]))
            ops = sizes[tid]
            if not ops:
                continue
            a, b = ops[0] if rng.random() < 0.6 else rng.choice(ops)
            if b <= a:
                continue
            kind = rng.choice(kinds)
            arg = None
            if kind == "reenter":
                arg = len(case["handlers"])
                case["handlers"].append(no_boom(make(), True))
            case["plan"]["faults"].append([tid, rng.randint(a + 1, b), kind, arg])
    return case


def custom_hooks(case):
    return any(c["kind"] == "custom" for m in case["u"]["modules"] for c in m["classes"])


def names_of(t):
    if t[0] in ("cls", "ref"):
        return [t[1]]
    out = []
    for x in t[1:]:
        if isinstance(x, list):
            out.extend(names_of(x))
    if t[0] == "edict":
        out.append(t[1])
    return out


def mentions_late(case, op):
    import json

    late = {c["name"] for c in case["u"]["modules"][0]["classes"][case["late"] :]}
    text = json.dumps(op)
    return any(f'"simu_0.{n}"' in text or f'"{n}"' in text for n in late)


def safe_late(t, early):
    "References to classes that are defined later occur by name only."
    if t[0] == "cls" and t[1] not in early:
        return ["ref", t[1]]
    if t[0] in ("list", "set", "dict", "opt", "popt", "ann"):
        return [t[0], safe_late(t[1], early)]
    if t[0] in ("tuple", "union"):
        return [t[0], *[safe_late(x, early) for x in t[1:]]]
    return t


def measure(case):
    "Number of steps of the thread before and after each operation, when nothing is aborted."
    from .. import core
    from ..work import Env, perform, run_threads

    env = Env(case)
    env.setup()
    for op in case["pre"]:
        perform(env, op)
    core.instrument()
    spans = [[] for _ in case["threads"]]

    def body(t, i, op):
        a = t.steps
        perform(env, op, t)
        spans[t.id].append([a, t.steps])

    run_threads(env, dict(case, plan={"mode": "replay", "decisions": [], "faults": []}), body)
    return spans


ABORTS = {
    "interrupt": "KeyboardInterrupt",
    "memory": "MemoryError",
    "recursion": "RecursionError",
}


def execute(case):
    import json

    from .. import core, sched
    from ..work import Env, Solo, perform, result, run_threads, tally

    env = Env(case)
    solo = Solo(env)
    stats = {}
    expected = {"pre": [solo(op) for op in case["pre"]]}
    expected["threads"] = [[solo(op) for op in th] for th in case["threads"]]
    expected["handlers"] = [solo(op) for op in case["handlers"]]
    late = bool(case.get("late"))
    expected["after"] = [solo(op, late) for op in case["after"]]
    again = [op for th in case["threads"] for op in th] + case["pre"]
    again = list({json.dumps(op): op for op in ({k: v for k, v in o.items() if k not in ("limit", "strike")} for o in again)}.values())
    expected["again"] = [solo(op, late) for op in again]
    env.setup()
    violation = None
    aborted = 0

    def check(where, op, o, e, lenient=False):
        nonlocal violation
        tally(stats, o)
        if o == e or violation is not None:
            return
        if lenient and o[0] == "err":
            return
        violation = {"class": where, "detail": {"op": op, "expected": e, "got": o}}

    for op, e in zip(case["pre"], expected["pre"]):
        o = perform(env, op)
        if op.get("limit") is not None:
            if o == ["err", "RecursionError"] and e != o:
                aborted += 1
                stats["fault:stack"] = stats.get("fault:stack", 0) + 1
            check("wrong result of aborted call", op, o, e, lenient=True)
        else:
            check("later call differs", op, o, e)

    core.instrument()
    handled = []

    def reenter(t, arg):
        op = case["handlers"][arg]
        # the handler runs to completion before the interrupted thread continues
        handled.append((op, perform(env, op), expected["handlers"][arg]))

    struck = {}
    if violation is None:

        def body(t, i, op):
            a = t.steps
            fired = len(sim_ref[0].fired)
            strike = op.get("strike")
            if strike:
                t.faults.append([a + strike[1], strike[0], None])
            o = perform(env, op, t)
            if strike:
                t.faults.clear()
            hits = [f for f in sim_ref[0].fired[fired:] if f[0] == t.id and f[2] in ABORTS and f[1] > a]
            if hits:
                struck[(t.id, i)] = hits
            return o

        sim_ref = []
        real = sched.Sim

        class Sim(real):
            def __init__(self, *a, **kw):
                super().__init__(*a, **kw)
                sim_ref.append(self)

        sched.Sim = Sim
        try:
            sim, outcomes = run_threads(env, case, body, reenter=reenter)
        finally:
            sched.Sim = real
        aborted += len(sim.fired)
        if not sim.problem:
            for tid, (th, outs) in enumerate(zip(case["threads"], outcomes)):
                for i, (op, o) in enumerate(zip(th, outs)):
                    hit = (tid, i) in struck
                    check(
                        "wrong result of aborted call" if hit else "concurrent call differs",
                        op,
                        o,
                        expected["threads"][tid][i],
                        lenient=hit,
                    )
            for op, o, e in handled:
                check("re-entrant call differs", op, o, e)
    else:
        sim = None
    if violation is None and (sim is None or not sim.problem):
        sched.current = None
        env.u.load_late()
        env.types.clear()
        if late:
            stats["fault:unresolved name"] = sum(
                o == ["err", "NameError"] for o in expected["pre"] + [e for th in expected["threads"] for e in th]
            )
            aborted += stats["fault:unresolved name"]
        for op, e in zip(case["after"], expected["after"]):
            o = perform(env, op)
            if o == ["err", "dst.work.HookError"] or o == ["err", "dst.work.DescribeError"]:
                stats["fault:callback"] = stats.get("fault:callback", 0) + 1
            check("later call differs", op, o, e)
        for op, e in zip(again, expected["again"]):
            check("later call differs", op, perform(env, op), e)
        for op, e in zip(case["after"], expected["after"]):
            check("later call differs", op, perform(env, op), e)
    return result(sim, violation, stats, nontrivial=aborted > 0, extra_key=str(sim.fired if sim else ""))
