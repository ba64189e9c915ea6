"C14: a dynamic module has exactly one creator."

ID = "C14"
COUNTS = {"quick": 4000, "thorough": 60000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("plan", "faults"), ("before",)]
RULE = (
    "1-4 threads carry out 1-6 operations each on 1-3 module names (plain and dotted, free, taken by someone else's module of "
    "various kinds, or names of modules of the standard library): attempts to create the module, look-ups and imports, and "
    "registrations by someone else (who keep the modules, or leave them to sys.modules); interrupts, memory and stack exhaustion at random bytecodes of attempts. Every "
    "look-up and outcome, and the module that a package holds, is checked against a write-once register per name. Non-trivial: two attempts on one name."
)
REAL = ["strong_typing.inspection.create_module", "importlib", "sys.modules"]
STUBS = ["thread scheduler", "other party that registers modules"]
ASSUMPTIONS = ["the other party registers a module only if the name is free, in a single step"]

NAMES = ["simmod_a", "simmod_b", "simpkg", "simpkg.sub", "simpkg.sub.deep", "json", "xml.etree.ElementTree"]
KINDS = ["plain", "falsy", "proxy", "equal"]


def gen(rng, tier):
    from ..work import case_sched

    names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
    case = {"before": {}, "threads": [], "drop": rng.random() < 0.5}
    for n in names:
        if rng.random() < 0.2 and n.startswith("sim"):
            case["before"][n] = rng.choice(KINDS)
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 6)):
            n = rng.choice(names)
            x = rng.random()
            if x < 0.6:
                ops.append(["create", n])
            elif x < 0.9 or not n.startswith("sim"):
                ops.append(["look", n, rng.choice(["modules", "import"])])
            else:
                ops.append(["other", n, rng.choice(KINDS)])
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, rng.choice([60, 300]))
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            case["plan"]["faults"].append(
                [rng.randrange(len(case["threads"])), rng.randint(1, 80), rng.choice(["interrupt", "memory", "recursion"]), None]
            )
    return case


def make(kind, name):
    import types

    class Falsy(types.ModuleType):
        def __len__(self):
            return 0

    class Proxy(types.ModuleType):
        def __getattr__(self, n):
            raise AttributeError(n)

    class Equal(types.ModuleType):
        "Compares equal to every module, yet is not the same."

        def __eq__(self, other):
            return isinstance(other, types.ModuleType)

        def __hash__(self):
            return 1

    return {"plain": types.ModuleType, "falsy": Falsy, "proxy": Proxy, "equal": Equal}[kind](name)


def execute(case):
    import importlib
    import sys
    import types
    import weakref
    import xml.etree.ElementTree  # noqa: F401

    from strong_typing.inspection import create_module

    from .. import core, sched
    from ..work import result, run_threads

    refs = []
    kept = []

    def token(m):
        "Stands for a module without keeping it."
        if not isinstance(m, types.ModuleType):
            return m
        for i, r in enumerate(refs):
            if r() is m:
                return i
        refs.append(weakref.ref(m))
        if not case.get("drop"):
            kept.append(m)
        return len(refs) - 1

    for n, kind in case["before"].items():
        sys.modules[n] = make(kind, n)
    names = {op[1] for th in case["threads"] for op in th} | set(case["before"])
    initial = {n: token(sys.modules.get(n)) for n in names}
    contents = {n: dict(sys.modules[n].__dict__) for n in names if n in sys.modules}
    children = {}
    for n in names:
        above, _, child = n.rpartition(".")
        children[n] = sys.modules[above].__dict__.get(child) if above in sys.modules else None
        children[n] = token(children[n])
    m = None
    core.instrument()
    clock = [0]
    events = []

    def body(t, i, op):
        clock[0] += 1
        e = {"op": op, "start": clock[0], "hit": len(t.sim.fired), "m": None, "err": None, "t": t.id}
        try:
            if op[0] == "create":
                with sched.traced(t):
                    m = create_module(op[1])
                e["fit"] = isinstance(m, types.ModuleType) and m.__name__ == op[1]
                e["m"] = token(m)
            elif op[0] == "other":
                m = make(op[2], op[1])
                e["mine"] = sys.modules.setdefault(op[1], m) is m
                e["m"] = token(sys.modules[op[1]])
            elif op[2] == "import":
                try:
                    e["m"] = token(importlib.import_module(op[1]))
                except ModuleNotFoundError:
                    e["m"] = token(sys.modules.get(op[1]))
                    e["unsure"] = True
            else:
                e["m"] = token(sys.modules.get(op[1]))
        except sched.SimDeadlock:
            raise
        except BaseException as ex:
            t.traced = False
            e["err"] = core.errname(ex)
        e["hit"] = any(f[0] == t.id for f in t.sim.fired[e["hit"] :])
        clock[0] += 1
        e["end"] = clock[0]
        # what is registered the moment the call returns
        e["now"] = token(sys.modules.get(op[1]))
        events.append(e)

    sim, _ = run_threads(None, case, body)
    stats = {}
    violation = None

    def bad(cls, e, what):
        nonlocal violation
        if violation is None:
            violation = {"class": cls, "detail": {"op": e and e["op"], "what": what, "error": e and e["err"]}}

    attempts_max = 0
    for n in sorted(names):
        final = token(sys.modules.get(n))
        evs = [e for e in events if e["op"][1] == n]
        creates = [e for e in evs if e["op"][0] == "create"]
        attempts_max = max(attempts_max, len(creates))
        won = []
        for e in creates:
            k = "outcome:" + (e["err"] or "created")
            stats[k] = stats.get(k, 0) + 1
            if e["err"] is None:
                won.append(e)
                m = e["m"]
                if not e["fit"]:
                    bad("wrong module", e, "result is not a module of that name")
                if e["now"] != m:
                    bad("not registered", e, "the module registered on return is not the one the creator received")
            elif e["err"] == "KeyError":
                if e["now"] is None:
                    bad("failed without reason", e, "KeyError and no module of that name")
            elif not e["hit"]:
                bad("wrong error", e, "")
        others = [e for e in evs if e["op"][0] == "other" and e["mine"]]
        if len(won) > 1:
            bad("two creators", won[1], "")
        if won and (initial[n] is not None or others):
            bad("created a module that exists", won[0], "")
        if not won and creates and initial[n] is None and not others and not any(e["hit"] for e in creates) and not sim.problem:
            bad("no creator", creates[0], "")
        # a name is registered once and for all
        owner = initial[n] if initial[n] is not None else won[0]["m"] if won else others[0]["m"] if others else final
        if final != owner:
            bad("replaced", None, f"{n} was replaced or removed")
        above, _, child = n.rpartition(".")
        if above in sys.modules:
            held = sys.modules[above].__dict__.get(child)
            held = token(held)
            if held is not None and held != owner and held != children[n]:
                bad("replaced", None, f"{n} was replaced in its package")
        seen = [e for e in evs if e["now"] is not None]
        for e in seen:
            if e["now"] != owner:
                bad("replaced", e, "another module was registered meanwhile")
        for e in evs:
            if e["now"] is None and any(x["end"] < e["start"] for x in seen):
                bad("removed", e, "a module registered earlier is missing")
            if e["m"] is not None and e["op"][0] != "create" and e["m"] != owner:
                bad("replaced", e, "another module was seen")
            if e["op"][0] == "create" and e["err"] is None and any(x["end"] < e["start"] for x in seen):
                bad("created a module that exists", e, "")
    for n, c in contents.items():
        m = sys.modules.get(n)
        if m is not None and {k: v for k, v in m.__dict__.items() if k in c} != c:
            bad("touched", None, f"contents of {n} changed")
    return result(sim, violation, stats, nontrivial=attempts_max >= 2, extra_key=str(sim.fired))
