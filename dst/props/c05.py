"C05: types are told apart by identity, never by name."

ID = "C05"
COUNTS = {"quick": 480, "thorough": 6000}
LISTS = [("history",), ("threads", "*"), ("plan", "decisions")]
RULE = (
    "Random histories of defining, using, redefining, discarding and re-using classes that share module and (qualified) "
    "name: at module level, in functions, nested in other classes, in modules with equal class names; then threads that use "
    "them at the same time. Each use (deserialize, serialize, schema) is compared with the same use in a process in which "
    "only that class exists, and with a reference model. Non-trivial: two classes of the same module and name were used."
)
REAL = ["strong_typing.deserializer", "strong_typing.serializer", "strong_typing.schema", "strong_typing.inspection"]
STUBS = ["thread scheduler"]
ASSUMPTIONS = ["an outdated class does not refer to other classes by name, and has no name in common in the schema catalog"]

NAMES = ["Alpha", "Beta", "Gamma"]


def gen(rng, tier):
    import copy

    from ..work import Gen, Model, case_sched

    if rng.random() < 0.25:
        return gen_modules(rng)
    gens = []
    reals = rng.choice([["simu_0"], ["simu_0", "simu_1"]])
    profile = {
        "recursive": 0,
        "forward": False,
        "future": 0,
        "names": NAMES,
        "classes": (1, 3),
        "fields": (1, 3),
        "depth": 1,
        "custom": 0.1,
        "alias_type": 0.0,
        "tagged": rng.choice([0.1, 0.6]),
        "json": 0.0,
        "multiliteral": False,
        "ambiguous": 0.0,
    }
    for i in range(rng.randint(2, 4)):
        site = rng.choice(["module", "module", "local", "local", "nested"])
        if gens and rng.random() < 0.5:
            m = copy.deepcopy(rng.choice(gens))
            if rng.random() < 0.7:
                for c in m["classes"]:
                    for f in c.get("fields", ()):
                        if rng.random() < 0.4 and "default" not in f and "factory" not in f and f["type"][0] != "lit":
                            f["type"] = [rng.choice(["int", "str", "float"])]
                        elif rng.random() < 0.2 and not any(x["name"] == "extra" for k in m["classes"] for x in k.get("fields", ())) and f["type"][0] != "lit":
                            f["name"] = "extra"
        else:
            m = Gen(rng, **profile).universe()["modules"][0]
        for c in m["classes"]:
            for f in c.get("fields", ()):
                f["type"] = by_object(f["type"])
            if c["kind"] == "alias":
                c["type"] = by_object(c["type"])
            if c["kind"] == "custom":
                c.update(reenter=False, inner=["int"])
        m.update(name=f"g{i}", site=site, real=rng.choice(reals))
        if site == "nested":
            m["outer"] = rng.choice([0, 0, 1])
            m["classes"] = [unlink(c, {x["name"] for x in m["classes"]}) for c in m["classes"] if c["kind"] != "alias"]
        if not m["classes"]:
            continue
        gens.append(m)
    spec = {"modules": gens}
    model = Model(spec, main="g0")
    case = {"u": spec, "history": [], "threads": [], "engines": {}}
    names = [m["name"] for m in gens]
    for _ in range(rng.randint(4, 16)):
        g = rng.choice(names)
        x = rng.random()
        if x < 0.2:
            case["history"].append({"op": "define", "g": g})
        elif x < 0.3:
            case["history"].append({"op": "discard", "g": g})
        else:
            op = use(rng, spec, model, g)
            if op:
                case["history"].append(op)
    if rng.random() < 0.5:
        for _ in range(rng.randint(2, 3)):
            ops = [use(rng, spec, model, rng.choice(names)) for _ in range(rng.randint(1, 3))]
            case["threads"].append([o for o in ops if o and not o.get("named")])
    case["plan"] = case_sched(rng, 6000)
    return case


def gen_modules(rng):
    "Two modules with classes of the same names that refer to each other by name."
    from ..work import Gen, Model, case_sched, gen_canon, gen_message, root_type
    from .c04 import twin_modules

    spec = Gen(rng, modules=2, recursive=0.8, future=rng.choice([0, 0.5]), classes=(2, 4), fields=(1, 3), depth=1).universe()
    twin_modules(rng, spec)
    model = Model(spec)
    names = [m["name"] for m in spec["modules"]]
    t0 = [root_type(rng, spec), ["ref", rng.choice(spec["modules"][0]["classes"])["name"]]]
    case = {"u": spec, "kind": "modules", "history": [], "threads": [], "engines": {}}
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 4)):
            op = {"op": "de", "t": rng.choice(t0), "module": rng.choice(names)}
            if rng.random() < 0.6:
                op["doc"] = gen_message(rng, model, op["t"], bad=0.1, module=op["module"], budget=12)
                op["via"] = rng.choice(["object", "generic", "caller", "create"])
            else:
                op["op"] = "ser"
                op["v"] = gen_canon(rng, model, op["t"], module=op["module"], budget=12)
                if op["v"] is None:
                    continue
                op["via"] = rng.choice(["object", "typed"])
            ops.append(op)
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 6000)
    return case


def by_object(t):
    if t[0] == "ref":
        return ["cls", t[1]]
    return [by_object(x) if isinstance(x, list) else x for x in t]


def unlink(c, names):
    c = dict(c)
    c.pop("base", None)

    def f(t):
        if t[0] in ("cls", "ref"):
            return ["int"]
        if t[0] in ("list", "set", "dict", "opt", "popt", "ann"):
            return [t[0], f(t[1])]
        if t[0] == "edict":
            return ["dict", f(t[2])]
        if t[0] in ("tuple", "union"):
            return [t[0], *[f(x) for x in t[1:]]]
        return t

    if "fields" in c:
        c["fields"] = [dict(x, type=f(x["type"])) for x in c["fields"]]
        for x in c["fields"]:
            if "default" in x and x["default"][1].split(".")[0] in names:
                del x["default"]
        c["fields"].sort(key=lambda x: "default" in x or "factory" in x)
    return c


def use(rng, spec, model, g):
    from ..work import gen_canon, gen_message

    m = next(x for x in spec["modules"] if x["name"] == g)
    c = rng.choice(m["classes"])
    t = ["cls", c["name"]]
    x = rng.random()
    if x < 0.15:
        t = ["list", t]
    elif x < 0.25:
        t = ["dict", t]
    if m["site"] == "module" and rng.random() < 0.2:
        # by name, which the module gives to the class that it has at the time
        t = ["ref", c["name"]]
        t = rng.choice([["list", ["opt", t]], ["dict", ["opt", t]], ["list", t], ["list", ["union", ["none"], t]]])
        return {
            "op": "de",
            "t": t,
            "named": True,
            "module": g,
            "doc": gen_message(rng, model, t, bad=0.15, module=g, budget=10),
            "via": rng.choice(["object", "generic", "create"]),
        }
    y = rng.random()
    if y < 0.5:
        return {
            "op": "de",
            "t": t,
            "module": g,
            "doc": gen_message(rng, model, t, bad=0.15, module=g, budget=10),
            "via": rng.choice(["object", "generic", "create"]),
        }
    if y < 0.8 or c["kind"] == "custom":
        v = gen_canon(rng, model, t, module=g, budget=10)
        if v is None:
            return None
        op = {"op": "ser", "v": v, "module": g}
        if rng.random() < 0.4:
            op.update(t=t, via="typed")
        return op
    if t[0] != "cls" or c["kind"] == "alias":
        return None
    return {"op": "schema", "t": t, "module": g, "opts": {}, "via": rng.choice(["function", "generator"])}


def execute(case):
    import gc

    from .. import core
    from ..model import doc_match
    from ..universe import Generations
    from ..work import Env, Model, perform, result, run_threads, tally
    from .c04 import model_verdict

    modules = case.get("kind") == "modules"
    if modules:
        env = Env(case)
        u = env.u
    else:
        env = Env(dict(case, u={"modules": []}))
        env.u = u = Generations(case["u"])
    model = Model(case["u"])
    memo = {}
    stats = {}

    def solo(op):
        import json

        k = json.dumps(op, sort_keys=True)
        if k not in memo:

            def alone():
                if not modules:
                    u.define(op["module"])
                return perform(env, op)

            memo[k] = core.fork_call(alone)
        return memo[k]

    uses = [op for op in case["history"] if op["op"] not in ("define", "discard")]
    uses += [op for th in case["threads"] for op in th]
    for op in uses:
        solo(op)
    live = set()
    used = {}
    mixed = False
    violation = None

    def check(op, o):
        nonlocal violation, mixed
        tally(stats, o)
        if modules:
            mixed = used.setdefault(0, op["module"]) != op["module"] or mixed
        else:
            m = u.gens[op["module"]]
            for c in m["classes"]:
                mixed = used.setdefault((m["real"], c["name"]), id(m)) != id(m) or mixed
        if violation is not None:
            return
        e = solo(op)
        if o != e:
            violation = {"class": "confused", "detail": {"op": op, "alone": e, "got": o}}
            return
        if op["op"] == "de":
            d = model_verdict(model, case, op, o, stats=stats)
            if d:
                violation = {"class": "differs from model", "detail": {"op": op, "got": o, "why": d}}
        elif op["op"] == "ser" and o[0] == "json":
            import json

            if not doc_match(model.ser(op["v"]), json.loads(o[1])):
                violation = {"class": "differs from model", "detail": {"op": op, "got": o, "model": str(model.ser(op["v"]))}}

    for op in case["history"]:
        if op["op"] == "define":
            # a class defined anew replaces the earlier one of the generation
            if op["g"] in live:
                stats["fault:redefined"] = stats.get("fault:redefined", 0) + 1
                u.discard(op["g"])
                env.types.clear()
            u.define(op["g"])
            live.add(op["g"])
        elif op["op"] == "discard":
            if op["g"] in live:
                u.discard(op["g"])
                live.discard(op["g"])
                env.types.clear()
                gc.collect()
                stats["fault:discarded"] = stats.get("fault:discarded", 0) + 1
        else:
            g = op["module"]
            if g not in live:
                u.define(g)
                live.add(g)
            if op.get("named") and not u.current(g):
                u.discard(g)
                env.types.clear()
                u.define(g)
            check(op, perform(env, op))
    sim = None
    if case["threads"] and violation is None:
        for th in case["threads"]:
            for op in th:
                if op["module"] not in live and not modules:
                    u.define(op["module"])
                    live.add(op["module"])
        core.instrument()
        sim, outcomes = run_threads(env, case, lambda t, i, op: perform(env, op, t))
        if not sim.problem:
            for th, outs in zip(case["threads"], outcomes):
                for op, o in zip(th, outs):
                    check(op, o)
    return result(sim, violation, stats, nontrivial=mixed, extra_key="" if sim else "sequential")
