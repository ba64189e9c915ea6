"C13: dependency order is valid under every traversal order."

ID = "C13"
COUNTS = {"quick": 2200, "thorough": 30000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("classes",), ("classes", "*", "fields"), ("graphs", "*", "edges"), ("deps",)]
RULE = (
    "1-3 simulated threads sort shared random graphs (nodes of several kinds, hash codes a function of a seed, edges in random "
    "insertion order, self-references, cycles, ladders) and random sets of random classes (1-2 modules, inheritance, enumerations, nested "
    "generics, references by object and by name) with dependency functions that report known, new, own and equal types as "
    "lists, shared sets or generators, that fail, or that sort types themselves; results are compared with a reference model "
    "of the dependency relation. Non-trivial: at least one edge takes part."
)
REAL = ["strong_typing.topological", "strong_typing.inspection (TypeCollector)"]
STUBS = ["hash codes of nodes and classes (traversal order)", "dependency functions", "thread scheduler"]
ASSUMPTIONS = ["dependency chains fit the call stack", "every adjacent node is a node of the graph"]

KINDS = ["dataclass", "dataclass", "dataclass", "typed", "typed", "enum"]
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lamda", "Mu"]

# text, whether the parts may be quoted individually
SHAPES = [
    ("{a}", True),
    ("list[{a}]", True),
    ("typing.List[{a}]", True),
    ("typing.Optional[{a}]", True),
    ("{a} | None", False),
    ("{a} | {b}", False),
    ("dict[{a}, {b}]", True),
    ("typing.Dict[{a}, list[{b}]]", True),
    ("set[{a}]", True),
    ("frozenset[{a}]", True),
    ("tuple[{a}, {b}]", True),
    ("typing.Tuple[{a}, typing.Optional[{b}]]", True),
    ("typing.Union[{a}, {b}]", True),
    ("typing.Optional[typing.Union[{a}, {b}]]", True),
    ("typing.Annotated[{a}, 'note']", True),
    ("typing.Optional[typing.Annotated[list[{a}], 'note']]", True),
    ("list[dict[{a}, typing.Optional[{b}]]]", True),
    ("list[{a} | {b} | None]", False),
    ("typing.Literal['x', 'Alpha']", None),
]


def gen(rng, tier):
    from ..work import case_sched

    case = {"hashmeta": rng.getrandbits(32), "classes": [], "deps": [], "graphs": [], "threads": []}
    mode = rng.choice(["graph", "types", "types", "both"])
    if mode != "types":
        for _ in range(rng.choice([1, 1, 2])):
            case["graphs"].append(gen_graph(rng))
    if mode != "graph":
        gen_classes(rng, case)
    for k in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            if case["graphs"] and (mode == "graph" or rng.random() < 0.4):
                ops.append({"op": "graph", "g": rng.randrange(len(case["graphs"]))})
            else:
                ids = [c["id"] for c in case["classes"]]
                op = {"op": "types", "types": [rng.choice(ids) for _ in range(rng.choice([0, 1, 1, 2, 3, len(ids)]))]}
                op["as"] = rng.choice(["list", "list", "tuple", "set", "keys", "generator"])
                if case["deps"] and rng.random() < 0.6:
                    op["fn"] = rng.choice(["list", "set", "generator", "tuple"])
                    x = rng.random()
                    if x < 0.15:
                        op["fail"] = rng.randint(0, 3)
                    elif x < 0.3:
                        op["again"] = rng.randint(0, 3)
                ops.append(op)
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 3000)
    return case


def gen_graph(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 25])
    kind = rng.choice(["node", "node", "str", "int", "tuple", "mixed"])
    shape = rng.choice(["dag", "dag", "dag", "any", "ladder", "chain"])
    edges = []
    if shape == "ladder":
        n = 2 * rng.randint(2, 7)
        for i in range(2, n):
            edges += [[i, (i // 2) * 2 - 2], [i, (i // 2) * 2 - 1]]
    elif shape == "chain":
        n = rng.randint(2, 60)
        edges = [[i, i - 1] for i in range(1, n)]
    else:
        for _ in range(rng.randint(0, 3 * n)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a == b:
                continue
            if shape == "dag" and a < b:
                a, b = b, a
            edges.append([a, b])
    for i in range(n):
        if rng.random() < 0.15:
            edges.append([i, i])
    if rng.random() < 0.15 and n > 1:
        # a cycle
        ring = rng.sample(range(n), rng.randint(2, min(n, 5)))
        edges += [[a, b] for a, b in zip(ring, ring[1:] + ring[:1])]
    rng.shuffle(edges)
    order = list(range(n))
    rng.shuffle(order)
    return {"kind": kind, "order": order, "edges": edges}


def gen_classes(rng, case):
    n = rng.randint(2, 9)
    names = rng.sample(NAMES, n)
    if rng.random() < 0.1:
        names[rng.randrange(n)] = rng.choice(["typ", "module", "cls", "fn"])
    second = rng.random() < 0.35
    cyclic = rng.random() < 0.3
    done = []
    for i in range(n):
        module = 1 if second and i >= n // 2 else 0
        name = names[i]
        if module and rng.random() < 0.3:
            # same name as a class of the other module
            name = rng.choice(names[: n // 2])
        if any(d["module"] == module and d["name"] == name for d in done):
            continue
        done.append({"id": i, "module": module, "name": name, "kind": rng.choice(KINDS), "fields": []})
    for k, c in enumerate(done):
        c["future"] = False
        if c["kind"] == "enum":
            continue
        pool = [d["id"] for d in done[:k]]
        if rng.random() < 0.2:
            pool.append(c["id"])
        if cyclic:
            pool += [d["id"] for d in done if d["module"] <= c["module"]]
        bases = [d["id"] for d in done[:k] if d["kind"] == c["kind"] and d["module"] <= c["module"]]
        if bases and rng.random() < 0.2:
            base = rng.choice(bases)
            # a name of a base class is evaluated in the module of the class that inherits it
            if done_module(done, base) == c["module"]:
                c["base"] = base
        for j in range(rng.choice([0, 1, 1, 2, 3])):
            if not pool:
                break
            shape = rng.randrange(len(SHAPES))
            a, b = rng.choice(pool), rng.choice(pool)
            late = {d["id"] for d in done[k:]}
            quote = rng.choice(["no", "parts", "whole"])
            if a in late or b in late or a == c["id"] or b == c["id"]:
                quote = rng.choice(["parts", "whole"])
            if quote == "parts" and SHAPES[shape][1] is False:
                quote = "whole"
            c["fields"].append([f"f{k}_{j}", shape, a, b, quote])
    case["classes"] = done
    ids = [d["id"] for d in done]
    acyclic = rng.random() < 0.6
    for _ in range(rng.choice([0, 1, 2, 4])):
        a, b = rng.choice(ids), rng.choice(ids)
        if acyclic and a < b:
            a, b = b, a
        case["deps"].append([a, b])
    for _ in range(rng.choice([0, 0, 1])):
        # a fundamental type that is not known otherwise
        case["deps"].append([rng.choice(ids), "extra"])


def done_module(done, i):
    return next(d["module"] for d in done if d["id"] == i)


def load(case):
    "Classes by identifier."
    import sys
    import types

    from ..universe import SeededEnumMeta, SeededMeta

    SeededMeta.seed = case["hashmeta"]
    mods = []
    for i in range(2):
        m = types.ModuleType(f"simu_{i}")
        sys.modules[m.__name__] = m
        m.SeededMeta = SeededMeta
        m.SeededEnumMeta = SeededEnumMeta
        exec("import dataclasses, enum, typing", m.__dict__)
        mods.append(m)
    mods[1].__dict__["simu_0"] = mods[0]
    spec = {c["id"]: c for c in case["classes"]}
    classes = {}
    for c in case["classes"]:
        m = mods[c["module"]]

        def name(i):
            d = spec[i]
            return d["name"] if d["module"] == c["module"] else f"simu_0.{d['name']}"

        lines = []
        base = name(c["base"]) if c.get("base") in spec else ""
        if c["kind"] == "dataclass":
            lines.append("@dataclasses.dataclass")
        if c["kind"] == "enum":
            exec(f"class {c['name']}(enum.Enum, metaclass=SeededEnumMeta):\n    ONE = 'one'\n    TWO = 'two'", m.__dict__)
            classes[c["id"]] = m.__dict__[c["name"]]
            continue
        lines.append(f"class {c['name']}({base or 'metaclass=SeededMeta'}):")
        lines.append("    pass")
        for f, shape, a, b, quote in c["fields"]:
            if a not in spec or b not in spec:
                continue
            if quote == "parts":
                text = SHAPES[shape][0].format(a=repr(name(a)), b=repr(name(b)))
            else:
                text = SHAPES[shape][0].format(a=name(a), b=name(b))
                if quote == "whole":
                    text = repr(text)
            lines.append(f"    {f}: {text}")
        exec("\n".join(lines), m.__dict__)
        classes[c["id"]] = m.__dict__[c["name"]]
    classes["extra"] = SeededMeta("Extra", (), {"__module__": "simu_0"})
    return classes


def references(case):
    spec = {c["id"]: c for c in case["classes"]}
    refs = {"extra": set()}
    for c in case["classes"]:
        out = set()
        d = c
        while d is not None:
            for _, shape, a, b, _q in d["fields"]:
                if a not in spec or b not in spec:
                    continue
                text = SHAPES[shape][0]
                out |= {x for x, k in ((a, "{a}"), (b, "{b}")) if k in text}
            d = spec.get(d.get("base"))
        refs[c["id"]] = out
    return refs


class Node:
    "A node whose hash code is a function of its number and a seed."

    seed = 0

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return ((self.n + 1) * 0x9E3779B97F4A7C15 ^ Node.seed) % 1000003

    def __eq__(self, other):
        return type(other) is Node and self.n == other.n

    def __repr__(self):
        return f"Node({self.n})"


def node(kind, i):
    "Makes a node; nodes that are equal are not the same object."
    if kind == "mixed":
        kind = ["node", "str", "int", "tuple", "none"][i % 5]
    if kind == "none":
        return None if i == 4 else (None, i)
    if kind == "node":
        return Node(i)
    if kind == "str":
        return "".join(["n", str(i)]) if i else ""
    if kind == "int":
        # some equal nodes are of different types
        return float(i) if i % 3 == 1 else i
    return tuple(["t", i]) if i else ()


def closure(start, edges):
    out, todo = set(), list(start)
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(edges.get(x, ()))
    return out


def cyclic(nodes, edges):
    "Whether there is a cycle other than a self-reference."
    left = {n: {m for m in edges.get(n, ()) if m != n and m in nodes} for n in nodes}
    while True:
        free = [n for n, e in left.items() if not e]
        if not free:
            return bool(left)
        for n in free:
            del left[n]
        for e in left.values():
            e.difference_update(free)


def check_order(ids, need, allow, edges):
    "What is wrong with an order of nodes."
    if len(set(ids)) != len(ids):
        return "a node occurs more than once"
    if not need <= set(ids):
        return f"nodes are missing: {sorted(map(str, need - set(ids)))}"
    if not set(ids) <= allow:
        return f"unknown nodes: {sorted(map(str, set(ids) - allow))}"
    pos = {n: i for i, n in enumerate(ids)}
    for n in need:
        for m in edges.get(n, ()):
            if m != n and pos[m] > pos[n]:
                return f"{n} comes before {m}, on which it depends"
    return None


class FnError(Exception):
    pass


def execute(case):
    from strong_typing.topological import topological_sort, type_topological_sort

    from .. import core, sched
    from ..work import result, run_threads, tally

    Node.seed = case["hashmeta"]
    classes = load(case)
    ident = {id(c): i for i, c in classes.items()}
    refs = references(case)
    graphs = []
    for g in case["graphs"]:
        doc = {node(g["kind"], i): set() for i in g["order"]}
        for a, b in g["edges"]:
            doc[node(g["kind"], a)].add(node(g["kind"], b))
        edges = {}
        for a, b in g["edges"]:
            edges.setdefault(a, set()).add(b)
        order = list(doc)
        copy = {k: list(v) for k, v in doc.items()}
        index = {node(g["kind"], i): i for i in g["order"]}
        graphs.append((doc, edges, order, copy, index))
    deps = {}
    for a, b in case["deps"]:
        if a in classes and b in classes:
            deps.setdefault(a, []).append(b)
    shared = {a: {classes[b] for b in bs} for a, bs in deps.items()}
    core.instrument()
    stats = {}

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def body(t, i, op):
        if op["op"] == "graph":
            call = lambda: topological_sort(graphs[op["g"]][0])  # noqa: E731
            names = lambda r: [["node", graphs[op["g"]][4][x]] for x in r]  # noqa: E731
        else:
            types = [classes[x] for x in op["types"] if x in classes]
            given = {"list": types, "tuple": tuple(types), "set": set(types), "keys": dict.fromkeys(types)}.get(op["as"])
            if given is None:
                given = (x for x in types)
            before = list(types)
            kw = {}
            calls = 0

            def fn(typ):
                nonlocal calls
                calls += 1
                if op.get("fail") is not None and calls == op["fail"] + 1:
                    count("fault:dependency function fails")
                    raise FnError()
                if op.get("again") is not None and calls == op["again"] + 1:
                    count("fault:dependency function sorts types")
                    try:
                        type_topological_sort(types, fn)
                    except RuntimeError:
                        pass
                out = [classes[b] for b in deps.get(ident.get(id(typ)), ())]
                if op["fn"] == "set":
                    return shared.get(ident.get(id(typ)), set())
                return {"list": out, "tuple": tuple(out), "generator": (x for x in out)}[op["fn"]]

            if op.get("fn"):
                kw["dependency_fn"] = fn
            call = lambda: type_topological_sort(given, **kw)  # noqa: E731
            names = lambda r: [["type", ident.get(id(x), repr(x))] for x in r]  # noqa: E731
        try:
            with sched.traced(t):
                r = call()
        except sched.SimDeadlock:
            raise
        except BaseException as ex:
            t.traced = False
            return ["err", core.errname(ex)]
        if op["op"] == "types" and types != before:
            return ["changed", "list of types"]
        if type(r) is not list:
            return ["changed", "result is not a list"]
        try:
            return ["order", [x[1] for x in names(r)]]
        except (KeyError, TypeError):
            return ["order", [repr(x) for x in r]]

    sim, outcomes = run_threads(env=None, case=case, body=body)
    violation = None
    edges_seen = 0
    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                tally(stats, o)
                if op["op"] == "graph":
                    doc, edges, order, copy, index = graphs[op["g"]]
                    nodes = set(index.values())
                    small = big = (nodes, edges)
                else:
                    start = [x for x in op["types"] if x in classes]
                    nodes = closure(start, refs)
                    edges = {n: set(refs[n]) for n in nodes}
                    full = {n: set(e) for n, e in refs.items()}
                    if op.get("fn"):
                        for n in list(nodes):
                            edges[n].update(deps.get(n, ()))
                        for n in full:
                            full[n].update(deps.get(n, ()))
                    small = (nodes | {m for n in nodes for m in edges[n]}, edges)
                    big = (closure(start, full), full)
                edges_seen += sum(len(e) for e in small[1].values())
                bad = None
                if o == ["err", "dst.props.c13.FnError"] and op.get("fail") is not None:
                    pass
                elif o == ["err", "RuntimeError"]:
                    if not cyclic(*big):
                        bad = "RuntimeError without a cycle"
                elif o[0] != "order":
                    bad = f"unexpected outcome {o}"
                elif cyclic(*small):
                    bad = "no RuntimeError for a cycle"
                else:
                    bad = check_order(o[1], small[0], big[0], small[1])
                if bad and violation is None:
                    violation = {"class": "order", "detail": {"op": op, "got": o, "wrong": bad}}
        for doc, edges, order, copy, index in graphs:
            if violation is None and (list(doc) != order or any(list(doc[k]) != v for k, v in copy.items())):
                violation = {"class": "input changed", "detail": "graph"}
        for a, s in shared.items():
            if violation is None and s != {classes[b] for b in deps[a]}:
                violation = {"class": "input changed", "detail": "set of dependencies"}
    return result(sim, violation, stats, nontrivial=edges_seen)
