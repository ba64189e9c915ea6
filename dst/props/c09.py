"C09: schema registration is atomic and happens at most once per type."

ID = "C09"
COUNTS = {"quick": 500, "thorough": 10000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("plan", "faults")]
RULE = (
    "2-4 threads carry out 2-9 operations each on 1-3 types: registrations (as function and as decorator, under the default "
    "or another name, with or without schema and examples, every attempt with distinguishable data or that of another attempt), lookups by type and by "
    "name, and schema requests for classes and containers that refer to the types; interrupts and memory exhaustion at random "
    "bytecodes of registrations. The recorded history must be linearizable with respect to a write-once register per type, "
    "including lookups made after all threads have ended. Non-trivial: at least two operations on one type overlap."
)
REAL = ["strong_typing.schema (TypeCatalog, register_schema, json_schema_type, JsonSchemaGenerator, classdef_to_schema)"]
STUBS = ["thread scheduler"]
ASSUMPTIONS = ["distinct types are registered under distinct names", "a generator object belongs to one thread"]

NAMES = ["Alpha", "Beta", "Gamma"]
VIAS = ["contains", "get", "identifier", "name contains", "name get", "schema", "holder", "listed", "by name"]


def gen(rng, tier):
    from .. import core
    from ..work import case_sched

    types = NAMES[: rng.choice([1, 1, 2, 3])]
    attempts = {t: 0 for t in types}
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(2, 9)):
            t = rng.choice(types)
            if rng.random() < 0.4:
                n = attempts[t]
                attempts[t] += 1
                if n and rng.random() < 0.25:
                    # the same data once more
                    mine = [op for th in [*threads, ops] for op in th if op["op"] == "register" and op["t"] == t]
                    ops.append(dict(rng.choice(mine)))
                    continue
                op = {"op": "register", "t": t, "how": rng.choice(["function", "function", "decorator", "plain decorator"])}
                if op["how"] == "function" and rng.random() < 0.5:
                    op["name"] = f"{t}_{n}"
                if op["how"] != "plain decorator":
                    if rng.random() < 0.8:
                        op["schema"] = {"type": "object", "$comment": f"schema {n}"}
                    if rng.random() < 0.5:
                        op["examples"] = [{"x": n}]
                if rng.random() < 0.05:
                    op["how"] = "reference"
            else:
                op = {"op": "look", "t": t, "via": rng.choice(VIAS)}
            ops.append(op)
        threads.append(ops)
    for th in threads:
        for op in th:
            if op["op"] == "look" and op["via"].startswith(("name", "by name")):
                op["name"] = rng.choice([op["t"]] + [f"{op['t']}_{i}" for i in range(attempts[op["t"]])])
    case = {"types": types, "threads": threads, "plan": case_sched(rng, rng.choice([200, 1500]))}
    if rng.random() < 0.5:
        info = core.rehearse(lambda: run(case, dry=True)) or {"register": []}
        spans = info["register"]
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not spans:
                break
            tid, a, b = rng.choice(spans)
            case["plan"]["faults"].append([tid, rng.randint(a, b), rng.choice(["interrupt", "memory", "recursion"]), None])
    return case


SOURCE = """
from dataclasses import dataclass
from typing import Optional, Union
{classes}
@dataclass
class Holder:
{fields}
"""


def module(types):
    import sys
    import types as T

    m = T.ModuleType("simu_reg")
    sys.modules["simu_reg"] = m
    classes = "\n".join(f"@dataclass\nclass {t}:\n    field_{t}: int" for t in types)
    fields = "\n".join(f"    {x}_{t}: {w}" for x in ("a", "b") for t in types for w in [t if x == "a" else f"list[{t}]"])
    exec(SOURCE.format(classes=classes, fields=fields), m.__dict__)
    return m


def run(case, dry=False):
    import copy
    import typing

    from strong_typing import schema as S

    from .. import core, sched
    from ..work import run_threads

    m = module(case["types"])
    catalog = S.JsonSchemaGenerator.type_catalog
    options = S.SchemaOptions(use_descriptions=False)
    core.instrument()
    clock = [0]
    events = []
    spans = []

    def register(op):
        t = getattr(m, op["t"])
        schema = copy.deepcopy(op.get("schema"))
        examples = copy.deepcopy(op.get("examples"))
        if op["how"] == "reference":
            return lambda: S.register_schema(typing.ForwardRef(op["t"]), schema=schema)
        if op["how"] == "function":
            return lambda: S.register_schema(t, schema=schema, name=op.get("name"), examples=examples)
        if op["how"] == "decorator":
            return lambda: S.json_schema_type(schema=schema, examples=examples)(t)
        return lambda: S.json_schema_type(t)

    def entry(e):
        return [e.identifier, e.schema, e.examples]

    def look(op):
        "Returns the call, and a function that turns its result into observations [seen, identifier, schema, examples]."
        t = getattr(m, op["t"])
        via = op["via"]
        name = op.get("name")
        if via == "contains":
            return lambda: t in catalog, lambda x: [[x, None]]
        if via == "get":
            return lambda: catalog.get(t), lambda x: [[True, entry(x)]]
        if via == "identifier":
            return lambda: S.get_schema_identifier(t), lambda x: [[x is not None, x and [x]]]
        if via == "name contains":
            return lambda: typing.ForwardRef(name) in catalog, lambda x: [[x, None]]
        if via == "name get":
            return lambda: catalog.get(typing.ForwardRef(name)), lambda x: [[True, entry(x)]]
        if via == "by name":
            g = S.JsonSchemaGenerator(options)
            return lambda: g.classdef_to_schema(list[typing.ForwardRef(name)]), lambda x: from_schema(x[0], x[1], ["items"], op["t"])
        if via == "schema":
            return lambda: S.classdef_to_schema(t, options), lambda x: from_schema(x, x.get("definitions", {}), [], op["t"])
        if via == "listed":
            return (
                lambda: S.classdef_to_schema(list[t], options),
                lambda x: from_schema(x, x.get("definitions", {}), ["items"], op["t"]),
            )
        holder = m.Holder

        def observe(x):
            d = x.get("definitions", {})
            out = []
            # members in the order in which they are visited
            for k in ("a", "b"):
                for n in case["types"]:
                    path = ["properties", f"{k}_{n}"] + (["items"] if k == "b" else [])
                    out.extend([o + [n] for o in from_schema(x, d, path, n)])
            return out

        return lambda: S.classdef_to_schema(holder, options), observe

    def from_schema(x, definitions, path, name):
        for p in path:
            x = x[p]
        ref = x.get("$ref")
        if ref is None:
            ok = x.get("type") == "object" and list(x.get("properties", ())) == [f"field_{name}"]
            return [[False, None]] if ok else [["malformed", x]]
        ident = ref.rsplit("/", 1)[1]
        if ident not in definitions:
            return [[False, None, "dangling"]]
        d = dict(definitions[ident])
        examples = d.pop("examples", None)
        if d.get("properties") == {f"field_{name}": {"type": "integer"}}:
            d = None
        return [[True, [ident, d, examples]]]

    def body(t, i, op, final=False):
        if op["op"] == "register":
            call, result = register(op), lambda x: []
        else:
            call, result = look(op)
        clock[0] += 1
        e = {"op": op, "start": clock[0], "t": t.id if t else None}
        events.append(e)
        first = t.steps + 1 if t else 0
        try:
            if t is None:
                x = call()
            else:
                with sched.traced(t):
                    x = call()
            e["out"] = ["ok", result(x)]
        except sched.SimDeadlock:
            raise
        except BaseException as ex:
            if t is not None:
                t.traced = False
            e["out"] = ["err", core.errname(ex)]
        clock[0] += 1
        e["end"] = clock[0]
        if t and op["op"] == "register" and t.steps >= first:
            spans.append([t.id, first, t.steps])
        return None

    plan = dict(case["plan"], faults=[]) if dry else case["plan"]
    sim, _ = run_threads(None, dict(case, plan=plan), body)
    if dry:
        return {"register": spans}
    if not sim.problem:
        # what anyone sees afterwards
        names = sorted({op["name"] for th in case["threads"] for op in th if "name" in op})
        for n in case["types"]:
            for via in ("contains", "get", "identifier", "schema", "listed", "holder"):
                body(None, 0, {"op": "look", "t": n, "via": via})
        for name in names + case["types"]:
            for via in ("name contains", "name get", "by name"):
                body(None, 0, {"op": "look", "t": name.split("_")[0], "via": via, "name": name})
    return sim, events


INJECTED = {"KeyboardInterrupt", "MemoryError", "RecursionError"}


def verify(case, events):
    for t in case["types"]:
        v = verify_type(t, events)
        if v:
            return v
    return None


def verify_type(t, events):
    attempts, seen, unseen = [], [], []
    for e in events:
        op, out = e["op"], e["out"]
        if out[0] == "err" and out[1] in INJECTED and op["op"] == "look":
            continue
        if op["op"] == "register":
            if op["t"] != t:
                continue
            if op["how"] == "reference":
                if out != ["err", "TypeError"] and out[1] not in INJECTED:
                    return {"class": "reference registered", "detail": e}
                continue
            if out[0] == "err" and out[1] == "ValueError":
                seen.append((e, None))
            elif out[0] == "err" and out[1] not in INJECTED:
                return {"class": "unexpected error", "detail": e}
            else:
                attempts.append(e)
            continue
        if op["via"] == "holder":
            if out[0] == "err":
                return {"class": "unexpected error", "detail": e}
            obs = [o for o in out[1] if o[-1] == t]
            order = [o[0] for o in obs]
            if True in order and False in order[order.index(True) :]:
                return {"class": "registration undone", "detail": e}
        elif op["t"] != t:
            continue
        elif out[0] == "err":
            ok = op["via"] in ("get", "name get") and out[1] == "KeyError"
            # a name that is unknown cannot be resolved
            ok = ok or op["via"] == "by name" and out[1] in ("KeyError", "NameError", "TypeError")
            if not ok:
                return {"class": "unexpected error", "detail": e}
            obs = [[False, None]]
        else:
            obs = out[1]
        for o in obs:
            if o[0] == "malformed" or (len(o) > 2 and o[2] == "dangling" and op["via"] != "by name"):
                return {"class": "malformed schema", "detail": e}
            (seen if o[0] else unseen).append((e, o[1]))
    done = [e for e in attempts if e["out"][0] == "ok"]
    if len(done) > 1:
        return {"class": "registered twice", "detail": done}
    why = None
    for w in done or [None] + attempts:
        why = consistent(w, seen, unseen)
        if why is None:
            return None
    return {"class": "not linearizable", "detail": {"type": t, "why": why, "events": [e for e in events if e["op"]["t"] == t][:40]}}


def consistent(w, seen, unseen):
    "Whether one registration (or none) explains all observations; returns a reason why not."
    if w is None:
        return f"seen without a registration: {seen[0][0]}" if seen else None
    op = w["op"]
    name = op.get("name", op["t"])
    data = [name, op.get("schema"), op.get("examples")]
    low, high = w["start"], w["end"] if w["out"][0] == "ok" else float("inf")
    last = first = w
    for e, o in seen:
        if e["op"].get("name", name) != name and e["op"]["op"] == "look":
            return f"seen under another name: {e}"
        if o is not None and o != data[: len(o)]:
            return f"data of the registration is not what is seen: {e}"
        if e["end"] < high:
            high, first = e["end"], e
    for e, o in unseen:
        if e["op"].get("name", name) != name:
            continue
        if e["start"] > low:
            low, last = e["start"], e
    if low > high:
        return f"not seen by {last} after {first}"
    return None


def execute(case):
    from ..work import result

    sim, events = run(case)
    stats = {}
    violation = None
    overlap = False
    if not sim.problem:
        for e in events:
            op, o = e["op"], e["out"]
            k = op["op"] if op["op"] == "register" else op["via"]
            r = o[1] if o[0] == "err" else "ok" if op["op"] == "register" else "/".join(sorted({str(x[0]) for x in o[1]}))
            stats[f"outcome:{k}: {r}"] = stats.get(f"outcome:{k}: {r}", 0) + 1
        for i, a in enumerate(events):
            if any(b["start"] < a["end"] and b["t"] != a["t"] and b["op"]["t"] == a["op"]["t"] for b in events[i + 1 :]):
                overlap = True
                break
        violation = verify(case, events)
    return result(sim, violation, stats, nontrivial=overlap, extra_key=str(sim.fired))
