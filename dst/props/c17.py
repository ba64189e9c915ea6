"C17: a relay that knows a schema only passes messages on."

import copy

ID = "C17"
COUNTS = {"quick": 330, "thorough": 6000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("shared",)]
RULE = (
    "A sender publishes the schemas of 1-3 random types and serializes random values; 1-3 relay threads, which do not have the "
    "classes, make types from the schemas in modules of their own, some from schemas that another relay derived from its "
    "made types or in which another sender uses the same names for other types, parse each message and serialize it again; a channel damages some messages and leaves out optional members with a default; interrupts, memory exhaustion "
    "and short call stacks abort some steps. The receiver must decode a message that was passed on as it would have decoded "
    "the original; intact messages must be passed on, damaged ones of a kind listed for C11 (except violated ranges) must be "
    "refused. Non-trivial: two messages passed on through made types."
)
REAL = ["strong_typing.classdef", "strong_typing.schema", "strong_typing.deserializer", "strong_typing.serializer"]
STUBS = ["message channel (damage)", "thread scheduler", "receiver (reference model)"]
ASSUMPTIONS = [
    "types of messages are made of what types made from schemas support: no tuples, dictionaries, sets, binary data, unrestricted JSON members, "
    "decimal numbers and members whose names are not identifiers; the type of a message itself is not registered",
    "a relay derives a schema from types whose references by name are names of registered types",
]


# ---------------------------------------------------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------------------------------------------------


def support(t, empty):
    "Replaces what cannot be made from a schema."
    k = t[0]
    if k in ("dict", "edict"):
        return ["list", support(t[-1], empty)]
    if k == "tuple":
        return ["list", support(t[1], empty)]
    if k in ("json", "none", "bytes"):
        return ["str"]
    if k == "set":
        return ["list", support(t[1], empty)]
    if k == "con" and (t[1] not in ("int", "str") or t[1] == "str" and t[3] is None):
        return ["float"] if t[1] == "float" else ["int"] if t[2:] else ["str"]
    if k in ("cls", "ref") and t[1] in empty:
        return ["int"]
    if k in ("list", "opt", "popt", "ann"):
        inner = support(t[1], empty)
        if k in ("opt", "popt") and inner[0] in ("opt", "popt"):
            return inner
        return [k, inner]
    if k == "union":
        return ["union", *[support(x, empty) for x in t[1:]]]
    return t


def enum_default(t, classes):
    for c in classes:
        if t[0] in ("cls", "opt", "popt"):
            name = t[1] if t[0] == "cls" else t[1][1] if t[1][0] == "cls" else None
            if c["name"] == name and c["kind"] == "enum":
                m, v = c["members"][0]
                return [v, f"{c['name']}.{m}"]
    return None


def swap(t, old, new):
    "Uses another class in a type."
    if t[0] in ("cls", "ref") and t[1] == old:
        return ["cls", new]
    return [t[0], *[swap(x, old, new) if type(x) is list and x else x for x in t[1:]]] if t[0] != "lit" else t


def add_twins(rng, classes):
    "Enumerations with other values, and classes that resemble others but use them."
    for e in [c for c in classes if c["kind"] == "enum"]:
        if rng.random() < 0.5:
            continue
        name = f"Twin{e['name']}"
        users = [c for c in classes if c["kind"] in ("dataclass", "typed") and not c.get("base") and c.get("fields")]
        users = [c for c in users if any(swap(f["type"], e["name"], name) != f["type"] for f in c["fields"])]
        if not users:
            continue
        values = [v for _, v in e["members"]]
        values = rng.choice([values[::-1], [f"{v}-twin" for v in values], [f"n{i}" for i in range(len(values))]])
        classes.append({"name": name, "kind": "enum", "members": [[m, v] for (m, _), v in zip(e["members"], values)]})
        c = copy.deepcopy(rng.choice(users))
        for f in c["fields"]:
            t = swap(f["type"], e["name"], name)
            if t != f["type"]:
                f["type"] = t
                for k in ("default", "factory"):
                    if f.get(k, [None])[0] is not None:
                        f[k] = [f[k][0], f[k][1].replace(f"{e['name']}.", f"{name}.")] if k == "factory" else [0, "None"]
        c["name"] = f"Twin{c['name']}"
        classes.append(c)
        if not set(values) & {v for _, v in e["members"]}:
            choice = [["cls", e["name"]], ["cls", name]]
            rng.shuffle(choice)
            classes.append({"name": f"Either{e['name']}", "kind": "dataclass", "fields": [{"name": "either", "type": ["union", *choice]}]})


def add_holders(rng, classes):
    "Members that allow several classes."
    for c in [c for c in classes if c["kind"] == "alias" and c["type"][0] == "union"]:
        t = ["cls", c["name"]]
        t = rng.choice([t, ["list", t], ["opt", t]])
        fields = [{"name": "held", "type": t}]
        if rng.random() < 0.4:
            fields.append({"name": "other", "type": ["list", t[-1] if t[0] != "cls" else t]})
        classes.append({"name": f"Holder{c['name']}", "kind": "dataclass", "fields": fields})


def lean(rng, model, v, doc):
    "Leaves out members that have a default and are not required."
    from ..universe import wire_name

    if v[0] in ("list", "tuple"):
        for x, d in zip(v[1], doc):
            lean(rng, model, x, d)
    elif v[0] == "obj":
        fields = {f["name"]: f for f, _ in model.all_fields(v[1], model.by_cid[v[1]])}
        for n, x in v[2]:
            f = fields[n]
            if wire_name(f) not in doc:
                continue
            if model.is_optional(f["type"]) and "default" in f and rng.random() < 0.6:
                del doc[wire_name(f)]
            else:
                lean(rng, model, x, doc[wire_name(f)])
    return doc


def gen(rng, tier):
    from ..universe import fix_universe
    from ..work import Model, case_sched, gen_canon, schema_universe
    from .c06 import wire
    from .c11 import empty, hurt

    spec, register = schema_universe(
        rng,
        alias=0.0,
        keyword=0.0,
        namedtuple=0.0,
        typed=rng.choice([0.0, 0.2]),
        docs=rng.choice([0.0, 0.6]),
        recursive=rng.choice([0.1, 0.5]),
        default=rng.choice([0.2, 0.5]),
        classes=rng.choice([(1, 3), (3, 6)]),
        constrained=rng.choice([0.0, 0.2]),
        enum=rng.choice([0.2, 0.4]),
        union=rng.choice([0.0, 0.15]),
        ambiguous=0.0,
        tagged=rng.choice([0.0, 0.3, 0.8]),
        multiliteral=False,
        alias_type=0.0,
        inherit=0.15,
    )
    classes = spec["modules"][0]["classes"]
    for c in classes:
        if c["kind"] == "enum":
            # values are strings
            if c.get("mixin"):
                c["mixin"] = "str"
            values = [f"{v}" if type(v) is not str else v for _, v in c["members"]]
            if rng.random() < 0.3:
                values += rng.sample(["a-b", "a_b", "a b", "A-B", "", "mro", "_", "__x__", "v_", "-", "name", "value", "None"], 3)
            values = list(dict.fromkeys(values))
            c["members"] = [[f"M{i}", v] for i, v in enumerate(values)]
    if rng.random() < 0.6:
        add_twins(rng, classes)
    add_holders(rng, classes)
    bare = {c["name"] for c in classes if c["kind"] not in ("enum",) and not c.get("fields") and not c.get("base")}
    for c in classes:
        for f in c.get("fields", ()):
            t = support(f["type"], bare)
            if t == f["type"]:
                if f.get("default", [None])[0] is not None and enum_default(f["type"], classes):
                    f["default"] = enum_default(f["type"], classes)
                continue
            f["type"] = t
            if "default" in f or "factory" in f:
                f.pop("default", None)
                f.pop("factory", None)
                if t[0] in ("opt", "popt"):
                    f["default"] = [None, "None"]
                elif t[0] == "list":
                    f["factory"] = [[], "list()"]
                else:
                    f["type"] = ["int"]
                    f["default"] = [0, "0"]
    registered = {r["t"][1] for r in register}
    for c in classes:
        for f in c.get("fields", ()):
            t = f["type"][-1] if f["type"][0] in ("opt", "popt", "ann") else f["type"]
            if f.get("default", [None])[0] is not None and t[0] in ("cls", "ref") and t[1] in registered:
                # references with a default are not supported
                f["type"], f["default"] = ["int"], [0, "0"]
    fix_universe(spec)
    tops = [c["name"] for c in classes if c["kind"] in ("dataclass", "typed") and c["name"] not in registered | bare]
    if not tops:
        return gen(rng, tier)
    model = Model(spec)
    pairs = [t for t in tops if f"Twin{t}" in tops]
    pairs += [f"Twin{t}" for t in pairs]
    special = pairs or [t for t in tops if t.startswith(("Holder", "Either"))]
    if special and rng.random() < 0.8:
        special = rng.sample(special, 1) if not pairs else pairs[:1] + [f"Twin{pairs[0]}"]
        tops = special + [t for t in rng.sample(tops, min(len(tops), 3)) if t not in special]
    else:
        tops = rng.sample(tops, min(len(tops), 3))
    case = {"u": spec, "register": [{"t": r["t"]} for r in register], "tops": tops[:3], "threads": []}
    case["shared"] = [t for t in range(len(case["tops"])) if rng.random() < 0.4]
    made = 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        derived = []
        known = [["shared", i] for i in case["shared"]]
        known = [[k, i, case["tops"][i]] for k, i in known]
        for _ in range(rng.randint(2, 7)):
            x = rng.random()
            if not known or x < 0.35:
                i = rng.randrange(len(case["tops"]))
                made += 1
                op = {"op": "learn", "top": i, "as": made, "name": rng.choice(["Relay", "Relay", case["tops"][i], f"Other{made}"])}
                if rng.random() < 0.5:
                    op["renamed"] = rng.choice([["Part"], ["Part", "Item", "Unit"], ["Unit", "Item", "Part"]])
                    op["turn"] = rng.choice([0, 0, 1, 2])
                    op["about"] = rng.choice([None, None, "A part."])
                first = [x for x in known if x not in derived]
                if first and rng.random() < 0.3:
                    # (schemas grow from one generation to the next)
                    k, j, top = rng.choice(first)
                    op.update({"from": [k, j]})
                    op["top"] = i = case["tops"].index(top)
                known.append(["own", made, case["tops"][i]])
                if "from" in op or "renamed" in op:
                    # (a schema of a type that refers to others by name needs the names to be registered)
                    derived.append(known[-1])
            else:
                k, j, top = rng.choice(known)
                t = ["cls", top]
                v = gen_canon(rng, model, t, budget=12)
                if v is None or empty(model, v):
                    continue
                op = {"op": "pass", "by": [k, j], "t": t, "v": v}
                if rng.random() < 0.4:
                    doc = wire(model, v)
                    d, kinds = hurt(rng, doc, model.words()) if rng.random() < 0.75 else (lean(rng, model, v, copy.deepcopy(doc)), ["lean"])
                    if repr(d) != repr(doc) and "0" * 300 not in repr(d):
                        del op["v"]
                        op.update(doc=d, kinds=kinds)
                op["via"] = rng.choice(["object", "engine"])
            y = rng.random()
            if y < 0.1:
                op["abort"] = [rng.choice(["interrupt", "memory"]), rng.choice([rng.randint(1, 300), rng.randint(1, 20000)])]
            elif y < 0.14:
                op["limit"] = rng.randint(3, 60)
            ops.append(op)
        case["threads"].append(ops)
    case["plan"] = case_sched(rng, 40000)
    return case


# ---------------------------------------------------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------------------------------------------------


def renamed(text, names, turn, about):
    "The schema of another sender, who has other names for the same types, which may be names of other types elsewhere."
    import json

    schema = json.loads(text)
    definitions = schema.get("definitions", {})
    order = list(definitions)
    turn = turn % len(order) if order else 0
    order = order[turn:] + order[:turn]
    new = {n: names[i] if i < len(names) else f"{names[-1]}{i}" for i, n in enumerate(order)}

    def walk(x):
        if isinstance(x, dict):
            return {k: f"#/definitions/{new[v.rsplit('/', 1)[1]]}" if k == "$ref" and isinstance(v, str) else walk(v) for k, v in x.items()}
        return [walk(y) for y in x] if isinstance(x, list) else x

    schema = walk(schema)
    if definitions:
        schema["definitions"] = {new[n]: d for n, d in schema["definitions"].items()}
        for d in schema["definitions"].values():
            if about:
                d["title"] = about
                d.pop("description", None)
    return json.dumps(schema)


class Relay:
    def __init__(self, env):
        self.env = env
        self.schemas = {}
        self.made = {}

    def publish(self):
        "The sender publishes schemas."
        import json

        from strong_typing.schema import classdef_to_schema

        for i, name in enumerate(self.env.case["tops"]):
            self.schemas[i] = json.dumps(classdef_to_schema(self.env.typ(["cls", name])))
        for i in self.env.case["shared"]:
            self.made["shared", i] = self.learn(self.schemas[i], f"simr_shared_{i}", "Relay")

    def learn(self, text, module, name):
        import json

        from strong_typing.classdef import schema_to_type
        from strong_typing.inspection import create_module

        m = create_module(module)
        return schema_to_type(json.loads(text), module=m, class_name=name), m

    def call(self, op):
        import json

        from strong_typing.schema import classdef_to_schema

        env = self.env
        if op["op"] == "learn":
            origin = self.made.get(tuple(op["from"])) if "from" in op else None

            def learn():
                text = self.schemas[op["top"]] if origin is None else json.dumps(classdef_to_schema(origin[0]))
                if op.get("renamed"):
                    text = renamed(text, op["renamed"], op["turn"], op["about"])
                return self.learn(text, f"simr_{op['as']}", op["name"])

            return learn
        made = self.made.get(tuple(op["by"]))
        if made is None:
            return None
        from ..values import build

        typ, module = made
        obj = build(op["v"], env.u) if "v" in op else None

        def relay():
            doc = op["doc"] if obj is None else env.lib.object_to_json(obj)
            doc = json.loads(json.dumps(doc))
            if op["via"] == "object":
                x = env.lib.json_to_object(typ, doc, context=module)
                return doc, env.lib.object_to_json(x)
            x = env.create_deserializer(typ, module).parse(doc)
            return doc, env.create_serializer(typ, module).generate(x)

        return relay


def relay_gate(base):
    class Gate(base):
        def s_con(self, t, d, m):
            # ranges are not checked
            return self.s_int(t, d, m) if t[1] == "int" else self.s_str(t, d, m)

        def s_cls(self, t, d, m):
            if type(d) is dict:
                # members with a default may be null
                from ..universe import wire_name

                cid, c = self.m.lookup(t[1], m)
                if c["kind"] != "enum":
                    free = {wire_name(f) for f, _ in self.m.all_fields(cid, c) if "default" in f or "factory" in f}
                    d = {k: v for k, v in d.items() if v is not None or k not in free}
            return base.s_cls(self, t, d, m)

        s_ref = s_cls

    return Gate


def execute(case):
    import json
    import sys

    from .. import core, sched
    from ..model import Model
    from ..work import Env, depth, result, run_threads
    from .c11 import Gateway

    env = Env(case)
    env.setup()
    relay = Relay(env)
    relay.publish()
    model = Model(case["u"])
    gate = relay_gate(Gateway)(model)
    core.instrument()

    def body(t, i, op):
        call = relay.call(op)
        if call is None:
            return ["unknown"]
        faulty = False
        if op.get("abort"):
            kind, after = op["abort"]
            t.faults.append([t.steps + after, kind, None])
        try:
            if op.get("limit"):
                limit = sys.getrecursionlimit()
                sys.setrecursionlimit(depth() + op["limit"])
                faulty = True
                try:
                    x = call()
                finally:
                    sys.setrecursionlimit(limit)
            else:
                with sched.traced(t):
                    x = call()
        except sched.SimDeadlock:
            raise
        except BaseException as ex:
            t.traced = False
            if faulty or op.get("abort") and not t.faults:
                return ["aborted", core.errname(ex)]
            return ["err", core.errname(ex), str(ex)[:300]]
        finally:
            t.faults.clear()
        if op["op"] == "learn":
            relay.made["own", op["as"]] = x
            return ["learned"]
        doc, out = x
        return ["passed", doc, json.loads(json.dumps(out))]

    sim, outcomes = run_threads(env, case, body)
    stats = {}
    violation = None
    passed = 0

    def count(k):
        stats["outcome:" + k] = stats.get("outcome:" + k, 0) + 1

    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                bad = None
                if op["op"] == "learn":
                    count(f"learn {o[0]}")
                    if o[0] == "err":
                        bad = "type not made"
                elif o[0] == "passed":
                    passed += 1
                    intact = "v" in op or op["kinds"] == ["lean"]
                    before, after = model.outcome(op["t"], o[1]), model.outcome(op["t"], o[2])
                    must = "v" not in op and gate.stops(op["t"], op["doc"], model.main)
                    count(f"{op['kinds'][0] if intact and 'v' not in op else 'intact' if intact else 'damaged'} passed on")
                    if must and not intact:
                        bad = "damaged message passed"
                    elif intact and before[0] not in ("ok", "maybe"):
                        raise core.HarnessError(f"the receiver refuses an intact message: {before}")
                    elif before[0] in ("ok", "maybe") and before[1] != after[1:2][0]:
                        bad = "message changed"
                elif o[0] == "err":
                    intact = "v" in op or op["kinds"] == ["lean"]
                    count(f"{'intact' if intact else 'damaged'} refused")
                    if intact:
                        bad = "intact message refused"
                else:
                    count(o[0])
                if bad and violation is None:
                    violation = {"class": bad, "detail": {"op": op, "got": o}}
    return result(sim, violation, stats, nontrivial=passed >= 2, extra_key=str(sim.fired))
