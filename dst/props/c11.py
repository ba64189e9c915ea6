"C11: a schema gateway passes intact messages and stops damaged ones."

ID = "C11"
COUNTS = {"quick": 180, "thorough": 6000}
LISTS = [("threads", "*"), ("plan", "decisions")]
RULE = (
    "A sender serializes random values of 1-3 random types (constrained, registered or not, recursive through registered "
    "names); a channel delivers the messages intact or damages them (members lost, added, renamed, nulled, moved, values of "
    "other JSON types, arrays cut or extended, values out of range, duplicated, reordered); a gateway of 1-2 threads checks "
    "each against the generated schema. Intact messages must pass; damaged messages must be stopped if a reference model "
    "(lenient about the contents of strings and about null) says that a listed kind of damage is present. Non-trivial: at "
    "least one intact message and one that has to be stopped."
)
REAL = ["strong_typing.schema (schema derivation, validate_object)", "strong_typing.serializer", "jsonschema"]
STUBS = ["message channel (damage, duplication, reordering)", "thread scheduler"]
ASSUMPTIONS = [
    "types that a class refers to by name are registered under that name",
    "members of unions have distinguishable JSON representations; optional types occur as members of classes only",
]


def gen(rng, tier):
    from ..work import Model, case_sched, gen_canon, schema_universe
    from .c06 import wire

    profile = {
        "recursive": rng.choice([0.1, 0.5]),
        "default": rng.choice([0.2, 0.5]),
        "classes": rng.choice([(1, 3), (3, 6)]),
        "constrained": rng.choice([0.1, 0.4]),
        "tagged": rng.choice([0.25, 0.7]),
        "keyword": rng.choice([0.1, 0.3]),
        "alias": rng.choice([0.1, 0.3]),
        "enum": rng.choice([0.2, 0.4]),
        "edict": rng.choice([0.0, 0.3]),
    }
    spec, register = schema_universe(rng, **profile)
    model = Model(spec)
    classes = spec["modules"][0]["classes"]
    case = {"u": spec, "register": register, "threads": []}
    roots = []
    for _ in range(rng.choice([1, 2, 3])):
        t = ["cls", rng.choice(classes)["name"]]
        roots.append(rng.choice([t, t, t, ["list", t], ["dict", t], ["tuple", t, ["str"]]]))
    messages = []
    for _ in range(rng.randint(3, 8)):
        t = rng.choice(roots)
        v = gen_canon(rng, model, t, budget=10)
        if v is None or empty(model, v):
            continue
        messages.append({"t": t, "v": v})
        doc = wire(model, v)
        for _ in range(rng.choice([0, 1, 2, 4])):
            d, kinds = hurt(rng, doc, model.words())
            # jsonschema cannot divide integers beyond the range of floating-point numbers
            if repr(d) != repr(doc) and "0" * 300 not in repr(d):
                messages.append({"t": t, "doc": d, "kinds": kinds})
    rng.shuffle(messages)
    n = rng.choice([1, 1, 2])
    case["threads"] = [messages[i::n] for i in range(n)]
    case["plan"] = case_sched(rng, 20000)
    return case


def hurt(rng, doc, more=()):
    import copy

    from ..damage import damage, get, nodes, put

    if rng.random() < 0.2:
        # a key that resembles the intended one
        d = copy.deepcopy(doc)
        paths = [p for p in nodes(d) if type(get(d, p)) is dict and get(d, p)]
        if paths:
            x = get(d, rng.choice(paths))
            k = rng.choice(list(x))
            new = rng.choice([k + "abc", "abc" + k, f"x{k}y", k[:-1], k.upper(), k + k, k + "\n", k.replace(".", "x"), "|"])
            if new not in x:
                items = [(new if a == k else a, b) for a, b in x.items()]
                x.clear()
                x.update(items)
                return d, ["key"]
    if rng.random() < 0.25:
        # numbers and strings of the right type, too large or too long
        d = copy.deepcopy(doc)
        paths = [p for p in nodes(d) if type(get(d, p)) in (int, float, str)]
        if paths:
            p = rng.choice(paths)
            x = get(d, p)
            if type(x) is str:
                x = rng.choice(["", x + "abcdefgh", "a"])
            else:
                x = rng.choice([x + 1, x - 1, x + 5000, x - 5000, x * -1, 10**30, -(10**30)])
            return put(d, p, x), ["range"]
    return damage(rng, doc, rng.choice([1, 1, 1, 2]), more=more)


def empty(model, c):
    "Whether the value contains an object of a class without members, which is not told apart from other objects."
    if c[0] in ("list", "tuple", "set"):
        return any(empty(model, x) for x in c[1])
    if c[0] == "dict":
        return any(empty(model, b) for _, b in c[1])
    if c[0] == "obj":
        return not c[2] or any(empty(model, v) for _, v in c[2])
    return False


class Gateway:
    "Says which documents have to be stopped."

    def __init__(self, model):
        self.m = model

    def stops(self, t, d, module):
        t, module = self.m.resolve(t, module, constraints=True)
        return getattr(self, "s_" + t[0])(t, d, module)

    def s_none(self, t, d, m):
        return d is not None

    def s_bool(self, t, d, m):
        return type(d) is not bool

    def s_int(self, t, d, m):
        return not (type(d) is int or type(d) is float and d.is_integer())

    def s_float(self, t, d, m):
        return type(d) not in (int, float)

    def s_str(self, t, d, m):
        return type(d) is not str

    s_bytes = s_datetime = s_date = s_time = s_td = s_uuid = s_ip4 = s_ip6 = s_str

    def s_con(self, t, d, m):
        if t[1] == "int":
            return self.s_int(t, d, m) or not t[2] <= d <= t[3]
        if t[1] == "str":
            if type(d) is not str:
                return True
            return t[2] is not None and len(d) < t[2] or t[3] is not None and len(d) > t[3]
        if t[1] == "float":
            return type(d) not in (int, float) or not -(10 ** (t[2] - t[3])) < d < 10 ** (t[2] - t[3])
        return self.s_float(t, d, m) if t[2].startswith("float") else self.s_int(t, d, m)

    def s_list(self, t, d, m):
        return type(d) is not list or any(self.stops(t[1], x, m) for x in d)

    s_set = s_list

    def s_dict(self, t, d, m):
        return type(d) is not dict or any(self.stops(t[1], x, m) for x in d.values())

    def s_edict(self, t, d, m):
        if type(d) is not dict:
            return True
        _, c = self.m.lookup(t[1], m)
        keys = [v for _, v in c["members"]]
        return any(k not in keys or self.stops(t[2], x, m) for k, x in d.items())

    def s_tuple(self, t, d, m):
        return type(d) is not list or len(d) != len(t) - 1 or any(self.stops(x, y, m) for x, y in zip(t[1:], d))

    def s_opt(self, t, d, m):
        return d is not None and self.stops(t[1], d, m)

    s_popt = s_opt

    def s_union(self, t, d, m):
        return all(self.stops(x, d, m) for x in t[1:])

    def s_lit(self, t, d, m):
        return not any(equal(d, v) for v in t[1:])

    def s_cls(self, t, d, m):
        cid, c = self.m.lookup(t[1], m)
        if c["kind"] == "enum":
            return not any(equal(d, v) for _, v in c["members"])
        if type(d) is not dict:
            return True
        fields = self.m.all_fields(cid, c)
        if not fields:
            return False
        from ..universe import wire_name

        known = {}
        for f, fm in fields:
            w = wire_name(f)
            known[w] = (f, fm)
            # members with a default are always sent, yet receivers could do without
            if w not in d and not self.m.is_optional(f["type"]) and "default" not in f and "factory" not in f:
                return True
        return any(k not in known or self.stops(known[k][0]["type"], x, known[k][1]) for k, x in d.items())

    s_ref = s_cls


def equal(a, b):
    "Equality of JSON values."
    if type(a) is bool or type(b) is bool:
        return a is b
    if type(a) in (int, float) and type(b) in (int, float):
        return a == b
    return type(a) is type(b) and a == b


def signature(case, violation):
    return case.get("finding")


def execute(case):
    import json

    import jsonschema
    from strong_typing.schema import validate_object

    from .. import core, sched
    from ..model import Model
    from ..values import build
    from ..work import Env, result, run_threads

    env = Env(case)
    env.setup()
    model = Model(case["u"])
    gate = Gateway(model)
    core.instrument()

    def body(t, i, op):
        typ = env.typ(op["t"])
        doc = op.get("doc")
        obj = build(op["v"], env.u) if "v" in op else None
        try:
            with sched.traced(t):
                if "v" in op:
                    doc = env.lib.object_to_json(obj)
                doc = json.loads(json.dumps(doc))
                validate_object(typ, doc)
            return ["passed", doc]
        except sched.SimDeadlock:
            raise
        except jsonschema.ValidationError as ex:
            t.traced = False
            return ["stopped", doc, str(ex.message)[:300]]
        except BaseException as ex:
            t.traced = False
            return ["err", core.errname(ex), str(ex)[:300]]

    sim, outcomes = run_threads(env, case, body)
    stats = {}
    violation = None
    intact = stopped = 0

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                if "v" in op:
                    intact += 1
                    count("outcome:intact " + o[0])
                    if o[0] != "passed" and violation is None:
                        violation = {"class": "intact message stopped", "detail": {"op": op, "got": o}}
                    continue
                for k in op["kinds"]:
                    count("fault:" + k)
                must = gate.stops(op["t"], op["doc"], model.main)
                stopped += must
                count(f"outcome:damaged {o[0]}, {'has to be stopped' if must else 'unspecified'}")
                if violation is None and (o[0] == "err" or must and o[0] == "passed"):
                    violation = {"class": "damaged message passed" if o[0] == "passed" else "error", "detail": {"op": op, "got": o}}
    return result(sim, violation, stats, nontrivial=intact and stopped)
