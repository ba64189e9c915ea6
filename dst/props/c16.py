"C16: queries about types, documentation and schemas depend on their arguments only."

import gc

ID = "C16"
COUNTS = {"quick": 400, "thorough": 20000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("locals",), ("exceptions",)]
RULE = (
    "1-3 threads ask 3-12 questions each about random types, documented classes and functions (several of them with the same "
    "qualified name, made anew and discarded between questions), objects, documentation texts and schemas: parsed "
    "documentation, text and name of a type, types referred to, members of modules and classes, membership in a generic "
    "type, recursive checks with predicates (that may fail), flattened schemas, types made from schemas, extended "
    "enumerations. Questions are repeated, also with one argument changed, some are aborted by an interrupt, memory exhaustion or a short call stack, and "
    "callers scramble the answers. Each answer is compared with that to the same question asked alone in a process of its "
    "own; objects and schemas asked about must be as they were. Non-trivial: a question was repeated, or threads overlap."
)
REAL = ["strong_typing.docstring", "strong_typing.inspection", "strong_typing.name", "strong_typing.classdef", "strong_typing.schema"]
STUBS = ["thread scheduler", "predicates and transformations given by callers"]
ASSUMPTIONS = ["a type is made from a schema in a module of its own"]

EXC = ["SimError", "OtherError", "ValueError", "KeyError", "MissingError"]
PARAM_NAMES = ["a", "b", "value", "items", "other", "key"]
QUERY_NAMES = ["query", "query", "lookup"]


# ---------------------------------------------------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------------------------------------------------


def gen_text(rng, params, returns=True):
    "A documentation text."
    lines = []
    if rng.random() < 0.9:
        lines.append(rng.choice(["Short text.", "Short text: with a colon", "Text\ncontinued here.", "Does `x` & more."]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        lines += ["", rng.choice(["A longer description\nin lines.", "    preformatted\n      more", "See :param: inline."])]
    meta = []
    for p in params:
        if rng.random() < 0.75:
            meta.append(f":param {p}: " + rng.choice(["About it.", f"The {p}\n    in two lines.", "", "With: colon."]))
    if rng.random() < 0.06:
        meta.append(":param nothing: No such member.")
    if returns and rng.random() < 0.5:
        meta.append(rng.choice([":returns:", ":return:"]) + " The result.")
    for e in rng.sample(EXC, rng.choice([0, 0, 1, 2])):
        if e != "MissingError" or rng.random() < 0.3:
            meta.append(f":{rng.choice(['raises', 'raise'])} {e}: When {rng.choice(['needed', 'wrong: always'])}.")
    if rng.random() < 0.2:
        meta.append(f":see{rng.choice(['', 'also'])}: https://example.com")
    if rng.random() < 0.2:
        rng.shuffle(meta)
    if meta:
        lines += [""] + meta
    return "\n".join(lines)


def gen_local(rng, spec):
    "A documented function or class."
    from ..universe import render
    from ..work import root_type

    classes = spec["modules"][0]["classes"]

    def typ():
        if classes and rng.random() < 0.5:
            return root_type(rng, spec)
        t = [rng.choice(["int", "str", "bool", "float", "datetime", "uuid"])]
        return rng.choice([t, ["list", t], ["opt", t]])

    names = rng.sample(PARAM_NAMES, rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.5:
        name = rng.choice(QUERY_NAMES)
        params = ", ".join(f"{n}: {render(typ())}" for n in names)
        ret = f" -> {render(typ())}" if rng.random() < 0.8 else ""
        doc = gen_text(rng, names, returns=bool(ret) or rng.random() < 0.1) if rng.random() < 0.9 else None
        text = f"def {name}({params}){ret}:\n    {doc!r}\n" + ("" if doc else "    pass\n")
        return {"name": name, "text": text, "kind": "function"}
    name = rng.choice(["Local", "Local", "Other", "Third"])
    names = names or ["a"]
    doc = gen_text(rng, names, returns=False) if rng.random() < 0.8 else None
    body = "".join(f"    {n}: {render(typ())}\n" for n in names)
    kind = rng.choice(["dataclass", "dataclass", "class"])
    text = ("@dataclass\n" if kind == "dataclass" else "") + f"class {name}:\n" + (f"    {doc!r}\n" if doc else "") + body
    return {"name": name, "text": text, "kind": kind, "fields": names}


def gen_flat(rng, depth=2):
    "A schema of an object."
    s = {"type": "object"}
    if rng.random() < 0.2:
        s["title"] = "T"
    if rng.random() < 0.2:
        s["description"] = "Long text."
    props = {}
    for n in rng.sample(["a", "b", "c", "d", "x", "y"], rng.choice([0, 1, 2, 3])):
        if depth and rng.random() < 0.5:
            props[n] = gen_flat(rng, depth - 1)
        else:
            props[n] = gen_leaf_schema(rng)
    if props or rng.random() < 0.5:
        s["properties"] = props
    req = [n for n in props if rng.random() < 0.6]
    if req:
        s["required"] = req
    if rng.random() < 0.3:
        s["additionalProperties"] = rng.random() < 0.5
    return s


def gen_leaf_schema(rng):
    return rng.choice(
        [
            {"type": "integer", "minimum": rng.choice([0, -128, 1]), "maximum": rng.choice([10, 127])},
            {"type": "integer"},
            {"type": "integer", "format": rng.choice(["int16", "int32", "int64"])},
            {"type": "number", "format": rng.choice(["float32", "float64"])},
            {"type": "number"},
            {"type": "string"},
            {"type": "string", "default": "x"},
            {"type": "integer", "default": rng.choice([0, 23])},
            {"type": "boolean", "default": False},
            {"type": "string", "format": rng.choice(["date-time", "uuid", "date", "time"])},
            {"type": "string", "enum": rng.choice([["red", "green"], ["one", "two", "three"], ["A"]])},
            {"type": "string", "maxLength": rng.choice([5, 10])},
            {"type": "array", "items": {"type": rng.choice(["integer", "string"])}},
            {"type": "array", "items": {"type": "integer"}, "uniqueItems": rng.random() < 0.5},
            {"type": "boolean"},
            {"type": "number", "const": 3},
            {"type": "string", "const": rng.choice(["on", "off"])},
        ]
    )


def gen_top_schema(rng):
    s = gen_flat(rng, rng.choice([0, 1, 2]))
    s["$schema"] = "https://json-schema.org/draft/2020-12/schema"
    s.setdefault("properties", {"a": {"type": "integer"}})
    if not s["properties"]:
        s["properties"]["a"] = {"type": "integer"}
    if rng.random() < 0.4:
        s["definitions"] = {"Def": gen_flat(rng, 0)}
        s["properties"]["ref"] = {"$ref": "#/definitions/Def"}
    if rng.random() < 0.8:
        s["additionalProperties"] = False

    def strict(x):
        x.setdefault("additionalProperties", False)
        if x["additionalProperties"]:
            x["additionalProperties"] = False
        for p in (x.get("properties") or {}).values():
            if p.get("type") == "object":
                strict(p)

    if rng.random() < 0.8:
        strict(s)
        for d in s.get("definitions", {}).values():
            strict(d)
    return s


def gen_query(rng, case, spec, model):
    from ..work import gen_canon, root_type

    classes = spec["modules"][0]["classes"]
    mod = spec["modules"][0]["name"]
    t = root_type(rng, spec)
    if rng.random() < 0.4:
        t = gen_special(rng, t)
    told = [x for x in case["types"] if shuffles(x)]
    if told and rng.random() < 0.3:
        t = permuted(rng, rng.choice(told))
    case["types"].append(t)
    local = rng.randrange(len(case["locals"]))
    enums = [c["name"] for c in classes if c["kind"] == "enum"]
    k = rng.choice(
        ["doc", "doc", "text", "check", "str", "fmt", "name", "refs", "graph", "members", "props", "inst", "rec", "unwrap", "flat"]
        + ["make", "enum", "hasdoc", "clsdoc", "props", "misc", "own", "own", "local", "local"]
    )
    op = {"q": k}
    if k == "own":
        return gen_own(rng, case, op)
    if k == "misc":
        op["what"] = rng.choice(["signature", "field", "property", "annotation", "format", "kinds", "value"])
        op["t"] = t if rng.random() < 0.4 else gen_special(rng, t)
        op["of"] = rng.choice([["local", local], ["local", local], ["cls", rng.choice(classes)["name"]]])
        op["fresh"] = rng.random() < 0.5
        op["member"] = rng.choice(PARAM_NAMES + ["in_", "from_", "x_"])
        return op
    if k == "local":
        named = [i for i, x in enumerate(case["locals"]) if x["kind"] != "function"]
        op["of"] = ["local", rng.choice(named)] if named else ["cls", rng.choice(classes)["name"]]
        op["fresh"] = rng.random() < 0.8
        op["what"] = rng.choice(["name", "name", "str", "refs", "kinds", "fields"])
        op["wrap"] = rng.choice([None, None, "list", "dict", "set", "optional", "annotated"])
        op["force"] = rng.random() < 0.7
        return op
    if k in ("doc", "hasdoc"):
        op["of"] = rng.choice([["local", local], ["local", local], ["cls", rng.choice(classes)["name"]]])
        op["fresh"] = rng.random() < 0.5
    elif k == "clsdoc":
        named = [i for i, x in enumerate(case["locals"]) if x["kind"] != "function"]
        op["of"] = ["local", rng.choice(named)] if named and rng.random() < 0.6 else ["cls", rng.choice(classes)["name"]]
        op["fresh"] = rng.random() < 0.5
    elif k == "text":
        op["text"] = gen_text(rng, rng.sample(PARAM_NAMES, 2)) if rng.random() < 0.9 else ""
    elif k == "check":
        op["of"] = ["local", local]
        op["fresh"] = rng.random() < 0.5
        op["text"] = gen_text(rng, rng.sample(PARAM_NAMES, rng.choice([1, 2])))
        op["strict"] = rng.random() < 0.5
    elif k == "str":
        op["t"] = t
        op["pipe"] = rng.random() < 0.5
    elif k == "fmt":
        op["t"] = t
        op["by"] = rng.choice(sorted(case["formatters"])) if case["formatters"] else "f"
    elif k == "name":
        op["t"] = t
        op["force"] = rng.random() < 0.7
    elif k == "refs":
        op["t"] = t
        op["module"] = rng.choice([mod, mod, None])
    elif k == "graph":
        op["types"] = [["cls", c["name"]] for c in rng.sample(classes, rng.randint(1, min(3, len(classes)))) if c["kind"] != "alias"]
    elif k == "members":
        op["what"] = rng.choice(["classes", "functions", "exceptions"])
        op["module"] = rng.choice([None, None, "simu_other"])
    elif k == "props":
        named = [i for i, x in enumerate(case["locals"]) if x["kind"] != "function"]
        op["of"] = rng.choice([["cls", rng.choice(classes)["name"]], ["local", rng.choice(named) if named else local]])
        op["fresh"] = rng.random() < 0.5
        op["what"] = rng.choice(["all", "one", "hints", "fields"])
        op["member"] = rng.choice(PARAM_NAMES)
    elif k in ("inst", "rec"):
        s = root_type(rng, spec) if rng.random() < 0.3 else t
        v = gen_canon(rng, model, s, budget=15)
        if v is None:
            return gen_query(rng, case, spec, model)
        op["v"] = v
        op["t"] = t
        if k == "rec":
            op["pred"] = rng.choice(["value", "pair", "pair", "both", "both"] + ["type"] * (rng.random() < 0.1))
            op["leaf"] = rng.choice(["int", "str", "bool", "float"])
            op["boom"] = rng.choice([None, None, rng.randint(1, 12)])
    elif k == "unwrap":
        op["t"] = t
        op["fn"] = rng.choice(
            ["optional", "optional", "union", "literal_values", "literal_types", "list", "set", "dict", "annotated", "enum", "typelike"]
        )
        if rng.random() < 0.7:
            op["t"] = gen_special(rng, t)
    elif k == "flat":
        op["schema"] = gen_flat(rng, 3)
        op["schema"].setdefault("properties", {"a": {"type": "integer"}})
        if rng.random() < 0.95:
            op["schema"]["$schema"] = "https://json-schema.org/draft/2020-12/schema"
        op["qualified"] = rng.random() < 0.5
        op["node"] = rng.random() < 0.4
        op["recursive"] = rng.random() < 0.5
        op["options"] = rng.choice(["new", "kept", None])
    elif k == "make":
        op["schema"] = gen_top_schema(rng)
        case["made"] = case.get("made", 0) + 1
        op["module"] = f"simq_{case['made']}"
        op["top"] = rng.choice(["Top", "Top", "Alpha"])
    elif k == "enum":
        if not enums:
            return gen_query(rng, case, spec, model)
        op["source"] = rng.choice(enums)
        op["add"] = [[f"EXTRA_{i}", f"extra-{i}"] for i in range(rng.choice([1, 2]))]
        case["made"] = case.get("made", 0) + 1
        op["target"] = f"Extended{case['made']}"
    return op


OWN_NAMES = ["Later", "SimError", "LateError", "lookup"]


def gen_own(rng, case, op):
    "A question about a module, class or function that its owner changes from time to time."
    op["what"] = rng.choice(["classes", "functions", "exceptions", "doc", "doc", "fdoc", "hasdoc", "clsdoc", "refs", "str", "props", "signature", "signature"])
    op["state"] = []
    return op


def gen_change(rng):
    x = rng.choice(["class", "exception", "function", "drop", "doc", "fdoc", "bind", "doc", "note", "note"])
    if x == "note":
        return [x, rng.choice(["a", "b", "return"]), rng.choice(["int", "float", "list[str]", "'Later'", None])]
    if x == "class":
        return [x, "Later"]
    if x == "exception":
        return [x, rng.choice(["SimError", "LateError", "ValueError"])]
    if x == "function":
        return [x, rng.choice(["lookup", "query"])]
    if x == "drop":
        return [x, rng.choice(OWN_NAMES)]
    if x == "bind":
        return [x, "Later", rng.choice(["int", "list[int]", "str | None"])]
    lines = ["Text."] * (rng.random() < 0.8) + [""]
    lines += [f":param {n}: {rng.choice(['First.', 'Other.'])}" for n in rng.sample(["a", "b"], rng.choice([0, 1, 2]))]
    if x == "fdoc" and rng.random() < 0.7:
        lines.append(f":raises {rng.choice(['SimError', 'LateError', 'ValueError'])}: When wrong.")
    return [x, rng.choice([None, "\n".join(lines), "\n".join(lines)])]


def vary(rng, case, op):
    "Asks nearly the same."
    options = [k for k in ("qualified", "recursive", "force", "pipe", "strict", "fresh") if k in op]
    if op["q"] in ("inst", "rec", "str", "fmt", "name", "refs", "unwrap") and shuffles(op["t"]):
        options.append("t")
    if op["q"] == "flat":
        options.append("title")
    if op["q"] == "fmt" and len(case["formatters"]) > 1:
        options.append("by")
    if not options:
        return
    k = rng.choice(options)
    if k == "t":
        op["t"] = permuted(rng, op["t"])
    elif k == "by":
        op["by"] = next(f for f in case["formatters"] if f != op["by"])
    elif k == "title":
        op["schema"] = dict(op["schema"], title=rng.choice(["T", "Other"]))
    else:
        op[k] = not op[k]


def gen_special(rng, t):
    "Special forms, among them some that are equal to Python yet are not the same."
    members = [rng.choice([["int"], t]), ["str"], rng.choice([["bool"], ["none"], ["float"]])]
    rng.shuffle(members)
    values = rng.choice([["a", "b"], ["a", "b", "c"], [1, 2], [0, 1], [1, "x"], [True, False], [True, "x"]])
    values = rng.sample(values, len(values))
    return rng.choice(
        [
            ["opt", t],
            ["union", *members],
            ["union", *members],
            ["union", *members[:2]],
            ["lit", *values],
            ["lit", *values],
            ["lit", rng.choice([1, True, "x"])],
            ["list", t],
            ["list", ["union", *members]],
            ["dict", ["union", *members]],
            ["tuple", ["union", *members], t],
            ["set", ["union", ["int"], ["str"]]],
            ["list", ["lit", *values]],
            ["dict", ["list", ["lit", *values]]],
            ["dict", t],
            ["set", ["int"]],
            ["ann", t],
            ["ann", ["opt", t]],
            ["con", "int", 0, 10],
            ["con", "str", None, 64],
            ["opt", ["lit", *values]],
            ["tuple", ["lit", *values], t],
        ]
    )


def permuted(rng, t):
    "A type that differs in the order of what it allows."
    if t[0] == "lit":
        return ["lit", *rng.sample(t[1:], len(t) - 1)]
    parts = [permuted(rng, x) if type(x) is list and x else x for x in t[1:]]
    if t[0] == "union":
        rng.shuffle(parts)
    return [t[0], *parts]


def shuffles(t):
    return t[0] in ("union", "lit") and len(t) > 2 or any(type(x) is list and x and shuffles(x) for x in t[1:])


def gen(rng, tier):
    from ..work import Model, case_sched, schema_universe

    spec, _ = schema_universe(
        rng,
        docs=rng.choice([0.0, 0.6]),
        recursive=rng.choice([0.1, 0.4]),
        default=rng.choice([0.2, 0.5]),
        classes=rng.choice([(2, 4), (3, 6)]),
        enum=0.3,
    )
    if rng.random() < 0.3:
        # annotations are text
        spec["modules"][0]["future"] = True
    case = {"u": spec, "locals": [], "exceptions": ["SimError", "OtherError"], "formatters": {}, "threads": [], "types": []}
    case["others"] = ["OtherError", "MissingError"] + ["ValueError"] * (rng.random() < 0.2)
    for _ in range(rng.randint(2, 6)):
        case["locals"].append(gen_local(rng, spec))
        if rng.random() < 0.3:
            case["locals"][-1]["module"] = "simu_other"
    for i in range(rng.choice([0, 1, 2])):
        case["formatters"][f"f{i}"] = {
            "context": rng.random() < 0.7,
            "pipe": rng.random() < 0.5,
            "types": rng.choice([None, None, "link", "fail"]),
            "values": rng.choice([None, "repr", "fail"]),
        }
    model = Model(spec)
    asked = []
    for number in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        state = []
        for _ in range(rng.randint(3, 12)):
            again = [op for op in asked if op["q"] not in ("make", "enum")]
            if again and rng.random() < 0.4:
                op = {k: v for k, v in rng.choice(again).items() if k not in ("scramble", "abort", "limit", "before")}
                if rng.random() < 0.4:
                    vary(rng, case, op)
            else:
                op = gen_query(rng, case, spec, model)
            if op["q"] == "own":
                # things of the thread itself, in the state that it has brought them to
                state = state + [gen_change(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
                op["own"] = number
                op["state"] = state
            op["scramble"] = rng.choice([None, rng.getrandbits(16)])
            if op["q"] not in ("make", "enum") and rng.random() < 0.06:
                # the question was asked, in vain or not, many times before
                op["before"] = [rng.choice([2, 5, 20, 60]), rng.choice([None, "interrupt", "memory"]), rng.getrandbits(16)]
            x = rng.random()
            if x < 0.08:
                op["abort"] = [rng.choice(["interrupt", "memory"]), rng.choice([rng.randint(1, 60), rng.randint(1, 1500)])]
            elif x < 0.12:
                op["limit"] = rng.randint(3, 40)
            ops.append(op)
            asked.append(op)
        case["threads"].append(ops)
    del case["types"]
    case["plan"] = case_sched(rng, 8000)
    return case


# ---------------------------------------------------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------------------------------------------------


class TransformError(Exception):
    pass


def link(t):
    return f"<{t.__name__}>"


def fail(t):
    raise TransformError("transformation")


def show(x, depth=0):
    "Makes an answer comparable."
    import collections.abc
    import dataclasses
    import enum
    import json
    import types

    from strong_typing.docstring import Docstring

    if depth > 12:
        return "..."
    if x is None or type(x) in (bool, int, float, str):
        return x
    if isinstance(x, Docstring):
        return {
            "short": x.short_description,
            "long": x.long_description,
            "full": x.full_description,
            "params": [[k, p.name, p.description, show(p.param_type)] for k, p in x.params.items()],
            "returns": x.returns and [x.returns.description, show(x.returns.return_type)],
            "raises": [[k, r.typename, r.description, show(r.raise_type)] for k, r in x.raises.items()],
            "see": [s.text for s in x.see_also],
            "text": str(x),
        }
    if isinstance(x, dict):
        return [[show(k, depth + 1), show(v, depth + 1)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ["set", *sorted((show(y, depth + 1) for y in x), key=json.dumps)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, *[show(y, depth + 1) for y in x]]
    if isinstance(x, type) and issubclass(x, enum.Enum):
        return ["enum", repr(x), x.__module__, x.__doc__, [[k, show(m.value)] for k, m in x.__members__.items()]]
    if isinstance(x, dataclasses.Field):
        return ["field", x.name, show(x.type, depth + 1)]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [type(x).__name__, *[[f.name, show(getattr(x, f.name), depth + 1)] for f in dataclasses.fields(x)]]
    if isinstance(x, type) and x.__module__.startswith("simq_") and dataclasses.is_dataclass(x):
        return [
            "class",
            repr(x),
            x.__doc__,
            [
                [f.name, show(f.type, depth + 1), None if f.default is dataclasses.MISSING else repr(f.default)]
                for f in dataclasses.fields(x)
            ],
        ]
    if isinstance(x, collections.abc.Iterator):
        return show(list(x), depth)
    if isinstance(x, types.FunctionType):
        return ["function", x.__module__, x.__qualname__]
    return repr(x)


class Queries:
    "The questions of a case, and what they are about."

    def __init__(self, env):
        import enum
        import sys
        import types

        self.env = env
        self.mod = env.u.module()
        for e in env.case["exceptions"]:
            exec(f"class {e}(Exception): pass", self.mod.__dict__)
        # a function that is a member of the module
        exec("def member(a: int) -> str:\n    'A function.'\n", self.mod.__dict__)
        # extended enumerations go into a module of their own
        self.side = types.ModuleType("simu_side")
        sys.modules["simu_side"] = self.side
        self.side.enum = enum
        # another module, in which some names mean other things
        self.other = types.ModuleType("simu_other")
        sys.modules["simu_other"] = self.other
        for k, v in self.mod.__dict__.items():
            if not k.startswith("__") and k not in env.case["exceptions"]:
                self.other.__dict__[k] = v
        for e in env.case["others"]:
            exec(f"class {e}({'Exception' if e != 'ValueError' else 'KeyError'}): pass", self.other.__dict__)
        exec("def helper(a: int) -> str:\n    'Another function.'\n", self.other.__dict__)
        self.kept = {}
        self.options = {}
        self.nodes = {}
        self.owned = {}
        self.formatters = {}
        self.codes = [compile(x["text"], "<local>", "exec", dont_inherit=True) for x in env.case["locals"]]

    def prepare(self):
        for f in self.env.case["formatters"]:
            self.formatter(f)

    def formatter(self, f):
        from strong_typing.name import TypeFormatter

        if f not in self.formatters:
            o = self.env.case["formatters"].get(f, {"context": False, "pipe": False, "types": None, "values": None})
            self.formatters[f] = TypeFormatter(
                context=self.mod if o["context"] else None,
                type_transform={"link": link, "fail": fail, None: None}[o["types"]],
                value_transform={"repr": repr, "fail": fail, None: None}[o["values"]],
                use_union_operator=o["pipe"],
            )
        return self.formatters[f]

    def own(self, number, state):
        "A module in the state that its owner has brought it to."
        import sys
        import types

        if number not in self.owned:
            m = types.ModuleType(f"simu_own_{number}")
            sys.modules[m.__name__] = m
            text = "from dataclasses import dataclass\n@dataclass\nclass Own:\n    a: int\n    b: 'list[str]'\n"
            exec(text + "def own(a: int, b: str) -> str:\n    return b\n", m.__dict__)
            self.owned[number] = [m, 0]
        m, done = self.owned[number]
        for change in state[done:]:
            kind = change[0]
            if kind == "class":
                exec(f"class {change[1]}:\n    'A class.'\n", m.__dict__)
            elif kind == "exception":
                exec(f"class {change[1]}(Exception): pass\n", m.__dict__)
            elif kind == "function":
                exec(f"def {change[1]}(a: int) -> str:\n    'A function.'\n", m.__dict__)
            elif kind == "drop":
                m.__dict__.pop(change[1], None)
            elif kind == "bind":
                exec(f"{change[1]} = {change[2]}", m.__dict__)
            elif kind == "doc":
                m.Own.__doc__ = change[1]
            elif kind == "note":
                if change[2] is None:
                    m.own.__annotations__.pop(change[1], None)
                else:
                    m.own.__annotations__[change[1]] = eval(change[2])
            elif kind == "fdoc":
                m.own.__doc__ = change[1]
        self.owned[number][1] = max(done, len(state))
        return m

    def make(self, i):
        scope = {}
        exec(self.codes[i], self.other.__dict__ if self.env.case["locals"][i].get("module") else self.mod.__dict__, scope)
        x = scope[self.env.case["locals"][i]["name"]]
        if isinstance(x, type):
            # what dataclass makes of annotations is up to the caller's module
            x.__qualname__ = x.__name__
        return x

    def target(self, op):
        kind, name = op["of"]
        if kind == "cls":
            return self.mod.__dict__[name]
        if op.get("fresh"):
            return self.make(name)
        if name not in self.kept:
            self.kept[name] = self.make(name)
        return self.kept[name]

    def call(self, op):
        "A function that asks, and one that checks that what is asked about is as it was."
        import copy
        import json

        from strong_typing import classdef, docstring, inspection, name, schema

        from ..values import build, canon

        env = self.env
        m = self.mod
        k = op["q"]
        same = lambda: True  # noqa: E731
        if k in ("inst", "rec"):
            obj = build(op["v"], env.u)
            before = json.dumps(canon(obj, env.u))
            same = lambda: json.dumps(canon(obj, env.u)) == before  # noqa: E731
        if k == "doc":
            x = self.target(op)
            text = x.__doc__
            return (lambda: docstring.parse_type(x)), (lambda: x.__doc__ == text)
        if k == "local":
            import dataclasses
            import typing

            x = self.target(op)
            wraps = {"list": list, "dict": lambda x: dict[str, x], "set": set, "optional": typing.Optional}
            w = op["wrap"]
            y = x if w is None else typing.Annotated[x, "note"] if w == "annotated" else wraps[w](x) if w == "dict" else wraps[w][x]

            def ask():
                if op["what"] == "name":
                    return name.python_type_to_name(y, force=op["force"])
                if op["what"] == "str":
                    return name.python_type_to_str(y)
                if op["what"] == "refs":
                    return sorted([t.__module__, t.__qualname__] for t in inspection.get_referenced_types(y, m))
                if op["what"] == "kinds":
                    checks = [inspection.is_dataclass_type, inspection.is_type_enum, inspection.is_named_tuple_type, inspection.is_type_optional]
                    return [bool(f(z)) for f in checks for z in (x, y)]
                return [f[0] for f in inspection.get_class_properties(x)], dataclasses.is_dataclass(x)

            return ask, same
        if k == "hasdoc":
            x = self.target(op)
            return (lambda: [docstring.has_docstring(x), docstring.has_default_docstring(x), docstring.get_docstring(x)]), same
        if k == "clsdoc":
            x = self.target(op)

            def ask():
                return [schema.get_class_docstrings(x), schema.get_class_property_docstrings(x), schema.docstring_to_schema(x)]

            return ask, same
        if k == "text":
            return (lambda: docstring.parse_text(op["text"])), same
        if k == "check":
            x = self.target(op)
            d = docstring.parse_text(op["text"])
            before = show(d)
            return (lambda: docstring.check_docstring(x, d, op["strict"])), (lambda: show(d) == before)
        if k == "str":
            t = env.typ(op["t"])
            return (lambda: name.python_type_to_str(t, use_union_operator=op["pipe"])), same
        if k == "fmt":
            t = env.typ(op["t"])
            f = self.formatter(op["by"])
            return (lambda: f.python_type_to_str(t)), same
        if k == "name":
            t = env.typ(op["t"])
            return (lambda: name.python_type_to_name(t, force=op["force"])), same
        if k == "refs":
            t = env.typ(op["t"])
            context = m if op["module"] else None
            return (lambda: inspection.get_referenced_types(t, context)), same
        if k == "graph":
            types = [env.typ(t) for t in op["types"]]

            def ask():
                c = inspection.TypeCollector()
                c.traverse_all(types)
                return [[a, set(b)] for a, b in c.graph.items()], c.references

            return ask, same
        if k == "members":
            fn = {
                "classes": inspection.get_module_classes,
                "functions": inspection.get_module_functions,
                "exceptions": docstring.get_exceptions,
            }[op["what"]]
            of = self.other if op.get("module") else m
            return (lambda: fn(of)), same
        if k == "props":
            x = self.target(op)
            if op["what"] == "all":
                return (lambda: list(inspection.get_class_properties(x))), same
            if op["what"] == "one":
                return (lambda: inspection.get_class_property(x, op["member"])), same
            if op["what"] == "hints":
                return (lambda: inspection.get_resolved_hints(x)), same
            return (lambda: list(inspection.dataclass_fields(x))), same
        if k == "inst":
            t = env.typ(op["t"])
            return (lambda: inspection.is_generic_instance(obj, t)), same
        if k == "rec":
            leaf = {"int": int, "str": str, "bool": bool, "float": float}[op["leaf"]]
            calls = []

            def ask():
                left = [op["boom"]]
                calls.clear()

                def count(x):
                    calls.append(x)
                    if left[0] is not None:
                        left[0] -= 1
                        if left[0] < 0:
                            raise TransformError("predicate")

                def pair(t, x):
                    count(repr(t))
                    return t is not leaf or bool(x)

                def type_pred(t):
                    count(repr(t))
                    return t is leaf

                def value_pred(x):
                    count("value")
                    return bool(x)

                kw = {
                    "pair": {"pred": pair},
                    "type": {"type_pred": type_pred},
                    "value": {"value_pred": value_pred},
                    "both": {"type_pred": type_pred, "value_pred": value_pred},
                }[op["pred"]]
                return [inspection.check_recursive(obj, **kw), list(calls)]

            return ask, same
        if k == "unwrap":
            t = env.typ(op["t"])
            fns = {
                "optional": (
                    lambda x: [inspection.is_type_optional(x), inspection.is_type_optional(x, strict=True)],
                    inspection.unwrap_optional_type,
                ),
                "union": (inspection.is_type_union, inspection.unwrap_union_types),
                "literal_values": (inspection.is_type_literal, inspection.unwrap_literal_values),
                "literal_types": (inspection.is_type_literal, inspection.unwrap_literal_types),
                "list": (inspection.is_generic_list, inspection.unwrap_generic_list),
                "set": (inspection.is_generic_set, inspection.unwrap_generic_set),
                "dict": (inspection.is_generic_dict, inspection.unwrap_generic_dict),
                "annotated": (inspection.is_type_annotated, inspection.unwrap_annotated_type),
                "enum": (inspection.is_type_enum, inspection.enum_value_types),
                "typelike": (inspection.is_type_like, inspection.is_dataclass_type),
            }[op["fn"]]

            def ask():
                yes = fns[0](t)
                return [yes, fns[1](t) if yes not in (False, [False, False]) else None]

            return ask, same
        if k == "flat":
            s = copy.deepcopy(op["schema"])
            key = (op["qualified"], op["recursive"])
            if op.get("options", "new") == "kept" and key in self.options:
                o = self.options[key]
            else:
                o = classdef.SchemaFlatteningOptions(qualified_names=key[0], recursive=key[1])
                if op.get("options", "new") == "kept":
                    self.options[key] = o
            if op.get("options", "new") is None:
                return (lambda: classdef.flatten_schema(s)), (lambda: s == op["schema"])
            if op.get("node"):
                # a node that the caller has read itself, and that is asked about more than once
                from strong_typing.serialization import json_to_object, object_to_json

                text = json.dumps(s)
                if text not in self.nodes:
                    try:
                        self.nodes[text] = json_to_object(classdef.JsonSchemaTopLevelObject, s)
                    except Exception:
                        self.nodes[text] = None
                node = self.nodes[text]
                if node is not None:
                    held = object_to_json(node)
                    return (
                        lambda: object_to_json(classdef.SchemaFlattener(o).flatten(node)),
                        lambda: object_to_json(node) == held and (o.qualified_names, o.recursive) == key,
                    )
            return (
                lambda: classdef.flatten_schema(s, options=o),
                lambda: s == op["schema"] and (o.qualified_names, o.recursive) == key,
            )
        if k == "misc":
            t = env.typ(op["t"])
            x = self.target(op) if op["what"] in ("signature", "field", "kinds") else None

            def ask():
                from strong_typing import auxiliary, mapping

                if op["what"] == "signature":
                    y = inspection.get_signature(x)
                    return [[p.name, p.annotation] for p in y.parameters.values()], y.return_annotation
                if op["what"] == "field":
                    return inspection.dataclass_field_by_name(x, op["member"])
                if op["what"] == "property":
                    return mapping.python_field_to_json_property(op["member"], t)
                if op["what"] == "annotation":
                    return [inspection.get_annotation(t, a) for a in (auxiliary.Alias, auxiliary.MaxLength, auxiliary.IntegerRange)]
                if op["what"] == "format":
                    return auxiliary.get_auxiliary_format(t)
                if op["what"] == "kinds":
                    return [f(x) for f in (inspection.is_named_tuple_type, inspection.is_dataclass_type, inspection.is_type_enum)]
                return inspection.unwrap_literal_value(t)

            return ask, same
        if k == "own":
            own = self.own(op["own"], op["state"])
            before = list(own.__dict__.items())
            unchanged = lambda: list(own.__dict__.items()) == before  # noqa: E731
            what = op["what"]

            def ask():
                import typing

                if what == "classes":
                    return inspection.get_module_classes(own)
                if what == "functions":
                    return inspection.get_module_functions(own)
                if what == "exceptions":
                    return docstring.get_exceptions(own)
                if what == "doc":
                    return docstring.parse_type(own.Own)
                if what == "fdoc":
                    return docstring.parse_type(own.own)
                if what == "hasdoc":
                    return [[docstring.has_docstring(x), docstring.get_docstring(x)] for x in (own.Own, own.own)]
                if what == "clsdoc":
                    return [schema.get_class_docstrings(own.Own), schema.docstring_to_schema(own.Own)]
                if what == "signature":
                    return repr(inspection.get_signature(own.own))
                if what == "refs":
                    return inspection.get_referenced_types(list[typing.ForwardRef("Later")], own)
                if what == "str":
                    return name.TypeFormatter(context=own).python_type_to_str(dict[str, typing.ForwardRef("Later")])
                return list(inspection.dataclass_fields(own.Own))

            return ask, unchanged
        if k == "make":
            s = copy.deepcopy(op["schema"])

            def ask():
                mod = inspection.create_module(op["module"])
                t = classdef.schema_to_type(s, module=mod, class_name=op["top"])
                return [t, {n: x for n, x in vars(mod).items() if not n.startswith("__")}]

            return ask, (lambda: s == op["schema"])
        if k == "enum":
            source = m.__dict__[op["source"]]
            lines = [f"class {op['target']}(enum.Enum):", "    'Extended.'"]
            lines += [f"    {n} = {v!r}" for n, v in op["add"]]
            scope = {}
            exec("\n".join(lines), self.side.__dict__, scope)
            extend = scope[op["target"]]
            before = show(source)

            def ask():
                x = inspection.extend_enum(source)(extend)
                return [x, getattr(self.side, op["target"]) is x]

            return ask, (lambda: show(source) == before)
        raise AssertionError(op)


def scramble(x, rng, depth=0):
    "What a careless caller may do to an answer."
    from strong_typing.docstring import Docstring

    from .c10 import scramble as scramble_document

    if isinstance(x, Docstring):
        for p in x.params.values():
            if rng.random() < 0.5:
                p.description = "scrambled"
                p.param_type = None
        x.short_description = "scrambled"
        rng.choice([x.params.clear, x.raises.clear, x.see_also.clear])()
        if x.returns is not None:
            x.returns.description = "scrambled"
    elif isinstance(x, set):
        rng.choice([x.clear, lambda: x.add("scrambled")])()
    elif isinstance(x, (list, tuple, dict)):
        if depth < 3 and type(x) is not dict:
            for y in x:
                scramble(y, rng, depth + 1)
        scramble_document(x, rng, set()) if type(x) is dict else None
        if type(x) is list:
            x.clear()


def storm(t, call, times, kind, seed):
    import random

    from .. import sched

    rng = random.Random(seed)
    for _ in range(times):
        if kind is not None:
            t.faults.append([t.steps + rng.choice([rng.randint(1, 60), rng.randint(1, 500)]), kind, None])
        try:
            with sched.traced(t):
                call()
        except sched.SimDeadlock:
            raise
        except BaseException:
            t.traced = False
        finally:
            t.faults.clear()


def ask(q, op, t):
    import json
    import random
    import sys

    from .. import core, sched
    from ..work import depth, readable

    if op.get("fresh"):
        # addresses of what was discarded are used again
        gc.collect(1)
    call, same = q.call(op)
    if t is not None and op.get("before"):
        storm(t, call, *op["before"])
    if t is not None and op.get("abort"):
        kind, after = op["abort"]
        t.faults.append([t.steps + after, kind, None])
    aborted = False
    try:
        if t is not None and op.get("limit") is not None:
            limit = sys.getrecursionlimit()
            sys.setrecursionlimit(depth() + op["limit"])
            aborted = True
            try:
                x = call()
            finally:
                sys.setrecursionlimit(limit)
        elif t is None:
            x = call()
        else:
            with sched.traced(t):
                x = call()
        out = None
    except sched.SimDeadlock:
        raise
    except BaseException as ex:
        if t is not None:
            t.traced = False
            if aborted or (op.get("abort") and not t.faults):
                out = ["aborted", core.errname(ex)]
        if not (t is not None and (aborted or (op.get("abort") and not t.faults))):
            text = str(ex)
            out = ["err", core.errname(ex), text if " at 0x" not in text else ""]
    finally:
        if t is not None:
            t.faults.clear()
    if out is None:
        out = readable(lambda x: ["answer", json.dumps(show(x))], x)
        if t is not None and op.get("scramble") is not None:
            scramble(x, random.Random(op["scramble"]))
    if not same():
        return ["input changed"]
    return out


def looks(x):
    "What makes up a class or function."
    import types

    d = dict(vars(x)) if isinstance(x, type) else {"__doc__": x.__doc__, "__annotations__": x.__annotations__}
    d.pop("__annotations_cache__", None)
    notes = x.__dict__.get("__annotations__", {}) if isinstance(x, type) else x.__annotations__
    out = {k: v for k, v in d.items() if not isinstance(v, types.GetSetDescriptorType)}
    out["annotations"] = list(notes.items())
    out["fields"] = [(f.name, f.type, f.default, f.default_factory) for f in d.get("__dataclass_fields__", {}).values()]
    return out


def alike(a, b):
    if a.keys() != b.keys():
        return sorted(a.keys() ^ b.keys())[0]
    for k in a:
        if k in ("annotations", "fields"):
            flat = lambda x: [id(z) for y in x for z in y]  # noqa: E731
            if flat(a[k]) != flat(b[k]):
                return k
        elif a[k] is not b[k] and k != "__annotations__":
            return k
    return None


def execute(case):
    import json
    import types

    from .. import core
    from ..work import Env, Solo, ops_of, result, run_threads

    def plain(op):
        return {k: v for k, v in op.items() if k not in ("scramble", "abort", "limit", "fresh", "before")}

    env = Env(case)
    q = Queries(env)
    solo = Solo(env, lambda env, op: ask(q, op, None))
    expected = {id(op): solo(plain(op)) for op in ops_of(case)}
    q.prepare()
    known = list(env.u.class_by_cid.values())
    for i, x in enumerate(case["locals"]):
        q.kept[i] = q.make(i)
        known.append(q.kept[i])
    known = [x for x in known if isinstance(x, (type, types.FunctionType))]
    before = [looks(x) for x in known]
    core.instrument()
    sim, outcomes = run_threads(env, case, lambda t, i, op: ask(q, op, t))
    stats = {}
    violation = None
    asked = set()
    again = False
    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                k = f"outcome:{op['q']}:{o[0]}"
                stats[k] = stats.get(k, 0) + 1
                key = json.dumps(plain(op))
                again = again or key in asked
                asked.add(key)
                if o[0] == "aborted":
                    continue
                if o != expected[id(op)] and violation is None:
                    violation = {"class": "differs" if o[0] != "input changed" else "input changed"}
                    violation["detail"] = {"op": op, "alone": expected[id(op)], "got": o}
    for x, b in zip(known, before):
        what = alike(b, looks(x))
        if what and violation is None and not sim.problem:
            violation = {"class": "changed", "detail": {"what": what, "of": x.__qualname__}}
    return result(sim, violation, stats, nontrivial=again or sim.switches > 1, extra_key=str(sim.fired))
