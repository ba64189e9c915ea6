"Workload elements shared by the properties: universes, root types, operations on the library and their outcomes."

import copy
import json
import sys

from . import core, sched
from .damage import damage
from .model import DocGen, Model, Reject  # noqa: F401
from .universe import Gen, Universe, plain_unions
from .values import build, canon

# ---------------------------------------------------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------------------------------------------------


def object_names(spec, kinds=("dataclass", "namedtuple", "typed", "custom"), module=0):
    return [c["name"] for c in spec["modules"][module]["classes"] if c["kind"] in kinds]


def root_type(rng, spec, module=0):
    "A type that a caller may pass at the top level."
    classes = spec["modules"][module]["classes"]
    c = rng.choice(classes)
    objs = [x for x in classes if x["kind"] not in ("enum", "alias")]
    if objs and rng.random() < 0.75:
        c = rng.choice(objs)
    t = ["cls", c["name"]]
    if rng.random() < 0.12:
        u = union_type(rng, classes)
        if u:
            return rng.choice([u, ["list", u]])
    x = rng.random()
    if x < 0.6:
        return t
    if x < 0.72:
        return ["list", t]
    if x < 0.8:
        return ["dict", t]
    if x < 0.86:
        return ["opt", t] if c["kind"] != "alias" else t
    if x < 0.93:
        return ["tuple", t, ["int"]]
    return ["list", ["ref", c["name"]]]


def union_type(rng, classes):
    "A union of classes, preferably of such whose documents overlap."
    objs = [c for c in classes if c["kind"] in ("dataclass", "typed", "namedtuple")]
    if len(objs) < 2:
        return None
    family = rng.choice(objs).get("variant")
    names = [c["name"] for c in objs if c.get("variant", c["name"]) == family]
    if len(names) < 2:
        names = [c["name"] for c in rng.sample(objs, 2)]
    names += [c["name"] for c in rng.sample(objs, len(objs)) if c["name"] not in names][: rng.choice([0, 1, 2])]
    rng.shuffle(names)
    u = plain_unions(["union", *[["cls", n] for n in names[:4]]], {c["name"]: c for c in classes})
    return u


OVERLAPPING = [
    [["uuid"], ["str"]],
    [["str"], ["date"]],
    [["datetime"], ["str"]],
    [["bytes"], ["str"]],
    [["td"], ["str"]],
    [["int"], ["float"]],
    [["date"], ["datetime"], ["str"]],
    [["none"], ["uuid"], ["str"]],
    [["lit", "red"], ["str"], ["int"]],
    [["list", ["uuid"]], ["list", ["str"]]],
    [["dict", ["int"]], ["dict", ["float"]]],
]


def overlapping_roots(rng, count):
    "Unions of the same leaf types in different order; some documents are documents of more than one of them."
    members = rng.choice(OVERLAPPING)
    wrap = rng.choice([lambda t: t, lambda t: ["list", t], lambda t: ["dict", t], lambda t: ["tuple", t, ["int"]]])
    roots = [wrap(["union", *rng.sample(members, len(members))]) for _ in range(count)]
    return roots


def gen_doc(rng, model, t, module=None, budget=40):
    return DocGen(rng, model, budget=budget).gen(t, module)


def gen_message(rng, model, t, bad=0.25, module=None, budget=40):
    "A document of the type, or a damaged one."
    d = gen_doc(rng, model, t, module, budget)
    if rng.random() < bad:
        d, _ = damage(rng, d, rng.randint(1, 2), more=model.words())
    return d


def gen_canon(rng, model, t, module=None, budget=40, tries=20):
    "The canonical tree of a random value of the type, or `None`."
    for _ in range(tries):
        o = model.outcome(t, gen_doc(rng, model, t, module, budget), module=module)
        if o[0] in ("ok", "maybe"):
            return o[1]
    return None


# ---------------------------------------------------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------------------------------------------------


class Env:
    "What the operations of a run act upon."

    def __init__(self, case, hook=None):
        from strong_typing import serialization
        from strong_typing.deserializer import DeserializerOptions, create_deserializer
        from strong_typing.serializer import create_serializer

        self.case = case
        self.lib = serialization
        self.options = DeserializerOptions
        self.create_deserializer = create_deserializer
        self.create_serializer = create_serializer
        # hooks of user-defined classes may be told to fail
        self.boom = None
        sched_hook = hook or self.hook
        if case.get("hashmeta") is not None:
            from .universe import SeededMeta

            SeededMeta.seed = case["hashmeta"]
        self.u = Universe(
            case["u"], metahash=case.get("hashmeta") is not None, hook=sched_hook, late=case.get("late", 0)
        )
        self.engines = {}
        self.objects = {}
        self.pool = None
        self.schema_options = {}
        # harness code evaluates type expressions outside of traced regions, once
        self.types = {}

    def typ(self, t, module=None):
        k = json.dumps([t, module])
        if k not in self.types:
            self.types[k] = self.u.typ(t, module)
        return self.types[k]

    def hook(self, kind, name):
        if self.boom is not None:
            self.boom -= 1
            if self.boom < 0:
                self.boom = None
                raise HookError(name)

    def pooled(self, name, skip):
        o = self.pool.setdefault(name, self.options())
        o.skip_unassigned = skip
        return o

    def setup(self):
        "Prepares shared engines and registrations."
        self.pool = {}
        for k, e in self.case.get("engines", {}).items():
            self.engines[k] = self.engine(e)
        for r in self.case.get("register", ()):
            self.register(r)

    def engine(self, e):
        m = self.u.module(e.get("module"))
        typ = None if e["kind"] == "gen" else self.typ(e["t"], e.get("module"))
        if e["kind"] == "gen":
            from strong_typing.schema import JsonSchemaGenerator, SchemaOptions

            o = dict(e.get("opts", {}))
            fn = o.pop("describe", None)
            if fn is not None:
                o["property_description_fun"] = DESCRIBE[fn]
            return JsonSchemaGenerator(SchemaOptions(**o))
        if e["kind"] == "de":
            if e.get("o") is not None and self.pool is not None:
                options = self.pooled(e["o"], e["skip"])
            else:
                options = self.options(skip_unassigned=e.get("skip", False))
            return self.create_deserializer(typ, m, options=options)
        return self.create_serializer(typ, m)

    def register(self, r):
        from strong_typing.schema import register_schema

        return register_schema(
            self.typ(r["t"], r.get("module")),
            schema=copy.deepcopy(r.get("schema")),
            name=r.get("name"),
            examples=copy.deepcopy(r.get("examples")),
        )


class HookError(Exception):
    "Raised by a hook of a user-defined class."


def depth():
    n, f = 0, sys._getframe()
    while f is not None:
        n += 1
        f = f.f_back
    return n


def prepare(env, op):
    "Returns a function that calls the library, and one that makes the result comparable."
    k = op["op"]
    u = env.u
    module = op.get("module")
    if k == "de":
        typ = env.typ(op["t"], module)
        m = u.module(module)
        doc = copy.deepcopy(op["doc"])
        via = op.get("via", "object")
        kw = {}
        if op.get("o") is not None and env.pool is not None:
            # the caller has options objects of its own, which it changes between calls
            kw["options"] = env.pooled(op["o"], op["skip"])
        elif op.get("skip") is not None:
            kw["options"] = env.options(skip_unassigned=op["skip"])
        if via == "object":
            call = lambda: env.lib.json_to_object(typ, doc, context=m, **kw)  # noqa: E731
        elif via == "generic":
            call = lambda: env.lib.json_to_generic(typ, doc, context=m, **kw)  # noqa: E731
        elif via == "caller":
            f = m.CALL_GENERIC
            call = lambda: f(typ, doc, **kw)  # noqa: E731
        elif via == "create":
            call = lambda: env.create_deserializer(typ, m, **kw).parse(doc)  # noqa: E731
        else:
            eng = env.engines[via]
            call = lambda: eng.parse(doc)  # noqa: E731
        return call, lambda x: ["val", canon(x, u)]
    if k == "ser":
        if op.get("same"):
            # the caller keeps the object and passes it again
            k = json.dumps(op["v"])
            if k not in env.objects:
                env.objects[k] = build(op["v"], u)
            obj = env.objects[k]
        else:
            obj = build(op["v"], u)
        via = op.get("via", "object")
        if via == "object":
            call = lambda: env.lib.object_to_json(obj)  # noqa: E731
        elif via == "typed":
            typ = env.typ(op["t"], module)
            m = u.module(module)
            call = lambda: env.create_serializer(typ, m).generate(obj)  # noqa: E731
        else:
            eng = env.engines[via]
            call = lambda: eng.generate(obj)  # noqa: E731
        return call, lambda x: ["json", json.dumps(x)]
    if k == "schema":
        from strong_typing.schema import JsonSchemaGenerator, SchemaOptions, Validator, classdef_to_schema

        typ = env.typ(op["t"], module)
        o = dict(op.get("opts") or {})
        fn = o.pop("describe", None)
        if fn is not None:
            o["property_description_fun"] = DESCRIBE[fn]
        options = SchemaOptions(**o)
        if op.get("same"):
            options = env.schema_options.setdefault(json.dumps(op.get("opts"), sort_keys=True), options)
        if op.get("via") == "generator":
            call = lambda: JsonSchemaGenerator(options).classdef_to_schema(typ, bool(op.get("expand")))  # noqa: E731
        elif op.get("via") in env.engines:
            gen = env.engines[op["via"]]
            call = lambda: gen.classdef_to_schema(typ, bool(op.get("expand")))  # noqa: E731
        else:
            v = Validator[op.get("dialect", "Latest")]
            call = lambda: classdef_to_schema(typ, options, v)  # noqa: E731
        return call, lambda x: ["schema", json.dumps(x)]
    if k == "sort":
        from strong_typing.topological import type_topological_sort

        types = [env.typ(t, module) for t in op["types"]]
        call = lambda: type_topological_sort(types)  # noqa: E731
        return call, lambda x: ["order", [y.__qualname__ for y in x]]
    raise AssertionError(op)


def describe_plain(cls, name, text):
    return f"{cls.__name__}.{name}: {text}"


class DescribeError(Exception):
    pass


def describe_fail(cls, name, text):
    raise DescribeError(name)


DESCRIBE = {"plain": describe_plain, "fail": describe_fail}


def perform(env, op, t=None):
    "Carries out an operation and returns its outcome (JSON)."
    call, result = prepare(env, op)
    try:
        if op.get("boom") is not None:
            env.boom = op["boom"]
        if op.get("limit") is not None:
            # little room is left on the call stack
            limit = sys.getrecursionlimit()
            sys.setrecursionlimit(depth() + op["limit"])
            try:
                x = call()
            finally:
                sys.setrecursionlimit(limit)
        elif t is None:
            x = call()
        else:
            with sched.traced(t):
                x = call()
    except sched.SimDeadlock:
        raise
    except BaseException as ex:
        if t is not None:
            t.traced = False
        return ["err", core.errname(ex)]
    finally:
        env.boom = None
    return readable(result, x)


def readable(result, x):
    "Makes what the library returned comparable."
    try:
        return result(x)
    except (TypeError, ValueError, AttributeError, KeyError, RecursionError) as ex:
        # for example a circular document
        return ["unreadable", core.errname(ex)]


class Solo:
    "Outcomes of operations when carried out alone, each in a process of its own."

    def __init__(self, env, perform=perform):
        self.env = env
        self.memo = {}
        self.perform = perform

    def __call__(self, op, late=False):
        op = {k: v for k, v in op.items() if k not in ("limit", "strike")}
        k = json.dumps([op, late], sort_keys=True)
        if k not in self.memo:
            self.memo[k] = core.fork_call(lambda: self.alone(op, late))
        return self.memo[k]

    def alone(self, op, late):
        env = self.env
        if late:
            env.u.load_late()
        for r in env.case.get("register", ()):
            env.register(r)
        via = op.get("via")
        engines = env.case.get("engines", {})
        if via in engines:
            try:
                env.engines[via] = env.engine(engines[via])
            except Exception as ex:
                return ["engine", core.errname(ex)]
        return self.perform(env, op)


def ops_of(case):
    for th in case["threads"]:
        yield from th


def case_sched(rng, length=20000):
    return {"mode": "random", "seed": rng.getrandbits(32), "strategy": sched.random_strategy(rng, length), "faults": []}


def run_threads(env, case, body, max_steps=10_000_000, reenter=None):
    """
    Runs the operations of each thread of a case under the simulator.

    :param body: Carries out an operation of a thread; called as body(t, i, op).
    """
    sim = sched.Sim(case["plan"], max_steps=max_steps, reenter=reenter)
    outcomes = [[None] * len(th) for th in case["threads"]]

    def make(tid, ops):
        def fn(t):
            for i, op in enumerate(ops):
                outcomes[tid][i] = body(t, i, op)
                sim.mark = sim.steps

        return fn

    for tid, ops in enumerate(case["threads"]):
        sim.spawn(make(tid, ops))
    sim.run()
    for t in sim.threads:
        if t.error is not None and not sim.problem:
            raise core.HarnessError(f"thread {t.id}: {core.errname(t.error)}: {t.error}") from t.error
    return sim, outcomes


def sim_stats(sim):
    s = {"steps": sim.steps, "switches": sim.switches, "lock_ops": sim.lock_ops}
    for f in sim.fired:
        s[f"fault:{f[2]}"] = s.get(f"fault:{f[2]}", 0) + 1
    return s


def result(sim=None, violation=None, stats=None, nontrivial=True, extra_key="", plan=None):
    r = {"violation": violation, "stats": stats or {}, "nontrivial": bool(nontrivial)}
    if sim is not None:
        for k, v in sim_stats(sim).items():
            r["stats"][k] = r["stats"].get(k, 0) + v
        r["key"] = f"{sim.hash:x}{extra_key}"
        r["trace"] = sim.trace
        if sim.problem and violation is None:
            kind = "deadlock" if sim.problem.startswith("deadlock") else "no-progress"
            r["violation"] = {"class": kind, "detail": sim.problem}
    else:
        r["key"] = extra_key
    return r


def tally(stats, outcome):
    k = f"outcome:{outcome[0] if outcome[0] != 'err' else outcome[1]}"
    stats[k] = stats.get(k, 0) + 1




def typed_root(rng, spec, t):
    "A type for which a serializer may be created explicitly (with forward references evaluated in the module)."
    return t


def gen_ser_op(rng, spec, model, roots, engines=(), plain=0.15):
    op = gen_ser_op_(rng, spec, model, roots, engines, plain)
    if op is not None and rng.random() < 0.5:
        op["same"] = True
    return op


def gen_ser_op_(rng, spec, model, roots, engines, plain):
    if engines and rng.random() < 0.5:
        e = rng.choice(sorted(engines))
        v = gen_canon(rng, model, engines[e]["t"], budget=15)
        return None if v is None else {"op": "ser", "v": v, "via": e}
    t = rng.choice(roots)
    v = gen_canon(rng, model, t, budget=15)
    if v is None:
        return None
    x = rng.random()
    if x < 0.3:
        return {"op": "ser", "v": v, "t": t, "via": "typed"}
    enums = [c for c in spec["modules"][0]["classes"] if c["kind"] == "enum"]
    if x < 0.4 and enums and v[0] != "none":
        # bare dictionaries, with members of an enumeration as keys or with text
        c = rng.choice(enums)
        keys = rng.sample([m for m, _ in c["members"]], min(len(c["members"]), rng.choice([1, 1, 2])))
        inner = rng.choice([v, v, ["dict", [[["str", "k"], v]]]])
        return {"op": "ser", "v": ["dict", [[["enum", f"{spec['modules'][0]['name']}.{c['name']}", k], inner] for k in keys]]}
    if x < 0.4 + plain:
        w = rng.choice(
            [
                ["plain", [["zeta", v], ["alpha", ["int", 1]], ["mid_", ["none"]]]],
                ["pair", v, ["none"]],
                ["list", [v, ["str", "é"], ["plain", [["k", v]]]]],
                ["dict", [[["str", "k"], v]]],
                ["list", [v, ["bad", rng.choice(["naive", "function", "class", "module"])]]],
                ["plain", [["k", v], ["bad_", ["bad", rng.choice(["naive", "class"])]]]],
            ]
        )
        return {"op": "ser", "v": w}
    return {"op": "ser", "v": v}


# ---------------------------------------------------------------------------------------------------------------------
# types for schema generation
# ---------------------------------------------------------------------------------------------------------------------

SCHEMA_PROFILE = {
    "future": 0.0,
    "custom": 0.0,
    "multiliteral": False,
    "json": 0.0,
    "alias_type": 0.05,
    "keyword": 0.1,
    "tagged": 0.25,
    "ambiguous": 0.0,
    "inherit": 0.15,
}


def schema_universe(rng, **profile):
    """
    A universe of types for which schemas can be generated, and the types to register in the catalog first: classes
    that are referred to by name must be registered under their name, others may be.
    """
    p = dict(SCHEMA_PROFILE)
    p.update(profile)
    spec = Gen(rng, **p).universe()
    classes = spec["modules"][0]["classes"]
    aliases = {c["name"] for c in classes if c["kind"] == "alias"}
    named = set()

    def fix(t, top):
        k = t[0]
        if k in ("opt", "popt") and not top:
            # optional types are supported for members of classes only
            return fix(t[1], False)
        if k in ("ref", "cls") and t[1] in aliases:
            # no name is registered for a special form
            return ["cls", t[1]]
        if k == "ref":
            named.add(t[1])
            return ["opt", t] if top else t
        if k in ("list", "set", "dict"):
            return [k, fix(t[1], False)]
        if k in ("opt", "popt"):
            inner = fix(t[1], False)
            return [k, inner]
        if k == "ann":
            inner = fix(t[1], False)
            return inner if inner[0] in ("ref", "opt") else ["ann", inner]
        if k == "edict":
            return [k, t[1], fix(t[2], False)]
        if k in ("tuple", "union"):
            return [k, *[fix(x, False) for x in t[1:]]]
        return t

    for i, c in enumerate(classes):
        later = {x["name"] for x in classes[i:]}
        if "type" in c:
            c["type"] = fix(c["type"], True)
        for f in c.get("fields", ()):
            t = f["type"]
            # aliases that are yet to be defined cannot be referred to
            t = drop(t, aliases & later)
            f["type"] = fix(t, True)
            if f["type"][0] in ("opt", "popt") and f["type"][1][0] == "ref":
                # an annotated reference is expanded in place, for ever if recursive
                f.pop("alias", None)
            if f["type"] != t and "default" in f and f["default"][0] is not None:
                del f["default"]
        if rng.random() < p.get("docs", 0.0) and c["kind"] in ("dataclass", "typed", "enum"):
            c["doc"] = class_doc(rng, c)
    bound_weight(classes)
    registered = []
    for c in classes:
        if c["kind"] == "alias":
            continue
        if c["name"] in named or rng.random() < 0.3:
            r = {"t": ["cls", c["name"]]}
            if c["name"] not in named and rng.random() < 0.2:
                r["name"] = f"Named{c['name']}"
            if rng.random() < 0.25:
                r["examples"] = [rng.choice([{"a": [1, {"b": 2}]}, [1, 2], "x"]), {"k": None}]
            if rng.random() < p.get("explicit", 0.0):
                r["schema"] = rng.choice(
                    [
                        {"type": "object", "properties": {"a": {"enum": [1, 2]}}, "required": ["a"]},
                        {"type": "string", "examples": ["x", {"y": []}], "title": f"Schema of {c['name']}"},
                        {"oneOf": [{"type": "integer"}, {"type": "array", "items": {"type": "null"}}]},
                    ]
                )
            registered.append(r)
    return spec, registered


def bound_weight(classes, limit=60):
    "Classes are expanded in place each time they are mentioned: keeps the size of schemas within bounds."
    weight = {}

    def w(t):
        if t[0] == "cls":
            return weight.get(t[1], 1)
        return 1 + sum(w(x) for x in t[1:] if type(x) is list)

    for c in classes:
        total = 1 + weight.get(c.get("base"), 0)
        if "type" in c:
            if w(c["type"]) > limit:
                c["type"] = ["list", ["int"]]
            total += w(c["type"])
        for f in c.get("fields", ()):
            if total + w(f["type"]) > limit:
                f["type"] = ["int"]
                f.pop("default", None)
                f.pop("factory", None)
            total += w(f["type"])
        if not c.get("kw_only") and "fields" in c and c["kind"] != "typed":
            c["fields"].sort(key=lambda f: "default" in f or "factory" in f)
        weight[c["name"]] = total


def drop(t, names):
    if t[0] in ("ref", "cls") and t[1] in names:
        return ["int"]
    if t[0] in ("list", "set", "dict", "opt", "popt", "ann"):
        return [t[0], drop(t[1], names)]
    if t[0] == "edict":
        return [t[0], t[1], drop(t[2], names)]
    if t[0] in ("tuple", "union"):
        return [t[0], *[drop(x, names) for x in t[1:]]]
    return t


def class_doc(rng, c):
    lines = [rng.choice(["A class.", f"Doc of {c['name']}.", "Summary text\ncontinues here."])]
    if rng.random() < 0.4:
        lines += ["", "A longer description."]
    fields = c.get("fields") or ()
    if fields:
        lines.append("")
        for f in fields:
            if rng.random() < 0.7:
                lines.append(f":param {f['name']}: About {f['name']}.")
    return "\n".join(lines)


def gen_schema_op(rng, spec, engines=()):
    names = [c["name"] for c in spec["modules"][0]["classes"]]
    t = ["cls", rng.choice(names)]
    if rng.random() < 0.25:
        t = rng.choice([["list", t], ["dict", t], ["tuple", t, ["str"]]])
    elif rng.random() < 0.15:
        # a class itself is what is described, or something of it that has no schema
        name = rng.choice(names)
        t = ["raw", rng.choice(["type[{}]", "tuple[int, type[{}]]", "type[dict[float, {}]]", "list[dict[float, {}]]"]).format(name)]
    op = {"op": "schema", "t": t, "opts": {}}
    x = rng.random()
    if x < 0.25:
        op["opts"]["use_descriptions"] = False
    elif x < 0.4:
        op["opts"]["describe"] = "plain"
    elif x < 0.5:
        op["opts"]["describe"] = "fail"
    if rng.random() < 0.2:
        op["opts"]["use_examples"] = False
    if rng.random() < 0.15:
        op["opts"]["definitions_path"] = "#/components/schemas/"
    y = rng.random()
    if engines and y < 0.35:
        op = {"op": "schema", "t": t, "via": rng.choice(sorted(engines)), "expand": rng.random() < 0.3}
    elif y < 0.5:
        op.update(via="generator", expand=rng.random() < 0.4)
    elif y < 0.6:
        op["dialect"] = rng.choice(["Draft7", "Draft201909", "Draft202012"])
    if "opts" in op and rng.random() < 0.4:
        # one options object for all calls whose options are the same
        op["same"] = True
    return op


# ---------------------------------------------------------------------------------------------------------------------
# types for sorting
# ---------------------------------------------------------------------------------------------------------------------


def sort_universe(rng, cyclic=0.3, n=None):
    """
    Classes whose members refer to each other's classes only: sets of such classes are iterated in an order that is a
    function of the names of classes and a seed.
    """
    names = rng.sample(["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "Iota", "Kappa"], n or rng.randint(2, 8))
    cyclic = rng.random() < cyclic
    classes = []
    for i, name in enumerate(names):
        fields = []
        pool = [["cls", x] for x in names[:i]] + [["ref", name]]
        if cyclic:
            pool += [["ref", x] for x in names[i:]]
        for j in range(rng.randint(0, 3)):
            t = rng.choice(pool)
            shape = rng.choice(["plain", "list", "opt", "dict", "union", "tuple"])
            other = rng.choice(pool)
            if t[0] == "ref":
                shape = rng.choice(["opt", "list"])
            if shape == "list":
                t = ["list", t]
            elif shape == "opt":
                t = ["opt", t]
            elif shape == "dict" and t[0] == "cls":
                t = ["list", ["list", t]]
            elif shape == "union" and other != t:
                t = ["union", t, other]
            elif shape == "tuple":
                t = ["tuple", t, other]
            fields.append({"name": f"f{j}", "type": t})
        classes.append({"name": name, "kind": rng.choice(["dataclass", "typed"]), "fields": fields})
    return {"modules": [{"name": "simu_0", "classes": classes}]}


def gen_sort_op(rng, spec):
    names = [c["name"] for c in spec["modules"][0]["classes"]]
    return {"op": "sort", "types": [["cls", n] for n in rng.sample(names, rng.randint(1, len(names)))]}


def solo_all(solo, ops, late=False):
    return [solo(op, late) for op in ops]
