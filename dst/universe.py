"""
Random universes of types: a JSON specification, the Python source text rendered from it, and the classes obtained by
executing that text.

Nothing in this module uses strong_typing; the executed source text does (annotations, hooks).

A type expression is a JSON list:
  ["int"] ... leaf types (see LEAVES), ["none"], ["json"]
  ["list", T] ["set", T] ["dict", T] ["edict", E, T] ["tuple", T...] ["opt", T] ["union", T...] ["lit", v...]
  ["cls", name]    a class, by object
  ["ref", name]    a class or alias, by name (forward reference)
  ["ann", T]       an annotated type
  ["con", base, a, b]  a constrained type: int with range, str with length, float with precision, or an auxiliary type
"""

import enum
import json
import keyword
import sys
import types
import zlib

LEAVES = ["bool", "int", "float", "str", "bytes", "datetime", "date", "time", "td", "uuid", "ip4", "ip6"]
HASHABLE_LEAVES = ["bool", "int", "str", "bytes", "date", "uuid", "ip4", "ip6"]

LEAF_TEXT = {
    "none": "None",
    "bool": "bool",
    "int": "int",
    "float": "float",
    "str": "str",
    "bytes": "bytes",
    "datetime": "datetime.datetime",
    "date": "datetime.date",
    "time": "datetime.time",
    "td": "datetime.timedelta",
    "uuid": "uuid.UUID",
    "ip4": "ipaddress.IPv4Address",
    "ip6": "ipaddress.IPv6Address",
    "json": "JsonType",
}

PRELUDE = """
import dataclasses, datetime, decimal, enum, ipaddress, typing, uuid
from dataclasses import dataclass, field
from typing import Annotated, Any, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Union
from strong_typing.auxiliary import *
from strong_typing.auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision
from strong_typing.core import JsonArray, JsonObject, JsonType
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
import collections

def CALL_GENERIC(typ, data, **kw):
    return json_to_generic(typ, data, **kw)

class Plain:
    def __init__(self, **kw): self.__dict__.update(kw)

Pair = collections.namedtuple("Pair", ["x", "y"])
"""


def wire_name(f):
    "JSON property name of a field (see `python_field_to_json_property`)."
    if f.get("alias"):
        return f["alias"]
    n = f["name"]
    if n.endswith("_") and keyword.iskeyword(n[:-1]):
        return n[:-1]
    return n


# ---------------------------------------------------------------------------------------------------------------------
# rendering
# ---------------------------------------------------------------------------------------------------------------------


def render(t, quote=True):
    k = t[0]
    if k in LEAF_TEXT:
        return LEAF_TEXT[k]
    if k == "list":
        return f"list[{render(t[1])}]"
    if k == "set":
        return f"set[{render(t[1])}]"
    if k == "dict":
        return f"dict[str, {render(t[1])}]"
    if k == "edict":
        return f"dict[{t[1]}, {render(t[2])}]"
    if k == "tuple":
        return "tuple[" + ", ".join(render(x) for x in t[1:]) + "]"
    if k == "opt":
        return f"Optional[{render(t[1])}]"
    if k == "popt":
        return f"{render(t[1])} | None"
    if k == "union" and piped(t):
        return " | ".join(render(x) for x in t[1:])
    if k == "union":
        return "Union[" + ", ".join(render(x) for x in t[1:]) + "]"
    if k == "lit":
        return "Literal[" + ", ".join(repr(x) for x in t[1:]) + "]"
    if k == "cls":
        return t[1]
    if k == "ref":
        return repr(t[1])
    if k == "ann":
        return f'Annotated[{render(t[1])}, "note"]'
    if k == "raw":
        return t[1]
    if k == "con":
        if t[1] == "int":
            return f"Annotated[int, IntegerRange({t[2]}, {t[3]})]"
        if t[1] == "str":
            parts = [f"MinLength({t[2]})"] if t[2] is not None else []
            parts += [f"MaxLength({t[3]})"] if t[3] is not None else []
            return f"Annotated[str, {', '.join(parts)}]"
        if t[1] == "float":
            return f"Annotated[float, Precision({t[2]}, {t[3]})]"
        return t[2]
    raise AssertionError(t)


def piped(t):
    "Some unions are written with the union operator; which ones depends on the union only."
    return all(pipe_safe(x) for x in t[1:]) and zlib.crc32(json.dumps(t).encode()) % 3 == 0


def pipe_safe(t):
    return t[0] not in ("ref", "lit", "union", "opt", "popt", "ann", "con", "json", "none", "raw")


def render_field(f):
    text = render(f["type"])
    if f.get("alias"):
        text = f"Annotated[{text}, Alias({f['alias']!r})]"
    return text


def render_class(c, metahash=False):
    kind = c["kind"]
    name = c["name"]
    doc = c.get("doc")
    lines = []
    if kind == "enum":
        bases = {None: "enum.Enum", "str": "str, enum.Enum", "int": "int, enum.Enum", "IntEnum": "enum.IntEnum"}
        lines.append(f"class {name}({bases[c.get('mixin')]}):")
        if doc:
            lines.append(f"    {doc!r}")
        for m, v in c["members"]:
            lines.append(f"    {m} = {v!r}")
        for m, other in c.get("synonyms", ()):
            # another name of the same member
            lines.extend(f"    {m} = {v!r}" for n, v in c["members"] if n == other)
        return lines
    if kind == "alias":
        return [f"{name} = {render(c['type'])}"]
    if kind == "namedtuple":
        lines.append(f"class {name}(NamedTuple):")
    elif kind == "typed":
        base = c.get("base")
        bases = [base] if base else []
        if c.get("exc") and not base:
            bases.append("Exception")
        if metahash and not base:
            bases.append("metaclass=SeededMeta")
        lines.append(f"class {name}({', '.join(bases)}):" if bases else f"class {name}:")
    elif kind == "custom":
        style = c.get("style")
        if style == "inherited":
            # hooks come from a base class
            hooks = render_class(dict(c, style=None, doc=None), metahash)
            return [hooks[0].replace(name, f"{name}_Base", 1), *hooks[1:], "", f"class {name}({name}_Base):", f"    {doc!r}" if doc else "    pass"]
        if style in ("dataclass", "reader"):
            lines.append("@dataclass")
        lines.append(f"class {name}:")
        if doc:
            lines.append(f"    {doc!r}")
        inner = c["inner"]
        # hooks: to_json / from_json with a payload member, possibly re-entering the library
        if style == "reader":
            lines.append("    payload: int")
        elif style == "dataclass":
            lines.append("    payload: Any")
        else:
            lines.append("    def __init__(self, payload): self.payload = payload")
        lines.append("    def __eq__(self, o): return type(o) is type(self) and o.payload == self.payload")
        lines.append("    __hash__ = None")
        if style != "reader":
            lines.append("    def to_json(self):")
            lines.append(f"        HOOK('to', {name!r})")
            if c["reenter"]:
                lines.append(f"        return {{{c['key']!r}: object_to_json(self.payload)}}")
            else:
                lines.append(f"        return {{{c['key']!r}: self.payload}}")
        lines.append("    @classmethod")
        lines.append("    def from_json(cls, data):")
        lines.append(f"        HOOK('from', {name!r})")
        lines.append(f"        if not isinstance(data, dict) or list(data) != [{c['key']!r}]: raise ValueError('custom')")
        if c["reenter"]:
            lines.append(
                f"        return cls(json_to_generic({render(inner)}, data[{c['key']!r}], context=sys.modules[__name__]))"
            )
        else:
            lines.append(f"        v = data[{c['key']!r}]")
            lines.append("        if type(v) is not int: raise ValueError('custom payload')")
            lines.append("        return cls(v)")
        return lines
    elif kind == "dataclass":
        args = []
        for a in ("frozen", "slots", "kw_only"):
            if c.get(a):
                args.append(f"{a}=True")
        lines.append(f"@dataclass({', '.join(args)})" if args else "@dataclass")
        base = c.get("base")
        bases = [base] if base else []
        if metahash and not base:
            bases.append("metaclass=SeededMeta")
        lines.append(f"class {name}({', '.join(bases)}):" if bases else f"class {name}:")
    else:
        raise AssertionError(kind)
    if doc:
        lines.append(f"    {doc!r}")
    if c.get("classvar"):
        lines.append(f"    {c['classvar']}: typing.ClassVar[dict[str, int]] = {{'shared': 1}}")
    n = 1 if c.get("classvar") else 0
    for f in c["fields"]:
        text = f"    {f['name']}: {render_field(f)}"
        more = f", {f['how']}" if kind == "dataclass" and f.get("how") else ""
        if "default" in f:
            text += f" = field(default={f['default'][1]}{more})" if more else f" = {f['default'][1]}"
        elif "factory" in f:
            text += f" = field(default_factory=lambda: {f['factory'][1]}{more})"
        elif more:
            text += f" = field({more[2:]})"
        lines.append(text)
        n += 1
    if not n and not doc:
        lines.append("    pass")
    return lines


def render_module(m, metahash=False):
    lines = []
    if m.get("future"):
        lines.append("from __future__ import annotations")
    lines.append(PRELUDE)
    lines.append("import sys")
    for other, names in m.get("imports", []):
        lines.append(f"from {other} import {', '.join(names)}")
    for c in m["classes"]:
        lines.append("")
        lines.extend(render_class(c, metahash))
    return "\n".join(lines) + "\n"


# ---------------------------------------------------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------------------------------------------------

FIELD_NAMES = ["a", "b", "c", "name", "value", "items", "kind", "left", "right", "size", "tag", "note", "x1", "y_2"]
KEYWORD_NAMES = ["in_", "from_", "class_", "is_", "def_"]
CLASS_NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "Iota", "Kappa"]
ODD_NAMES = ["typ", "module", "context", "options"]  # names that the library uses, too
ALIASES = ["@type", "$id", "camelCase", "kebab-name", "A", "ünï", "with space"]
WORDS = ["red", "green", "blue", "on", "off", "x", "UP", "down-left", "é", "1", "true", "null", "", "a.b", "c++", "x|y", "$ref", "(", "\\d"]

DEFAULT_PROFILE = {
    "modules": 1,  # number of modules
    "classes": (2, 6),
    "fields": (1, 4),
    "future": 0.15,
    "recursive": 0.4,  # weight of forward references in field types
    "custom": 0.12,
    "enum": 0.2,
    "namedtuple": 0.12,
    "typed": 0.15,
    "frozen": 0.25,
    "slots": 0.15,
    "inherit": 0.15,
    "default": 0.25,
    "optional": 0.25,
    "alias": 0.12,
    "keyword": 0.1,
    "ambiguous": 0.5,  # unions may have members that overlap
    "tagged": 0.25,
    "json": 0.05,
    "literal": 0.1,
    "multiliteral": True,
    "union": 0.12,
    "alias_type": 0.1,
    "docs": 0.0,
    "leaves": LEAVES,
    "names": CLASS_NAMES,
    "forward": True,
    "depth": 2,
    "pipe": 0.3,
    "bytes_leaf": True,
    "constrained": 0.04,
    "discriminators": 0.3,  # tagged unions with a second discriminator
    "edict": 0.0,  # additional weight of dictionaries with enumeration keys
    "hook_forward": 0.4,  # hooks that read or write classes defined later
    "variant": 0.15,  # classes that resemble an earlier one
    "quirks": 0.2,  # enumerations with a base type, exceptions, class variables, and so on
    "class_union": 0.4,  # among unions whose members overlap: those made of classes only
}


class Gen:
    def __init__(self, rng, **profile):
        self.rng = rng
        self.p = dict(DEFAULT_PROFILE)
        self.p.update(profile)
        self.classes = []  # all classes so far (spec), in order
        self.planned = []  # names of classes planned for forward references (kinds decided upfront)

    def chance(self, key):
        return self.rng.random() < self.p[key]

    def leaf(self):
        if self.chance("constrained"):
            return self.constrained()
        return [self.rng.choice(self.p["leaves"])]

    def constrained(self):
        r = self.rng
        k = r.choice(["int", "str", "float", "aux"])
        if k == "int":
            a = r.choice([0, 1, -5, -100])
            return ["con", k, a, a + r.choice([0, 1, 10, 1000])]
        if k == "str":
            a = r.choice([None, 0, 1, 2])
            b = r.choice([None, 2, 5]) if a is not None else 3
            return ["con", k, a, b]
        if k == "float":
            return ["con", k, r.choice([2, 4]), r.choice([0, 1])]
        return ["con", k, r.choice(["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"])]

    def hashable(self, module):
        r = self.rng
        enums = [c for c in module["classes"] if c["kind"] == "enum"]
        if enums and r.random() < 0.3:
            return ["cls", r.choice(enums)["name"]]
        return [r.choice([x for x in HASHABLE_LEAVES if x in self.p["leaves"]] or ["int"])]

    def defined(self, module, kinds=None):
        return [c["name"] for c in module["classes"] if c["kind"] != "alias" and (kinds is None or c["kind"] in kinds)]

    def literal(self):
        r = self.rng
        n = r.randint(1, 3) if self.p["multiliteral"] else 1
        if r.random() < 0.6:
            return ["lit", *r.sample(WORDS[:9], n)]
        return ["lit", *r.sample([0, 1, 2, 3, 7, -1], n)]

    def union(self, module, depth, forward):
        r = self.rng
        if self.rng.random() < self.p["ambiguous"]:
            if self.chance("class_union"):
                members = self.similar(module)
                if members:
                    return ["union", *members]
            n = r.randint(2, 3)
            members = []
            for _ in range(n):
                t = self.type(module, depth - 1, forward, no_opt=True)
                if t[0] in ("union", "opt", "popt", "json") or t in members:
                    continue
                members.append(t)
            pool = [["int"], ["float"], ["str"], ["uuid"], ["date"], ["list", ["int"]], ["list", ["str"]], ["bytes"]]
            pool = [x for x in pool if x[0] in self.p["leaves"] or x[0] == "list"]
            while len(members) < 2:
                t = r.choice(pool)
                if t not in members:
                    members.append(t)
            return ["union", *members]
        # distinguishable by JSON type
        groups = [[["bool"]], [["int"]], [["str"], ["uuid"], ["date"], ["bytes"]], []]
        groups[2] = [x for x in groups[2] if x[0] in self.p["leaves"]] or [["str"]]
        objs = self.defined(module, ("dataclass", "typed", "namedtuple"))
        if objs:
            groups[3] = [["cls", r.choice(objs)]]
        groups.append([["list", ["int"]], ["list", ["str"]]])
        groups = [g for g in groups if g]
        chosen = r.sample(groups, r.randint(2, min(3, len(groups))))
        return ["union", *[r.choice(g) for g in chosen]]

    def similar(self, module):
        "Two to four classes whose documents overlap."
        r = self.rng
        objs = [c for c in module["classes"] if c["kind"] in ("dataclass", "typed", "namedtuple")]
        families = {}
        for c in objs:
            families.setdefault(c.get("variant", c["name"]), []).append(c["name"])
        families = [f for f in families.values() if len(f) > 1]
        names = []
        if families and r.random() < 0.7:
            names = list(r.choice(families))
        names += [n for n in r.sample([c["name"] for c in objs], min(len(objs), 2)) if n not in names]
        if len(names) < 2:
            return None
        names = names[: r.randint(2, 4)]
        r.shuffle(names)
        return [["cls", n] for n in names]

    def gen_variant(self, name, module):
        "A class with the members of an earlier one, some of which are of other types, missing, or new."
        r = self.rng
        bases = [c for c in module["classes"] if c["kind"] in ("dataclass", "typed") and c["fields"] and not c.get("base")]
        if not bases:
            return None
        b = r.choice(bases)
        c = {"name": name, "kind": b["kind"], "variant": b.get("variant", b["name"]), "fields": []}
        if b["kind"] == "dataclass":
            if self.chance("frozen"):
                c["frozen"] = True
            if self.chance("slots"):
                c["slots"] = True
        other = {
            "int": ["float", "str", "bool"],
            "float": ["int", "str"],
            "str": ["uuid", "date", "bytes", "int"],
            "uuid": ["str"],
            "date": ["str", "datetime"],
            "bytes": ["str"],
            "datetime": ["str", "date"],
        }
        for f in b["fields"]:
            f = json.loads(json.dumps(f))
            x = r.random()
            t = f["type"]
            if x < 0.1 and len(b["fields"]) > 1:
                continue
            if x < 0.45 and "default" not in f and "factory" not in f:
                k = [o for o in other.get(t[0], ()) if o in self.p["leaves"]]
                if k:
                    f["type"] = [r.choice(k)]
                elif t[0] in ("list", "set") and t[1][0] in other:
                    k = [o for o in other[t[1][0]] if o in self.p["leaves"] and o in HASHABLE_LEAVES]
                    f["type"] = [r.choice(["list", "set"]) if t[1][0] in HASHABLE_LEAVES else "list", [r.choice(k)] if k else t[1]]
                elif t[0] in ("cls", "con"):
                    f["type"] = ["dict", ["int"]] if t[0] == "cls" else ["str"]
            elif x < 0.55 and t[0] not in ("opt", "popt", "json", "union", "lit"):
                f["type"] = ["opt", t]
                if f.get("default") or f.get("factory"):
                    f.pop("default", None)
                    f.pop("factory", None)
            c["fields"].append(f)
        if r.random() < 0.25:
            used = {f["name"] for f in c["fields"]} | {wire_name(f) for f in c["fields"]}
            f = {"name": "more", "type": r.choice([["opt", ["int"]], ["int"], ["opt", ["str"]]])}
            if "more" not in used:
                c["fields"].append(f)
        if b["kind"] == "dataclass":
            c["fields"].sort(key=lambda f: "default" in f or "factory" in f)
        return c

    def type(self, module, depth, forward=(), no_opt=False, guarded=False):
        """
        :param forward: Names that may be referred to before they are defined.
        :param guarded: The type occurs where an empty or absent value is possible, such that recursion can end.
        """
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.3:
            y = r.random()
            if y < self.p["literal"]:
                return self.literal()
            if y < self.p["literal"] + self.p["json"]:
                return ["json"]
            names = self.defined(module)
            if guarded and forward and r.random() < self.p["recursive"]:
                t = ["ref", r.choice(forward)]
                return ["ann", t] if r.random() < 0.15 else t
            if names and r.random() < 0.4:
                return ["cls", r.choice(names)]
            aliases = [c["name"] for c in module["classes"] if c["kind"] == "alias"]
            if aliases and r.random() < 0.5:
                return ["ref", r.choice(aliases)]
            return self.leaf()
        if x < 0.3 + self.p["union"]:
            return self.union(module, depth, forward)
        kind = r.choice(["list", "list", "dict", "edict", "set", "tuple", "opt", "cls", "cls", "ref", "ann"])
        if r.random() < self.p["edict"]:
            kind = "edict"
        if kind == "list":
            return ["list", self.type(module, depth - 1, forward, guarded=True)]
        if kind == "dict":
            return ["dict", self.type(module, depth - 1, forward, guarded=True)]
        if kind == "edict":
            enums = [c for c in module["classes"] if c["kind"] == "enum" and c["vtype"] == "str"]
            if not enums:
                return ["dict", self.type(module, depth - 1, forward, guarded=True)]
            return ["edict", r.choice(enums)["name"], self.type(module, depth - 1, forward, guarded=True)]
        if kind == "set":
            return ["set", self.hashable(module)]
        if kind == "tuple":
            return ["tuple", *[self.type(module, depth - 1, (), no_opt=False) for _ in range(r.randint(1, 3))]]
        if kind == "opt" and not no_opt:
            t = self.type(module, depth - 1, forward, no_opt=True, guarded=True)
            if t[0] == "union" and r.random() < 0.5:
                return ["opt", t]
            if t[0] in ("json", "opt", "popt", "union"):
                return t
            if pipe_safe(t) and self.chance("pipe"):
                return ["popt", t]
            return ["opt", t]
        if kind == "ref" and guarded and forward:
            return ["ref", r.choice(forward)]
        if kind == "ann":
            return ["ann", self.type(module, 0, forward, guarded=guarded)]
        names = self.defined(module)
        if names:
            return ["cls", r.choice(names)]
        return self.leaf()

    def field_names(self, n, exclude=()):
        r = self.rng
        fields = []
        used = set(exclude)
        pool = list(FIELD_NAMES)
        r.shuffle(pool)
        for _ in range(n):
            f = {"name": pool.pop()}
            if self.chance("keyword"):
                f["name"] = r.choice(KEYWORD_NAMES)
            if self.chance("alias"):
                f["alias"] = r.choice(ALIASES)
            if wire_name(f) in used or f["name"] in used:
                continue
            used.add(wire_name(f))
            used.add(f["name"])
            fields.append(f)
        return fields

    def gen_enum(self, name):
        r = self.rng
        if r.random() < 0.7:
            words = r.sample(WORDS, r.choice([1, 2, 3, 4, 5, 6, 8, 12]))
            return {
                "name": name,
                "kind": "enum",
                "vtype": "str",
                "members": [[f"M{i}", w] for i, w in enumerate(words)],
            }
        vals = r.sample([0, 1, 2, 5, -3, 100], r.randint(1, 4))
        return {"name": name, "kind": "enum", "vtype": "int", "members": [[f"M{i}", v] for i, v in enumerate(vals)]}

    def simple_default(self, t, module, enums=True):
        "A default value for a type: (wire document or None if the default is `None`, Python text)."
        r = self.rng
        k = t[0]
        if k == "int":
            v = r.choice([0, 1, -5, 42])
            return [v, repr(v)]
        if k == "str":
            v = r.choice(["", "dflt", "é"])
            return [v, repr(v)]
        if k == "bool":
            v = r.choice([True, False])
            return [v, repr(v)]
        if k == "float":
            v = r.choice([0.0, 1.5])
            return [v, repr(v)]
        if k == "date":
            return ["2020-02-29", "datetime.date(2020, 2, 29)"]
        if k == "td":
            return ["P1D", "datetime.timedelta(days=1)"]
        if k == "uuid":
            return ["f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "uuid.UUID('f81d4fae-7dec-11d0-a765-00a0c91e6bf6')"]
        if k == "lit":
            return [t[1], repr(t[1])]
        if k == "cls" and enums:
            for c in module["classes"]:
                if c["name"] == t[1] and c["kind"] == "enum":
                    m, v = r.choice(c["members"])
                    return [v, f"{c['name']}.{m}"]
        return None

    def factory_default(self, t, module):
        if t[0] in ("list", "set", "dict") and self.rng.random() < 0.5:
            d = self.simple_default(t[1], module, enums=False)
            if d:
                if t[0] == "dict":
                    return [{"k": d[0]}, f"{{'k': {d[1]}}}"]
                return [[d[0]], f"[{d[1]}]" if t[0] == "list" else f"{{{d[1]}}}"]
        if t[0] == "list":
            return [[], "list()"]
        if t[0] == "dict":
            return [{}, "dict()"]
        if t[0] == "set":
            return [[], "set()"]
        if t[0] == "edict":
            return [{}, "dict()"]
        return None

    def gen_fields(self, module, n, forward, allow_default, exclude=()):
        r = self.rng
        fields = []
        for f in self.field_names(n, exclude):
            t = self.type(module, self.p["depth"], forward)
            if self.chance("optional"):
                inner = t
                if forward and r.random() < self.p["recursive"]:
                    inner = ["ref", r.choice(forward)]
                    if r.random() < 0.15:
                        inner = ["ann", inner]
                if inner[0] not in ("opt", "popt", "json"):
                    if pipe_safe(inner) and self.chance("pipe"):
                        t = ["popt", inner]
                    else:
                        t = ["opt", inner]
            f["type"] = t
            if allow_default and self.chance("default"):
                if t[0] in ("opt", "popt"):
                    if r.random() < 0.6:
                        f["default"] = [None, "None"]
                    else:
                        d = self.simple_default(t[1], module)
                        if d:
                            f["default"] = d
                else:
                    d = self.simple_default(t, module)
                    if d:
                        f["default"] = d
                    else:
                        d = self.factory_default(t, module)
                        if d:
                            f["factory"] = d
            fields.append(f)
        return fields

    def gen_class(self, name, module, forward):
        r = self.rng
        x = r.random()
        p = self.p
        n = r.randint(*p["fields"])
        if x < p["enum"]:
            return [self.gen_enum(name)]
        x -= p["enum"]
        if x < p["custom"]:
            reenter = r.random() < 0.6
            inner = self.type(module, 1, (), no_opt=True) if reenter else ["int"]
            if inner[0] in ("json", "union", "ref"):
                inner = ["list", ["int"]]
            if reenter and forward and self.chance("hook_forward"):
                # hooks may call each other in turn
                inner = [r.choice(["list", "dict", "opt"]), ["ref", r.choice([*forward, *self.defined(module)])]]
            return [
                {
                    "name": name,
                    "kind": "custom",
                    "reenter": reenter,
                    "inner": inner,
                    "key": r.choice(["w", "payload", "$v"]),
                }
            ]
        x -= p["custom"]
        if x < p["namedtuple"]:
            fields = self.gen_fields(module, n, forward, True)
            for f in fields:
                f.pop("factory", None)
                if f["name"].endswith("_") is False and f["name"] in ("count", "index"):
                    f["name"] = "cnt"
            fields.sort(key=lambda f: "default" in f)
            return [{"name": name, "kind": "namedtuple", "fields": fields}]
        x -= p["namedtuple"]
        if x < p["typed"]:
            c = {"name": name, "kind": "typed"}
            exclude = ()
            bases = [b for b in module["classes"] if b["kind"] == "typed"]
            if bases and self.chance("inherit"):
                b = r.choice(bases)
                c["base"] = b["name"]
                inherited = self.inherited(b, module)
                exclude = [f["name"] for f in inherited] + [wire_name(f) for f in inherited]
            c["fields"] = self.gen_fields(module, n, forward, False, exclude)
            return [c]
        x -= p["typed"]
        if self.chance("variant"):
            c = self.gen_variant(name, module)
            if c:
                return [c]
        if x < p["tagged"] * 0.6 and n:
            return self.gen_tagged(name, module, forward)
        if r.random() < p["alias_type"]:
            t = self.type(module, 2, ())
            if t[0] in ("list", "dict", "tuple", "set", "edict"):
                return [{"name": name, "kind": "alias", "type": t}]
        c = {"name": name, "kind": "dataclass"}
        if self.chance("frozen"):
            c["frozen"] = True
        if self.chance("slots"):
            c["slots"] = True
        exclude = ()
        if self.chance("inherit"):
            bases = [
                b
                for b in module["classes"]
                if b["kind"] == "dataclass" and bool(b.get("frozen")) == bool(c.get("frozen"))
            ]
            if bases:
                b = r.choice(bases)
                c["base"] = b["name"]
                inherited = self.inherited(b, module)
                exclude = [f["name"] for f in inherited] + [wire_name(f) for f in inherited]
                if r.random() < 0.25:
                    n = 0
                if r.random() < 0.7 or any("default" in f or "factory" in f for f in inherited):
                    c["kw_only"] = True
        fields = self.gen_fields(module, n, forward, True, exclude)
        if not c.get("kw_only"):
            fields.sort(key=lambda f: "default" in f or "factory" in f)
        c["fields"] = fields
        return [c]

    def inherited(self, c, module):
        "All fields of a class, including those of its bases."
        fields = list(c["fields"])
        while c.get("base"):
            c = next(b for b in module["classes"] if b["name"] == c["base"])
            fields = c["fields"] + fields
        return fields

    def gen_tagged(self, name, module, forward):
        "A family of classes with one or two common discriminators, and an alias for the union."
        r = self.rng
        names = [r.choice(["kind", "type_", "tag"])]
        if self.chance("keyword"):
            names = ["class_"]
        if r.random() < self.p["discriminators"]:
            names.append(r.choice(["ver", "op", "axis"]))
        count = r.choice([2, 2, 2, 3, 4])
        discs = []
        for i, dn in enumerate(names):
            d = {"name": dn}
            if self.chance("alias"):
                d["alias"] = [["@type", "$kind"], ["Ver", "@op"]][i][r.randint(0, 1)]
            if r.random() < 0.75:
                pool = r.sample(WORDS[:9], 9)
            else:
                pool = r.sample([0, 1, 2, 3, 4, 5, 7, -1], 8)
            values = []
            for _ in range(count):
                k = 2 if self.p["multiliteral"] and r.random() < 0.15 else 1
                values.append([pool.pop() for _ in range(k)])
            discs.append((d, values))
        exclude = [d["name"] for d, _ in discs] + [wire_name(d) for d, _ in discs]
        out = []
        frozen = self.chance("frozen")
        kind = r.choice(["dataclass", "dataclass", "dataclass", "typed", "namedtuple"])
        if (kind == "typed" and not self.p["typed"]) or (kind == "namedtuple"):
            kind = "dataclass"
        for i in range(count):
            fields = self.gen_fields(module, r.randint(0, 2), forward, kind == "dataclass", exclude=exclude)
            own = []
            for d, values in discs:
                f = dict(d)
                f["type"] = ["lit", *values[i]]
                own.append(f)
            if r.random() < 0.5:
                own.reverse()
            fields = own + fields
            if r.random() < 0.3:
                r.shuffle(fields)
            fields.sort(key=lambda f: "default" in f or "factory" in f)
            c = {"name": f"{name}{i}", "kind": kind, "fields": fields}
            if kind == "dataclass":
                c["frozen"] = frozen
            out.append(c)
        members = [["cls", c["name"]] for c in out]
        r.shuffle(members)
        out.append({"name": name, "kind": "alias", "type": ["union", *members]})
        return out

    def universe(self):
        r = self.rng
        u = {"modules": []}
        for mi in range(self.p["modules"]):
            m = {"name": f"simu_{mi}", "classes": []}
            if self.chance("future"):
                m["future"] = True
            names = r.sample(self.p["names"], min(len(self.p["names"]), r.randint(*self.p["classes"])))
            if r.random() < 0.08:
                names[r.randrange(len(names))] = r.choice(ODD_NAMES)
            for i, name in enumerate(names):
                # forward references only to names that are certain to become classes
                later = names[i:] if self.p["forward"] else []
                m["classes"].extend(self.gen_class(name, m, later))
            u["modules"].append(m)
        fix_universe(u)
        self.add_quirks(u)
        return u

    def add_quirks(self, u):
        "Features that change how classes are written, but not what their documents are."
        r = self.rng
        for m in u["modules"]:
            for c in m["classes"]:
                if not self.chance("quirks"):
                    continue
                if c["kind"] == "enum":
                    if r.random() < 0.6:
                        c["mixin"] = "str" if c["vtype"] == "str" else r.choice(["int", "IntEnum"])
                    if r.random() < 0.6:
                        c["synonyms"] = [["ALSO", r.choice(c["members"])[0]]]
                elif c["kind"] == "custom":
                    c["style"] = r.choice(["inherited", "dataclass", "reader"])
                    if c["style"] == "reader" and (c["reenter"] or c["key"] != "payload"):
                        if c["reenter"]:
                            c["style"] = "dataclass"
                        else:
                            c["key"] = "payload"
                elif c["kind"] == "typed" and not c.get("base"):
                    c["exc"] = True
                elif c["kind"] == "dataclass":
                    if r.random() < 0.5:
                        c["classvar"] = r.choice(["registry", "SHARED"])
                    for f in c["fields"]:
                        if r.random() < 0.4:
                            f["how"] = r.choice(["repr=False", "compare=False", "repr=True, compare=False"])


def fix_universe(u):
    """
    Makes a universe well-formed: forward references inside hashable or non-terminating positions are replaced such
    that every class has a finite value.
    """
    for m in u["modules"]:
        by_name = {c["name"]: c for c in m["classes"]}
        # every class must have finite values: compute the classes that do by fixed point
        finite = set()

        def t_finite(t):
            k = t[0]
            if k in ("list", "set", "dict", "edict", "opt", "popt", "json"):
                return True
            if k in ("tuple",):
                return all(t_finite(x) for x in t[1:])
            if k == "union":
                return any(t_finite(x) for x in t[1:])
            if k in ("cls", "ref"):
                return t[1] in finite
            if k == "ann":
                return t_finite(t[1])
            return True

        changed = True
        while changed:
            changed = False
            for c in m["classes"]:
                if c["name"] in finite:
                    continue
                if c["kind"] == "enum":
                    ok = True
                elif c["kind"] == "alias":
                    ok = t_finite(c["type"])
                elif c["kind"] == "custom":
                    ok = t_finite(c["inner"])
                else:
                    ok = all(t_finite(f["type"]) or "default" in f or "factory" in f for f in c["fields"])
                    if c.get("base"):
                        ok = ok and c["base"] in finite
                if ok:
                    finite.add(c["name"])
                    changed = True
        for c in m["classes"]:
            if c["name"] not in finite and c.get("fields"):
                for f in c["fields"]:
                    if not t_finite(f["type"]):
                        f["type"] = ["int"]
                        f.pop("default", None)
                        f.pop("factory", None)
        # dangling references
        for c in m["classes"]:

            def fix(t):
                if t[0] in ("cls", "ref") and t[1] not in by_name:
                    return ["int"]
                if t[0] in ("list", "set", "dict", "opt", "popt", "ann"):
                    return [t[0], fix(t[1])]
                if t[0] == "edict":
                    return [t[0], t[1], fix(t[2])]
                if t[0] in ("tuple", "union"):
                    return [t[0], *[fix(x) for x in t[1:]]]
                return t

            if "type" in c:
                c["type"] = fix(c["type"])
            if "inner" in c:
                c["inner"] = fix(c["inner"])
            for f in c.get("fields", ()):
                f["type"] = fix(f["type"])
        for c in m["classes"]:
            if "type" in c:
                c["type"] = plain_unions(c["type"], by_name)
            if "inner" in c:
                c["inner"] = plain_unions(c["inner"], by_name)
            for f in c.get("fields", ()):
                f["type"] = plain_unions(f["type"], by_name)


def plain_unions(t, by_name):
    """
    Unions that contain unions by name mean different things depending on whether names have been resolved yet, and unions
    of classes with equal discriminators are not permitted: both are replaced.
    """
    if t[0] in ("list", "set", "dict", "opt", "popt", "ann"):
        return [t[0], plain_unions(t[1], by_name)]
    if t[0] == "edict":
        return [t[0], t[1], plain_unions(t[2], by_name)]
    if t[0] == "tuple":
        return [t[0], *[plain_unions(x, by_name) for x in t[1:]]]
    if t[0] != "union":
        return t

    def strip(x):
        while True:
            if x[0] == "ann":
                x = x[1]
            elif x[0] in ("cls", "ref") and by_name.get(x[1], {}).get("kind") == "alias":
                x = by_name[x[1]]["type"]
            else:
                return x

    members = []
    for x in t[1:]:
        if strip(x)[0] in ("union", "opt", "popt", "json"):
            x = ["int"]
        x = plain_unions(x, by_name)
        if x not in members:
            members.append(x)
    for x in (["int"], ["bool"]):
        if len(members) < 2 and x not in members:
            members.append(x)

    def literals(x):
        out = {}
        c = by_name.get(x[1], {})
        if c.get("base"):
            out.update(literals(["cls", c["base"]]))
        for f in c.get("fields", ()):
            t = f["type"][1] if f["type"][0] == "ann" else f["type"]
            if t[0] == "lit":
                out[wire_name(f)] = set(map(repr, t[1:]))
        return out

    if all(x[0] in ("cls", "ref") for x in members):
        props = [literals(x) for x in members]
        common = set.intersection(*[set(p) for p in props])
        if common and any(x[0] == "ref" for x in members):
            return ["union", *members[1:], ["int"]]
        for name in common:
            for i, p in enumerate(props):
                if any(p[name] & q[name] for q in props[:i]):
                    return ["union", *members[1:], ["int"]]
    return ["union", *members]


# ---------------------------------------------------------------------------------------------------------------------
# loading
# ---------------------------------------------------------------------------------------------------------------------


class SeededMeta(type):
    "Classes whose hash code is a function of their name and a seed, such that set iteration order is an input."

    seed = 0

    def __hash__(cls):
        if SeededMeta.seed % 5 == 0:
            # many classes have the same hash code
            return len(cls.__qualname__) % 2
        h = 1469598103934665603 ^ SeededMeta.seed
        for ch in cls.__qualname__:
            h = ((h ^ ord(ch)) * 1099511628211) & 0x0FFFFFFFFFFFFFFF
        return h >> 7

    def __eq__(cls, other):
        return cls is other


class SeededEnumMeta(enum.EnumMeta):
    "Same for enumerations."

    __hash__ = SeededMeta.__hash__
    __eq__ = SeededMeta.__eq__


class Universe:
    "Classes loaded from a specification."

    def __init__(self, spec, metahash=False, hook=None, late=0):
        "Classes from index `late` on (if not zero) of the first module are defined by `load_late` only."
        self.spec = spec
        self.late = late
        self.metahash = metahash
        self.modules = {}
        self.cid_by_class = {}
        self.class_by_cid = {}
        self.spec_by_cid = {}
        self.codes = []
        for m in spec["modules"]:
            self.load(m, metahash, hook)

    def load(self, m, metahash=False, hook=None):
        name = m["name"]
        mod = types.ModuleType(name)
        sys.modules[name] = mod
        late = self.late if m is self.spec["modules"][0] else 0
        classes = m["classes"][:late] if late else m["classes"]
        text = render_module(dict(m, classes=classes), metahash)
        mod.__dict__["HOOK"] = hook if hook is not None else (lambda *a: None)
        mod.__dict__["SeededMeta"] = SeededMeta
        code = compile(text, f"<{name}>", "exec", dont_inherit=True)
        exec(code, mod.__dict__)
        self.modules[name] = mod
        self.codes.append(code)
        for c in classes:
            self.register(name, c, mod.__dict__[c["name"]])

    def load_late(self):
        if not self.late:
            return
        m = self.spec["modules"][0]
        mod = self.modules[m["name"]]
        for c in m["classes"][self.late :]:
            text = "\n".join(render_class(c, self.metahash)) + "\n"
            if m.get("future"):
                text = "from __future__ import annotations\n" + text
            exec(compile(text, f"<{m['name']}>", "exec", dont_inherit=True), mod.__dict__)
            self.register(m["name"], c, mod.__dict__[c["name"]])
        self.late = 0

    def register(self, module, c, cls, cid=None):
        cid = cid or f"{module}.{c['name']}"
        self.spec_by_cid[cid] = c
        self.class_by_cid[cid] = cls
        if c["kind"] != "alias":
            self.cid_by_class[id(cls)] = cid

    def module(self, t_module=None):
        name = t_module or self.spec["modules"][0]["name"]
        return self.modules[name]

    def typ(self, t, module=None):
        "Evaluates a type expression to a type or special form."
        mod = self.module(module)
        return eval(render(t), mod.__dict__)


class Generations(Universe):
    """
    Several definitions of classes that share module and name. Each generation is a module of its own to the reference
    model; its classes are defined on request: in the module, in a function, or nested in a class.
    """

    def __init__(self, spec):
        super().__init__({"modules": []})
        self.spec = spec
        self.gens = {m["name"]: m for m in spec["modules"]}
        self.scopes = {}
        for name in {m["real"] for m in spec["modules"]}:
            self.load({"name": name, "classes": []})

    def module(self, t_module=None):
        return self.modules[self.gens[t_module or next(iter(self.gens))]["real"]]

    def define(self, g):
        m = self.gens[g]
        mod = self.modules[m["real"]]
        lines = []
        for c in m["classes"]:
            lines.extend(render_class(c))
        if m["site"] == "local":
            lines = ["def make():"] + ["    " + x for x in lines] + ["    return dict(locals())"]
        elif m["site"] == "nested":
            lines = [f"class Outer{m['outer']}:"] + ["    " + x for x in lines] + ["    pass"]
        exec(compile("\n".join(lines) + "\n", f"<{m['real']}>", "exec", dont_inherit=True), mod.__dict__)
        if m["site"] == "local":
            scope = mod.make()
        elif m["site"] == "nested":
            scope = dict(mod.__dict__[f"Outer{m['outer']}"].__dict__)
        else:
            scope = mod.__dict__
        self.scopes[g] = {c["name"]: scope[c["name"]] for c in m["classes"]}
        for c in m["classes"]:
            self.register(g, c, scope[c["name"]])

    def discard(self, g):
        m = self.gens[g]
        mod = self.modules[m["real"]]
        for c in m["classes"]:
            cid = f"{g}.{c['name']}"
            cls = self.class_by_cid.pop(cid, None)
            if cls is None:
                continue
            if self.cid_by_class.get(id(cls)) == cid:
                del self.cid_by_class[id(cls)]
            if m["site"] == "module" and mod.__dict__.get(c["name"]) is cls:
                del mod.__dict__[c["name"]]
        if m["site"] == "nested":
            mod.__dict__.pop(f"Outer{m['outer']}", None)
        self.scopes.pop(g, None)

    def current(self, g):
        "Whether the module has the classes of this generation under their names."
        mod = self.module(g)
        return all(mod.__dict__.get(name) is cls for name, cls in self.scopes[g].items())

    def typ(self, t, module=None):
        scope = dict(self.module(module).__dict__)
        scope.update(self.scopes[module])
        return eval(render(t), scope)
