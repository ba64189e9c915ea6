"""
Reference model: what a JSON document means as a value of a type, what a value looks like as a JSON document, and random
documents of a type. Works on specifications (see `universe`) only; does not use strong_typing.

A value is represented by a canonical tree (JSON-serializable):
  ["none"] ["bool", b] ["int", n] ["float", repr] ["str", s] ["bytes", hex] ["datetime", iso] ["date", iso] ["time", iso]
  ["td", days, seconds, microseconds] ["uuid", hex] ["ip4", s] ["ip6", s]
  ["list", items] ["set", sorted items] ["dict", [[key, value]...] sorted] ["tuple", items] ["enum", cid, member]
  ["obj", cid, [[field, value]...]] ["custom", cid, value]
"""

import base64
import datetime
import ipaddress
import json
import re
import uuid

from .universe import wire_name


class Reject(Exception):
    "The document does not represent a value of the type."


class Unspecified(Exception):
    "The properties do not tell whether (or as what) the document is accepted."


def canon_key(c):
    return json.dumps(c, sort_keys=True)


def cset(items):
    seen = {}
    for i in items:
        seen.setdefault(canon_key(i), i)
    return ["set", [seen[k] for k in sorted(seen)]]


def cdict(pairs):
    seen = {}
    for k, v in pairs:
        seen[canon_key(k)] = [k, v]
    return ["dict", [seen[k] for k in sorted(seen)]]


def is_int(d):
    return type(d) is int


def is_num(d):
    return type(d) in (int, float)


TD = re.compile(r"(-)?P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d{1,9}))?S)?)?\Z", re.ASCII)


def td_text(days, seconds, micros):
    td = datetime.timedelta(days=days, seconds=seconds, microseconds=micros)
    sign = ""
    if td.days < 0:
        sign = "-"
        td = -td
    out = f"P{td.days}D" if td.days else "P"
    if td.seconds or td.microseconds or not td.days:
        out += "T"
        h, rem = divmod(td.seconds, 3600)
        m, s = divmod(rem, 60)
        if td.microseconds % 1000:
            frac = f".{td.microseconds:06d}"
        elif td.microseconds:
            frac = f".{td.microseconds // 1000:03d}"
        else:
            frac = ""
        if h:
            out += f"{h}H{m}M{s}{frac}S"
        elif m:
            out += f"{m}M{s}{frac}S"
        else:
            out += f"{s}{frac}S"
    return sign + out


def con_base(t):
    "The type that a constrained type is derived from; de-serialization does not check constraints."
    if t[1] == "aux":
        return "float" if t[2].startswith("float") else "int"
    return t[1]


class Model:
    def __init__(self, spec, main=None):
        self.by_name = {}
        self.by_cid = {}
        for m in spec["modules"]:
            names = {}
            for c in m["classes"]:
                names[c["name"]] = (f"{m['name']}.{c['name']}", c)
                self.by_cid[f"{m['name']}.{c['name']}"] = c
            self.by_name[m["name"]] = names
        self.main = main or spec["modules"][0]["name"]
        for m in spec["modules"]:
            for other, names in m.get("imports", []):
                for n in names:
                    self.by_name[m["name"]].setdefault(n, self.by_name[other][n])
        self.skip = False
        self.spec = spec
        self._words = None

    def words(self):
        "Names and values that the types use."
        if self._words is None:
            from .damage import vocabulary

            self._words = vocabulary(self.spec)
        return self._words

    def lookup(self, name, module):
        return self.by_name[module][name]

    def module_of(self, cid):
        return cid.rsplit(".", 1)[0]

    def all_fields(self, cid, c):
        "Fields of a class including inherited ones, with the module in which their types are evaluated."
        fields = []
        module = self.module_of(cid)
        if c.get("base"):
            bcid, b = self.lookup(c["base"], module)
            fields.extend(self.all_fields(bcid, b))
        for f in c["fields"]:
            fields.append((f, module))
        return fields

    def resolve(self, t, module, constraints=False):
        "Strips references to aliases and annotations; returns (type, module)."
        while True:
            if t[0] == "con" and not constraints:
                return [con_base(t)], module
            if t[0] == "ann":
                t = t[1]
                continue
            if t[0] in ("ref", "cls"):
                cid, c = self.lookup(t[1], module)
                if c["kind"] == "alias":
                    t, module = c["type"], self.module_of(cid)
                    continue
            return t, module

    # -----------------------------------------------------------------------------------------------------------------
    # parsing
    # -----------------------------------------------------------------------------------------------------------------

    def outcome(self, t, doc, skip=False, module=None):
        "Returns ('ok', canon), ('maybe', canon), ('rej',) or ('any',)."
        self.skip = skip
        self.maybe = False
        try:
            c = self.parse(t, doc, module or self.main)
        except Reject:
            return ("rej",) if not self.maybe else ("any",)
        except Unspecified:
            return ("any",)
        except RecursionError:
            return ("any",)
        return ("maybe", c) if self.maybe else ("ok", c)

    def parse(self, t, d, module):
        t, module = self.resolve(t, module)
        return getattr(self, "p_" + t[0])(t, d, module)

    def p_none(self, t, d, m):
        if d is not None:
            raise Reject
        return ["none"]

    def p_bool(self, t, d, m):
        if type(d) is not bool:
            raise Reject
        return ["bool", d]

    def p_int(self, t, d, m):
        if not is_int(d):
            raise Reject
        return ["int", d]

    def p_float(self, t, d, m):
        if not is_num(d):
            raise Reject
        try:
            return ["float", repr(float(d))]
        except OverflowError:
            raise Reject

    def p_str(self, t, d, m):
        if type(d) is not str:
            raise Reject
        return ["str", d]

    def p_bytes(self, t, d, m):
        if type(d) is not str:
            raise Reject
        try:
            v = base64.b64decode(d, validate=True)
        except ValueError:
            raise Reject
        if base64.b64encode(v).decode("ascii") != d:
            self.maybe = True
        return ["bytes", v.hex()]

    def p_datetime(self, t, d, m):
        if type(d) is not str:
            raise Reject
        s = d[:-1] + "+00:00" if d.endswith("Z") else d
        try:
            v = datetime.datetime.fromisoformat(s)
        except ValueError:
            raise Reject
        if v.tzinfo is None:
            raise Reject
        iso = v.isoformat()
        if iso != d and not (iso.endswith("+00:00") and iso[:-6] + "Z" == d):
            self.maybe = True
        return ["datetime", iso]

    def p_date(self, t, d, m):
        if type(d) is not str:
            raise Reject
        try:
            v = datetime.date.fromisoformat(d)
        except ValueError:
            raise Reject
        if v.isoformat() != d:
            self.maybe = True
        return ["date", v.isoformat()]

    def p_time(self, t, d, m):
        if type(d) is not str:
            raise Reject
        try:
            v = datetime.time.fromisoformat(d)
        except ValueError:
            raise Reject
        if v.isoformat() != d:
            self.maybe = True
        return ["time", v.isoformat()]

    def p_td(self, t, d, m):
        if type(d) is not str:
            raise Reject
        x = TD.match(d)
        if not x:
            if TD.match(d.strip()):
                raise Unspecified
            raise Reject
        sign, w, dd, h, mi, s, frac = x.groups()
        n = int((frac or "0").ljust(9, "0"))
        if n % 1000:
            raise Reject
        try:
            v = datetime.timedelta(
                days=7 * int(w or 0) + int(dd or 0),
                seconds=3600 * int(h or 0) + 60 * int(mi or 0) + int(s or 0),
                microseconds=n // 1000,
            )
            if sign:
                v = -v
        except (OverflowError, ValueError):
            raise Reject
        if td_text(v.days, v.seconds, v.microseconds) != d:
            self.maybe = True
        return ["td", v.days, v.seconds, v.microseconds]

    def p_uuid(self, t, d, m):
        if type(d) is not str:
            raise Reject
        try:
            v = uuid.UUID(d)
        except ValueError:
            raise Reject
        if str(v) != d:
            self.maybe = True
        return ["uuid", v.hex]

    def p_ip4(self, t, d, m):
        if type(d) is not str:
            raise Reject
        try:
            v = ipaddress.IPv4Address(d)
        except ValueError:
            raise Reject
        if str(v) != d:
            self.maybe = True
        return ["ip4", str(v)]

    def p_ip6(self, t, d, m):
        if type(d) is not str:
            raise Reject
        try:
            v = ipaddress.IPv6Address(d)
        except ValueError:
            raise Reject
        if str(v) != d:
            self.maybe = True
        return ["ip6", str(v)]

    def p_json(self, t, d, m):
        if d is None:
            return ["none"]
        k = type(d)
        if k is bool:
            return ["bool", d]
        if k is int:
            return ["int", d]
        if k is float:
            return ["float", repr(d)]
        if k is str:
            return ["str", d]
        if k is dict:
            return cdict([[["str", a], self.p_json(t, b, m)] for a, b in d.items()])
        if k is list:
            return ["list", [self.p_json(t, x, m) for x in d]]
        raise Reject

    def p_list(self, t, d, m):
        if type(d) is not list:
            raise Reject
        return ["list", [self.parse(t[1], x, m) for x in d]]

    def p_set(self, t, d, m):
        if type(d) is not list:
            raise Reject
        return cset([self.parse(t[1], x, m) for x in d])

    def p_dict(self, t, d, m):
        if type(d) is not dict:
            raise Reject
        return cdict([[["str", k], self.parse(t[1], v, m)] for k, v in d.items()])

    def p_edict(self, t, d, m):
        if type(d) is not dict:
            raise Reject
        cid, c = self.lookup(t[1], m)
        return cdict([[self.enum(cid, c, k), self.parse(t[2], v, m)] for k, v in d.items()])

    def p_tuple(self, t, d, m):
        if type(d) is not list or len(d) != len(t) - 1:
            raise Reject
        return ["tuple", [self.parse(x, y, m) for x, y in zip(t[1:], d)]]

    def p_opt(self, t, d, m):
        # `Optional[X]` outside of fields is the union of `X` and `None`
        if d is None:
            return ["none"]
        return self.parse(t[1], d, m)

    p_popt = p_opt

    def p_union(self, t, d, m):
        discs = self.discriminators(t, m)
        if discs:
            return self.tagged(t, d, m, discs)
        outer = self.maybe
        uncertain = False
        for x in t[1:]:
            self.maybe = False
            try:
                c = self.parse(x, d, m)
            except Reject:
                if self.maybe:
                    uncertain = True
                continue
            if self.maybe or uncertain:
                raise Unspecified
            self.maybe = outer
            return c
        if uncertain:
            raise Unspecified
        self.maybe = outer
        raise Reject

    def discriminators(self, t, m):
        "JSON names of literal properties common to all members of a union."
        common = None
        for x in t[1:]:
            if x[0] != "cls":
                return {}
            cid, c = self.lookup(x[1], m)
            if c["kind"] not in ("dataclass", "namedtuple", "typed"):
                return {}
            fields = [(f, f["type"][1] if f["type"][0] == "ann" else f["type"]) for f, _ in self.all_fields(cid, c)]
            props = {wire_name(f): f for f, t in fields if t[0] == "lit"}
            common = props if common is None else {k: v for k, v in common.items() if k in props}
        return common or {}

    def tagged(self, t, d, m, discs):
        if type(d) is not dict:
            raise Reject
        accepted = []
        missing = False
        for name in discs:
            if d.get(name) is None:
                missing = True
        outer = self.maybe
        for x in t[1:]:
            self.maybe = False
            try:
                c = self.parse(x, d, m)
                accepted.append((c, self.maybe))
            except Reject:
                if self.maybe:
                    accepted.append((None, True))
        self.maybe = outer
        if not accepted:
            raise Reject
        if missing or len(accepted) > 1 or accepted[0][1]:
            raise Unspecified
        return accepted[0][0]

    def p_lit(self, t, d, m):
        for v in t[1:]:
            if type(v) is type(d) and v == d:
                return ["str" if type(v) is str else "int", v]
        raise Reject

    def enum(self, cid, c, d):
        for name, v in c["members"]:
            if type(v) is type(d) and v == d:
                return ["enum", cid, name]
            if is_num(d) and is_num(v) and v == d:
                # 1 and 1.0 are the same JSON number
                self.maybe = True
                return ["enum", cid, name]
        raise Reject

    def p_cls(self, t, d, m):
        cid, c = self.lookup(t[1], m)
        return self.p_class(cid, c, d)

    p_ref = p_cls

    def p_class(self, cid, c, d):
        kind = c["kind"]
        module = self.module_of(cid)
        if kind == "enum":
            return self.enum(cid, c, d)
        if kind == "custom":
            # the hook itself calls the library with default options
            if type(d) is not dict or list(d) != [c["key"]]:
                raise Reject
            v = d[c["key"]]
            if c["reenter"]:
                skip, self.skip = self.skip, False
                try:
                    return ["custom", cid, self.parse(c["inner"], v, module)]
                finally:
                    self.skip = skip
            if not is_int(v):
                raise Reject
            return ["custom", cid, ["int", v]]
        if type(d) is not dict:
            raise Reject
        values = []
        known = set()
        for f, fm in self.all_fields(cid, c):
            w = wire_name(f)
            known.add(w)
            values.append([f["name"], self.field(f, fm, d, w)])
        if not self.skip and set(d) - known:
            raise Reject
        return ["obj", cid, values]

    def default(self, f, fm):
        t = f["type"]
        if "default" in f:
            if f["default"][0] is None:
                return ["none"]
            t = t[1] if t[0] in ("opt", "popt") else t
            maybe, self.maybe = self.maybe, False
            c = self.parse(t, f["default"][0], fm)
            self.maybe = maybe
            return c
        maybe = self.maybe
        c = self.parse(t, f["factory"][0], fm)
        self.maybe = maybe
        return c

    def is_optional(self, t):
        # as written in the field, not through aliases by name
        while t[0] == "ann":
            t = t[1]
        return t[0] in ("opt", "popt", "json")

    def field(self, f, fm, d, w):
        t = f["type"]
        v = d.get(w)
        if v is not None:
            return self.parse(t, v, fm)
        if "default" in f or "factory" in f:
            return self.default(f, fm)
        if self.is_optional(t):
            return ["none"]
        raise Reject

    # -----------------------------------------------------------------------------------------------------------------
    # serialization
    # -----------------------------------------------------------------------------------------------------------------

    def ser(self, c):
        "Returns the expected JSON document for a value; sets appear as ('set', items)."
        k = c[0]
        if k == "none":
            return None
        if k in ("bool", "int", "str", "date", "time", "ip4", "ip6"):
            return c[1]
        if k == "float":
            return float(c[1])
        if k == "bytes":
            return base64.b64encode(bytes.fromhex(c[1])).decode("ascii")
        if k == "datetime":
            return c[1][:-6] + "Z" if c[1].endswith("+00:00") else c[1]
        if k == "td":
            return td_text(*c[1:])
        if k == "uuid":
            return str(uuid.UUID(hex=c[1]))
        if k in ("list", "tuple"):
            return [self.ser(x) for x in c[1]]
        if k == "set":
            return ("set", [self.ser(x) for x in c[1]])
        if k == "dict":
            return {self.ser(a): self.ser(b) for a, b in c[1]}
        if k == "enum":
            for n, v in self.by_cid[c[1]]["members"]:
                if n == c[2]:
                    return v
        if k == "custom":
            return {self.by_cid[c[1]]["key"]: self.ser(c[2])}
        if k == "plain":
            return {n: self.ser(v) for n, v in sorted(c[1]) if v[0] != "none"}
        if k == "pair":
            return {"x": self.ser(c[1]), "y": self.ser(c[2])}
        if k == "obj":
            spec = self.by_cid[c[1]]
            wires = {f["name"]: wire_name(f) for f, _ in self.all_fields(c[1], spec)}
            return {wires[n]: self.ser(v) for n, v in c[2] if v[0] != "none"}
        raise AssertionError(c)


def doc_match(expected, actual):
    "Compares an expected document (sets as ('set', items)) with an actual document, exact in JSON type."
    if isinstance(expected, tuple):
        if type(actual) is not list or len(actual) != len(expected[1]):
            return False
        rest = list(actual)
        for e in expected[1]:
            for i, a in enumerate(rest):
                if doc_match(e, a):
                    del rest[i]
                    break
            else:
                return False
        return True
    if type(expected) is not type(actual):
        return False
    if type(expected) is list:
        return len(expected) == len(actual) and all(doc_match(e, a) for e, a in zip(expected, actual))
    if type(expected) is dict:
        return expected.keys() == actual.keys() and all(doc_match(v, actual[k]) for k, v in expected.items())
    if type(expected) is float:
        return repr(expected) == repr(actual)
    return expected == actual


# ---------------------------------------------------------------------------------------------------------------------
# documents
# ---------------------------------------------------------------------------------------------------------------------

STRINGS = ["", "a", "abc", "é", "null", "1", "true", "line\nbreak", "\u2028", "\U0001f600", "2020-01-01", "AAAA", "x" * 40, "\x00", "a\rb\tc", '"\\', "e\u0301", "\ufb01 A\u030a", "\ufeffx", " x\t", "\u00a0", "\u0130I\u0131", "\u200b"]
INTS = [0, 1, -1, 2, 7, 255, -(2**31), 2**53 + 1, 10**30]
FLOATS = [0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, 0.1]


class DocGen:
    "Random documents that represent a value of a type."

    def __init__(self, rng, model, budget=60, extreme=True):
        self.rng = rng
        self.m = model
        self.budget = budget
        self.extreme = extreme

    def gen(self, t, module=None, depth=4):
        t, module = self.m.resolve(t, module or self.m.main, constraints=True)
        self.budget -= 1
        return getattr(self, "g_" + t[0])(t, module, depth)

    def g_none(self, t, m, d):
        return None

    def g_bool(self, t, m, d):
        return self.rng.random() < 0.5

    def g_int(self, t, m, d):
        return self.rng.choice(INTS) if self.rng.random() < 0.5 else self.rng.randint(-50, 50)

    def g_float(self, t, m, d):
        return self.rng.choice(FLOATS) if self.rng.random() < 0.6 else self.rng.uniform(-10, 10)

    def g_str(self, t, m, d):
        if self.rng.random() < 0.02:
            # longer than what is handled at once
            return self.rng.choice(["ab ", "é\n", "0"]) * self.rng.choice([100, 1000, 3000])
        return self.rng.choice(STRINGS)

    def g_bytes(self, t, m, d):
        n = self.rng.randint(0, 6)
        if self.rng.random() < 0.1:
            n = self.rng.choice([50, 57, 58, 100, 3000])
        return base64.b64encode(self.rng.randbytes(n)).decode("ascii")

    def g_datetime(self, t, m, d):
        r = self.rng
        tz = datetime.timezone(datetime.timedelta(seconds=60 * r.choice([0, 0, 0, 60, -300, 345])))
        if r.random() < 0.15:
            # local mean time
            tz = datetime.timezone(datetime.timedelta(seconds=r.choice([30, -30, 1172, -17762, 1, 86399])))
        v = datetime.datetime(
            r.randint(1970, 2100) if r.random() < 0.9 else r.choice([1, 999, 1899, 9999]),
            r.randint(1, 12),
            r.randint(1, 28),
            r.randint(0, 23),
            r.randint(0, 59),
            r.randint(0, 59),
            r.choice([0, 0, 123000, 1]),
            tzinfo=tz,
        )
        iso = v.isoformat()
        return iso[:-6] + "Z" if iso.endswith("+00:00") else iso

    def g_date(self, t, m, d):
        r = self.rng
        return datetime.date(r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28)).isoformat()

    def g_time(self, t, m, d):
        r = self.rng
        tz = r.choice([None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=2))])
        if r.random() < 0.1:
            tz = datetime.timezone(datetime.timedelta(seconds=r.choice([30, -30, 1172])))
        return datetime.time(
            r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 500000, 17]), tzinfo=tz
        ).isoformat()

    def g_td(self, t, m, d):
        r = self.rng
        days = r.choice([0, 0, 1, 365, -1, -3, 10**6])
        secs = r.choice([0, 1, 59, 60, 3600, 86399, r.randint(0, 86399)])
        return td_text(days, secs, r.choice([0, 0, 1, 1000, 500000]))

    def g_uuid(self, t, m, d):
        return str(uuid.UUID(int=self.rng.getrandbits(128)))

    def g_ip4(self, t, m, d):
        return str(ipaddress.IPv4Address(self.rng.getrandbits(32)))

    def g_ip6(self, t, m, d):
        return str(ipaddress.IPv6Address(self.rng.choice([1, 0, self.rng.getrandbits(128)])))

    def g_con(self, t, m, d):
        r = self.rng
        if t[1] == "int":
            return r.choice([t[2], t[3], r.randint(t[2], t[3])])
        if t[1] == "str":
            low = t[2] or 0
            high = low + 4 if t[3] is None else t[3]
            return "".join(r.choice("abé\U0001f600 ") for _ in range(r.randint(low, high)))
        if t[1] == "float":
            limit = 10 ** (t[2] - t[3])
            return float(r.randint(-limit + 1, limit - 1)) + (0.5 * r.choice([0, 1, -1]) if t[3] else 0.0)
        if t[2].startswith("float"):
            return r.choice([0.5, -2.25, 3.0])
        return r.randint(0, 127) if t[2].startswith("u") else r.randint(-128, 127)

    def g_json(self, t, m, d):
        r = self.rng
        x = r.random()
        if d <= 0 or x < 0.6:
            return r.choice([None, True, False, 0, 1, 1.0, 2.5, "s", "", "null"])
        if x < 0.8:
            return [self.g_json(t, m, d - 1) for _ in range(r.randint(0, 3))]
        return {k: self.g_json(t, m, d - 1) for k in r.sample(["a", "b", "c", "é"], r.randint(0, 3))}

    def count(self, d):
        if d <= 0 or self.budget <= 0:
            return 0
        if self.rng.random() < 0.02:
            return self.rng.randint(4, 40)
        return self.rng.choice([0, 1, 1, 2, 2, 3])

    def g_list(self, t, m, d):
        return [self.gen(t[1], m, d - 1) for _ in range(self.count(d))]

    def g_set(self, t, m, d):
        out = {}
        for _ in range(self.count(d)):
            x = self.gen(t[1], m, d - 1)
            out[canon_key(x)] = x
        # members that are equal as Python values collapse
        return list(out.values())

    def g_dict(self, t, m, d):
        n = self.count(d)
        keys = self.rng.sample(["k", "key", "é", "", "0", "a b"], min(n, 5)) + [f"key {i}" for i in range(5, n)]
        return {k: self.gen(t[1], m, d - 1) for k in keys}

    def g_edict(self, t, m, d):
        _, c = self.m.lookup(t[1], m)
        vals = [v for _, v in c["members"]]
        n = min(len(vals), self.count(d))
        return {k: self.gen(t[2], m, d - 1) for k in self.rng.sample(vals, n)}

    def g_tuple(self, t, m, d):
        return [self.gen(x, m, d - 1) for x in t[1:]]

    def g_opt(self, t, m, d):
        if d <= 0 or self.budget <= 0 or self.rng.random() < 0.35:
            return None
        return self.gen(t[1], m, d - 1)

    g_popt = g_opt

    def g_union(self, t, m, d):
        if d <= 0:
            # prefer a member that ends recursion
            for x in t[1:]:
                if x[0] not in ("cls", "ref"):
                    return self.gen(x, m, d - 1)
        return self.gen(self.rng.choice(t[1:]), m, d - 1)

    def g_lit(self, t, m, d):
        return self.rng.choice(t[1:])

    def g_cls(self, t, m, d):
        cid, c = self.m.lookup(t[1], m)
        return self.g_class(cid, c, d)

    g_ref = g_cls

    def g_class(self, cid, c, d):
        if c["kind"] == "enum":
            return self.rng.choice(c["members"])[1]
        if c["kind"] == "custom":
            if c["reenter"]:
                return {c["key"]: self.gen(c["inner"], self.m.module_of(cid), d - 1)}
            return {c["key"]: self.rng.randint(0, 9)}
        out = {}
        for f, fm in self.m.all_fields(cid, c):
            optional = self.m.is_optional(f["type"]) or "default" in f or "factory" in f
            if optional and (d <= 0 or self.budget <= 0 or self.rng.random() < 0.3):
                continue
            v = self.gen(f["type"], fm, d - 1)
            if v is None and optional and self.rng.random() < 0.7:
                continue
            out[wire_name(f)] = v
        if self.rng.random() < 0.3:
            items = list(out.items())
            self.rng.shuffle(items)
            out = dict(items)
        return out
