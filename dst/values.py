"Converts between Python objects of a loaded universe and canonical trees, type-exact in both directions."

import dataclasses
import datetime
import enum
import ipaddress
import uuid

from .model import cdict, cset


class NotCanonical(Exception):
    pass


def canon(x, u):
    t = type(x)
    if x is None:
        return ["none"]
    if t is bool:
        return ["bool", x]
    if t is int:
        return ["int", x]
    if t is float:
        return ["float", repr(x)]
    if t is str:
        return ["str", x]
    if t is bytes:
        return ["bytes", x.hex()]
    if t is datetime.datetime:
        return ["datetime", x.isoformat()]
    if t is datetime.date:
        return ["date", x.isoformat()]
    if t is datetime.time:
        return ["time", x.isoformat()]
    if t is datetime.timedelta:
        return ["td", x.days, x.seconds, x.microseconds]
    if t is uuid.UUID:
        return ["uuid", x.hex]
    if t is ipaddress.IPv4Address:
        return ["ip4", str(x)]
    if t is ipaddress.IPv6Address:
        return ["ip6", str(x)]
    if t is list:
        return ["list", [canon(i, u) for i in x]]
    if t is tuple:
        return ["tuple", [canon(i, u) for i in x]]
    if t is set:
        return cset([canon(i, u) for i in x])
    if t is dict:
        return cdict([[canon(k, u), canon(v, u)] for k, v in x.items()])
    cid = u.cid_by_class.get(id(t))
    if cid is None:
        return ["alien", t.__module__, t.__qualname__]
    c = u.spec_by_cid[cid]
    if isinstance(x, enum.Enum):
        return ["enum", cid, x.name]
    if c["kind"] == "custom":
        return ["custom", cid, canon(x.payload, u)]
    names = field_names(t, c)
    values = []
    for n in names:
        try:
            v = getattr(x, n)
        except AttributeError:
            values.append([n, ["missing"]])
            continue
        values.append([n, canon(v, u)])
    extra = sorted(set(getattr(x, "__dict__", ())) - set(names))
    if extra:
        return ["obj", cid, values, ["extra", extra]]
    return ["obj", cid, values]


def field_names(cls, c):
    if c["kind"] == "dataclass":
        return [f.name for f in dataclasses.fields(cls)]
    if c["kind"] == "namedtuple":
        return list(cls._fields)
    names = []
    for b in reversed(cls.__mro__):
        names.extend(b.__dict__.get("__annotations__", ()))
    return names


# values that cannot be serialized
BAD = {
    "naive": lambda: datetime.datetime(2020, 1, 2, 3, 4, 5),
    "function": lambda: canon,
    "class": lambda: datetime.date,
    "module": lambda: datetime,
}


def build(c, u):
    "Creates the Python object for a canonical tree."
    k = c[0]
    if k == "none":
        return None
    if k in ("bool", "int", "str"):
        return c[1]
    if k == "float":
        return float(c[1])
    if k == "bytes":
        return bytes.fromhex(c[1])
    if k == "datetime":
        return datetime.datetime.fromisoformat(c[1])
    if k == "date":
        return datetime.date.fromisoformat(c[1])
    if k == "time":
        return datetime.time.fromisoformat(c[1])
    if k == "td":
        return datetime.timedelta(*c[1:])
    if k == "uuid":
        return uuid.UUID(hex=c[1])
    if k == "ip4":
        return ipaddress.IPv4Address(c[1])
    if k == "ip6":
        return ipaddress.IPv6Address(c[1])
    if k == "list":
        return [build(x, u) for x in c[1]]
    if k == "tuple":
        return tuple(build(x, u) for x in c[1])
    if k == "set":
        return {build(x, u) for x in c[1]}
    if k == "dict":
        return {build(a, u): build(b, u) for a, b in c[1]}
    if k == "enum":
        return u.class_by_cid[c[1]][c[2]]
    if k == "custom":
        return u.class_by_cid[c[1]](build(c[2], u))
    if k == "bad":
        return BAD[c[1]]()
    if k == "plain":
        return u.module().Plain(**{n: build(v, u) for n, v in c[1]})
    if k == "pair":
        return u.module().Pair(build(c[1], u), build(c[2], u))
    if k == "obj":
        cls = u.class_by_cid[c[1]]
        spec = u.spec_by_cid[c[1]]
        kw = {n: build(v, u) for n, v in c[2]}
        if spec["kind"] == "typed":
            obj = cls.__new__(cls)
            for n, v in kw.items():
                setattr(obj, n, v)
            return obj
        return cls(**kw)
    raise NotCanonical(c)


def mutate(x, seen=None):
    "Destroys all mutable parts of an object in place (containers and data class instances)."
    if seen is None:
        seen = set()
    if id(x) in seen:
        return
    seen.add(id(x))
    if type(x) is list:
        for i in list(x):
            mutate(i, seen)
        x.append("MUTATED")
        x.reverse()
    elif type(x) is dict:
        for v in list(x.values()):
            mutate(v, seen)
        for k in list(x)[:1]:
            x[k] = "MUTATED"
        try:
            x["MUTATED"] = "MUTATED"
        except TypeError:
            pass
    elif type(x) is set:
        x.clear()
        x.add("MUTATED")
    elif type(x) is tuple or (isinstance(x, tuple)):
        for i in x:
            mutate(i, seen)
    elif isinstance(x, (enum.Enum, type)):
        pass
    else:
        d = getattr(x, "__dict__", None)
        names = list(d) if d is not None else list(getattr(type(x), "__slots__", ()))
        if type(x).__module__.startswith("simu_"):
            for n in names:
                try:
                    v = getattr(x, n)
                except AttributeError:
                    continue
                mutate(v, seen)
                try:
                    object.__setattr__(x, n, "MUTATED")
                except (AttributeError, TypeError):
                    pass


def mutable_parts(x, out, seen=None):
    "Collects the mutable parts of an object by identity."
    if seen is None:
        seen = set()
    if id(x) in seen:
        return
    seen.add(id(x))
    t = type(x)
    if t in (list, set, dict):
        out[id(x)] = x
        for i in x.values() if t is dict else x:
            mutable_parts(i, out, seen)
    elif isinstance(x, tuple):
        for i in x:
            mutable_parts(i, out, seen)
    elif isinstance(x, (enum.Enum, type)):
        return
    elif t.__module__.startswith("simu_"):
        out[id(x)] = x
        d = getattr(x, "__dict__", None)
        for n in list(d) if d is not None else list(getattr(t, "__slots__", ())):
            if hasattr(x, n):
                mutable_parts(getattr(x, n), out, seen)
