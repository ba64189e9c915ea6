"Damage done to a JSON document in transit."

import copy

SCALARS = [None, True, False, 0, 1, -1, 2, 1.0, 1.5, 1e308, 10**400, "", "a", "1", "true", "null", "P", "-P1D", "PT1.0000001S", "NaN", "Infinity", "-Infinity", "1e3", "0x10", "1_000", "True"]
NASTY = [
    [],
    {},
    [[]],
    [{}],
    {"": None},
    "2020-13-01",
    "2020-02-30",
    "0001-01-01T00:00:00",
    "99999-01-01",
    "AAA",
    "====",
    "\u0661",
    "PT",
    "P99999999999D",
    "\ud800",
    "1.2.3",
    "::g",
    "00000000-0000-0000-0000-00000000000",
    2**63,
    -(10**30),
]

AFFIXES = [
    lambda x, n: f"{x}/{n}",
    lambda x, n: f"{x}%{n}",
    lambda x, n: f"+{x}",
    lambda x, n: f" {x}",
    lambda x, n: f"{{{x}}}",
    lambda x, n: f"urn:uuid:{x}",
    lambda x, n: f"{x}Z",
    lambda x, n: f"{x}T00:00:00Z",
    lambda x, n: f"{x}+00:00",
    lambda x, n: f"{x}.{n}",
    lambda x, n: f"{x}=",
    lambda x, n: x.swapcase(),
    lambda x, n: x[1:],
    lambda x, n: x[: n % (len(x) + 1)] + "_" + x[n % (len(x) + 1) :],
    lambda x, n: x[: n % (len(x) + 1)] + " " + x[n % (len(x) + 1) :],
    lambda x, n: x[: n % (len(x) + 1)] + x[n % (len(x) + 1) + 1 :],
]


def alter(rng, text):
    "Another text, often one that is still close to something meaningful."
    how = AFFIXES
    if text.count(".") == 3 or "::" in text or text.count(":") == 7:
        # network addresses
        how = AFFIXES[:4] if rng.random() < 0.5 else AFFIXES
    return rng.choice(how)(text, rng.randint(0, 32))


def nodes(doc, path=()):
    yield path
    if type(doc) is dict:
        for k in doc:
            yield from nodes(doc[k], path + (k,))
    elif type(doc) is list:
        for i in range(len(doc)):
            yield from nodes(doc[i], path + (i,))


def get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def put(doc, path, v):
    if not path:
        return v
    get(doc, path[:-1])[path[-1]] = v
    return doc


def pick_node(rng, doc):
    paths = list(nodes(doc))
    return rng.choice(paths)


def one(rng, doc, more=()):
    path = pick_node(rng, doc)
    x = get(doc, path)
    kind = rng.choice(["text", "scalar", "scalar", "nasty", "wrap", "typeswap", "drop", "add", "rename", "dup", "cut", "swap", "move"])
    if kind == "text" and type(x) is str:
        return put(doc, path, alter(rng, x)), kind
    if kind in ("scalar", "text"):
        if more and rng.random() < 0.4:
            return put(doc, path, rng.choice(more)), kind
        return put(doc, path, copy.deepcopy(rng.choice(SCALARS))), kind
    if kind == "nasty":
        return put(doc, path, copy.deepcopy(rng.choice(NASTY))), kind
    if kind == "wrap":
        return put(doc, path, rng.choice([[x], {"v": x}])), kind
    if kind == "typeswap":
        if type(x) is bool:
            y = rng.choice([int(x), str(x).lower()])
        elif type(x) is int:
            y = rng.choice([str(x), x != 0, [x], x + 0.5 if abs(x) < 2**50 else str(x)])
            if rng.random() < 0.3 and abs(x) < 2**50:
                y = float(x)
        elif type(x) is float:
            y = rng.choice([repr(x), [x]])
        elif type(x) is str:
            y = rng.choice([[x], {x: x}, list(x[:3]), x + " ", x + "\n", x.upper(), x[:-1], x + x])
        elif x is None:
            y = rng.choice(["null", 0, False, [], {}])
        elif type(x) is list:
            y = {str(i): v for i, v in enumerate(x)}
        else:
            y = rng.choice([list(x.values()), list(x), [[k, v] for k, v in x.items()]])
        return put(doc, path, y), kind
    if kind in ("drop", "rename", "cut") and type(x) is dict and x:
        k = rng.choice(list(x))
        v = x.pop(k)
        if kind == "rename":
            words = [w for w in more if type(w) is str]
            if words and rng.random() < 0.5:
                x[rng.choice(words)] = v
            else:
                x[k + rng.choice(["_", " ", "x", ""])] = v
        return doc, kind
    if kind in ("add", "move", "wrap") and type(x) is dict:
        x[rng.choice(["zz", "", "in", "in_", "value_", "__class__", "payload", "self"])] = rng.choice([None, 1, "x", [], {}])
        return doc, "add"
    if kind in ("drop", "cut") and type(x) is list and x:
        del x[rng.randrange(len(x))]
        return doc, kind
    if kind in ("dup", "add") and type(x) is list and x:
        x.insert(rng.randrange(len(x) + 1), copy.deepcopy(rng.choice(x)))
        return doc, "dup"
    if kind == "swap" or kind == "move":
        other = pick_node(rng, doc)
        if other[: len(path)] != path and path[: len(other)] != other:
            a, b = get(doc, path), get(doc, other)
            doc = put(doc, path, b)
            return put(doc, other, a), "swap"
    return put(doc, path, copy.deepcopy(rng.choice(SCALARS))), "scalar"


def damage(rng, doc, n=1, more=()):
    "`more` are scalars that other parts of the system use."
    doc = copy.deepcopy(doc)
    kinds = []
    for _ in range(n):
        doc, k = one(rng, doc, more)
        kinds.append(k)
    return doc, kinds


def vocabulary(spec):
    "Names and values that the types of a universe use."
    out = []
    for m in spec["modules"]:
        for c in m["classes"]:
            out.append(c["name"])
            for n, v in c.get("members", ()):
                out += [n, v, f"{c['name']}.{n}"]
            for f in c.get("fields", ()):
                out.append(f["name"])
                t = f["type"]
                if t[0] == "lit":
                    out += t[1:]
    return list({repr(x): x for x in out}.values())
