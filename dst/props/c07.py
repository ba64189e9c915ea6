"C07: a damaged message is rejected or read exactly as it stands."

ID = "C07"
COUNTS = {"quick": 700, "thorough": 9000}
LISTS = [("threads", "*"), ("plan", "decisions")]
RULE = (
    "A sender emits 4-16 random messages of 1-3 random types through a channel that damages documents (members lost, added, "
    "renamed, nulled, swapped, values of other JSON types, names and values that other types use, arrays cut or extended, nasty strings and numbers), damages the "
    "bytes of their text (bit flips, lost, repeated and overwritten spans), duplicates and reorders; 1-3 receiver threads "
    "decode them with or without skipping unknown members. Each outcome is compared with a reference model of what the "
    "received document says. Non-trivial: the model specifies the outcome of at least one damaged and one intact message."
)
REAL = ["strong_typing.deserializer", "strong_typing.serialization", "strong_typing.exception", "json"]
STUBS = ["message channel (damage, duplication, reordering)", "thread scheduler"]
ASSUMPTIONS = [
    "bytes that are not JSON text are rejected by json.loads before the library sees them",
    "documents nested so deeply that they exhaust the call stack are outside the property",
]


def gen(rng, tier):
    from ..damage import alter, damage
    from ..work import Gen, Model, case_sched, gen_canon, gen_doc, root_type
    from .c04 import add_unknown
    from .c06 import wire

    profile = {
        "recursive": rng.choice([0.1, 0.4]),
        "custom": rng.choice([0.0, 0.1]),
        "union": rng.choice([0.12, 0.3]),
        "tagged": rng.choice([0.25, 0.7]),
        "namedtuple": rng.choice([0.1, 0.3]),
        "default": rng.choice([0.1, 0.5]),
        "edict": rng.choice([0.0, 0.0, 0.3]),
    }
    if rng.random() < 0.5:
        # few, simple types: a damage is rarely masked
        profile.update(classes=(1, 3), depth=rng.choice([0, 1]))
    spec = Gen(rng, **profile).universe()
    model = Model(spec)
    roots = [root_type(rng, spec) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.15:
        roots.append(rng.choice([[x] for x in ("bool", "int", "float", "str", "bytes", "datetime", "date", "time", "td", "uuid", "ip4", "ip6")]))
    words = model.words()
    messages = []
    texts = rng.random() < 0.2
    if texts:
        # texts with a meaning, each of them altered a little
        for _ in range(3):
            leaf = [rng.choice(["bytes", "datetime", "date", "time", "td", "uuid", "ip4", "ip6"])]
            roots.append(leaf if rng.random() < 0.7 else ["list", leaf])
    lost = 0
    for _ in range(rng.randint(4, 16)):
        t = rng.choice(roots)
        doc = gen_doc(rng, model, t, budget=12)
        if rng.random() < 0.3:
            c = gen_canon(rng, model, t, budget=12)
            if c is not None:
                doc = wire(model, c)
        kinds = []
        x = rng.random()
        if x < 0.5:
            doc, kinds = damage(rng, doc, rng.choice([1, 1, 1, 2, 3]), more=words)
        elif x < 0.6:
            doc = add_unknown(rng, doc)
            kinds = ["unknown"]
        elif x < 0.72:
            doc, ok = damage_text(rng, doc)
            if not ok:
                lost += 1
                continue
            kinds = ["text"]
        m = {"op": "de", "t": t, "doc": doc, "kinds": kinds, "via": rng.choice(["object", "generic", "caller", "create"])}
        m["skip"] = rng.choice([None, None, False, True])
        messages.append(m)
        if rng.random() < 0.1:
            messages.append(dict(m, kinds=kinds + ["duplicated"]))
        if texts and t in roots[-3:]:
            for _ in range(3):
                one = gen_doc(rng, model, t, budget=4)
                if type(one) is str:
                    one = alter(rng, one)
                elif type(one) is list and one and type(one[-1]) is str:
                    one[-1] = alter(rng, one[-1])
                messages.append(dict(m, doc=one, kinds=["text"]))
    rng.shuffle(messages)
    n = rng.choice([1, 1, 2, 3])
    return {"u": spec, "threads": [messages[i::n] for i in range(n)], "undecodable": lost, "plan": case_sched(rng, 6000)}


def damage_text(rng, doc):
    "Damages the bytes of a document until they are JSON text again."
    import json

    text = json.dumps(doc, ensure_ascii=rng.random() < 0.5).encode("utf-8", "surrogatepass")
    for _ in range(12):
        b = bytearray(text)
        for _ in range(rng.choice([1, 1, 2, 4])):
            if not b:
                break
            i = rng.randrange(len(b))
            k = rng.random()
            if k < 0.35:
                b[i] ^= 1 << rng.randrange(8)
            elif k < 0.6:
                b[i] = rng.choice(b'0123456789"eE+-.,:{}[]ntf \\u')
            elif k < 0.75:
                del b[i : i + rng.randint(1, 6)]
            elif k < 0.9:
                b[i:i] = b[i : i + rng.randint(1, 6)]
            else:
                j = rng.randrange(len(b))
                b[i], b[j] = b[j], b[i]
        if bytes(b) == text:
            continue
        try:
            new = json.loads(bytes(b))
            json.loads(json.dumps(new))
            return new, True
        except (ValueError, RecursionError):
            continue
    return None, False


def perform(env, op, t):
    from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError

    from .. import core, sched
    from ..work import prepare

    call, result = prepare(env, op)
    try:
        with sched.traced(t):
            x = call()
    except sched.SimDeadlock:
        raise
    except BaseException as ex:
        t.traced = False
        return ["err", core.errname(ex), isinstance(ex, (JsonKeyError, JsonTypeError, JsonValueError, ValueError)), str(ex)[:200]]
    return result(x)


def execute(case):
    from .. import core
    from ..work import Env, Model, result, run_threads
    from .c04 import model_verdict

    env = Env(case)
    env.setup()
    core.instrument()
    model = Model(case["u"])
    sim, outcomes = run_threads(env, case, lambda t, i, op: perform(env, op, t))
    stats = {"fault:undecodable text": case.get("undecodable", 0)}
    violation = None
    damaged = intact = 0
    if not sim.problem:
        for th, outs in zip(case["threads"], outcomes):
            for op, o in zip(th, outs):
                k = "outcome:" + (o[0] if o[0] != "err" else o[1])
                stats[k] = stats.get(k, 0) + 1
                for f in op["kinds"]:
                    stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
                before = stats.get("probe:model unspecified", 0)
                d = model_verdict(model, dict(case, engines={}), op, o[:2], stats=stats)
                if stats.get("probe:model unspecified", 0) == before:
                    damaged += bool(op["kinds"])
                    intact += not op["kinds"]
                if violation is not None:
                    continue
                if o[0] == "err" and not o[2]:
                    violation = {"class": "unexpected error", "detail": {"op": op, "got": o}}
                elif d:
                    violation = {"class": "misread", "detail": {"op": op, "got": o, "why": d}}
    return result(sim, violation, stats, nontrivial=damaged and intact)
