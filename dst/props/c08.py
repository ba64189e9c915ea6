"C08: a dumped record reaches the stream whole or is detectably absent."

import io

ID = "C08"
COUNTS = {"quick": 2400, "thorough": 16000}
LISTS = [("threads", "*"), ("plan", "decisions"), ("plan", "faults"), ("device",)]
RULE = (
    "1-4 threads dump 1-8 random JSON values each (some not representable in JSON or in the encoding of the stream, some "
    "larger than any buffer) to one stream: text streams with different buffering over a simulated device with short and "
    "interrupted writes, errors, full disk, torn writes and crash, a text file on which whole writes are atomic but threads "
    "alternate between writes, or a string buffer; interrupts, memory exhaustion and crash at random bytecodes. The bytes "
    "that arrived are compared with the history of calls. Non-trivial: a fault fired, a value was refused or threads "
    "alternated."
)
REAL = ["strong_typing.serialization (json_dump, json_dump_string)", "io.TextIOWrapper, io.BufferedWriter, io.StringIO, json"]
STUBS = ["storage device", "text file with atomic writes (one of the stream kinds)", "thread scheduler", "process crash"]
ASSUMPTIONS = [
    "a single write call of a text stream is atomic with respect to other threads (true of io.TextIOWrapper under the "
    "global interpreter lock)",
    "after an I/O error or interrupt the application closes the stream; after a refused value it goes on",
]


def json_value(rng, depth=3):
    x = rng.random()
    if depth <= 0 or x < 0.5:
        if rng.random() < 0.008:
            # larger than the buffers along the way
            return rng.choice(["w ", "é", '"', "\n"]) * rng.choice([1000, 2500, 5000, 5000, 9000, 35000, 70000])
        return rng.choice(
            [
                None,
                True,
                False,
                0,
                -1,
                10**25,
                1.0,
                -0.0,
                0.1,
                5e-324,
                1e22,
                "",
                "a b",
                "line\nfeed\r\n",
                "\u2028\u2029\x85",
                'quote " and \\ \\n',
                "é",
                "\U0001f600",
                "\x00\x1f\x7f",
                "NaN",
                "w " * rng.choice([1, 10, 300]),
            ]
        )
    n = rng.choice([0, 1, 2, 3, 5])
    if x < 0.72:
        return [json_value(rng, depth - 1) for _ in range(n)]
    keys = rng.sample(["a", "b", "", " ", "é", "\n", "key with, separators: ", "c", '"'], n)
    return {k: json_value(rng, depth - 1) for k in keys}


# values that are not JSON, by name
BAD = ["object", "set", "bytes", "key", "circular", "surrogate", "deep object", "long object"]


def bad_value(kind, doc):
    if kind == "object":
        return object()
    if kind == "set":
        return {"a": 1, "z": {1}}
    if kind == "bytes":
        return [doc, b"x"]
    if kind == "key":
        return [1, {("a",): 1}]
    if kind == "circular":
        # (it is encoded over and over until the call stack is exhausted)
        x = [doc if len(repr(doc)) < 1000 else None]
        x.append(x)
        return x
    if kind == "surrogate":
        return ["ok", "\ud800"]
    if kind == "deep object":
        return {"first": doc, "second": [[[{"x": object()}]]]}
    return {"first": ["x" * 9000, doc], "second": object()}


def gen(rng, tier):
    from .. import core
    from ..device import random_faults
    from ..work import case_sched

    stream = rng.choice(["unbuffered", "small", "line", "plain", "ascii", "wide", "atomic", "atomic", "atomic", "string"])
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            if x < 0.75:
                op = {"op": "dump", "v": json_value(rng), "flush": rng.random() < 0.5}
                if rng.random() < 0.2:
                    # a record that the application writes itself
                    op["own"] = True
            elif x < 0.9:
                op = {"op": "dump", "bad": rng.choice(BAD), "v": json_value(rng), "flush": False}
            else:
                op = {"op": "string", "v": json_value(rng)}
            ops.append(op)
        threads.append(ops)
    case = {"threads": threads, "stream": stream, "device": [], "plan": case_sched(rng, 400), "seeks": rng.random() < 0.5}
    x = rng.random()
    if x < 0.2:
        return case
    info = core.rehearse(lambda: run(case, dry=True))
    if info is None:
        return case
    if x < 0.75:
        case["device"] = random_faults(rng, info["writes"])
    if x > 0.6:
        i = rng.randrange(len(threads))
        if info["steps"][i]:
            kind = rng.choice(["crash", "interrupt", "interrupt", "memory"])
            case["plan"]["faults"].append([i, rng.randint(1, info["steps"][i]), kind, None])
    return case


class AtomicText(io.TextIOBase):
    "A text file: each write call takes the whole text, or a part of it and fails; threads alternate between calls."

    def __init__(self, device):
        self.device = device

    def write(self, s):
        from .. import sched

        if type(s) is not str:
            raise TypeError("str expected")
        sim = sched.current
        sim.lock_ops += 1
        sim.lock_yield(sim.running)
        b = s.encode("utf-8")
        while b:
            try:
                b = b[self.device.write(b) :]
            except InterruptedError:
                pass
        sim.lock_ops += 1
        sim.lock_yield(sim.running)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def alternate(self):
        from .. import sched

        sim = sched.current
        if sim is not None and sim.running is not None:
            sim.lock_ops += 1
            sim.lock_yield(sim.running)

    def flush(self):
        pass

    def writable(self):
        return True

    def seekable(self):
        return self.device.seekable()

    def tell(self):
        self.alternate()
        # (what a file opened for appending says after each write)
        return len(self.device.data) if self.device.seeks else self.device.tell()

    def seek(self, offset, whence=0):
        self.alternate()
        return self.device.seek(offset, whence)

    def truncate(self, size=None):
        self.alternate()
        return self.device.truncate(size)

    encoding = "utf-8"
    errors = "strict"


def transcoded(b):
    "What a stream of another encoding holds, up to a character cut off."
    text = b[: len(b) & ~1].decode("utf-16-le", "surrogatepass")
    if text and "\ud800" <= text[-1] <= "\udbff":
        text = text[:-1]
    return text.encode("utf-8", "surrogatepass")


def run(case, dry=False):
    import json

    from .. import core, sched
    from ..device import Crash, Device, text_stream
    from ..work import run_threads

    from strong_typing.serialization import json_dump, json_dump_string

    dev = Device(b"", () if dry else case["device"], recovers=len(case["threads"]) == 1, seeks=case.get("seeks", False))
    kind = case["stream"]
    if kind == "atomic":
        stream = AtomicText(dev)
    elif kind == "string":
        stream = io.StringIO()
    elif kind == "ascii":
        stream = io.TextIOWrapper(io.BufferedWriter(dev, 32), encoding="ascii", newline="\n")
    elif kind == "wide":
        stream = io.TextIOWrapper(io.BufferedWriter(dev, 32), encoding="utf-16-le", newline="\n")
    else:
        stream = text_stream(dev, kind)
    core.instrument()
    events = []
    state = {"broken": False, "n": 0}

    def body(t, i, op):
        if state["broken"] or dev.dead or dev.failed:
            return
        # (with one thread, a device that reported an error goes on until the application has heard of it)
        state["n"] += 1
        e = {"op": [t.id, i], "outcome": None}
        v = bad_value(op["bad"], op["v"]) if "bad" in op else op["v"]
        # tag records such that they can be told apart
        if op["op"] == "dump":
            v = [state["n"], v]
            e["tag"] = state["n"]
        events.append(e)
        try:
            if op["op"] == "string":
                with sched.traced(t):
                    s = json_dump_string(v)
                e["outcome"] = ["string", s]
                return
            if op.get("own"):
                stream.write(json.dumps(v, ensure_ascii=False, separators=(",", ":")) + "\n")
            else:
                with sched.traced(t):
                    json_dump(v, stream)
            e["outcome"] = ["returned"]
            e["order"] = state["n"]
            if dev.failed or dev.dead:
                return
            if op["flush"]:
                stream.flush()
                e["outcome"] = ["flushed"]
        except sched.SimDeadlock:
            raise
        except Crash:
            dev.dead = True
            e["outcome"] = e["outcome"] or ["crash"]
        except BaseException as ex:
            t.traced = False
            if e["outcome"] is None:
                e["outcome"] = ["err", core.errname(ex)]
            if op["op"] == "dump" and isinstance(ex, (OSError, KeyboardInterrupt, MemoryError)):
                state["broken"] = True
                if dev.erred:
                    # nothing more arrives, not even what is still in buffers
                    dev.failed = True

    plan = dict(case["plan"], faults=[]) if dry else case["plan"]
    sim, _ = run_threads(None, dict(case, plan=plan), body)
    crashed = sim.problem == "crash"
    closed = None
    if not crashed and not dev.dead and not sim.problem:
        try:
            stream.flush()
            closed = not dev.erred
        except Crash:
            pass
        except OSError:
            pass
    data = stream.getvalue().encode("utf-8", "surrogatepass") if kind == "string" else bytes(dev.data)
    if kind == "wide":
        data = transcoded(data)
    out = {
        "data": data.hex(),
        "events": events,
        "closed": closed,
        "writes": dev.writes,
        "steps": [t.steps for t in sim.threads],
        "fired": dev.fired + [f[2] for f in sim.fired],
        "failed": dev.erred,
        "crashed": crashed or dev.dead,
        "problem": None if crashed else sim.problem,
        "switches": sim.switches,
        "total": sim.steps,
        "hash": f"{sim.hash:x}/{sim.fired}",
        "trace": sim.trace,
    }
    # what is still in buffers is lost with the process
    dev.write = lambda b: len(b)
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is list:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return repr(a) == repr(b)


def compact(text):
    import re

    return not re.search(r"\s", re.sub(r'"(?:[^"\\]|\\.)*"', "", text))


def decoded(b):
    try:
        return b.decode("utf-8", "surrogatepass")
    except UnicodeDecodeError:
        return b.decode("utf-8", "replace") + "<undecodable>"


def verify(case, out):
    import json

    ops = {(i, j): op for i, th in enumerate(case["threads"]) for j, op in enumerate(th)}
    *lines, raw = bytes.fromhex(out["data"]).split(b"\n")
    lines = [decoded(x) for x in lines]
    tail = raw.decode("utf-8", "replace")
    by_tag = {}
    injected = {"interrupt": "KeyboardInterrupt", "memory": "MemoryError"}
    injected = {injected[f] for f in out["fired"] if f in injected}
    for e in out["events"]:
        op = ops[tuple(e["op"])]
        o = e["outcome"]
        if op["op"] == "string":
            if o is None or (o[0] == "err" and o[1] in injected):
                continue
            if o[0] != "string" or "\n" in o[1] or not compact(o[1]) or not same(json.loads(o[1]), op["v"]):
                return {"class": "string", "detail": {"op": op, "got": o}}
            continue
        by_tag[e["tag"]] = (op, e)
        if o is not None and o[0] == "err":
            unencodable = "bad" in op or (case["stream"] == "ascii")
            if o[1] not in injected and not unencodable and not out["failed"]:
                return {"class": "refused", "detail": {"op": op, "got": o}}
        elif o is not None and o[0] in ("returned", "flushed") and op.get("bad") and op["bad"] != "surrogate":
            return {"class": "accepted", "detail": {"op": op, "got": o}}
    seen = {}
    for n, line in enumerate(lines):
        try:
            doc = json.loads(line)
            tag = doc[0]
            op, e = by_tag[tag]
            value = bad_value(op["bad"], None) if op.get("bad") == "surrogate" else op["v"]
            ok = len(doc) == 2 and same(doc[1], value) and compact(line) and (op.get("bad") in (None, "surrogate"))
        except (ValueError, KeyError, TypeError, IndexError):
            ok = False
        if not ok:
            return {"class": "garbage", "detail": {"line": line[:500], "number": n}}
        if tag in seen:
            return {"class": "duplicate", "detail": {"op": op, "line": line[:500]}}
        seen[tag] = n
        o = e["outcome"]
        if o is not None and o[0] == "err" and o[1] not in injected and not out["failed"]:
            return {"class": "refused but written", "detail": {"op": op, "got": o, "line": line[:500]}}
    for tag, (op, e) in by_tag.items():
        o = e["outcome"]
        if o is None or tag in seen:
            continue
        if o[0] == "flushed" or (o[0] == "returned" and out["closed"]):
            return {"class": "lost", "detail": {"op": op, "got": o}}
    # one thread: records appear in order, and what is cut off is the beginning of the next one
    if len(case["threads"]) == 1:
        order = [t for t in seen]
        if order != sorted(order):
            return {"class": "reordered", "detail": order}
    if tail:
        if not (out["failed"] or out["crashed"] or injected):
            return {"class": "unterminated", "detail": tail[:500]}
        for tag, (op, e) in by_tag.items():
            if tag in seen or (e["outcome"] is not None and e["outcome"][0] == "flushed"):
                continue
            if "bad" in op and op["bad"] != "surrogate":
                continue
            v = [tag, bad_value("surrogate", None) if "bad" in op else op["v"]]
            if any(
                json.dumps(v, ensure_ascii=a, separators=(",", ":")).encode("utf-8", "surrogatepass").startswith(raw)
                for a in (False, True)
            ):
                break
        else:
            return {"class": "unidentified remainder", "detail": tail[:500]}
    return None


def execute(case):
    out = run(case)
    stats = {"steps": out["total"], "switches": out["switches"], "bytes": len(out["data"]) // 2, "records": out["data"].count("0a")}
    for f in out["fired"]:
        stats[f"fault:{f}"] = stats.get(f"fault:{f}", 0) + 1
    for e in out["events"]:
        o = e["outcome"]
        k = "outcome:" + ("unfinished" if o is None else o[0] if o[0] != "err" else o[1])
        stats[k] = stats.get(k, 0) + 1
    stats["probe:stream " + case["stream"]] = 1
    violation = None
    if out["problem"]:
        violation = {"class": "stuck", "detail": out["problem"]}
    else:
        violation = verify(case, out)
    return {
        "violation": violation,
        "stats": stats,
        "nontrivial": bool(out["fired"] or out["switches"] > 1 or any(e["outcome"] and e["outcome"][0] == "err" for e in out["events"])),
        "key": out["hash"] + str(out["fired"]),
        "trace": out["trace"],
    }
