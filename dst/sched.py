"""
Deterministic scheduler: real threads, of which exactly one runs at any time. Every bytecode instruction of the code
under test is a point where the scheduler may hand over to another thread or inject a fault; a seeded pseudo-random
generator (or a recorded trace) takes every such decision.

Must be imported (and `patch()` called) before the code under test such that locks come from the simulator.
"""

import _thread
import ast
import dis
import gc
import random
import sys
import threading
import time
import types

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock

TOOL = 4

ENTRY, AFTERCALL, JUMPBACK, ALLOC, HOT = 1, 2, 4, 8, 16

HOT_OPS = {"STORE_SUBSCR", "STORE_ATTR", "STORE_GLOBAL", "DELETE_SUBSCR", "DELETE_ATTR", "CONTAINS_OP", "BINARY_SUBSCR"}
ALLOC_OPS = {"STORE_SUBSCR", "BUILD_LIST", "BUILD_MAP", "BUILD_SET", "BUILD_TUPLE", "BUILD_STRING", "MAP_ADD", "LIST_APPEND"}

current = None  # the active simulation, if any


class SimDeadlock(BaseException):
    "Raised in simulated threads to unwind when the simulation stops early."


# ---------------------------------------------------------------------------------------------------------------------
# locks
# ---------------------------------------------------------------------------------------------------------------------


NORMAL_LIMIT = sys.getrecursionlimit()


def _descend(n):
    if n:
        _descend(n - 1)


def _ensure_room():
    "Locks are given back by C functions, which need no room on the stack: make sure that there is enough for the stand-in."
    if sys.getrecursionlimit() < NORMAL_LIMIT:
        _descend(30)


class SimLock:
    "Replaces `threading.Lock`."

    def __init__(self):
        self._owner = None
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        _ensure_room()
        s = current
        if s is None or s.running is None:
            # outside of a simulation there is a single thread
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("lock acquired twice outside of a simulation")
            self._locked = True
            return True
        t = s.running
        s.lock_ops += 1
        s.lock_yield(t)
        if self._locked:
            if not blocking:
                return False
            if not s.block(t, lambda: not self._locked, timeout):
                return False
        self._locked = True
        self._owner = t
        t.held += 1
        return True

    __enter__ = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        if self._owner is not None:
            self._owner.held -= 1
        self._locked = False
        self._owner = None
        s = current
        if s is not None and s.running is not None:
            s.lock_yield(s.running)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._owner = None


class SimRLock:
    "Replaces `threading.RLock`."

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        _ensure_room()
        s = current
        me = s.running if s is not None and s.running is not None else "main"
        if self._owner == me:
            self._count += 1
            return True
        if me == "main":
            if self._count:
                raise RuntimeError("lock acquired twice outside of a simulation")
        else:
            s.lock_ops += 1
            s.lock_yield(me)
            if self._count:
                if not blocking:
                    return False
                if not s.block(me, lambda: not self._count, timeout):
                    return False
        self._owner = me
        self._count = 1
        return True

    __enter__ = acquire

    def release(self):
        if not self._count:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            s = current
            if s is not None and s.running is not None:
                s.lock_yield(s.running)

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        s = current
        return self._owner == (s.running if s is not None and s.running is not None else "main")

    def _release_save(self):
        state = self._count
        self._count = 0
        self._owner = None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state

    def _at_fork_reinit(self):
        self._count = 0
        self._owner = None


def _sim_sleep(seconds):
    s = current
    if s is None or s.running is None:
        return
    s.block(s.running, lambda: False, max(0.0, seconds))


def _sim_monotonic():
    s = current
    return 1000.0 + (s.now if s is not None else 0.0)


def patch():
    "Puts locks and clocks behind the simulator. Modules imported earlier keep the real ones."
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    time.sleep = _sim_sleep
    time.monotonic = _sim_monotonic
    time.time = lambda: 1.6e9 + _sim_monotonic()
    time.perf_counter = _sim_monotonic


# ---------------------------------------------------------------------------------------------------------------------
# instrumentation
# ---------------------------------------------------------------------------------------------------------------------

FLAGS = {}  # code object -> {offset: flags}


def code_flags(code):
    f = {}
    first = True
    after_call = False
    previous = None
    nones = 0
    table = dis._parse_exception_table(code)

    def handler(offset):
        for e in table:
            if e.start <= offset < e.end:
                return e.target
        return None

    for i in dis.get_instructions(code):
        if i.opname in ("RESUME", "COPY_FREE_VARS", "MAKE_CELL", "RETURN_GENERATOR"):
            continue
        if i.opname == "POP_TOP" and first and code.co_flags & 0x20:
            # generator prologue
            continue
        v = 0
        if first:
            v |= ENTRY
            first = False
        # the interpreter raises in the call: no fault where the next instruction has already left a `with` or `try`
        if after_call and handler(i.offset) == handler(previous):
            v |= AFTERCALL
        after_call = i.opname.startswith("CALL")
        leaving = after_call and nones >= 3 and i.arg == 2  # calls `__exit__`
        nones = nones + 1 if i.opname == "LOAD_CONST" and i.argval is None else 0
        previous = i.offset
        if i.opname.startswith("JUMP_BACKWARD"):
            v |= JUMPBACK
        if (i.opname in ALLOC_OPS or after_call) and not leaving:
            v |= ALLOC
        if i.opname in HOT_OPS:
            v |= HOT
        f[i.offset] = v
    return f


def collect(codes):
    "All code objects nested in the given ones."
    out = []
    seen = set()
    stack = list(codes)
    while stack:
        c = stack.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                stack.append(k)
    return out


def module_codes(prefixes):
    "Code objects of all functions whose module has one of the names or is nested in it."
    codes = []
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            m = o.__globals__.get("__name__") or ""
            if any(m == p or m.startswith(p + ".") for p in prefixes):
                codes.append(o.__code__)
    codes.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return collect(codes)


def instrument(codes):
    sys.monitoring.use_tool_id(TOOL, "dst") if sys.monitoring.get_tool(TOOL) is None else None
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.INSTRUCTION, _callback)
    for c in codes:
        if c not in FLAGS:
            FLAGS[c] = code_flags(c)
        sys.monitoring.set_local_events(TOOL, c, sys.monitoring.events.INSTRUCTION)


def _callback(code, offset):
    s = current
    if s is None:
        return
    t = s.running
    if t is None or not t.traced:
        return
    s.on_instruction(t, code, offset)


# ---------------------------------------------------------------------------------------------------------------------
# simulation
# ---------------------------------------------------------------------------------------------------------------------

NEW, READY, BLOCKED, DONE = "new", "ready", "blocked", "done"


class SimThread:
    __slots__ = (
        "id",
        "fn",
        "baton",
        "state",
        "steps",
        "traced",
        "wake",
        "deadline",
        "timed_out",
        "result",
        "error",
        "prio",
        "faults",
        "started",
        "lock_step",
        "held",
        "exposed",
        "sim",
    )

    def __init__(self, id, fn):
        self.id = id
        self.fn = fn
        self.baton = _real_lock()
        self.baton.acquire()
        self.state = READY
        self.steps = 0
        self.traced = False
        self.wake = None
        self.deadline = None
        self.timed_out = False
        self.result = None
        self.error = None
        self.prio = 0
        self.faults = []
        self.lock_step = -2
        self.held = 0  # locks that are not re-entrant
        self.started = False


FAULT_SITES = {
    "interrupt": ENTRY | AFTERCALL | JUMPBACK,
    "memory": ENTRY | AFTERCALL | ALLOC,
    "recursion": ENTRY,
    "reenter": ENTRY | AFTERCALL | JUMPBACK,
    "crash": 0xFF,
}

CLEANUP = {}  # file name -> line numbers


def cleanup_lines(filename):
    """
    Lines of clean-up code: `finally` and catch-all handlers, and statements that come directly before a `try` that has
    them. An exception raised asynchronously there defeats even the most careful program.
    """

    found = CLEANUP.get(filename)
    if found is None:
        found = CLEANUP[filename] = set()
        try:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, ValueError, SyntaxError):
            return found

        def lines(statements):
            for s in statements:
                found.update(range(s.lineno, s.end_lineno + 1))

        for node in ast.walk(tree):
            for name in ("body", "orelse", "finalbody"):
                block = getattr(node, name, None)
                if not isinstance(block, list):
                    continue
                for before, s in zip([None] + block, block):
                    if not isinstance(s, ast.Try):
                        continue
                    lines(s.finalbody)
                    general = False
                    for h in s.handlers:
                        if h.type is None or isinstance(h.type, ast.Name) and h.type.id == "BaseException":
                            general = True
                            lines(h.body)
                    if (s.finalbody or general) and isinstance(before, (ast.Expr, ast.Assign)):
                        lines([before])
    return found


def shielded(frame):
    while frame is not None:
        code = frame.f_code
        if code.co_name in ("__enter__", "__exit__", "acquire", "release"):
            return True
        if code in FLAGS and frame.f_lineno in cleanup_lines(code.co_filename):
            return True
        frame = frame.f_back
    return False


FAULT_EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "recursion": RecursionError}


class Sim:
    """
    :param plan: {"mode": "random", "seed": n, "strategy": {...}} or
        {"mode": "replay", "decisions": [[tid, step, next], ...]}, and in both cases "faults": [[tid, step, kind, arg]...]
        A fault fires at the first feasible instruction at or after the given step of the thread.
    """

    def __init__(self, plan, max_steps=10_000_000, reenter=None):
        self.plan = plan
        self.threads = []
        self.running = None
        self.steps = 0
        self.now = 0.0
        self.max_steps = max_steps  # between completed operations
        self.mark = 0
        self.lock_ops = 0
        self.switches = 0
        self.trace = []
        self.fired = []
        self.problem = None
        self.done = _real_lock()
        self.done.acquire()
        self.visits = {}
        self.reenter = reenter
        self.hash = 0
        self.sites = set()
        self.replay = None
        if plan["mode"] == "replay":
            self.replay = {}
            for tid, step, nxt in plan["decisions"]:
                self.replay.setdefault(tid, {})[step] = nxt
            self.next_point = None
        else:
            self.rng = random.Random(plan["seed"])
            self.strategy = dict(plan["strategy"])
            self.kind = self.strategy["kind"]
            self.next_point = 0
            if self.kind == "uniform":
                self.next_point = self.gap()
            elif self.kind == "pct":
                k = self.strategy["length"]
                d = self.strategy["depth"]
                self.change_points = sorted(self.rng.randrange(1, max(2, k)) for _ in range(d))
            elif self.kind == "lockstep":
                self.next_point = self.strategy["quantum"]

    def gap(self):
        # geometric distribution
        p = self.strategy["p"]
        n = 1
        r = self.rng.random
        while r() >= p and n < 100000:
            n += 1
        return n

    def spawn(self, fn):
        t = SimThread(len(self.threads), fn)
        t.sim = self
        self.threads.append(t)
        for tid, step, kind, arg in self.plan.get("faults", ()):
            if tid == t.id:
                t.faults.append([step, kind, arg])
        t.faults.sort(key=lambda f: f[0])
        return t

    # called by simulated threads -------------------------------------------------------------------------------------

    def on_instruction(self, t, code, offset):
        t.steps += 1
        self.steps += 1
        if self.steps - self.mark > self.max_steps:
            self.stop(f"no progress within {self.max_steps} steps")
        if t.faults and t.steps >= t.faults[0][0]:
            self.inject(t, code, offset)
        if self.replay is not None:
            d = self.replay.get(t.id)
            if d is not None:
                nxt = d.get(t.steps)
                if nxt is not None:
                    self.switch_to(t, nxt)
            return
        k = self.kind
        if k == "uniform":
            self.next_point -= 1
            if self.next_point <= 0:
                self.next_point = self.gap()
                self.preempt(t)
        elif k == "hot":
            f = FLAGS[code].get(offset, 0)
            p = self.strategy["hot"] if f & HOT else self.strategy["cold"]
            if self.rng.random() < p:
                self.preempt(t)
        elif k == "rare":
            site = (code, offset)
            v = self.visits
            n = v.get(site, 0) + 1
            v[site] = n
            if n <= self.strategy["limit"] and self.rng.random() < self.strategy["p"]:
                self.preempt(t)
        elif k == "pct":
            if self.change_points and self.steps >= self.change_points[0]:
                self.change_points.pop(0)
                low = min(x.prio for x in self.threads)
                t.prio = low - 1
                self.preempt(t, by_priority=True)
        elif k == "lockstep":
            self.next_point -= 1
            if self.next_point <= 0:
                self.next_point = self.rng.randint(1, self.strategy["quantum"])
                self.preempt(t, round_robin=True)

    def inject(self, t, code, offset):
        f = FLAGS[code].get(offset, 0)
        step, kind, arg = t.faults[0]
        if kind != "crash" and not f & FAULT_SITES[kind]:
            return
        if kind in FAULT_EXC and (t.steps <= t.lock_step + 1 or shielded(sys._getframe(3))):
            return
        if kind == "reenter" and t.held:
            # a handler cannot wait for the program it has interrupted
            return
        t.faults.pop(0)
        self.fired.append([t.id, t.steps, kind, arg, f"{code.co_qualname}+{offset}"])
        if kind == "crash":
            # the process ends between two instructions
            self.stop("crash")
        if kind == "reenter":
            # a signal handler that runs between two instructions of the interrupted thread
            t.traced = False
            try:
                self.reenter(t, arg)
            finally:
                t.traced = True
            return
        raise FAULT_EXC[kind](f"injected {kind}")

    def refresh(self):
        for x in self.threads:
            if x.state is BLOCKED and x.wake is not None and x.wake():
                x.state = READY

    def lock_yield(self, t):
        "A lock operation is a scheduling point of its own."
        t.lock_step = t.steps
        self.refresh()
        if self.replay is not None:
            d = self.replay.get(t.id)
            nxt = d.get(-self.lock_ops) if d is not None else None
            if nxt is not None:
                self.switch_to(t, nxt, -self.lock_ops)
            return
        if t.traced and self.rng.random() < 0.2:
            ready = [x for x in self.threads if x.state is READY and x is not t]
            if ready:
                self.switch_to(t, self.rng.choice(ready).id, -self.lock_ops)

    def preempt(self, t, by_priority=False, round_robin=False):
        ready = [x for x in self.threads if x.state is READY and x is not t]
        if not ready:
            return
        if by_priority:
            n = max(ready, key=lambda x: (x.prio, -x.id))
            if n.prio <= t.prio:
                return
        elif round_robin:
            after = [x for x in ready if x.id > t.id]
            n = after[0] if after else ready[0]
        else:
            n = ready[int(self.rng.random() * len(ready))]
        self.switch_to(t, n.id)

    def switch_to(self, t, nid, step=None):
        n = self.threads[nid] if 0 <= nid < len(self.threads) else None
        if n is None or n.state is not READY or n is t:
            return
        step = t.steps if step is None else step
        self.trace.append([t.id, step, nid])
        self.switches += 1
        self.hash = (self.hash * 1000003 ^ (t.id * 7919 + step * 31 + nid)) & 0xFFFFFFFFFFFF
        self.running = n
        n.baton.release()
        t.baton.acquire()
        if self.problem:
            raise SimDeadlock

    def block(self, t, ready, timeout=-1):
        "Suspends a thread until a condition holds; returns False on timeout."
        t.wake = ready
        t.deadline = self.now + timeout if timeout is not None and timeout >= 0 else None
        t.timed_out = False
        while True:
            t.state = BLOCKED
            n = self.pick(t)
            if n is None:
                self.problem = "deadlock: " + ", ".join(f"thread {x.id} {x.state}" for x in self.threads)
                self.running = None
                self.done.release()
                t.baton.acquire()  # for ever
            if n is not t:
                self.running = n
                n.baton.release()
                t.baton.acquire()
            if self.problem:
                raise SimDeadlock
            t.state = READY
            if t.timed_out:
                t.wake = None
                return False
            if ready():
                t.wake = None
                return True

    def pick(self, leaving):
        "Chooses the next thread when the running one cannot go on."
        self.refresh()
        ready = [x for x in self.threads if x.state is READY]
        if not ready:
            sleepers = [x for x in self.threads if x.state is BLOCKED and x.deadline is not None]
            if not sleepers:
                return None
            n = min(sleepers, key=lambda x: (x.deadline, x.id))
            self.now = max(self.now, n.deadline)
            n.timed_out = True
            n.state = READY
            return n
        if self.replay is not None:
            d = self.replay.get(leaving.id) if leaving is not None else self.replay.get(-1)
            nid = d.get("end" if leaving is None or leaving.state is DONE else f"b{leaving.steps}") if d else None
            for x in ready:
                if x.id == nid:
                    return x
            return ready[0]
        if self.kind == "pct":
            n = max(ready, key=lambda x: (x.prio, -x.id))
        else:
            n = ready[int(self.rng.random() * len(ready))]
        if n is not ready[0]:
            key = "end" if leaving is None or leaving.state is DONE else f"b{leaving.steps}"
            self.trace.append([leaving.id if leaving is not None else -1, key, n.id])
        self.hash = (self.hash * 1000003 ^ (n.id + 17)) & 0xFFFFFFFFFFFF
        return n

    def stop(self, problem):
        "Ends the simulation with a violation; never returns in the calling thread."
        self.problem = problem
        t = self.running
        self.running = None
        self.done.release()
        t.baton.acquire()

    def boot(self, t):
        t.baton.acquire()
        if not self.problem:
            try:
                t.result = t.fn(t)
            except SimDeadlock:
                pass
            except BaseException as ex:
                t.error = ex
        t.traced = False
        t.state = DONE
        if self.problem:
            return
        n = self.pick(t)
        if n is None:
            blocked = [x for x in self.threads if x.state is not DONE]
            if blocked:
                self.problem = "deadlock: " + ", ".join(f"thread {x.id} {x.state}" for x in self.threads)
            self.running = None
            self.done.release()
            return
        self.running = n
        n.baton.release()

    def run(self):
        "Runs all threads to completion."
        global current
        if self.replay is None and self.kind == "pct":
            prios = list(range(len(self.threads)))
            self.rng.shuffle(prios)
            for t, p in zip(self.threads, prios):
                t.prio = p + 100
        for t in self.threads:
            _thread.start_new_thread(self.boot, (t,))
        current = self
        n = self.pick(None)
        self.running = n
        if n is not None:
            n.baton.release()
            self.done.acquire()
        current = None


class traced:
    "Marks a region of a simulated thread in which instructions are scheduling and fault points."

    def __init__(self, t):
        self.t = t

    def __enter__(self):
        self.t.traced = True

    def __exit__(self, *a):
        self.t.traced = False


def random_strategy(rng, length=20000):
    k = rng.choice(["uniform", "uniform", "hot", "rare", "rare", "pct", "lockstep"])
    if k == "uniform":
        return {"kind": k, "p": rng.choice([0.2, 0.05, 0.01, 0.003])}
    if k == "hot":
        return {"kind": k, "hot": rng.choice([0.1, 0.4]), "cold": rng.choice([0.0, 0.002])}
    if k == "rare":
        return {"kind": k, "limit": rng.choice([1, 2, 4]), "p": rng.choice([0.05, 0.15, 0.4])}
    if k == "pct":
        return {"kind": k, "depth": rng.randint(1, 4), "length": length}
    return {"kind": k, "quantum": rng.choice([1, 3, 10, 50])}
