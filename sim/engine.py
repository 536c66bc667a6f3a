"""
The simulator: cooperative scheduling of real threads, simulated locks, fault points.

Exactly one thread runs at a time (baton passing).  A switch happens only
  * at a planned preemption: (task, op index, step [, instruction offset]) -> target task
  * when a task blocks on a simulated lock
  * when a task ends
so a run is a function of its plan.
"""
import ast
import gc
import os
import sys
import threading
import _thread

INF = 1 << 60
NORMAL_LIMIT = sys.getrecursionlimit()
S = None  # the running simulation
_alloc = _thread.allocate_lock
TOOL = 3
mon = sys.monitoring
E = mon.events


class SimAbort(BaseException):
    """unwinds simulated threads when a run is over (never seen by a run that completes)"""


class Task(object):
    __slots__ = [
        "id", "ops", "gate", "state", "steps", "next", "opidx", "points", "limit", "entries", "fault", "stack",
        "recs", "waiting", "kpending", "kcode", "wait_fault", "total", "reclimit", "done",
    ]

    def __init__(self, id, ops):
        self.id = id
        self.ops = ops
        self.gate = _alloc()
        self.gate.acquire()
        self.state = "ready"
        self.steps = 0
        self.next = INF
        self.limit = INF
        self.points = []
        self.opidx = -1
        self.entries = 0
        self.fault = None
        self.stack = []
        self.recs = []
        self.waiting = None
        self.kpending = None
        self.kcode = None
        self.wait_fault = None
        self.total = 0
        self.done = 0
        self.reclimit = None  # THE STACK THIS TASK IS LIMITED TO


class SimLock(object):
    """replaces Lock and RLock for the library"""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        if S is not None:
            S.locks.append(self)
        else:
            LOCKS.append(self)

    # acquire and release go equally deep: a release can not run out of stack where the acquire did not
    def acquire(self, blocking=True, timeout=-1):
        return _acquire(self, blocking, timeout)

    def release(self):
        _release(self)

    def __enter__(self):
        return _acquire(self, True, -1)

    def __exit__(self, *_):
        _release(self)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner is not None and self.owner == _me()

    def _release_save(self):
        state = self.count, self.owner
        self.count = 1
        _release(self)
        return state

    def _acquire_restore(self, state):
        _acquire(self, True, -1)
        self.count = state[0]


class Milestone(object):
    """another task has completed so many operations, or has ended"""

    def __init__(self, owner, count):
        self.owner = owner
        self.count = count


LOCKS = []


def _me():
    s = S
    if s is None or s.cur is None:
        return "main"
    return s.cur.id


def _acquire(lock, blocking, timeout):
    s = S
    if s is None or s.cur is None:
        me = "main"
        if lock.owner is None or (lock.owner == me and lock.reentrant):
            lock.owner = me
            lock.count += 1
            return True
        if not blocking or timeout >= 0:
            return False
        if s is not None:
            s.deadlock("main", lock)
        raise RuntimeError("lock taken twice")
    t = s.cur
    me = _me()  # AS DEEP AS _release
    if not (lock.owner == me and lock.reentrant):
        s.stats["lock_ops"] += 1
        if t.reclimit:
            # THE LIMITED STACK IS FOR THE LIBRARY, NOT FOR THE SCHEDULER, AND NOT FOR OTHER THREADS
            sys.setrecursionlimit(NORMAL_LIMIT)
        try:
            ok = _wait(s, t, lock, blocking, timeout)
        finally:
            if t.reclimit:
                sys.setrecursionlimit(t.reclimit)
        if not ok:
            return False
    lock.owner = me
    lock.count += 1
    return True


def _wait(s, t, lock, blocking, timeout):
    if not s.in_release:
        s.step(t, ("lock", 0))
    waited = False
    while lock.owner is not None:
        s.stats["lock_waits"] += 1
        if not blocking:
            return False
        if timeout is not None and timeout >= 0:
            if waited:
                s.stats["lock_timeouts"] += 1
                return False
            waited = True
            s.now += timeout
            if s.plan.get("stall"):
                # THE HOLDER IS SLOWER THAN THE WAITER IS PATIENT
                s.stats["lock_timeouts"] += 1
                return False
            if not s.yield_to_any(t):
                return False
            continue
        s.block(t, lock)
    return True


def _release(lock):
    me = _me()
    if lock.owner is None or (lock.reentrant and lock.owner != me):
        raise RuntimeError("cannot release un-acquired lock")
    lock.count -= 1
    if lock.count <= 0:
        lock.count = 0
        lock.owner = None
        s = S
        if s is not None:
            for t in s.tasks:
                if t.waiting is lock:
                    t.waiting = None
                    t.state = "ready"


# ---- where faults are not injected: clean-up code -----------------------------------------------------------------
NO_FAULT_NAMES = {"__enter__", "__exit__", "release", "use", "close", "__del__", "restore"}
_protected = {}


def protected_lines(filename):
    """lines of finally bodies, and of handlers that catch everything"""
    try:
        return _protected[filename]
    except KeyError:
        pass
    out = set()
    try:
        tree = ast.parse(open(filename, encoding="utf8").read())
    except Exception:
        tree = None
    if tree is not None:
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                bodies = [node.finalbody]
                for h in node.handlers:
                    if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException")):
                        bodies.append(h.body)
                for body in bodies:
                    if body:
                        out.update(range(body[0].lineno, max(getattr(b, "end_lineno", b.lineno) for b in body) + 1))
    _protected[filename] = out
    return out


class Simulation(object):
    def __init__(self, plan, pkg):
        self.plan = plan
        self.pkg = pkg
        self.tasks = []
        self.cur = None
        self.active = False
        self.locks = list(LOCKS)
        self.stats = {
            "lock_ops": 0, "lock_waits": 0, "lock_timeouts": 0, "switches": 0, "preempts": 0, "steps": 0,
            "ends": 0, "blocks": 0,
        }
        self.order = []  # every switch, as (from, location, to)
        self.fired = {}
        self.now = 0.0
        self.main_gate = _alloc()
        self.main_gate.acquire()
        self.dead = None  # deadlock or no progress
        self.in_release = False
        self.record = None  # (locations) of the single task, for references
        self.watch = None
        self.devices = {}
        self.device_faults = {}
        self.gc_every = 0
        self.gc_count = 0
        self.entry_record = None
        self.ticks = 0
        self.offset = INF  # id of the first of plan["tasks"]

    # ---- time and devices -----------------------------------------------------------------------------------
    def clock(self):
        self.ticks += 1
        if self.cur is not None and self.cur.stack:
            r = self.cur.stack[-1]
            r["clk"] = r.get("clk", 0) + 1
        faults = self.plan.get("clock")
        if faults:
            self.now += faults[self.ticks % len(faults)]
        else:
            self.now += 0.001
        return self.now

    def simulated_sleep(self, seconds):
        self.now += seconds
        if self.cur is not None:
            self.yield_to_any(self.cur)

    def device(self, name, size=0):
        """a use of a simulated device, may fail"""
        n = self.devices[name] = self.devices.get(name, 0) + 1
        kind = self.device_faults.get((name, n)) or self.device_faults.get((name, 0))
        if kind:
            self.fire(name + ":" + kind)
            raise make_fault(kind)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        t = self.cur
        if t is not None and t.stack:
            r = t.stack[-1]  # enclosing operations catch what nested ones raise
            r["f"] = r.get("f", []) + [kind]

    # ---- scheduling -----------------------------------------------------------------------------------------
    def begin_op(self, t, idx, limit):
        t.opidx = idx
        t.steps = 0
        t.entries = 0
        t.limit = limit
        t.points = sorted(
            [(p[2], p[3], p[4] if len(p) > 4 else 0) for p in self.plan.get("pre", []) if p[0] + self.offset == t.id and p[1] == idx],
            key=lambda p: p[0],
        )
        t.next = min(t.points[0][0] if t.points else INF, limit)
        t.kpending = None
        if t.next <= 0:
            self.at_point(t, ("op", idx))

    def step(self, t, where):
        t.steps += 1
        if t.steps >= t.next:
            self.at_point(t, where)

    def at_point(self, t, where, code=None):
        while t.points and t.points[0][0] <= t.steps:
            step, target, k = t.points.pop(0)
            if k and code is not None:
                t.kpending = [k, target]
                t.kcode = code
                mon.set_local_events(TOOL, code, E.INSTRUCTION)
            else:
                self.preempt(t, target, where)
        if t.steps >= t.limit:
            self.no_progress(t, where)
        t.next = min(t.points[0][0] if t.points else INF, t.limit)

    def on_instruction(self, code, offset):
        t = self.cur
        if t is None or t.kpending is None or code is not t.kcode:
            return
        t.kpending[0] -= 1
        if t.kpending[0] <= 0:
            target = t.kpending[1]
            t.kpending = None
            mon.set_local_events(TOOL, code, 0)
            self.preempt(t, target, (code.co_filename, code.co_firstlineno, offset))

    def flush_pending(self, t, where):
        target = t.kpending[1]
        mon.set_local_events(TOOL, t.kcode, 0)
        t.kpending = None
        self.preempt(t, target, where)

    def preempt(self, t, target, where):
        n = self.pick(t, target)
        if n is not None and n is not t:
            self.stats["preempts"] += 1
            saved = sys.getrecursionlimit()
            if t.reclimit:
                sys.setrecursionlimit(NORMAL_LIMIT)
            try:
                self.switch(t, n, where)
            finally:
                if t.reclimit:
                    sys.setrecursionlimit(saved)

    def pick(self, t, target=None):
        if target is not None and 0 <= target + self.offset < len(self.tasks):
            c = self.tasks[target + self.offset]
            if c.state == "ready" and c is not t:
                return c
        n = len(self.tasks)
        for i in range(1, n + 1):
            c = self.tasks[(t.id + i) % n]
            if c.state == "ready" and c is not t:
                return c
        return None

    def switch(self, t, n, where):
        self.stats["switches"] += 1
        self.order.append((t.id, loc_name(where, self.pkg), n.id))
        self.cur = n
        n.gate.release()
        t.gate.acquire()
        if self.dead:
            raise SimAbort()

    def yield_to_any(self, t):
        n = self.pick(t)
        if n is None:
            return False
        self.switch(t, n, ("yield", 0))
        return True

    def block(self, t, lock):
        t.state = "blocked"
        t.waiting = lock
        if type(lock) is not Milestone:
            self.stats["blocks"] += 1
        n = self.pick(t)
        if n is None:
            self.deadlock(t.id, lock)
        self.switch(t, n, ("blocked", 0))
        f = t.wait_fault
        if f:
            t.wait_fault = None
            self.fire("lockwait:" + f)
            raise make_fault(f)

    def wait_for(self, t, target, count):
        """outside of any call, and never in circles: only for tasks with a higher number"""
        target += self.offset
        if not t.id < target < len(self.tasks):
            return False
        o = self.tasks[target]
        if o.state == "done" or o.done >= count:
            return False
        self.stats["waits_for_task"] = self.stats.get("waits_for_task", 0) + 1
        self.block(t, Milestone(target, count))
        return True

    def completed(self, t, count):
        t.done = count
        for x in self.tasks:
            w = x.waiting
            if type(w) is Milestone and w.owner == t.id and w.count <= count:
                x.waiting = None
                x.state = "ready"

    def deadlock(self, who, lock):
        self.finish_dead({
            "kind": "deadlock",
            "waiting": [[t.id, t.opidx, t.waiting.owner] for t in self.tasks if t.waiting is not None],
            "who": who,
        })

    def no_progress(self, t, where):
        self.finish_dead({"kind": "no progress", "who": t.id, "op": t.opidx, "steps": t.steps})

    def finish_dead(self, info):
        self.dead = info
        self.report(self)  # does not return

    def end_task(self, t):
        t.state = "done"
        self.completed(t, INF)
        self.stats["ends"] += 1
        n = self.pick(t)
        if n is not None:
            self.order.append((t.id, "end", n.id))
            self.cur = n
            n.gate.release()
            return
        if any(x.state == "blocked" for x in self.tasks):
            self.finish_dead({
                "kind": "deadlock",
                "waiting": [[x.id, x.opidx, x.waiting.owner] for x in self.tasks if x.waiting is not None],
                "who": t.id,
            })
        self.cur = None
        self.main_gate.release()

    def run_tasks(self, tasks, execute):
        """run tasks (list of op lists) to the end"""
        base = len(self.tasks)
        new = [Task(base + i, ops) for i, ops in enumerate(tasks)]
        self.tasks.extend(new)
        if not new:
            return

        def body(t):
            t.gate.acquire()
            if self.dead:
                return
            try:
                execute(t)
            except SimAbort:
                return
            except BaseException as cause:  # harness problem
                import traceback
                self.dead = {"kind": "harness", "error": traceback.format_exc()}
                self.report(self)
            self.end_task(t)

        for t in new:
            th = threading.Thread(target=body, args=(t,), daemon=True)
            th.start()
        self.active = True
        self.cur = new[0]
        new[0].gate.release()
        self.main_gate.acquire()
        self.active = False
        self.cur = None


def loc_name(where, pkg):
    a = where[0]
    if isinstance(a, str) and a.startswith(pkg):
        a = a[len(pkg):]
    return a + ":" + ":".join(str(x) for x in where[1:])


class SimDiskError(OSError):
    pass


def make_fault(kind):
    import errno
    if kind == "KeyboardInterrupt":
        return KeyboardInterrupt("injected")
    if kind == "SystemExit":
        return SystemExit("injected")
    if kind == "GeneratorExit":
        return GeneratorExit("injected")
    if kind == "EIO":
        return OSError(errno.EIO, "injected")
    if kind == "ENOSPC":
        return OSError(errno.ENOSPC, "injected")
    if kind == "EPIPE":
        return BrokenPipeError(errno.EPIPE, "injected")
    if kind == "EACCES":
        return PermissionError(errno.EACCES, "injected")
    if kind == "ENOENT":
        return FileNotFoundError(errno.ENOENT, "injected")
    if kind == "EISDIR":
        return IsADirectoryError(errno.EISDIR, "injected")
    if kind == "EINTR":
        return InterruptedError(errno.EINTR, "injected")
    if kind == "UnicodeDecodeError":
        return UnicodeDecodeError("utf8", b"\xff", 0, 1, "injected")
    import builtins
    return getattr(builtins, kind)("injected")


# ---- monitoring callbacks -------------------------------------------------------------------------------------------
def setup_monitoring(pkg):
    """once per worker, before forking runs"""
    for f in os.listdir(pkg):
        if f.endswith(".py"):
            protected_lines(os.path.join(pkg, f))
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "sim")
    DISABLE = mon.DISABLE

    def on_line(code, line):
        fn = code.co_filename
        if not fn.startswith(pkg):
            return DISABLE
        s = S
        if s is None:
            return
        t = s.cur
        if t is None:
            return
        n = t.steps = t.steps + 1
        if t.kpending is not None and code is not t.kcode:
            s.flush_pending(t, (fn, line))
        if s.record is not None:
            s.record.append((fn, line))
        if s.watch is not None:
            s.watch(t, fn, line)
        if s.gc_every and n % s.gc_every == 0 and s.gc_count < 600:
            s.gc_count += 1
            gc.collect()
        if n >= t.next:
            s.at_point(t, (fn, line), code)

    def on_start(code, offset):
        fn = code.co_filename
        if not fn.startswith(pkg):
            return DISABLE
        s = S
        if s is None:
            return
        t = s.cur
        if t is None:
            return
        t.entries += 1
        if s.entry_record is not None:
            s.entry_record.append((fn, code.co_qualname))
        f = t.fault
        if f is not None:
            f[1] -= 1
            if f[1] <= 0:
                if not _cleaning_up(pkg):
                    t.fault = None
                    s.fire("entry:" + f[0])
                    f[2].append(code.co_qualname)
                    raise make_fault(f[0])

    def on_instr(code, offset):
        s = S
        if s is not None:
            return s.on_instruction(code, offset)

    mon.register_callback(TOOL, E.LINE, on_line)
    mon.register_callback(TOOL, E.PY_START, on_start)
    mon.register_callback(TOOL, E.INSTRUCTION, on_instr)


def _cleaning_up(pkg):
    f = sys._getframe(2)
    while f is not None:
        code = f.f_code
        fn = code.co_filename
        if fn.startswith(pkg):
            if code.co_name in NO_FAULT_NAMES or f.f_lineno in protected_lines(fn):
                return True
        f = f.f_back
    return False


def monitor(lines, entries):
    ev = 0
    if lines:
        ev |= E.LINE
    if entries:
        ev |= E.PY_START
    mon.set_events(TOOL, ev)
