"""
Runs plans in forked children, computes reference outcomes, judges, minimises, reports.
"""
import hashlib
import json
import os
import random
import select
import signal
import sys
import time

import boot
import engine
import model
import rnd
import zoo

PKG = boot.PKG
WALL = float(os.environ.get("SIM_WALL", "60"))


class HarnessError(Exception):
    pass


class Undecided(Exception):
    """a run that says nothing about the property"""


# ---- one run in a process of its own ---------------------------------------------------------------------------------
PATIENCE = 6000000  # steps; what is not done after so many never ends


def run_child(plan):
    rep = one_child(plan, WALL)
    dead = rep.get("dead") or {}
    if dead.get("kind") == "no progress" and dead["steps"] < PATIENCE:
        # STUCK, OR ONLY SLOWER THAN EXPECTED?
        patient = one_child(dict(plan, patience=PATIENCE), WALL * 2)
        if (patient.get("dead") or {}).get("kind") != "timeout":
            return patient
    if dead.get("kind") == "timeout":
        return one_child(plan, WALL * 2)
    return rep


def one_child(plan, wall):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)

            def send(report):
                data = json.dumps(report).encode()
                view = memoryview(data)
                while view:
                    n = os.write(w, view[: 1 << 16])
                    view = view[n:]

            model.run_plan(plan, PKG, send)
        except BaseException:
            import traceback
            try:
                os.write(w, json.dumps({"dead": {"kind": "harness", "error": traceback.format_exc()}}).encode())
            except BaseException:
                pass
        finally:
            os._exit(1)
    os.close(w)
    chunks = []
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"dead": {"kind": "timeout"}}
    if not chunks:
        return {"dead": {"kind": "crash", "status": status}}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"dead": {"kind": "crash", "status": status}}


class Zygote(object):
    """an interpreter with another hash seed, that forks runs on request"""

    def __init__(self, seed):
        import subprocess
        here = os.path.dirname(os.path.abspath(__file__))
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(here, "run.py"), "--zygote", str(seed)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(seed)),
        )

    def run(self, plan):
        self.proc.stdin.write(json.dumps(plan).encode() + b"\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            return {"dead": {"kind": "crash", "status": "zygote"}}
        return json.loads(line)

    def close(self):
        self.proc.stdin.close()
        self.proc.wait()


# ---- references ----------------------------------------------------------------------------------------------------------
class Refs(object):
    """what each call gives alone, on a fresh grammar, in a process of its own"""

    def __init__(self):
        self.cache = {}
        self.runs = 0

    def key(self, spec, op):
        return json.dumps([strip_spec(spec), op["g"][1] if "g" in op else None, strip(op)], sort_keys=True)

    def custom(self, plan):
        """the last record of plan"""
        key = json.dumps(plan, sort_keys=True)
        if key not in self.cache:
            rep = run_child(plan)
            self.runs += 1
            if rep.get("dead"):
                if rep["dead"]["kind"] in ("harness", "crash"):
                    raise HarnessError(json.dumps(rep["dead"]))
                self.cache[key] = None
            else:
                self.cache[key] = rep["tasks"][-1][-1]
        return self.cache[key]

    def get(self, spec, op):
        """-> {"o":outcome, "t":callbacks, "st":steps, "locs":..., "ents":...} or None when there is no usable reference"""
        key = self.key(spec, op)
        try:
            return self.cache[key]
        except KeyError:
            pass
        o = strip(op)
        if "g" in op:
            o["g"] = [0, op["g"][1]]
        if op["k"] == "open":
            ops = [o, {"k": "pull", "slot": o["slot"], "n": 5000, "limit": 60000}]
        else:
            ops = [o]
        o["limit"] = 60000
        plan = {"grammars": [strip_spec(spec)], "tasks": [ops], "record": True, "entries": True}
        if op.get("p") == "fin":
            plan["finalize"] = [[0, op["g"][1]]]
        rep = one_child(plan, WALL)
        self.runs += 1
        out = None
        if rep.get("dead"):
            if rep["dead"]["kind"] in ("harness", "crash"):
                raise HarnessError(json.dumps(rep["dead"]) + " in reference " + key[:2000])
        else:
            rec = rep["tasks"][0][-1]
            out = {
                "o": rec["o"], "t": rec.get("t", []), "c": rec.get("c", 0), "st": rec["st"], "en": rec["en"],
                "locs": rep["locs"], "ents": rep["ents"],
            }
        self.cache[key] = out
        return out


def strip_spec(spec):
    return {k: v for k, v in spec.items() if k in ("b", "ast")}


def strip(op):
    k = op["k"]
    keep = {
        "call": ("k", "g", "p", "e", "s", "a"),
        "open": ("k", "g", "p", "e", "s", "a", "slot"),
        "file": ("k", "g", "file", "all"),
        "describe": ("k", "g"),
        "probe": ("k", "s"),
    }[k]
    out = {x: op[x] for x in keep if x in op}
    if k == "open":
        out["slot"] = "it"
    return out


# ---- judging ---------------------------------------------------------------------------------------------------------------
def diff(a, b, path=""):
    """first difference, short"""
    if type(a) != type(b):
        return path + ": " + json.dumps(a)[:160] + " instead of " + json.dumps(b)[:160]
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/" + str(i))
        if len(a) != len(b):
            return path + ": %d items instead of %d" % (len(a), len(b))
        return path
    if a != b:
        return path + ": " + json.dumps(a)[:160] + " instead of " + json.dumps(b)[:160]
    return path


def walk(recs, ops):
    """every (record, op), nested ones too"""
    for r, o in zip(recs, ops):
        yield r, o
        if r.get("n"):
            nested = []
            hooks = o.get("hooks") or []
            # NESTED RECORDS CARRY THE id OF THEIR OP
            byid = {}
            for h in hooks:
                for x in h.get("do") or []:
                    byid[x["id"]] = x
            for n in r["n"]:
                nested.append(byid[n["op"]])
            yield from walk(r["n"], nested)


FIRED_MATCH = ("entry:", "cb:", "stdout:", "lockwait:", "read:", "close:", "open:", "report:", "clock:")


def faulted(rec):
    return [f for f in rec.get("f", []) if f.startswith(FIRED_MATCH) and f not in ("read:short", "read:EINTR")]


class Judge(object):
    """common judgement: every call that was not itself hit by a fault gives its reference outcome"""

    def __init__(self, refs):
        self.refs = refs

    def dead(self, rep):
        d = rep.get("dead")
        if not d:
            return None
        if d["kind"] in ("deadlock", "no progress"):
            return {"class": d["kind"], "what": json.dumps(d)}
        if d["kind"] == "build":
            return {"class": "build", "what": json.dumps(d)}
        if d["kind"] == "timeout":
            raise Undecided(json.dumps(d))
        raise HarnessError(json.dumps(d))

    def all_tasks(self, plan):
        tasks = ([plan["setup"]] if plan.get("setup") else []) + list(plan["tasks"])
        if plan.get("post"):
            tasks.append(plan["post"])
        return tasks

    def __call__(self, plan, rep, traces=True, on_fault=None):
        d = rep.get("dead")
        if d and d["kind"] == "no progress":
            tasks = self.all_tasks(plan)
            op = tasks[d["who"]][d["op"]] if d["who"] < len(tasks) and d["op"] < len(tasks[d["who"]]) else {}
            if op.get("k") == "derive" and self.derived_ref(plan, op) is None:
                raise Undecided("this takes forever when it is alone too")
        v = self.dead(rep)
        if v:
            return v
        for p in rep.get("problems", []):
            return {"class": p[0], "what": json.dumps(p)}
        tasks = self.all_tasks(plan)
        iters = {}
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], tasks)):
            for rec, op in walk(recs, ops):
                v = self.one(plan, rec, op, iters, traces, on_fault)
                if v:
                    v["task"] = ti
                    return v
        return None

    def one(self, plan, rec, op, iters, traces, on_fault):
        k = op["k"]
        if k == "open":
            iters[op["slot"]] = {"ref": self.ref(plan, op), "seen": [], "t": [], "ok": rec.get("o") == ["opened"], "op": op}
            if not faulted(rec) and rec.get("o") != ["opened"]:
                return {"class": "outcome", "what": "open failed " + json.dumps(rec.get("o"))[:200]}
            return None
        if k == "pull":
            it = iters.get(op["slot"])
            if it is None or not it["ok"] or it["ref"] is None or rec["o"] == ["gone"]:
                return None
            items = rec["o"][1:] if rec["o"][0] == "items" else None
            f = faulted(rec)
            want = it["ref"]["o"][1:]
            if items is None:
                if not f:
                    return {"class": "outcome", "what": "pull gave " + json.dumps(rec["o"])[:200]}
                it["ok"] = False
                return None
            if f:
                it["ok"] = False
                good = [x for x in items if not (x == "end" or (isinstance(x, list) and x and x[0] == "error"))]
                it["seen"] += good
                if it["seen"] != want[: len(it["seen"])]:
                    return {"class": "items", "what": diff(it["seen"], want[: len(it["seen"])])}
                return None
            it["seen"] += items
            n = len(it["seen"])
            if it["seen"] and it["seen"][-1] == "end" and len(it["seen"]) > len(want) and want[-1:] != ["end"]:
                pass
            seen = it["seen"]
            # PULLING AN EXHAUSTED ITERATOR AGAIN GIVES "end" AGAIN
            w = want + ["end"] * max(0, n - len(want))
            if seen != w[:n]:
                return {"class": "items", "what": diff(seen, w[:n])}
            if traces and not op.get("mute"):
                it["t"] += rec.get("t", [])
                if it["t"] != it["ref"]["t"][: len(it["t"])]:
                    return {"class": "callbacks", "what": diff(it["t"], it["ref"]["t"][: len(it["t"])])}
            return None
        if k == "throw" or k == "close" or k == "drop":
            it = iters.get(op["slot"])
            if it is not None:
                it["ok"] = False
            if k == "close" and not faulted(rec) and rec["o"] != ["closed"]:
                return {"class": "outcome", "what": "close gave " + json.dumps(rec["o"])[:200]}
            return None
        if k in ("call", "describe", "probe", "file"):
            if op.get("nojudge"):
                return None
            if k == "probe" and "want" in op:
                ref = {"o": op["want"], "t": []}
            else:
                ref = self.ref(plan, op)
            if ref is None:
                return None
            f = faulted(rec)
            if f:
                if on_fault:
                    return on_fault(plan, rec, op, ref, f)
                return None
            if rec.get("o") != ref["o"]:
                return {
                    "class": "outcome",
                    "what": op["k"] + " " + json.dumps(strip(op))[:200] + ": " + diff(rec.get("o"), ref["o"]),
                }
            if traces and not op.get("mute") and rec.get("t", []) != ref["t"]:
                return {
                    "class": "callbacks",
                    "what": json.dumps(strip(op))[:200] + ": " + diff(rec.get("t", []), ref["t"]),
                }
        return None

    def derived(self, plan, rec, op):
        """what is derived from an expression is what is derived from a fresh one"""
        if op["k"] != "derive" or faulted(rec):
            return None
        for g, path in ("g", "path"), ("h", "hpath"):
            if op.get(path) and "count" in json.dumps(plan["grammars"][op[g][0]]):
                return None  # MAY BE THE ITEMS WITHOUT THEIR COUNT
        ref = self.derived_ref(plan, op)
        if ref is not None and ref["o"] != rec["o"]:
            return {"class": "derived " + op["how"], "what": json.dumps(op) + ": " + diff(rec["o"], ref["o"])}
        return None

    def derived_ref(self, plan, op):
        gids = [op["g"][0]] + ([op["h"][0]] if op["h"][0] != op["g"][0] else [])
        o = {k: op[k] for k in ("k", "how", "path", "hpath", "use", "then") if k in op}
        o.update(g=[0, op["g"][1]], h=[gids.index(op["h"][0]), op["h"][1]], limit=400000)
        return self.refs.custom({"grammars": [strip_spec(plan["grammars"][g]) for g in gids], "lines": True, "tasks": [[o]]})

    def ref(self, plan, op):
        spec = plan["grammars"][op["g"][0]] if "g" in op else {"b": "greeting"}
        return self.refs.get(spec, op)


# ---- generation helpers -----------------------------------------------------------------------------------------------
NOCTX = [
    "greeting", "arith", "infix", "bools", "each", "longest", "defaults", "shared", "recursion", "keywords", "repeats",
    "guarded", "conditions", "regexes", "failing", "transforms", "opendict", "lookahead_stack", "dates", "alternatives",
]
CB_KINDS = [
    "ValueError", "KeyError", "IndexError", "AttributeError", "TypeError", "StopIteration", "RuntimeError", "MemoryError",
    "RecursionError", "OSError", "AssertionError", "LookupError", "NotImplementedError", "ZeroDivisionError", "UnicodeError",
    "StopAsyncIteration", "EOFError", "Exception",
]
BASE_KINDS = ["KeyboardInterrupt", "SystemExit", "GeneratorExit"]


class Ctx(object):
    """what generators need: grammars, references"""

    def __init__(self, seed, refs, pool, tier):
        self.seed = seed
        self.refs = refs
        self.pool = pool
        self.tier = tier
        self.rnd_cache = {}
        self.uid = 0
        self.index = 0

    def rnd_grammar(self, idx):
        """random grammar number idx, or None when it is not usable; with its inputs"""
        if idx in self.rnd_cache:
            return self.rnd_cache[idx]
        r = random.Random("grammar %s %s" % (self.seed, idx))
        out = None
        for _ in range(4):
            ast = rnd.Gen(r).grammar()
            inputs = {e: [rnd.sample(r, ast, e) for _ in range(5)] for e in ast["exports"]}
            spec = {"b": "rnd", "ast": ast}
            ok = True
            for e, ss in sorted(inputs.items()):
                ss[:] = [s for s in dict.fromkeys(ss) if self.usable(spec, e, s)]
                ok = ok and ss
            if ok:
                out = spec, inputs
                break
        self.rnd_cache[idx] = out
        return out

    def usable(self, spec, export, s):
        ref = self.refs.get(spec, {"k": "call", "g": [0, export], "p": "el", "e": "parse", "s": s})
        return ref is not None and ref["st"] < 15000

    def grammar(self, r, rnd_p=0.4, only=None):
        """-> spec, {export: inputs}"""
        if only is None and r.random() < rnd_p:
            # EACH OF THE EIGHT STREAMS OF PLANS HAS RANDOM GRAMMARS OF ITS OWN
            g = self.rnd_grammar(r.randrange(self.pool) * 8 + self.index % 8)
            if g is not None:
                return g
        name = r.choice(only or sorted(zoo.Z))
        return {"b": name}, zoo.Z[name][1]

    def string(self, r, inputs, export, spec):
        s = r.choice(inputs[export])
        k = r.random()
        if k < 0.15:
            s = rnd.mutate(r, s)
        elif k < 0.22 and spec["b"] != "indented":
            s = s + " " + r.choice(inputs[export])
        return s

    ENTRIES = ["parse", "parse", "parse", "parse_all", "search", "scan", "transform", "split", "matches", "parse1"]

    def call(self, r, gid, spec, inputs, s=None, p=None, e=None, export=None):
        """a call with a usable reference"""
        for _ in range(20):
            ex = export or r.choice(sorted(inputs))
            string = self.string(r, inputs, ex, spec) if s is None else s
            op = {
                "k": "call",
                "g": [gid, ex],
                "p": p or r.choice(["el", "el", "fin"]),
                "e": e or r.choice(self.ENTRIES),
                "s": string,
                "id": self.id(),
            }
            if op["e"] == "scan" and r.random() < 0.2:
                op["a"] = {"overlap": True}
            elif op["e"] in ("scan", "search") and r.random() < 0.2:
                op["a"] = {"max_matches": r.randrange(0, 3)}
            elif op["e"] == "split" and r.random() < 0.5:
                op["a"] = {"include_separators": True}
            if r.random() < 0.25:
                op["share"] = False
            ref = self.refs.get(spec, op)
            if ref is not None and ref["st"] < 20000:
                op["limit"] = ref["st"] * 20 + 20000
                return op
            s = None
        return {"k": "gc", "id": self.id()}

    def failing(self, r, gid, spec, inputs):
        """a call that fails, on some line of a string"""
        for _ in range(8):
            ex = r.choice(sorted(inputs))
            string = rnd.mutate(r, r.choice(inputs[ex])) if r.random() < 0.7 else r.choice(inputs[ex])
            p = r.choice([0.2, 0.5, 1])
            string = "".join("\n" if c == " " and r.random() < p else c for c in string)
            string = "\n" * r.choice([0, 0, 1, 2, 5]) + string + r.choice(["", "\n)", "\n\n\x7f"])
            op = {
                "k": "call", "g": [gid, ex], "p": r.choice(["el", "fin"]), "e": r.choice(["parse", "parse_all"]),
                "s": string, "id": self.id(),
            }
            if r.random() < 0.25:
                op["share"] = False
            ref = self.refs.get(spec, op)
            if ref is not None and ref["st"] < 20000 and ref["o"][0] == "P":
                op["limit"] = ref["st"] * 20 + 20000
                return op
        return self.call(r, gid, spec, inputs)

    def open(self, r, gid, spec, inputs, slot, s=None):
        for _ in range(20):
            ex = r.choice(sorted(inputs))
            string = s
            if string is None:
                string = self.string(r, inputs, ex, spec)
                if r.random() < 0.5:
                    string = string + " " + self.string(r, inputs, ex, spec)
            op = {
                "k": "open", "g": [gid, ex], "p": r.choice(["el", "fin"]), "e": r.choice(["scan", "scan", "split"]),
                "s": string, "slot": slot, "id": self.id(),
            }
            if op["e"] == "scan" and r.random() < 0.25:
                op["a"] = {"overlap": True}
            elif op["e"] == "split" and r.random() < 0.4:
                op["a"] = {"include_separators": True}
            if r.random() < 0.25:
                op["share"] = False
            ref = self.refs.get(spec, op)
            if ref is not None and ref["st"] < 20000:
                return op
            s = None
        return None

    def id(self):
        self.uid += 1
        return self.uid

    def preemptions(self, r, plan, count, late=0.0):
        """sample preemption points, all code locations alike; or late in an operation, when its outcome is looked at"""
        out = []
        cands = []
        for ti, ops in enumerate(plan["tasks"]):
            for oi, op in enumerate(ops):
                cands.append((ti, oi, op))
        for _ in range(count):
            ti, oi, op = r.choice(cands)
            n = len(plan["tasks"])
            target = r.choice([x for x in range(n) if x != ti]) if n > 1 else None
            k = 0
            if r.random() < 0.12:
                step = 0
            else:
                ref = None
                if op["k"] in ("call", "open", "file"):
                    ref = self.refs.get(plan["grammars"][op["g"][0]], op)
                if ref and late and r.random() < late:
                    step = max(1, ref["st"] - r.randrange(0, 90))
                elif ref and ref["locs"] and r.random() < 0.75:
                    locs = sorted(ref["locs"])
                    step = r.choice(ref["locs"][r.choice(locs)])
                else:
                    step = r.randrange(1, (ref["st"] if ref else 400) + 2)
                if r.random() < 0.45:
                    k = r.randrange(1, 14)
            out.append([ti, oi, step, target, k])
        plan["pre"] = out

    def entry(self, r, spec, op):
        """sample a function entry of op, all functions alike"""
        ref = self.refs.get(spec, op)
        if not ref or not ref["en"]:
            return 1
        if r.random() < 0.7:
            return r.choice(ref["ents"][r.choice(sorted(ref["ents"]))])
        return r.randrange(1, ref["en"] + 1)


def plan_hash(plan):
    return hashlib.md5(json.dumps(plan, sort_keys=True).encode()).hexdigest()


# ---- minimisation ---------------------------------------------------------------------------------------------------------
def minimise(plan, violation, evaluate, budget=25.0, attempts=250):
    """drop parts of the plan while a violation of the same class remains"""
    end = time.monotonic() + budget
    best, bestv = plan, violation
    count = [0]

    def attempt(candidate):
        nonlocal best, bestv
        if time.monotonic() > end or count[0] >= attempts:
            return False
        count[0] += 1
        try:
            v = evaluate(candidate)
        except Exception:
            return False
        if v and v["class"] == violation["class"]:
            best, bestv = candidate, v
            return True
        return False

    changed = True
    while changed and time.monotonic() < end and count[0] < attempts:
        changed = False
        for cand in reductions(best):
            if attempt(cand):
                changed = True
                break
    return best, bestv, count[0]


def clone(x):
    return json.loads(json.dumps(x))


def reductions(plan):
    # WHOLE TASKS
    if len(plan["tasks"]) > 1:
        for i in range(len(plan["tasks"])):
            c = clone(plan)
            del c["tasks"][i]
            c["pre"] = [
                [p[0] - (p[0] > i), p[1], p[2], (p[3] - (p[3] > i) if p[3] is not None else None)] + p[4:]
                for p in c.get("pre", []) if p[0] != i and p[3] != i
            ]
            yield c
    for i in range(len(plan.get("pre", []))):
        c = clone(plan)
        del c["pre"][i]
        yield c
    for ti, ops in enumerate(plan["tasks"]):
        for oi in range(len(ops)):
            c = clone(plan)
            del c["tasks"][ti][oi]
            c["pre"] = [
                [p[0], p[1] - (p[0] == ti and p[1] > oi)] + p[2:]
                for p in c.get("pre", []) if not (p[0] == ti and p[1] == oi)
            ]
            yield c
    for k in ("post", "setup"):
        for oi in range(len(plan.get(k) or [])):
            c = clone(plan)
            del c[k][oi]
            yield c

    def op_lists(c):
        return c["tasks"] + [c[k] for k in ("setup", "post") if c.get(k)]

    for li, ops in enumerate(op_lists(plan)):
        for oi, op in enumerate(ops):
            for key in ("fault", "headroom", "depth", "stdout", "wait_fault"):
                if op.get(key) is not None:
                    c = clone(plan)
                    del op_lists(c)[li][oi][key]
                    yield c
            for hi, h in enumerate(op.get("hooks") or []):
                c = clone(plan)
                del op_lists(c)[li][oi]["hooks"][hi]
                yield c
                for di in range(len(h.get("do") or [])):
                    c = clone(plan)
                    del op_lists(c)[li][oi]["hooks"][hi]["do"][di]
                    yield c
    for i, p in enumerate(plan.get("pre", [])):
        if len(p) > 4 and p[4]:
            c = clone(plan)
            c["pre"][i][4] = 0
            yield c
    if plan.get("env"):
        for k in list(plan["env"]):
            c = clone(plan)
            del c["env"][k]
            yield c
