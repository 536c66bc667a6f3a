"""
Executes the operations of simulated clients against the real library, and records what they observe.
"""
import builtins
import collections
import copy
import gc
import hashlib
import io
import json
import os
import sys
import threading
import types

import engine
from engine import INF, Simulation, make_fault

import mo_parsing
from mo_parsing import whitespaces
from mo_parsing.core import ParserElement, Parser
from mo_parsing.exceptions import ParseException
from mo_parsing.results import ParseResults

import zoo
import rnd

MAXSTR = 1500


# ---- what an outcome looks like ------------------------------------------------------------------------------------
def name_of(cls):
    return cls.__name__


def plain(v):
    t = type(v)
    if t in (str, int, float, bool, type(None)):
        return v if t is not float else repr(v)
    if t in (list, tuple):
        return [t.__name__] + [tree(x) for x in v]
    if t is dict:
        return ["dict"] + [[plain(k), tree(x)] for k, x in v.items()]
    if isinstance(v, ParserElement):
        return ["element", name_of(t)]
    r = repr(v)
    return [name_of(t), r if " at 0x" not in r else ""]


def tree(v, depth=0):
    if depth > 80:
        return "..."
    if isinstance(v, ParseResults):
        try:
            ty = name_of(type(v.type))
        except Exception as e:
            ty = "?" + name_of(type(e))
        try:
            nm = v.name
        except Exception as e:
            nm = "?" + name_of(type(e))
        return ["R", name_of(type(v)), ty, nm, v.start, v.end] + [tree(x, depth + 1) for x in v.tokens]
    return plain(v)


def safe(f):
    try:
        return f()
    except RecursionError:
        return "<RecursionError>"
    except Exception as e:
        return "<" + name_of(type(e)) + ">"


def short(s):
    if isinstance(s, str) and len(s) > MAXSTR:

        return s[:200] + "#" + hashlib.md5(s.encode("utf8", "replace")).hexdigest()
    return s


def canon(v):
    """a value, as observed"""
    if isinstance(v, ParseResults):
        return ["V", tree(v), short(safe(lambda: str(v)))]
    if isinstance(v, (list, tuple)):
        return ["L"] + [canon(x) for x in v]
    return ["v", plain(v)]


def canon_error(e):
    if isinstance(e, ParseException):
        return [
            "P",
            name_of(type(e)),
            safe(lambda: e.loc),
            safe(lambda: e.lineno),
            safe(lambda: e.column),
            safe(lambda: e.line),
            short(safe(lambda: e.message)),
            short(safe(lambda: str(e))),
        ]
    return ["E", name_of(type(e)), chain(e)]


def chain(e, depth=0):
    """names of the errors in the chain of causes: was it a parse failure, was it the injected one"""
    out = []
    for _ in range(6):
        c = getattr(e, "cause", None)
        if not isinstance(c, BaseException):
            c = getattr(e, "__cause__", None) if not isinstance(e, ParseException) else None
        if c is None or not isinstance(c, BaseException):
            break
        n = name_of(type(c))
        if n != "Except" and n not in out:
            out.append(n)
        e = c
    return out


def outcome(f):
    try:
        return canon(f())
    except engine.SimAbort:
        raise
    except Exception as e:
        return canon_error(e)


READS = {
    "str": lambda r: short(str(r)),
    "repr": lambda r: short(repr(r)),
    "list": lambda r: plain(r.as_list()),
    "iter": lambda r: [tree(x) for x in r],
    "len": lambda r: [len(r), r.length(), bool(r)],
    "items": lambda r: sorted([k, [tree(x) for x in v]] for k, v in r.items()),
    "keys": lambda r: list(r.keys()),
    "value": lambda r: plain(r.value()),
    "string": lambda r: r.as_string(),
    "first": lambda r: tree(r[0]),
    "last": lambda r: tree(r[-1]),
    "slice": lambda r: [tree(x) for x in r[0:2]],
    "names": lambda r: [[k, tree(r[k]), tree(r.get(k)), k in r] for k in sorted(set(r.keys())) + ["no_such_name"]],
    "eq": lambda r: [r == r, r == "", r == ["a"]],
    "data": lambda r: len(r.__data__()),
    "name": lambda r: [r.name, r.get_name() if r.tokens else ""],
    "tree": lambda r: tree(r),
    "bounds": lambda r: [r.start, r.end],
    "type": lambda r: short(str(r.type)),
    "failures": lambda r: [short(str(f)) for f in r.failures],
}
ERROR_READS = {
    "str": lambda e: short(str(e)),
    "repr": lambda e: short(repr(e)),
    "message": lambda e: short(e.message),
    "best": lambda e: short(e.best_message),
    "best2": lambda e: short(str(e.best_cause.message)),
    "loc": lambda e: e.loc,
    "pos": lambda e: [e.lineno, e.col, e.column, e.line],
    "mark": lambda e: e.mark_inputline(),
    "causes": lambda e: [short(str(c)) for c in e.causes],
    "exprs": lambda e: [short(str(c.expr)) if isinstance(c, ParseException) else name_of(type(c)) for c in e.causes],
    "ncauses": lambda e: len(e.causes),
    "contains": lambda e: ["Expecting" in e, ParseException in e],
}


# ---- callbacks ---------------------------------------------------------------------------------------------------------
class Callbacks(object):
    """
    creates the callbacks of a grammar.  Every invocation is recorded with the operation that is running, and is a
    point where the plan may inject a fault, a rejection, or further operations
    """

    def __init__(self, run, gid):
        self.run = run
        self.gid = gid

    def __call__(self, label, fn=None):
        run = self.run
        num = fn.__code__.co_argcount if fn is not None else 0

        def action(t, i, s):
            run.callback(label, t, i, s)
            if fn is None:
                return None
            return fn(*(t, i, s)[:num])

        return action

    def cond(self, label, fn):
        run = self.run

        def condition(t, i, s):
            run.callback("?" + label, t, i, s)
            return fn(t)

        return condition

    def fail(self, label):
        run = self.run

        def fail_action(expr, i, s, cause):
            run.callback("!" + label, None, i, s, cause)

        return fail_action


class SimStdout(object):
    """stdout of the simulated process: counts, and fails when told to"""

    encoding = "utf8"

    def __init__(self, run):
        self.run = run

    def write(self, text):
        sim = self.run.sim
        t = sim.cur
        if t is not None and t.stack:
            r = t.stack[-1]
            r["w"] = r.get("w", 0) + 1
        self.run.printed += 1
        if t is not None:
            sim.step(t, ("stdout", 0))
            if t.stack:
                f = t.stack[-1].get("_out")
                if f and f[0] == t.stack[-1]["w"]:
                    sim.fire("stdout:" + f[1])
                    raise make_fault(f[1])
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


class SimRaw(io.RawIOBase):
    """the disk: delivers chunks as planned, with errors as planned"""

    def __init__(self, run, spec):
        self.run = run
        self.data = spec["data"].encode("latin1")  # bytes are kept as latin1 text in plans
        self.pos = 0
        self.reads = list(spec.get("chunks") or [])
        self.faults = {int(k): v for k, v in (spec.get("faults") or {}).items()}
        self.n = 0
        self.close_fault = spec.get("close")

    def readable(self):
        return True

    def readinto(self, b):
        sim = self.run.sim
        self.n += 1
        if sim.cur is not None:
            sim.step(sim.cur, ("read", self.n))
        f = self.faults.pop(self.n, None)
        if f == "EINTR":
            sim.fire("read:EINTR")
            self.n += 0
            # INTERPRETER RETRIES (PEP 475) BELOW US: MODELLED AS A DELAY
            return self.readinto(b)
        if f:
            sim.fire("read:" + f)
            raise make_fault(f)
        size = self.reads.pop(0) if self.reads else len(b)
        if size < len(b) and self.pos + size < len(self.data):
            sim.fire("read:short")
        chunk = self.data[self.pos : self.pos + min(len(b), max(size, 1))]
        b[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def close(self):
        if not self.closed:
            self.run.log_file("close")
            f = self.close_fault
            super().close()
            if f:
                self.run.sim.fire("close:" + f)
                raise make_fault(f)


class GivenFile(object):
    """an open file object handed to parse_file"""

    def __init__(self, run, spec):
        self.run = run
        self.spec = spec
        self.closed = False
        self.count = 0

    def read(self, *size):
        run = self.run
        self.count += 1
        if run.sim.cur is not None:
            run.sim.step(run.sim.cur, ("read", self.count))
        f = self.spec.get("read_fault")
        if f:
            run.sim.fire("read:" + f)
            raise make_fault(f)
        if size and size[0] is not None and size[0] >= 0:
            n = size[0]
            if self.spec.get("short") and n > 1:
                # A TEXT STREAM MAY GIVE LESS THAN WAS ASKED FOR, EMPTY MEANS THE END
                n = max(1, n // self.spec["short"][self.count % len(self.spec["short"])])
                if n < min(size[0], len(self.spec["text"])):
                    run.sim.fire("read:short")
            out, self.spec["text"] = self.spec["text"][:n], self.spec["text"][n:]
            return out
        out, self.spec["text"] = self.spec["text"], ""
        return out

    def close(self):
        self.closed = True
        self.run.log_file("given-close")

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def __iter__(self):
        return iter(self.read().splitlines(True))


# ---- the run ------------------------------------------------------------------------------------------------------------
class Run(object):
    def __init__(self, plan, pkg):
        self.plan = plan
        self.sim = Simulation(plan, pkg)
        self.pkg = pkg
        self.grammars = []
        self.parsers = {}
        self.parts = {}
        self.strings = {}
        self.slots = {}
        self.kept = {}
        self.printed = 0
        self.ctx = []  # model of the whitespace stack: the objects
        self.problems = []
        self.sessions = {}
        self.quiet_ctx = 0
        self.in_call = 0
        self.changing = 0
        self.expected_current = None
        self.derived = {}
        self.addresses = None
        self.whites = {}
        self.rep = 0
        self.sizes = []

    # ---- what is held
    def rest(self):
        """the client lets go of everything but its grammars"""
        self.slots.clear()
        self.kept.clear()
        self.derived.clear()
        self.sessions.clear()
        self.strings.clear()
        self.parts.clear()
        del self.problems[:]
        gc.collect()

    def measure(self):
        gc.collect()
        self.sizes.append(held_by_library(
            [self.grammars, list(self.parsers.values())]
        ))

    # ---- grammars
    def build(self, spec, gid):
        cb = Callbacks(self, gid)
        if spec["b"] == "rnd":
            return rnd.build(spec["ast"], cb)
        f, _ = zoo.Z[spec["b"]]
        return f(cb)

    def expr(self, g):
        gid, export = g[0], g[1]
        e = self.grammars[gid]
        if e is None:
            e = self.grammars[gid] = self.build(self.plan["grammars"][gid], gid)
        return e[export]

    def part(self, g, path):
        """what a user may have in a variable since the grammar was built"""
        key = json.dumps([g, path])
        p = self.parts.get(key)
        if p is None:
            p = self.parts[key] = part_of(self.expr(g), path)
        return p

    def parser(self, g):
        key = g[0], g[1]
        p = self.parsers.get(key)
        if p is None:
            p = self.parsers[key] = self.expr(g).finalize()
        return p

    def string(self, s, share=True):
        if share:
            return self.strings.setdefault(s, s)
        if len(s) > 1:
            return s[:1] + s[1:]
        return s

    def log_file(self, event):
        """what happened to the file of the running operation"""
        t = self.sim.cur
        if t is not None:
            for r in reversed(t.stack):
                if "files" in r:
                    r["files"].append(event)
                    return

    # ---- callbacks
    def callback(self, label, tokens, index, string, cause=None):
        sim = self.sim
        t = sim.cur
        if t is None or not t.stack:
            return
        rec = t.stack[-1]
        n = rec["c"] = rec["c"] + 1
        if rec["k"] == "file" and n == 1:
            self.log_file("match")
        if not rec.get("_mute"):
            rec["t"].append([label, index, tree(tokens) if tokens is not None else None])
        sim.step(t, ("cb:" + label, n))
        for h in rec["_hooks"]:
            hit = h["n"] == n or (h.get("every") and n >= h["n"] and (n - h["n"]) % h["every"] == 0)
            if not hit:
                continue
            if h.get("label") and h["label"] != label:
                continue
            if h.get("every"):
                # HOOKS OF HOOKS MULTIPLY
                hits = rec.setdefault("_hits", {})
                hits[id(h)] = hits.get(id(h), 0) + 1
                if hits[id(h)] > 10:
                    continue
            if "keepcause" in h and cause is not None:
                # A FAIL ACTION MAY KEEP THE ERROR IT WAS GIVEN
                self.kept[h["keepcause"]] = cause
            if "do" in h:
                sim.fire("nested")
                mute = rec.get("_mute")
                for o in h["do"]:
                    r = self.execute(t, o, nested=True)
                    rec.setdefault("n", []).append(r)
            if "mutate" in h and isinstance(tokens, ParseResults):
                sim.fire("mutate")
                safe(lambda: self.mutate(tokens, h["mutate"]))
            if "raise" in h:
                kind = h["raise"]
                sim.fire("cb:" + kind)
                if kind == "ParseException":
                    typ = tokens.type if tokens is not None else None
                    raise ParseException(typ if typ is not None else mo_parsing.Empty(), index, string, msg="rejected")
                raise make_fault(kind)

    @staticmethod
    def mutate(r, how):
        if how == "append":
            r.tokens.append("MUTATED")
        elif how == "clear":
            del r.tokens[:]
        elif how == "set":
            r["mutated"] = "MUTATED"
        elif how == "setname":
            for k in list(r.keys())[:1]:
                r[k] = "MUTATED"
        elif how == "missing":
            # A NAME THAT IS NOT THERE GIVES AN EMPTY RESULT, WHICH IS ALSO PRIVATE
            r["no_such_name"]["mutated"] = "MUTATED"
            r["no_such_name"].tokens.append("MUTATED")
        elif how == "erase":
            for k in list(r.keys())[:1]:
                r[k] = r["no_such_name"]
                r[k].tokens.append("MUTATED")
        elif how == "del":
            for k in list(r.keys())[:1]:
                del r[k]
        elif how == "deep":
            stack = [r]
            while stack:
                x = stack.pop()
                if isinstance(x, ParseResults):
                    stack.extend(x.tokens)
                    x.tokens.append("MUTATED")
                    x.start = 0
                elif isinstance(x, list):
                    x.append("MUTATED")

    # ---- operations
    def task_body(self, t):
        again = self.plan.get("again", 1) if t.ops is self.repeated else 1
        for rep in range(again):
            if rep:
                self.rep = rep
                del t.recs[:]
            for i, op in enumerate(t.ops):
                self.sim.begin_op(t, i, max(op.get("limit", 400000), self.plan.get("patience", 0)))
                rec = self.execute(t, op)
                t.recs.append(rec)
                t.total += t.steps
                self.sim.completed(t, i + 1)
            if again > 1:
                self.rest()
                self.measure()

    def execute(self, t, op, nested=False):
        sim = self.sim
        rec = {"k": op["k"], "t": [], "c": 0, "_hooks": op.get("hooks") or [], "op": op.get("id")}
        if op.get("stdout"):
            rec["_out"] = op["stdout"]
        t.stack.append(rec)
        saved_fault = t.fault
        f = op.get("fault")
        where = []
        t.fault = [f["kind"], f["entry"], where] if f else None
        t.wait_fault = op.get("wait_fault")
        error = None
        old_limit, old_reclimit = None, t.reclimit
        out = None
        try:
            method = getattr(self, "op_" + op["k"])
            if op.get("headroom") is not None:
                depth = _depth()
                old_limit = sys.getrecursionlimit()
                sys.setrecursionlimit(depth + op["headroom"])
                t.reclimit = depth + op["headroom"]
            if op.get("depth"):
                value = _deeper(op["depth"], lambda: method(t, op, rec))
            else:
                value = method(t, op, rec)
        except engine.SimAbort:
            raise
        except BaseException as cause:
            error = cause
        finally:
            if old_limit is not None:
                t.reclimit = old_reclimit
                sys.setrecursionlimit(old_limit)
            t.fault = None
            t.wait_fault = None
        if error is not None:
            rec["o"] = canon_error(error) if not op.get("blind") else ["X"]
            if op.get("keep") is not None:
                self.kept[op["keep"]] = error
            if op["k"] in ("call", "file"):
                error.__traceback__ = None
                error.__context__ = None
        else:
            if rec.get("raw"):
                rec["o"] = value
            else:
                rec["o"] = canon(value) if not op.get("blind") else ["X"]
            if op.get("keep") is not None and not rec.get("raw"):
                self.kept[op["keep"]] = value
        rec.pop("raw", None)
        t.fault = saved_fault
        t.stack.pop()
        rec["st"] = t.steps
        rec["en"] = t.entries
        if where:
            rec["at"] = where
        return {k: v for k, v in rec.items() if not k.startswith("_") and v not in (None, [])}

    repeated = None

    def op_call(self, t, op, rec):
        s = self.string(op["s"] + "".join(" \n"[self.rep >> i & 1] for i in range(9)) if self.plan.get("vary") else op["s"], op.get("share", True))
        e = op["e"]
        p = op.get("p", "el")
        target = self.parser(op["g"]) if p == "fin" else self.expr(op["g"])
        mine = self.addresses is not None and not op.get("share", True) and len(s) > 1
        if mine:
            self.addresses.born(s)
        self.in_call += 1
        try:
            return do_call(target, p, e, s, op.get("a") or {})
        finally:
            self.in_call -= 1
            if mine:
                self.addresses.drop(s)

    def op_file(self, t, op, rec):
        spec = dict(op["file"])
        target = self.expr(op["g"])
        rec["files"] = []
        if spec["mode"] == "given":
            f = GivenFile(self, spec)
            if spec.get("noread"):
                f = NoRead(self, spec)
        elif spec["mode"] == "handle":
            # AN OPEN FILE OF PYTHON'S OWN, OVER THE SIMULATED DISK
            self.files[spec["path"]] = spec
            f = open(spec["path"], "r", encoding="utf8")
        else:
            self.files[spec["path"]] = spec
            f = spec["path"]
            if spec["mode"] == "pathlike":
                import pathlib
                f = pathlib.PurePosixPath(spec["path"])
        try:
            out = target.parse_file(f, parse_all=bool(op.get("all")))
            rec["files"].append("returned")
            return out
        except engine.SimAbort:
            raise
        except BaseException:
            rec["files"].append("raised")  # THE FRAMES ARE STILL THERE: NOTHING WAS CLOSED BY LOSING THE LAST REFERENCE
            raise
        finally:
            if isinstance(f, GivenFile):
                rec["given"] = [f.closed, f.count]
            elif spec["mode"] == "handle":
                rec["given"] = [f.closed, 0]
                f.close()

    # ---- lazy scans
    def op_open(self, t, op, rec):
        s = self.string(op["s"], op.get("share", True))
        target = self.parser(op["g"]) if op.get("p") == "fin" else self.expr(op["g"])
        a = op.get("a") or {}
        it = target.scan_string(s, **a) if op["e"] == "scan" else target.split(s, **a)
        self.slots[op["slot"]] = it
        rec["raw"] = True
        return ["opened"]

    def op_pull(self, t, op, rec):
        rec["raw"] = True
        it = self.slots.get(op["slot"])
        if it is None:
            return ["gone"]
        items, last = [], []
        for _ in range(op.get("n", 1)):
            try:
                items.append(next(it))
            except StopIteration:
                last = ["end"]
                break
            except engine.SimAbort:
                raise
            except BaseException as cause:
                last = [cause]
                break
        t.fault = None  # LOOKING AT THE ITEMS IS NOT PART OF THE OPERATION
        last = [x if x == "end" else ["error", canon_error(x)] for x in last]
        return ["items"] + [canon(x) for x in items] + last

    def op_close(self, t, op, rec):
        rec["raw"] = True
        it = self.slots.pop(op["slot"], None)
        if it is not None:
            it.close()
        return ["closed"]

    def op_drop(self, t, op, rec):
        rec["raw"] = True
        self.slots.pop(op["slot"], None)
        if op.get("gc"):
            gc.collect()
        return ["dropped"]

    def op_throw(self, t, op, rec):
        rec["raw"] = True
        it = self.slots.get(op["slot"])
        if it is None:
            return ["gone"]
        try:
            it.throw(make_fault(op["kind"]))
        except StopIteration:
            return ["stop"]
        except BaseException as e:
            if isinstance(e, engine.SimAbort):
                raise
            return ["thrown", name_of(type(e))]
        return ["yielded"]

    # ---- held results and errors
    def op_read(self, t, op, rec):
        rec["raw"] = True
        v = self.kept.get(op["slot"])
        if v is None:
            return ["gone"]
        if isinstance(v, (list, tuple)):
            v = [x for x in _walk_results(v)]
            v = v[0] if v else None
        if isinstance(v, ParseException):
            f = ERROR_READS.get(op["r"]) or ERROR_READS["str"]
        elif isinstance(v, ParseResults):
            f = READS.get(op["r"]) or READS["str"]
        else:
            return ["none"]
        try:
            return ["read", f(v)]
        except Exception as e:
            return ["raised", name_of(type(e))]

    def op_mutate(self, t, op, rec):
        rec["raw"] = True
        v = self.kept.get(op["slot"])
        if isinstance(v, (list, tuple)):
            v = [x for x in _walk_results(v)]
            v = v[0] if v else None
        if isinstance(v, ParseResults):
            try:
                self.mutate(v, op["how"])
            except Exception as e:
                return ["mutate", name_of(type(e))]
        return ["mutate"]

    def op_compute(self, t, op, rec):
        """make something of a result, then change that"""
        rec["raw"] = True
        v, w = self._result(op["slot"]), self._result(op["with"])
        if v is None or w is None:
            return ["none"]
        self.changing += 1
        try:
            how = op["how"]
            if how == "copy":
                self.mutate(copy.copy(v), op["then"])
            elif how == "add":
                self.mutate(v + w, op["then"])
            elif how == "sum":
                self.mutate(sum([v, w]), op["then"])
            elif how == "slice":
                v[0:2].append("MUTATED")
                v[:].clear()
            elif how == "many":
                for k in list(v.keys()):
                    x = v[k]
                    if len(list(v._get_item_by_name(k))) != 1:
                        self.mutate(x, op["then"])
            elif how == "list":
                _spoil(v.as_list(), _list_tokens(v))
                v.as_list().clear()
            elif how == "value":
                x = v.value()
                if isinstance(x, list) and len(v) > 1:
                    _spoil(x, _list_tokens(v))
            elif how == "items":
                for _, x in v.items():
                    if isinstance(x, list):
                        x.append("MUTATED")
                        del x[0]
            elif how == "iter":
                x = list(v)
                x.clear()
            elif how == "missing":
                v.get("no_such_name", ["default"]).append("MUTATED")
                self.mutate(v["no_such_name"], "missing")
            return ["computed"]
        except engine.SimAbort:
            raise
        except Exception as e:
            return ["computed", name_of(type(e))]
        finally:
            self.changing -= 1

    def _result(self, slot):
        v = self.kept.get(slot)
        if isinstance(v, (list, tuple)):
            v = next(iter(_walk_results(v)), None)
        return v if isinstance(v, ParseResults) else None

    def op_await(self, t, op, rec):
        """wait for another thread to get something done"""
        rec["raw"] = True
        self.sim.wait_for(t, op["task"], op["count"])
        return ["waited"]

    def op_snapshot(self, t, op, rec):
        """everything held in a slot"""
        rec["raw"] = True
        v = self.kept.get(op["slot"])
        if v is None:
            return ["gone"]
        if isinstance(v, BaseException):
            return canon_error(v)
        return canon(v)

    # ---- environment
    def op_gc(self, t, op, rec):
        rec["raw"] = True
        gc.collect()
        return ["gc"]

    def op_build(self, t, op, rec):
        rec["raw"] = True
        gid = op["g"][0]
        self.changing += 1
        before = whitespaces.CURRENT
        try:
            built = self.build(self.plan["grammars"][gid], gid)
            if op.get("fin"):
                self.parsers[gid, op["g"][1]] = built[op["g"][1]].finalize()
            self.grammars[gid] = built
        finally:
            self.changing -= 1
            if whitespaces.CURRENT is not before:
                self.problems.append(["building left another whitespace"])
        return ["built"]

    def op_forget(self, t, op, rec):
        """drop a grammar, so that its memory can be reused"""
        rec["raw"] = True
        gid = op["g"][0]
        self.grammars[gid] = None
        for k in [k for k in self.parsers if k[0] == gid]:
            del self.parsers[k]
        gc.collect()
        return ["forgotten"]

    def op_derive(self, t, op, rec):
        import derive
        rec["raw"] = True
        base = self.part(op["g"], op.get("path"))
        other = self.part(op["h"], op.get("hpath")) if op.get("h") else None
        self.changing += 1
        before = whitespaces.CURRENT
        try:
            if op["how"] == "later":
                # NOT DEFINED UNTIL SOME ARE DERIVED FROM IT
                d = mo_parsing.Forward()
                for h in op.get("first", []):
                    try:
                        self.derived[len(self.derived)] = derive.D[h](d, other, self)
                    except engine.SimAbort:
                        raise
                    except Exception:
                        pass
                d << base
            else:
                d = derive.D[op["how"]](base, other, self)
            rec["ok"] = True
            self.derived[len(self.derived)] = d
            if op.get("then") and isinstance(d, ParserElement) and d is not base and d is not other:
                for then in op["then"]:
                    if then == "append" and hasattr(d, "append") and hasattr(d, "exprs"):
                        d.append(mo_parsing.Literal("zz"))
                    elif then == "pname":
                        d.set_parser_name("changed in place")
                    elif then == "fail":
                        d.setFailAction(lambda *a: None)
            if op.get("use") and isinstance(d, (ParserElement, Parser)):
                return ["derived", outcome(lambda: d.parse_string(op["use"])), outcome(lambda: d.search_string(op["use"]))]
            if isinstance(d, (str, int)):
                return ["derived", short(d)]
            return ["derived"]
        except engine.SimAbort:
            raise
        except Exception as e:
            return ["underivable", name_of(type(e))]
        finally:
            self.changing -= 1
            if whitespaces.CURRENT is not before and (len(self.plan["tasks"]) == 1 or self.plan.get("watch")):
                self.problems.append(["deriving left another whitespace", op["how"]])

    def op_describe(self, t, op, rec):
        """names and number of actions, of an expression and its parts"""
        rec["raw"] = True
        e = self.expr(op["g"])
        return ["described", e.token_name, e.parser_name, len(e.parse_action), name_of(type(e))]

    # ---- whitespace contexts
    def op_whitespace(self, t, op, rec):
        """a Whitespace, not entered"""
        rec["raw"] = True
        self.whites[op["wid"]] = make_whitespace(op["w"])
        return ["whitespace"]

    def op_config(self, t, op, rec):
        """change the rules of a Whitespace object, or of the current context"""
        rec["raw"] = True
        w = self.whites.get(op["wid"]) if "wid" in op else whitespaces.CURRENT
        if w is None:
            return ["nothing"]
        how, arg = op["how"], op["arg"]
        if how == "white":
            w.set_whitespace(arg)
        elif how == "ignore":
            w.add_ignore(mo_parsing.Literal(arg))
        elif how == "literal":
            w.set_literal(getattr(mo_parsing, arg))
        elif how == "keyword":
            w.set_keyword_chars(arg)
        return ["config"]

    def op_enter(self, t, op, rec):
        rec["raw"] = True
        wid = op.get("wid")
        w = self.whites.get(wid)
        if w is None:
            w = make_whitespace(op["w"])
            if wid is not None:
                self.whites[wid] = w
        before = whitespaces.CURRENT
        self.changing += 1
        try:
            c = w.use() if op.get("use") else w.__enter__()
        finally:
            self.changing -= 1
        ok = whitespaces.CURRENT is c
        self.ctx.append((w, c, before, op["w"]))
        self.expected_current = whitespaces.CURRENT
        return ["entered", ok]

    def op_leave(self, t, op, rec):
        """leave the innermost context, properly"""
        rec["raw"] = True
        if not self.ctx:
            return ["nothing"]
        w, c, before, spec = self.ctx.pop()
        how = op.get("how", "exit")
        self.changing += 1
        try:
            if how == "exit":
                w.__exit__(None, None, None)
            elif how == "error":
                e = make_fault(op.get("kind", "ValueError"))
                swallowed = w.__exit__(type(e), e, None)
                if swallowed:
                    return ["left", False, "swallowed"]
            elif how == "release":
                c.release()
            elif how == "release_outer":
                w.release()
        finally:
            self.changing -= 1
        ok = whitespaces.CURRENT is before
        self.expected_current = whitespaces.CURRENT
        return ["left", ok]

    def op_badleave(self, t, op, rec):
        """leave a context that is not the innermost: must fail, and change nothing"""
        rec["raw"] = True
        before = whitespaces.CURRENT
        if op["which"] == "stranger":
            w = mo_parsing.Whitespace("x")
        else:
            cands = self.ctx[:-1]
            if not cands:
                w = mo_parsing.Whitespace("y")
            else:
                x = cands[op["which"] % len(cands)]
                w = x[1] if op.get("copy") else x[0]
                if w is self.ctx[-1][0]:
                    w = mo_parsing.Whitespace("z")  # ENTERED AGAIN: IT IS THE INNERMOST
        self.changing += 1
        try:
            try:
                if op.get("release"):
                    w.release()
                elif op.get("error"):
                    e = make_fault(op["error"])
                    w.__exit__(type(e), e, None)
                else:
                    w.__exit__(None, None, None)
                failed = False
            except Exception:
                failed = True
        finally:
            self.changing -= 1
        return ["bad", failed, whitespaces.CURRENT is before]

    def op_configure(self, t, op, rec):
        """configure a context that is not (or no longer) used by the grammars"""
        rec["raw"] = True
        w = mo_parsing.Whitespace(op.get("white", " "))
        self.changing += 1
        try:
            with w as c:
                safe(lambda: c.set_whitespace(op.get("to", "#")))
                if op.get("ignore"):
                    c.add_ignore(mo_parsing.Literal(op["ignore"]))
        finally:
            self.changing -= 1
        return ["configured"]

    def op_spawn(self, t, op, rec):
        """build an expression that shows which whitespace is current"""
        rec["raw"] = True
        self.changing += 1
        try:
            w = whitespaces.CURRENT
            e = SHAPES[op["shape"]][0](w.normalize)
            self.derived[op["slot"]] = e if op.get("late") else e.finalize()
            same = whitespaces.CURRENT is w
        finally:
            self.changing -= 1
        return ["spawned", same]

    def op_finish(self, t, op, rec):
        """finalize what was spawned, maybe in another context"""
        rec["raw"] = True
        e = self.derived.get(op["slot"])
        if e is None:
            return ["nothing"]
        self.changing += 1
        try:
            w = whitespaces.CURRENT
            self.derived[op["slot"]] = e.finalize()
            return ["finished", whitespaces.CURRENT is w]
        finally:
            self.changing -= 1

    def op_probe(self, t, op, rec):
        p = self.derived[op["slot"]]
        self.in_call += 1
        try:
            return p.parse_string(op["s"])
        finally:
            self.in_call -= 1

    # ---- debugging sessions
    def op_session(self, t, op, rec):
        rec["raw"] = True
        if op["type"] == "debugger":
            from mo_parsing.debug import Debugger
            s = Debugger(silent=op.get("silent", False))
        else:
            from mo_parsing.profile import Profiler
            s = Profiler("/sim/profile")
        self.changing += 1
        try:
            s.__enter__()
        finally:
            self.changing -= 1
        self.sessions[op["slot"]] = s
        return ["session"]

    def op_end_session(self, t, op, rec):
        rec["raw"] = True
        s = self.sessions.pop(op["slot"], None)
        if s is None:
            return ["nothing"]
        e = make_fault(op["error"]) if op.get("error") else None
        self.sim.device_faults.clear()
        if op.get("report"):
            self.sim.device_faults["report", 0] = op["report"]
        if op.get("clock"):
            self.sim.device_faults["clock", 0] = op["clock"]
        try:
            r = s.__exit__(type(e) if e else None, e, None)
            return ["ended", bool(r)]
        except engine.SimAbort:
            raise
        except BaseException as cause:
            return ["ended with", name_of(type(cause))]
        finally:
            self.sim.device_faults.clear()

    # ---- character sets
    def op_charset(self, t, op, rec):
        rec["raw"] = True
        s = charset(op["set"])
        value = getattr(s, op["attr"])
        return ["V", len(value), hashlib.md5(value.encode("utf8", "surrogatepass")).hexdigest()]

    def op_quiet(self, t, op, rec):
        """how much was printed by this call, when no session is active"""
        rec["raw"] = True
        before = self.printed
        target = self.expr(op["g"])
        safe(lambda: target.parse_string(op["s"]))
        return ["quiet", self.printed - before]


def charset(name):
    from mo_parsing.utils import parsing_unicode, unicode_set
    if not USER_SETS:
        one = type("one", (unicode_set,), {"_ranges": [(0x30, 0x7e)]})
        two = type("two", (unicode_set,), {"_ranges": [(0x20, 0x39), (0x660,)]})
        more = type("more", (one,), {"_ranges": [(0x391, 0x3a0)]})
        both = type("both", (one, two), {})
        USER_SETS.update(one=one, two=two, more=more, both=both, base=unicode_set)
    if name.startswith("user:"):
        return USER_SETS[name[5:]]
    out = parsing_unicode
    for n in name.split("."):
        out = getattr(out, n)
    return out


USER_SETS = {}
HERE = {"model", "zoo", "rnd", "engine", "derive", "driver", "props", "boot", "__main__"}
CONTAINERS = (dict, list, tuple, set, frozenset, collections.deque, types.MappingProxyType)


def held_by_library(roots):
    """
    How much is reachable from the modules of the library and from roots, without what belongs to the client:
    number of objects plus the sizes of containers, and how many of each type.
    """
    seen = {}
    kinds = {}
    total = 0
    todo = [vars(m) for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "mo_parsing" and m is not None]
    todo.extend(roots)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        cls = type(o)
        if o is None or cls in (str, bytes, int, float, bool, complex, types.ModuleType, types.CodeType, types.FrameType, types.TracebackType):
            continue
        module = getattr(cls, "__module__", None)
        if module in HERE:
            continue
        more = []
        size = 1
        if isinstance(o, type):
            if not str(o.__module__).startswith("mo_parsing"):
                continue
            more = list(vars(o).values())
        elif cls is types.FunctionType:
            if o.__globals__.get("__name__") in HERE or not str(o.__globals__.get("__name__")).startswith("mo_"):
                continue
            more = [o.__closure__, o.__defaults__, o.__kwdefaults__, vars(o)]
        elif isinstance(o, CONTAINERS):
            size += len(o)
            more = gc.get_referents(o)
        elif isinstance(o, threading.local):
            more = [vars(o)] + list(vars(cls).values())
        elif isinstance(o, BaseException):
            more = [o.args, vars(o), o.__cause__, o.__context__] + [
                getattr(o, n, None) for c in cls.__mro__ for n in _slots(c)
            ]
        elif cls is types.MethodType or str(module).startswith("mo_") or module in ("functools", "types", "weakref") or cls in (
            types.CellType, staticmethod, classmethod, property
        ):
            more = [x for x in gc.get_referents(o) if not isinstance(x, type)]
        seen[id(o)] = o
        total += size
        name = cls.__name__
        kinds[name] = kinds.get(name, 0) + size
        todo.extend(more)
    return total, kinds


def _slots(c):
    s = c.__dict__.get("__slots__") or []
    return [s] if isinstance(s, str) else list(s)


class NoRead(object):
    """looks like a path, but is not"""

    def __init__(self, run, spec):
        self.run = run

    @property
    def read(self):
        raise AttributeError("read")

    def __fspath__(self):
        return "/sim/nothing"


def part_of(e, path):
    """a part of an expression: what a user may still have in a variable"""
    for i in path or []:
        inner = getattr(e, "exprs", None)
        if not inner:
            inner = [x for x in [getattr(e, "expr", None)] if isinstance(x, ParserElement)]
        if not inner:
            break
        x = inner[i % len(inner)]
        if not isinstance(x, ParserElement):
            break
        e = x
    return e


def _list_tokens(v):
    """lists that are tokens, made by actions"""
    out, todo = [], [v]
    while todo:
        for x in todo.pop().tokens:
            if isinstance(x, ParseResults):
                todo.append(x)
            elif isinstance(x, list):
                out.append(x)
    return out


def _spoil(x, tokens):
    """change a list, and the lists in it, that the library has made"""
    for y in list(x):
        if isinstance(y, list) and not any(y is z for z in tokens):
            _spoil(y, tokens)
    x.append("MUTATED")
    del x[0]


def _walk_results(v):
    for x in v:
        if isinstance(x, ParseResults):
            yield x
        elif isinstance(x, (list, tuple)):
            yield from _walk_results(x)


def _depth():
    f = sys._getframe(1)
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def _deeper(n, f):
    if n <= 0:
        return f()
    return _deeper(n - 1, f)


def do_call(target, p, e, s, a):
    if e == "parse":
        return target.parse_string(s)
    if e == "parse_all":
        return target.parse_string(s, parse_all=True)
    if e == "parse1":
        return target.parse(s)
    if e == "search":
        return target.search_string(s, **a)
    if e == "transform":
        return target.transform_string(s)
    if e == "scan":
        return list(target.scan_string(s, **a))
    if e == "split":
        return list(target.split(s, **a))
    if e == "matches":
        if isinstance(target, Parser):
            return target.parse_string(s)
        return target.matches(s)
    raise Exception("unknown entry " + e)


def make_whitespace(spec):
    w = mo_parsing.Whitespace(spec["white"])
    if spec.get("ignore"):
        w.add_ignore(mo_parsing.Literal(spec["ignore"]))
    if spec.get("literal"):
        w.set_literal(getattr(mo_parsing, spec["literal"]))
    return w


# ---- expressions that show the rules they were built with; n makes an expression of a string as operators do
def _fwd(n):
    f = mo_parsing.Forward()
    f << (n("a") + mo_parsing.Optional(f) + n("b"))
    return f


def _shapes():
    from mo_parsing import helpers, infix
    P = mo_parsing
    A = ["a b a b", "ab", "a.b", "a . b a b", "a # b", "a_b"]
    return {
        "and": (lambda n: P.OneOrMore(n("a") + "b"), A),
        "many": (lambda n: P.OneOrMore(n("a")), ["a a a", "aa", "a.a", "a # a"]),
        "first": (lambda n: (n("a") + "b") | (n("b") + "a"), ["a b", "b a", "a.b", "b_a"]),
        "or": (lambda n: (n("a") + "b") ^ (n("a") + "b" + "c"), ["a b", "a b c", "a.b.c", "a b # c"]),
        "all": (lambda n: n("a") & n("b"), ["a b", "b a", "a.b", "b # a"]),
        "all_named": (lambda n: (n("a") & n("b") & P.Optional(n("c")))("n"), ["a b c", "c b a", "a.b", "b # a"]),
        "opt": (lambda n: P.Optional(n("a")) + "b", A),
        "times": (lambda n: (n("a") * (1, 3))("as") + n("b"), ["a a b", "aab", "a.a.b", "a # a b"]),
        "skip": (lambda n: n("a") + P.SkipTo(n("b")) + "b", ["a x b", "a  b", "a.x.b", "ab", "a # b b"]),
        "pending": (lambda n: n("a") + ... + "b", ["a x b", "a  b", "a.x.b", "ab"]),
        "group": (lambda n: P.Group(n("a") + "b")("g") + P.Group(n("c")("x")), ["a b c", "abc", "a.b.c", "a # b c"]),
        "forward": (_fwd, ["a b", "a a b b", "aabb", "a.a.b.b"]),
        "nested": (lambda n: helpers.nested_expr("(", ")", content=P.Word("abc")), ["(a (b) c)", "(a.b)", "( a )", "(a#b)", "(a b"]),
        "delimited": (lambda n: infix.delimited_list(n("a")), ["a , a", "a,a", "a.,a", "a #, a"]),
        "counted": (lambda n: helpers.counted_array(n("a")), ["2 a a", "2aa", "2.a.a", "1 # a"]),
        "infix": (lambda n: infix.infix_notation(n("a"), [("b", 2, P.LEFT_ASSOC)]), ["a b a", "aba", "a.b.a", "(a b a) b a"]),
        "dict": (lambda n: helpers.dict_of(P.Word("ab"), P.Suppress("=") + P.Word("xy")), ["a = x b = y", "a=x b=y", "a.=.x"]),
        "stop": (lambda n: P.OneOrMore(P.Word("abc"), stop_on="c") + n("c"), ["a b c", "a.b.c", "a # b c", "ab c"]),
        "guard": (lambda n: n("a") - "b", A),
        "combine": (lambda n: P.Combine(n("a") + "b") + n("c"), ["ab c", "a b c", "ab.c", "abc"]),
        "original": (lambda n: helpers.originalTextFor(n("a") + "b"), A),
        "keyword": (lambda n: P.Keyword("a") + n("b"), ["a b", "ab", "a.b", "a-b", "a1b"]),
        "keywords": (lambda n: P.OneOrMore(P.Keyword("a") | P.CaselessKeyword("b") | infix.one_of("x y", as_keyword=True) | P.Char("a1b-_xy")), ["a1", "ab", "a-b", "a_b", "x1", "a b1"]),
        "preceded": (lambda n: n("a") + P.PrecededBy(n("a")) + n("b"), A),
        "look": (lambda n: P.LookAhead(n("a") + "b")("peek") + n("a") + "b", A),
        "not": (lambda n: ~(n("a") + "b") + P.Word("abc") + n("c"), ["a c", "a b c", "ac c", "a.c"]),
        "lines": (lambda n: n("a") + P.LineEnd() + n("b"), ["a\nb", "a \n b", "a b", "a.\nb"]),
        "indent": (lambda n: n("a") + helpers.indented_block(n("b")), ["a\n  b\n  b", "a\nb", "a\n..b", "ab"]),
        "regex": (lambda n: P.Regex("a").suppress() + n("b"), A),
        "left": (lambda n: "a" + n("b") + ("c" + n("a") | "d"), ["a b c a", "a b d", "a.b.d"]),
    }


SHAPES = _shapes()
SHAPES_LATE = sorted(SHAPES)


# ---- seams of the file system ---------------------------------------------------------------------------------------
def install_files(run):
    run.files = {}
    real = builtins.open
    real_io = io.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        try:
            name = os.fspath(file)
        except TypeError:
            name = None
        if not isinstance(name, str) or not name.startswith("/sim/"):
            return real(file, mode, buffering, encoding, errors, newline, *a, **k)
        spec = run.files.get(name)
        sim = run.sim
        if sim.cur is not None:
            sim.step(sim.cur, ("open", 0))
        if spec is None:
            run.log_file("open-failed")
            raise make_fault("ENOENT")
        if spec.get("open"):
            run.log_file("open-failed")
            sim.fire("open:" + spec["open"])
            raise make_fault(spec["open"])
        run.log_file("open")
        raw = SimRaw(run, spec)
        size = spec.get("buffer", 16)
        buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)
        try:
            text._CHUNK_SIZE = spec.get("chunk", 8)
        except Exception:
            pass
        return text

    builtins.open = sim_open
    io.open = sim_open


def run_plan(plan, pkg, send):
    """
    executes plan (in a process of its own), calls send(report) once
    """
    gc.disable()  # COLLECTIONS HAPPEN WHERE THE PLAN SAYS
    gc.freeze()
    run = Run(plan, pkg)
    sim = run.sim
    engine.S = sim
    old_stdout = sys.stdout
    sys.stdout = SimStdout(run)
    install_files(run)
    env = plan.get("env") or {}
    if env.get("gc_every"):
        sim.gc_every = env["gc_every"]
    junk = None
    if env.get("heap"):
        import random
        r = random.Random(env["heap"])
        junk = [bytearray(r.randrange(16, 600)) for _ in range(r.randrange(200, 3000))]
        junk = junk[:: r.randrange(1, 4)]
    if env.get("ids"):
        run.addresses = Addresses(env["ids"])
    import threading
    threading.stack_size(64 * 1024 * 1024)

    run.grammars = [None] * len(plan.get("grammars") or [])
    for gid, spec in enumerate(plan.get("grammars") or []):
        if not spec.get("lazy"):
            try:
                run.grammars[gid] = run.build(spec, gid)
            except Exception as cause:
                sys.stdout = old_stdout
                send({"dead": {"kind": "build", "error": canon_error(cause)}})
                os._exit(0)
    for ops in plan["tasks"]:
        for op in ops:
            if op["k"] == "derive" and run.grammars[op["g"][0]]:
                run.part(op["g"], op.get("path"))
                if op.get("h") and run.grammars[op["h"][0]]:
                    run.part(op["h"], op.get("hpath"))
    for g in plan.get("finalize") or []:
        safe(lambda: run.parser(g))  # AMBIGUOUS WHITESPACE: THE CALLS WILL SAY SO

    sim.record = [] if plan.get("record") else None
    sim.entry_record = [] if plan.get("record") else None
    if plan.get("watch"):
        run.expected_current = whitespaces.CURRENT
        last = [None]

        def watch(t, fn, line):
            if run.in_call and not run.changing and whitespaces.CURRENT is not run.expected_current:
                w = (fn[len(pkg):], line)
                if w != last[0]:
                    last[0] = w
                    run.problems.append(["whitespace changed", w[0], w[1], t.id])

        sim.watch = watch

    def report(_=None):
        sys.stdout = old_stdout
        mon_off()
        out = {
            "tasks": [[r for r in t.recs] for t in sim.tasks],
            "partial": [[{k: v for k, v in r.items() if not k.startswith("_")} for r in t.stack] for t in sim.tasks],
            "dead": sim.dead,
            "stats": sim.stats,
            "order": sim.order,
            "fired": sim.fired,
            "problems": run.problems,
            "steps": sum(t.total for t in sim.tasks),
            "gc": sim.gc_count,
            "now": sim.now,
        }
        if run.sizes:
            out["sizes"] = [n for n, _ in run.sizes]
            out["held"] = [run.sizes[-2][1], run.sizes[-1][1]] if len(run.sizes) > 1 else None
        if sim.record is not None:
            locs = {}
            for i, (fn, ln) in enumerate(sim.record):
                locs.setdefault(fn[len(pkg):] + ":" + str(ln), []).append(i + 1)
            out["locs"] = {k: _some(v) for k, v in locs.items()}
            ents = {}
            for i, (fn, q) in enumerate(sim.entry_record):
                ents.setdefault(fn[len(pkg):] + ":" + q, []).append(i + 1)
            out["ents"] = {k: _some(v) for k, v in ents.items()}
        send(out)
        os._exit(0)

    sim.report = report
    lines = plan.get("lines", True)
    entries = plan.get("entries", False)
    engine.monitor(lines, entries or plan.get("record", False))
    if plan.get("setup"):
        sim.run_tasks([plan["setup"]], run.task_body)
    if plan.get("again"):
        # ONE THREAD DOES THE SAME AGAIN AND AGAIN
        run.repeated = plan["tasks"][0]
    for rep in range(plan.get("reps") or 1):
        # THREADS COME AND GO
        run.rep = rep
        if rep:
            del sim.tasks[sim.offset:]
        sim.offset = len(sim.tasks)
        sim.run_tasks(plan["tasks"], run.task_body)
        if plan.get("reps"):
            run.rest()
            run.measure()
    sim.offset = INF
    if plan.get("post"):
        sim.watch = None
        sim.run_tasks([plan["post"]], run.task_body)
    held = [l for l in sim.locks if l.owner is not None]
    if held:
        run.problems.append(["lock held at the end", str(held[0].owner)])
    if not plan.get("ctx_free") and run.plan.get("watch") and whitespaces.CURRENT is not run.expected_current:
        run.problems.append(["whitespace differs at the end"])
    report()


def mon_off():
    sys.monitoring.set_events(engine.TOOL, 0)


def _some(v):
    """first, last, and some in between"""
    if len(v) <= 6:
        return v
    n = len(v)
    return [v[0], v[1], v[n // 3], v[n // 2], v[2 * n // 3], v[-1]]


class Addresses(object):
    """
    Simulated addresses, for every id() the library calls: a keyed permutation of the real ones.
    A string the client drops gives its address to the next one, when the library does not refer to it any more;
    the object itself is kept, so nothing depends on the real allocator.
    """

    def __init__(self, seed):
        import random
        r = random.Random(seed)
        self.a, self.b = r.getrandbits(60) | 1, r.getrandbits(60)
        self.real_id = builtins.id
        self.given = {}
        self.graveyard = []
        self.free = []
        self.refs = {}
        for name, m in list(sys.modules.items()):
            if name == "mo_parsing" or name.startswith("mo_parsing."):
                m.id = self.id

    def id(self, o):
        r = self.real_id(o)
        if type(o) is str and r in self.given:
            return self.given[r]
        return ((r >> 3) * self.a ^ self.b) & ((1 << 61) - 1)

    def born(self, s):
        r = self.real_id(s)
        if r in self.given:
            return
        address = self.free.pop() if self.free else (len(self.graveyard) * self.a ^ self.b) & ((1 << 61) - 1)
        self.graveyard.append(s)
        self.given[r] = address
        self.refs[r] = sys.getrefcount(s)

    def drop(self, s):
        r = self.real_id(s)
        if r in self.refs and sys.getrefcount(s) <= self.refs.pop(r):
            self.free.append(self.given[r])
