"""
Per property: how runs are generated, how they are judged, and which runs count as non-trivial.
"""
import json

import derive
import driver
import rnd
import zoo
from driver import BASE_KINDS, CB_KINDS, NOCTX, Judge, Undecided, clone, diff, faulted, run_child, strip, walk

PARSE_FAULTS = ["KeyboardInterrupt", "MemoryError", "RecursionError", "SystemExit"]


class Prop(object):
    quick = 400
    thorough = 12000
    title = ""
    rule = ""

    def __init__(self, refs):
        self.refs = refs
        self.judge_common = Judge(refs)

    def generate(self, ctx, r):
        raise NotImplementedError()

    def judge(self, plan, rep):
        return self.judge_common(plan, rep)

    def run(self, plan):
        return run_child(plan)

    def nontrivial(self, plan, rep):
        return True

    def evaluate(self, plan):
        try:
            return self.judge(plan, self.run(plan))
        except Undecided:
            return None


def all_ops(plan):
    def inner(ops):
        for o in ops:
            yield o
            for h in o.get("hooks") or []:
                yield from inner(h.get("do") or [])

    for ops in [plan.get("setup") or []] + plan["tasks"] + [plan.get("post") or []]:
        yield from inner(ops)


def fired(rep):
    return sum(rep.get("fired", {}).values()) > 0


def pick_grammars(ctx, r, n, only=None, rnd_p=0.4):
    return [ctx.grammar(r, rnd_p, only) for _ in range(n)]


def derivation(ctx, r, gs, hows):
    """make one expression from others, and maybe use it"""
    g, h = r.randrange(len(gs)), r.randrange(len(gs))
    op = {
        "k": "derive", "how": r.choice(hows), "g": [g, r.choice(sorted(gs[g][1]))], "h": [h, r.choice(sorted(gs[h][1]))],
        "id": ctx.id(), "limit": 2000000,
    }
    for key in ("path", "hpath"):
        if r.random() < 0.5:
            op[key] = [r.randrange(8) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    if op["how"] in derive.USABLE:
        op["use"] = ctx.string(r, gs[g][1], op["g"][1], gs[g][0])
    return op


def callback_at(r, ref):
    """a callback invocation: any, or each kind (actions, conditions, fail actions) alike"""
    if r.random() < 0.5:
        kinds = {}
        for i, x in enumerate(ref["t"][: ref["c"]]):
            label = str(x[0] if isinstance(x, list) else x)
            kinds.setdefault(label[:1] if label[:1] in "?!" else "", []).append(i + 1)
        if kinds:
            return r.choice(kinds[r.choice(sorted(kinds))])
    return r.randrange(1, max(ref["c"], 1) + 1)


def hooks_at(r, count):
    """when a hook runs"""
    h = {"n": r.randrange(1, max(count, 1) + 1)}
    if r.random() < 0.2:
        h["every"] = r.randrange(1, 4)
    return h


ENTRY_KINDS = ["parse", "parse_all", "search", "scan", "transform", "split", "matches", "parse1"]


# ---- C01 ---------------------------------------------------------------------------------------------------------------
class C01(Prop):
    quick = 5000
    thorough = 120000
    rule = (
        "a run is two to four threads, one to three calls each, over shared grammars and strings, with one to four"
        " preemptions at sampled code locations (also inside a line); non-trivial when a thread was switched inside the"
        " library or had to wait for the lock; distinct by the sequence of switches"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 1, 2]))
        nt = r.choice([2, 2, 2, 3, 3, 4])
        if r.random() < 0.08:
            return self.errors(ctx, r, gs, nt)
        if r.random() < 0.06:
            return self.single(ctx, r)
        lazy = []
        builder = r.randrange(nt) if r.random() < 0.25 else None
        shared = {}
        entries = r.sample(ENTRY_KINDS, r.choice([1, 2])) if r.random() < 0.6 else ctx.ENTRIES
        exports = [r.choice(sorted(g[1])) if r.random() < 0.5 else None for g in gs]
        tasks = []
        for ti in range(nt):
            ops = []
            if ti == builder:
                spec, inputs = ctx.grammar(r, 0, NOCTX)
                gid = len(gs) + len(lazy)
                lazy.append((spec, inputs))
                ex = r.choice(sorted(inputs))
                ops.append({"k": "build", "g": [gid, ex], "fin": r.random() < 0.5, "id": ctx.id()})
                ops.append(ctx.call(r, gid, spec, inputs, export=ex))
            for _ in range(r.choice([1, 1, 2, 3])):
                gid = r.randrange(len(gs))
                spec, inputs = gs[gid]
                s = None
                if r.random() < 0.6:
                    s = shared.get(gid)
                    if s is None:
                        s = shared[gid] = ctx.string(r, inputs, exports[gid] or r.choice(sorted(inputs)), spec)
                op = ctx.call(r, gid, spec, inputs, s=s, e=r.choice(entries), export=exports[gid])
                if r.random() < 0.12:
                    o2 = ctx.open(r, gid, spec, inputs, "t%d" % ti, s=s)
                    if o2:
                        ops += [o2, {"k": "pull", "slot": o2["slot"], "n": r.randrange(1, 4), "id": ctx.id()}]
                        continue
                ops.append(op)
            tasks.append(ops)
        plan = {
            "grammars": [g[0] for g in gs] + [dict(g[0], lazy=True) for g in lazy],
            "tasks": tasks,
        }
        if r.random() < 0.3:
            plan["finalize"] = [[g, e] for g in range(len(gs)) for e in sorted(gs[g][1])]
        if r.random() < 0.3:
            plan["stall"] = True
        ctx.preemptions(r, plan, r.choice([1, 1, 2, 2, 3, 4]))
        return plan

    def single(self, ctx, r):
        """the shortest calls, on one parser: every place in them is met"""
        spec, inputs = ctx.grammar(r, 0, ["single"]) if r.random() < 0.7 else ctx.grammar(r, 0.5, NOCTX)
        ex = r.choice(sorted(inputs))
        tasks = [
            [ctx.call(r, 0, spec, inputs, export=ex, e=r.choice(["parse", "parse", "parse", "parse_all", "search", "matches"])) for _ in range(r.choice([1, 1, 2]))]
            for _ in range(r.choice([2, 2, 3]))
        ]
        plan = {"grammars": [spec], "tasks": tasks}
        if r.random() < 0.7:
            plan["finalize"] = [[0, ex]]
        ctx.preemptions(r, plan, r.choice([1, 2, 3]))
        return plan

    def errors(self, ctx, r, gs, nt):
        """threads look at what went wrong in their calls"""
        tasks = []
        for ti in range(nt):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                gid = r.randrange(len(gs))
                ops.append(ctx.failing(r, gid, *gs[gid]))
            tasks.append(ops)
        plan = {"grammars": [g[0] for g in gs], "tasks": tasks}
        ctx.preemptions(r, plan, r.choice([2, 3, 4, 6]), late=0.8)
        return plan

    def nontrivial(self, plan, rep):
        return rep["stats"]["preempts"] > 0 or rep["stats"]["blocks"] > 0


# ---- C02 ---------------------------------------------------------------------------------------------------------------
class C02(Prop):
    quick = 3000
    thorough = 100000
    rule = (
        "a run has one to three live iterators of scan_string and split on one to three threads, pulled, closed, dropped"
        " or thrown into, between and during other calls; non-trivial when something ran between two pulls of the same"
        " iterator, or a pull was preempted"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 2]))
        nt = r.choice([1, 1, 2, 2, 3])
        plan = {"grammars": [g[0] for g in gs], "tasks": []}
        n = 0
        opened = []
        shared = [ctx.string(r, g[1], sorted(g[1])[0], g[0]) + " " + ctx.string(r, g[1], sorted(g[1])[0], g[0]) for g in gs]
        left = []
        for ti in range(nt):
            ops, slots = [], []
            for _ in range(r.randrange(1, 3)):
                gid = r.randrange(len(gs))
                o = ctx.open(r, gid, *gs[gid], "s%d" % n, s=shared[gid] if r.random() < 0.6 else None)
                if opened and r.random() < 0.35:
                    # TWO ITERATORS OF ONE PARSER
                    first = r.choice(opened)
                    o2 = dict(first, slot="s%d" % n, id=ctx.id())
                    if o and o["g"] == first["g"] and r.random() < 0.5:
                        o2["s"] = o["s"]
                    gid = o2["g"][0]
                    ref = ctx.refs.get(gs[gid][0], o2)
                    if ref is not None and ref["st"] < 20000:
                        o = o2
                n += 1
                if o:
                    opened.append(o)
                    ops.append(o)
                    slots.append((o["slot"], gid, o))
            for _ in range(r.randrange(2, 7)):
                k = r.random()
                if k < 0.55 and slots:
                    slot, gid, o = r.choice(slots)
                    op = {"k": "pull", "slot": slot, "n": r.choice([1, 1, 1, 2, 3]), "id": ctx.id(), "limit": 200000}
                    if r.random() < 0.3:
                        op["hooks"] = [{**hooks_at(r, 4), "do": [self.other(ctx, r, gs, shared, slots, slot)]}]
                    ops.append(op)
                elif k < 0.85:
                    ops.append(self.other(ctx, r, gs, shared, [], None))
                elif slots:
                    slot, gid, o = slots.pop(r.randrange(len(slots)))
                    k = r.choice(["close", "drop", "throw"])
                    op = {"k": k, "slot": slot, "id": ctx.id()}
                    if k == "throw":
                        op["kind"] = r.choice(["KeyboardInterrupt", "ValueError", "RuntimeError"])
                    if k == "drop":
                        op["gc"] = r.random() < 0.5
                    ops.append(op)
            left += slots
            if nt == 1 and r.random() < 0.5:
                ops = self.elsewhere(ctx, r, ops)
            plan["tasks"].append(ops)
        post = []
        for slot, gid, o in left:
            if r.random() < 0.5:
                post.append({"k": "pull", "slot": slot, "n": r.choice([2, 50]), "id": ctx.id(), "limit": 200000})
        post.append(ctx.call(r, 0, *gs[0], s=shared[0] if r.random() < 0.5 else None))
        plan["post"] = post
        if nt > 1:
            ctx.preemptions(r, plan, r.choice([1, 2, 3]))
        if r.random() < 0.1:
            plan["env"] = {"gc_every": r.choice([13, 57, 301])}
        return plan

    @staticmethod
    def elsewhere(ctx, r, ops):
        """steps are made in other whitespace contexts"""
        out = []
        for op in ops:
            if op["k"] != "pull" or r.random() < 0.3 or any(x["k"] != "pull" for h in op.get("hooks") or [] for x in h.get("do") or []):
                out.append(op)
                continue
            enter = {"k": "enter", "w": dict(r.choice(WHITES + EATERS)), "id": ctx.id()}
            if r.random() < 0.3:
                enter["use"] = True
            if op.get("hooks") or r.random() < 0.8:
                out += [enter, op]
            else:
                op["hooks"] = [{**hooks_at(r, 4), "do": [enter]}]
                out.append(op)
            out.append({"k": "leave", "how": r.choice(["exit", "error", "release"]), "id": ctx.id()})
        return out

    def other(self, ctx, r, gs, shared, slots, slot):
        k = r.random()
        gid = r.randrange(len(gs))
        others = [s for s in slots if s[0] != slot]
        if others and k < 0.4:
            return {"k": "pull", "slot": r.choice(others)[0], "n": 1, "id": ctx.id()}
        op = ctx.call(r, gid, *gs[gid], s=shared[gid] if r.random() < 0.5 else None)
        if r.random() < 0.25 and op["k"] == "call":
            # IT FAILS
            op["hooks"] = [{"n": 1, "raise": r.choice(["ValueError", "KeyboardInterrupt", "ParseException"])}]
        return op

    def nontrivial(self, plan, rep):
        if rep["stats"]["preempts"] > 0 or rep.get("fired", {}).get("nested"):
            return True
        for ops in plan["tasks"]:
            last = {}
            for i, o in enumerate(ops):
                if o["k"] == "pull":
                    if o["slot"] in last and last[o["slot"]] < i - 1:
                        return True
                    last[o["slot"]] = i
        return False


# ---- C03 ---------------------------------------------------------------------------------------------------------------
class C03(Prop):
    quick = 6000
    thorough = 100000
    rule = (
        "a run is one to three calls, each with operations nested in one of its callbacks, up to three levels deep;"
        " non-trivial when at least one nested operation ran"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 2]))
        plan = {"grammars": [g[0] for g in gs], "tasks": [[]]}
        self.plan = plan
        self.n = 0
        for _ in range(r.choice([1, 1, 2])):
            for _ in range(6):
                gid = r.randrange(len(gs))
                op = ctx.call(r, gid, *gs[gid])
                if op["k"] == "call" and ctx.refs.get(gs[gid][0], op)["c"]:
                    break
            self.nest(ctx, r, gs, op, 1)
            op["limit"] = 3000000
            plan["tasks"][0].append(op)
        plan["post"] = [ctx.call(r, 0, *gs[0])]
        if r.random() < 0.15:
            plan["tasks"].append([ctx.call(r, 0, *gs[0])])
            ctx.preemptions(r, plan, 2)
        return plan

    def nest(self, ctx, r, gs, op, level):
        if op["k"] not in ("call", "pull"):
            return
        count = 3
        if op["k"] == "call":
            count = ctx.refs.get(gs[op["g"][0]][0], op)["c"]
        if not count:
            return
        do = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < 0.3 and op["k"] == "call":
                # THE SAME PARSER, MAYBE THE SAME STRING
                gid = op["g"][0]
                x = ctx.call(r, gid, *gs[gid], export=op["g"][1], s=op["s"] if r.random() < 0.5 else None)
            elif k < 0.6:
                gid = r.randrange(len(gs))
                x = ctx.call(r, gid, *gs[gid], s=op.get("s") if r.random() < 0.4 else None)
            elif k < 0.75:
                gid = r.randrange(len(gs))
                x = ctx.open(r, gid, *gs[gid], "n%d" % self.n, s=op.get("s") if r.random() < 0.4 else None)
                if x:
                    do.append(x)
                    x = {"k": "pull", "slot": "n%d" % self.n, "n": r.randrange(1, 3), "id": ctx.id()}
                self.n += 1
            elif k < 0.9:
                spec, inputs = ctx.grammar(r, 0.3)
                if r.random() < 0.3:
                    spec, inputs = {"b": "regexes"}, zoo.Z["regexes"][1]
                gid = len(self.plan["grammars"])
                self.plan["grammars"].append(dict(spec, lazy=True))
                do.append({"k": "build", "g": [gid, "main"], "fin": r.random() < 0.5, "id": ctx.id()})
                x = ctx.call(r, gid, spec, inputs, export="main") if r.random() < 0.7 else None
            else:
                gid = r.randrange(len(gs))
                x = {"k": "derive", "g": [gid, sorted(gs[gid][1])[0]], "how": r.choice(["str", "regex", "plus", "or", "copy", "finalize", "name", "optional"]), "id": ctx.id()}
                x["h"] = x["g"]
            if x:
                if level < 3 and r.random() < 0.3 and (x["k"] != "call" or x["g"][0] < len(gs)):
                    self.nest(ctx, r, gs, x, level + 1)
                elif x["k"] == "call" and r.random() < 0.15:
                    x["hooks"] = [{"n": 1, "raise": r.choice(["ValueError", "ParseException", "RecursionError"])}]
                do.append(x)
        h = {"n": r.randrange(1, count + 1), "do": do}
        if r.random() < 0.15 and level == 1:
            h["every"] = r.randrange(1, 4)
        # A BUILD OR OPEN CAN NOT BE REPEATED UNDER THE SAME NAME WITHOUT REPLACING WHAT WAS THERE: FINE
        op["hooks"] = [h]

    def nontrivial(self, plan, rep):
        return rep.get("fired", {}).get("nested", 0) > 0


# ---- C04 ---------------------------------------------------------------------------------------------------------------
def fault_verdict(rec, op, ref, kinds):
    """is the outcome of a call that was hit by faults acceptable"""
    o = rec.get("o")
    if o == ["X"]:
        return None
    error = o[0] == "E"
    pure = [k.split(":", 1) for k in kinds]
    for where, kind in pure:
        if kind in ("KeyboardInterrupt", "SystemExit", "GeneratorExit") and where in ("entry", "cb", "stdout", "lockwait", "read", "open", "close"):
            if not (error and o[1] == kind):
                return {"class": "fault " + kind, "what": "%s at %s gave %s" % (kind, where, json.dumps(o)[:300])}
            return None
    for where, kind in pure:
        if where in ("cb", "stdout", "lockwait") and kind != "ParseException":
            if not error:
                return {"class": "fault in callback", "what": "%s raised by %s gave %s" % (kind, where, json.dumps(o)[:300])}
            return None
    if any(where == "cb" and kind == "ParseException" for where, kind in pure):
        if error and op.get("e") == "transform" and o[1] == "TypeError":
            return None  # ANOTHER ALTERNATIVE, WITH A VALUE THAT transform_string CAN NOT JOIN
        if error and not any(where == "entry" for where, kind in pure):
            return {"class": "rejection", "what": "ParseException in callback gave %s" % json.dumps(o)[:300]}
        return None
    # RAISED AT A FUNCTION ENTRY OF THE LIBRARY
    if not error and o != ref["o"]:
        return {"class": "fault inside", "what": "%s gave %s" % (json.dumps([kinds, rec.get("at")]), diff(o, ref["o"]))}
    return None


# WHAT LIBRARIES TEND TO CATCH
COMMON_KINDS = ["IndexError", "KeyError", "AttributeError", "TypeError", "ValueError", "StopIteration", "LookupError", "OSError"]


class C04(Prop):
    quick = 12000
    thorough = 120000
    rule = (
        "a run is one call on a prepared or fresh parser with one fault: an interrupt, memory or stack failure at a"
        " sampled function entry, an exception or rejection by a sampled callback invocation, or a stack limited to a"
        " sampled headroom; non-trivial when the fault fired; distinct by grammar, input, fault and place"
    )

    def generate(self, ctx, r):
        spec, inputs = ctx.grammar(r) if r.random() < 0.93 else ctx.grammar(r, 0, ["watched"])
        k = r.random()
        for _ in range(8):
            op = ctx.call(r, 0, spec, inputs, p=r.choice(["fin", "fin", "el"]))
            if op["k"] == "call" and (k < 0.3 or ctx.refs.get(spec, op)["c"]):
                break
        plan = {"grammars": [spec], "tasks": [[op]]}
        if op["k"] != "call":
            return plan
        if op["p"] == "fin":
            plan["finalize"] = [op["g"]]
        ref = ctx.refs.get(spec, op)
        count = ref["c"]
        if k < 0.3 or not count:
            op["fault"] = {"kind": r.choice(["KeyboardInterrupt", "MemoryError", "RecursionError", "SystemExit"]), "entry": ctx.entry(r, spec, op)}
            plan["entries"] = True
            plan["lines"] = False
        elif k < 0.55:
            op["hooks"] = [{"n": callback_at(r, ref), "raise": r.choice(CB_KINDS + BASE_KINDS) if r.random() < 0.6 else r.choice(COMMON_KINDS)}]
            if r.random() < 0.1:
                op["hooks"][0]["every"] = 1
        elif k < 0.85:
            hs = []
            for _ in range(r.choice([1, 1, 2])):
                h = {"n": callback_at(r, ref), "raise": "ParseException"}
                if r.random() < 0.3:
                    h["every"] = r.randrange(1, 5)
                hs.append(h)
            op["hooks"] = hs
        else:
            op["headroom"] = r.choice([r.randrange(6, 60), r.randrange(20, 260)])
            plan["lines"] = False
        return plan

    def judge(self, plan, rep):
        def on_fault(plan, rec, op, ref, kinds):
            return fault_verdict(rec, op, ref, kinds)

        op = plan["tasks"][0][0] if plan["tasks"] and plan["tasks"][0] else None
        if op is None:
            return None
        if op.get("headroom") is not None and not rep.get("dead"):
            rec = rep["tasks"][0][0]
            o = rec["o"]
            ref = self.judge_common.ref(plan, op)
            if ref is None or o[0] == "E" or o == ref["o"]:
                return None
            if plan.get("_only_kind") and False:
                return None
            return {"class": "headroom", "what": "with %d frames left %s: %s" % (op["headroom"], json.dumps(strip(op))[:200], diff(o, ref["o"]))}
        return self.judge_common(plan, rep, on_fault=on_fault)

    def nontrivial(self, plan, rep):
        op = plan["tasks"][0][0]
        return fired(rep) or (op.get("headroom") is not None and rep["tasks"][0][0]["o"][0] == "E")


# ---- C05 ---------------------------------------------------------------------------------------------------------------
class C05(Prop):
    quick = 4000
    thorough = 100000
    rule = (
        "a run is a history of three to eight calls and scans over shared grammars, some hit by a fault (interrupt,"
        " memory, stack, callback error) also during preparation, followed by undisturbed calls on another thread;"
        " non-trivial when a fault fired before an undisturbed call"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 2, 3]))
        plan = {"grammars": [g[0] for g in gs], "tasks": [[]], "entries": True}
        shared = [ctx.string(r, g[1], sorted(g[1])[0], g[0]) for g in gs]
        if r.random() < 0.4:
            plan["finalize"] = [[g, e] for g in range(len(gs)) for e in sorted(gs[g][1])]
        slow = r.random() < 0.2
        for i in range(r.randrange(2, 7)):
            gid = r.randrange(len(gs))
            op = ctx.call(r, gid, *gs[gid], s=shared[gid] if r.random() < 0.4 else None)
            if op["k"] == "call" and r.random() < 0.65:
                ref = ctx.refs.get(gs[gid][0], op)
                k = r.random()
                if k < 0.5:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": ctx.entry(r, gs[gid][0], op)}
                    if r.random() < 0.35:
                        op["fault"]["entry"] = r.randrange(1, 40)  # PREPARATION
                elif k < 0.8 and ref["c"]:
                    op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "raise": r.choice(CB_KINDS + BASE_KINDS + ["ParseException"])}]
                    if r.random() < 0.25:
                        op["hooks"].insert(0, {"n": op["hooks"][0]["n"], "do": [ctx.call(r, gid, *gs[gid])]})
                else:
                    op["headroom"] = r.choice([r.randrange(6, 50), r.randrange(20, 200)])
                    op["nojudge"] = True
            plan["tasks"][0].append(op)
            if r.random() < 0.3:
                # WHAT IS DERIVED LATER DOES NOT REMEMBER EITHER
                plan["tasks"][0].append(derivation(ctx, r, gs, derive.ASKING if r.random() < 0.5 else derive.USABLE))
                if r.random() < 0.4:
                    plan["tasks"][0].append(dict(plan["tasks"][0][-1], id=ctx.id()))
                    plan["tasks"][0][-2]["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 40)}
        if r.random() < 0.2:
            o = ctx.open(r, 0, *gs[0], "s", s=shared[0])
            if o:
                plan["tasks"][0].insert(r.randrange(len(plan["tasks"][0]) + 1), o)
                p = {"k": "pull", "slot": "s", "n": 2, "id": ctx.id()}
                if r.random() < 0.5:
                    p["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 200)}
                plan["tasks"][0].append(p)
        post = []
        for gid, g in enumerate(gs):
            post.append(ctx.call(r, gid, *g, s=shared[gid] if r.random() < 0.5 else None))
        if r.random() < 0.5:
            post.append(derivation(ctx, r, gs, derive.ASKING if r.random() < 0.6 else derive.USABLE))
        post.append(ctx.call(r, 0, *gs[0]))
        plan["post"] = post
        return plan

    def judge(self, plan, rep):
        v = self.judge_common(plan, rep)
        if v:
            return v
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], self.judge_common.all_tasks(plan))):
            for rec, op in zip(recs, ops):
                v = self.judge_common.derived(plan, rec, op)
                if v:
                    v["task"] = ti
                    return v
        return None

    def nontrivial(self, plan, rep):
        return fired(rep) or any(o.get("headroom") is not None for o in all_ops(plan))


# ---- C06 ---------------------------------------------------------------------------------------------------------------
WHITES = [
    {"white": " \t\n\r"}, {"white": " "}, {"white": ""}, {"white": "."}, {"white": " .,"}, {"white": " ", "ignore": "#"},
    {"white": "_", "ignore": "/*"}, {"white": " ", "literal": "Keyword"}, {"white": " \n", "literal": "CaselessLiteral"},
]
EATERS = [{"white": w} for w in (" -2", "abc0123456789", " {[(", " \"'", " ,", " :=+-", " xyz", " ABCDEFGHIJKLMNOPQRSTUVWXYZ")]
SPAWN_STRINGS = ["a b a b", "ab", "a.b", "a . b,a b", "a # b", "a_/*_b", "A b", "a\nb", "abab", " a b", "a  b ", "a ,b"]


class C06(Prop):
    quick = 4500
    thorough = 100000
    rule = (
        "a run is a history of entering, leaving (also by an error, or wrongly), configuring and building in whitespace"
        " contexts on one thread, while it and up to two other threads parse with finalized parsers; non-trivial when an"
        " expression was probed or parsed under another context than it was built in, or while the context changed"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 2]), rnd_p=0.3)
        plan = {"grammars": [g[0] for g in gs], "tasks": [[]], "watch": True, "entries": True}
        plan["finalize"] = [[g, e] for g in range(len(gs)) for e in sorted(gs[g][1])]
        shared = [ctx.string(r, g[1], sorted(g[1])[0], g[0]) for g in gs]
        ops = plan["tasks"][0]
        stack, slots = [], 0  # stack: what a fresh process does to get the same rules
        whites = {}  # wid -> what a fresh process does to get the same Whitespace object
        unfinished = []
        probes = []
        again_at = r.randrange(12) if r.random() < 0.3 else None
        for turn in range(r.randrange(3, 16)):
            if turn == again_at:
                slots = self.again(ctx, r, ops, stack, whites, probes, slots)
            k = r.random()
            if k < 0.25:
                again = [w for w in sorted(whites) if r.random() < 0.5]
                if again and r.random() < 0.5:
                    wid = r.choice(again)
                    op = {"k": "enter", "w": whites[wid][0]["w"], "wid": wid, "id": ctx.id()}
                else:
                    wid = len(whites)
                    op = {"k": "enter", "w": dict(r.choice(WHITES)), "wid": wid, "id": ctx.id()}
                    whites[wid] = [op]
                if r.random() < 0.3:
                    op["use"] = True
                stack.append({"wid": wid, "base": clone(whites[wid]), "number": op["id"]})
                ops.append(op)
                while r.random() < 0.4:
                    ops.append(self.config(ctx, r))
                    stack[-1]["base"].append(clone(ops[-1]))
            elif k < 0.4 and stack:
                stack.pop()
                op = {"k": "leave", "how": r.choice(["exit", "exit", "error", "release", "release_outer"]), "id": ctx.id()}
                if op["how"] == "error":
                    op["kind"] = r.choice(["ValueError", "KeyboardInterrupt", "GeneratorExit", "StopIteration"])
                ops.append(op)
            elif k < 0.48:
                op = {"k": "badleave", "which": r.choice(["stranger", 0, 1, 2]), "id": ctx.id()}
                if r.random() < 0.5:
                    op["copy"] = True
                if r.random() < 0.5:
                    op["release"] = True
                elif r.random() < 0.5:
                    op["error"] = r.choice(["ValueError", "KeyboardInterrupt"])
                ops.append(op)
            elif k < 0.68:
                op = {"k": "spawn", "shape": r.choice(sorted(driver.model.SHAPES)), "slot": "x%d" % slots, "id": ctx.id()}
                if op["shape"] not in driver.model.SHAPES_LATE:
                    pass
                elif r.random() < 0.4:
                    op["late"] = True
                probe = op["slot"], clone(stack[-1]["base"]) if stack else [], op, stack[-1]["number"] if stack else None
                slots += 1
                if r.random() < 0.12:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 60)}
                    op.pop("late", None)
                ops.append(op)
                (unfinished if op.get("late") else probes).append(probe)
            elif k < 0.72 and unfinished:
                probe = unfinished.pop(r.randrange(len(unfinished)))
                ops.append({"k": "finish", "slot": probe[0], "id": ctx.id()})
                probes.append(probe)
            elif k < 0.8 and probes:
                ops.append(self.probe(ctx, r, probes))
            elif k < 0.86:
                op = {"k": "configure", "white": r.choice(["", " ", ".,"]), "to": r.choice(["#", "ab", ""]), "id": ctx.id()}
                if r.random() < 0.4:
                    op["ignore"] = r.choice(["#", "b"])
                ops.append(op)
            elif k < 0.92 and stack:
                # THE RULES OF THE CURRENT CONTEXT, OR OF THE OBJECT IT WAS ENTERED WITH, ARE CHANGED
                op = self.config(ctx, r)
                if r.random() < 0.5:
                    op["wid"] = r.choice(sorted(whites))
                    whites[op["wid"]].append(op)
                else:
                    stack[-1]["base"].append(clone(op))
                    n = stack[-1]["number"]
                    probes = [x for x in probes if x[3] != n]  # THEIR OWN CONTEXT IS CHANGED
                    unfinished = [x for x in unfinished if x[3] != n]
                ops.append(op)
            elif k < 0.95:
                spec, inputs = ctx.grammar(r, 0.3)
                gid = len(plan["grammars"])
                plan["grammars"].append(dict(spec, lazy=True))
                op = {"k": "build", "g": [gid, "main"], "id": ctx.id()}
                if r.random() < 0.6:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 400)}
                ops.append(op)
            elif k < 0.975:
                op = derivation(ctx, r, gs, derive.CONTEXTUAL)
                op.pop("use", None)
                if r.random() < 0.3:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 40)}
                ops.append(op)
            else:
                gid = r.randrange(len(gs))
                op = ctx.call(r, gid, *gs[gid], p="fin", s=shared[gid] if r.random() < 0.4 else None)
                if op["k"] == "call" and r.random() < 0.4:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": ctx.entry(r, gs[gid][0], op)}
                ops.append(op)
        for probe in unfinished:
            if r.random() < 0.7:
                ops.append({"k": "finish", "slot": probe[0], "id": ctx.id()})
                probes.append(probe)
        for _ in range(3):
            if probes:
                ops.append(self.probe(ctx, r, probes))
        while stack and r.random() < 0.8:
            stack.pop()
            ops.append({"k": "leave", "id": ctx.id()})
        if r.random() < 0.5:
            for _ in range(r.choice([1, 2])):
                t = []
                for _ in range(r.choice([1, 1, 2])):
                    gid = r.randrange(len(gs))
                    t.append(ctx.call(r, gid, *gs[gid], p="fin", s=shared[gid] if r.random() < 0.4 else None))
                plan["tasks"].append(t)
            ctx.preemptions(r, plan, r.choice([1, 2, 3, 4]))
            for p in plan["pre"]:
                if p[0] == 0 and p[2] > 60:
                    p[2] = p[2] % 60
        gid = r.randrange(len(gs))
        plan["post"] = [ctx.call(r, gid, *gs[gid], p="fin")]
        return plan

    def again(self, ctx, r, ops, stack, whites, probes, slots):
        """a context that is entered, configured and left; then it is, or others made alike are, entered"""
        if whites and r.random() < 0.5:
            wid = r.choice(sorted(whites))
        else:
            wid = len(whites)
            whites[wid] = [{"k": "enter", "w": dict(r.choice(WHITES)), "wid": wid, "id": ctx.id()}]
        w = whites[wid][0]["w"]
        for turn in range(r.choice([2, 2, 3])):
            if turn and r.random() < 0.25:
                wid = len(whites)
                whites[wid] = [{"k": "enter", "w": dict(w), "wid": wid, "id": ctx.id()}]
            op = {"k": "enter", "w": w, "wid": wid, "id": ctx.id()}
            base = clone(whites[wid])
            ops.append(op)
            if turn == 0 or r.random() < 0.3:
                for _ in range(r.choice([1, 1, 2])):
                    ops.append(self.config(ctx, r))
                    base.append(clone(ops[-1]))
            if turn or r.random() < 0.4:
                shapes = sorted(driver.model.SHAPES)
                config = [o for o in ops if o["k"] == "config"][-1]
                if config["how"] == "keyword" and r.random() < 0.7:
                    shapes = ["keyword", "keywords"]
                spawn = {"k": "spawn", "shape": r.choice(shapes), "slot": "x%d" % slots, "id": ctx.id()}
                slots += 1
                ops.append(spawn)
                probes.append((spawn["slot"], base, spawn, op["id"]))
                if r.random() < 0.5:
                    ops.append(self.probe(ctx, r, probes[-1:]))
            ops.append({"k": "leave", "how": r.choice(["exit", "exit", "error", "release"]), "kind": "ValueError", "id": ctx.id()})
            if probes and turn:
                ops.append(self.probe(ctx, r, probes[-1:]))
        return slots

    def config(self, ctx, r):
        how, arg = r.choice(
            [["white", "#"], ["white", " ."], ["white", "_ "], ["ignore", "#"], ["ignore", "#"], ["ignore", "b"], ["literal", "CaselessLiteral"], ["literal", "Keyword"], ["keyword", "ab"], ["keyword", "xyz1"]]
        )
        return {"k": "config", "how": how, "arg": arg, "id": ctx.id()}

    def probe(self, ctx, r, probes):
        slot, base, spawn, _ = r.choice(probes)
        shape = driver.model.SHAPES[spawn["shape"]]
        s = r.choice(shape[1] if r.random() < 0.6 else SPAWN_STRINGS)
        if r.random() < 0.3:
            s = s.replace(" ", r.choice(["", ".", "_", "#", " # ", "  ", "\n", "/*", "b"]))
        return {"k": "probe", "slot": slot, "s": s, "shape": spawn["shape"], "id": ctx.id(), "limit": 300000}

    def reference(self, op, base):
        """the same expression built directly under the same rules"""
        spawn = {"k": "spawn", "shape": op["shape"], "slot": op["slot"]}
        plan = {
            "grammars": [], "lines": False,
            "tasks": [self.replay_base(base) + [spawn, {"k": "probe", "slot": op["slot"], "s": op["s"]}]],
        }
        for o in plan["tasks"][0]:
            o.pop("id", None)
            if o["k"] in ("spawn", "probe"):
                o["slot"] = "x"
        return self.refs.custom(plan)

    def spawns(self, op, base):
        """can this be built directly"""
        ref = self.refs.custom({
            "grammars": [], "lines": False,
            "tasks": [[{k: v for k, v in o.items() if k != "id"} for o in self.replay_base(base) + [{"k": "spawn", "shape": op["shape"], "slot": "x"}]]],
        })
        return ref is not None and ref["o"][0] == "spawned"

    @staticmethod
    def replay_base(base):
        """make, configure, enter, configure"""
        base = clone(base)
        if not base:
            return []
        enter = base[0]
        outer = [o for o in base[1:] if "wid" in o]
        inner = [o for o in base[1:] if "wid" not in o]
        return [dict(enter, k="whitespace")] + outer + [enter] + inner

    def judge(self, plan, rep):
        v = self.judge_common.dead(rep)
        if v:
            return v
        stack, whites, bases = [], {}, {}  # THE MODEL: HOW TO GET THE SAME RULES IN A FRESH PROCESS
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], self.judge_common.all_tasks(plan))):
            for rec, op in walk(recs, ops):
                o = rec.get("o")
                f = faulted(rec)
                if op["k"] == "enter" and not f:
                    if o != ["entered", True]:
                        return {"class": "enter", "what": json.dumps(o), "task": ti}
                    stack.append({"base": clone(whites.setdefault(op["wid"], [op])), "changed": 0})
                if op["k"] == "leave" and not f:
                    if o not in (["left", True], ["nothing"]):
                        return {"class": "leave", "what": json.dumps([op, o]), "task": ti}
                    if stack:
                        stack.pop()
                if op["k"] == "badleave" and o != ["bad", True, True]:
                    return {"class": "bad leave", "what": json.dumps([op, o]), "task": ti}
                if op["k"] == "config" and o != ["nothing"]:
                    if "wid" in op:
                        whites[op["wid"]].append(op)
                    elif stack:
                        stack[-1]["base"].append(op)
                        stack[-1]["changed"] += 1
                    else:
                        break  # THE DEFAULT CONTEXT WAS CHANGED
                if op["k"] == "spawn":
                    frame = stack[-1] if stack else {"base": [], "changed": 0}
                    bases[op["slot"]] = clone(frame["base"]), frame, frame["changed"]
                    if op.get("late") and any((x.get("w") or {}).get("white") == "" for x in frame["base"]):
                        # ALTERNATIVES WITHOUT WHITESPACE DO NOT SAY WHAT LEADS: THE CONTEXT THEY ARE FINALIZED IN DOES
                        bases[op["slot"]] = None, None, None
                    if f or o[0] != "spawned":
                        if not f and self.spawns(op, frame["base"]):
                            return {"class": "spawn", "what": json.dumps([op, o]), "task": ti}
                        bases.pop(op["slot"], None)
                    elif o != ["spawned", True]:
                        return {"class": "spawn", "what": "building changed the current whitespace", "task": ti}
                if op["k"] == "probe":
                    base, frame, changed = bases.get(op["slot"], (None, None, None))
                    if base is None or f or frame["changed"] != changed:
                        continue
                    want = self.reference(op, base)
                    if want is not None and o != want["o"]:
                        return {"class": "probe", "what": json.dumps(base) + " " + json.dumps(op["s"]) + diff(o, want["o"]), "task": ti}
        # NOW THE CALLS AND THE WATCH
        p2 = dict(plan)

        def strip_tasks(ops, recs):
            keep = [(o, r) for o, r in zip(ops, recs) if o["k"] not in ("probe",)]
            return [o for o, _ in keep], [r for _, r in keep]

        tasks, recs = [], []
        for ops, rr in zip(self.judge_common.all_tasks(plan), rep["tasks"]):
            a, b = strip_tasks(ops, rr)
            tasks.append(a)
            recs.append(b)
        p2["tasks"], p2["post"] = tasks, None
        p2["setup"] = None
        return self.judge_common(p2, dict(rep, tasks=recs))

    def nontrivial(self, plan, rep):
        ks = [o["k"] for o in plan["tasks"][0]]
        return "enter" in ks and ("probe" in ks or rep["stats"]["preempts"] > 0 or "call" in ks)


# ---- C07 ---------------------------------------------------------------------------------------------------------------
class C07(Prop):
    quick = 3000
    thorough = 80000
    rule = (
        "a run has one to three Debugger or Profiler sessions, nested or overlapping on one or two threads, around calls,"
        " ended normally, by an error, or with failing output, clock or report; non-trivial when a call ran while a"
        " session was active"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 2]))
        nt = r.choice([1, 1, 2, 2, 3])
        plan = {"grammars": [g[0] for g in gs], "tasks": []}
        if r.random() < 0.3:
            plan["clock"] = [r.choice([0.0, 0.001, -5.0, 1e9, 60.0]) for _ in range(r.randrange(1, 5))]
        if r.random() < 0.4:
            plan["finalize"] = [[g, e] for g in range(len(gs)) for e in sorted(gs[g][1])]
        n = 0
        for ti in range(nt):
            ops, slots = [], []
            for _ in range(r.randrange(2, 7)):
                k = r.random()
                if k < 0.3 or not ops:
                    op = {"k": "session", "type": r.choice(["debugger", "debugger", "profiler"]), "slot": "d%d" % n, "id": ctx.id()}
                    op["silent"] = r.random() < 0.5
                    n += 1
                    slots.append((op["slot"], op))
                    ops.append(op)
                elif k < 0.5 and slots:
                    slot, s = slots.pop(r.randrange(len(slots)))
                    ops.append(self.end(ctx, r, slot, s))
                else:
                    gid = r.randrange(len(gs))
                    op = None
                    for _ in range(6):
                        op = ctx.call(r, gid, *gs[gid])
                        if op["k"] == "call" and ctx.refs.get(gs[gid][0], op)["st"] < 4000:
                            break
                    if op["k"] == "call":
                        op["limit"] = 4000000
                        ref = ctx.refs.get(gs[gid][0], op)
                        k = r.random()
                        if k < 0.25:
                            op["stdout"] = [r.randrange(1, 30), r.choice(["ENOSPC", "EPIPE", "EIO", "KeyboardInterrupt", "UnicodeError", "ValueError"])]
                        elif k < 0.4 and ref["c"]:
                            op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "raise": r.choice(CB_KINDS + ["KeyboardInterrupt", "ParseException"])}]
                        elif k < 0.5 and ref["c"]:
                            op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "do": [self.small(ctx, r, gs)]}]
                        elif k < 0.6 and ref["c"] and slots:
                            # A SESSION THAT ENDS, OR BEGINS, WHILE THE PARSE IS RUNNING
                            if r.random() < 0.5:
                                slot, s = slots.pop()
                                op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "do": [self.end(ctx, r, slot, s)]}]
                            else:
                                s = {"k": "session", "type": r.choice(["debugger", "profiler"]), "silent": True, "slot": "d%d" % n, "id": ctx.id()}
                                n += 1
                                slots.append((s["slot"], s))
                                op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "do": [s]}]
                    ops.append(op)
            plan["tasks"].append(ops)
        if nt > 1:
            ctx.preemptions(r, plan, r.choice([1, 2, 3]))
        post = [{"k": "end_session", "slot": "d%d" % i, "id": ctx.id()} for i in range(n)]
        r.shuffle(post)
        for _ in range(2):
            gid = r.randrange(len(gs))
            op = ctx.call(r, gid, *gs[gid])
            op["after"] = True
            post.append(op)
        plan["post"] = post
        return plan

    def small(self, ctx, r, gs):
        gid = r.randrange(len(gs))
        return ctx.call(r, gid, *gs[gid])

    def end(self, ctx, r, slot, s):
        op = {"k": "end_session", "slot": slot, "id": ctx.id()}
        if r.random() < 0.3:
            op["error"] = r.choice(["ValueError", "KeyboardInterrupt"])
        if s["type"] == "profiler" and r.random() < 0.4:
            op[r.choice(["report", "clock"])] = r.choice(["ENOSPC", "EIO", "EACCES"])
        return op

    def judge(self, plan, rep):
        def on_fault(plan, rec, op, ref, kinds):
            return fault_verdict(rec, op, ref, kinds)

        v = self.judge_common(plan, rep, on_fault=on_fault)
        if v:
            return v
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], self.judge_common.all_tasks(plan))):
            for rec, op in walk(recs, ops):
                if op.get("after") and rec.get("w"):
                    return {"class": "still printing", "what": "%d writes after the last session" % rec["w"]}
                if op.get("after") and rec.get("clk"):
                    return {"class": "still timing", "what": "%d looks at the clock after the last session" % rec["clk"]}
                if op["k"] == "session" and rec["o"] != ["session"]:
                    return {"class": "session", "what": json.dumps(rec["o"])[:300]}
                if op["k"] == "end_session":
                    f = faulted(rec)
                    o = rec["o"]
                    if not f and o not in (["ended", False], ["nothing"]):
                        # AN EXCEPTION FROM THE PARSE MUST NOT BE SWALLOWED BY THE SESSION
                        return {"class": "end of session", "what": json.dumps([op, o])[:300]}
                    if f and o[0] != "ended with":
                        return {"class": "end of session", "what": "failure not reported: " + json.dumps([op, o])[:300]}
        return None

    def nontrivial(self, plan, rep):
        for ops in plan["tasks"]:
            ks = [o["k"] for o in ops]
            if "session" in ks and "call" in ks[ks.index("session"):]:
                return True
        return False


# ---- C08 ---------------------------------------------------------------------------------------------------------------
class C08(Prop):
    quick = 4500
    thorough = 100000
    rule = (
        "a run is one to three parse_file calls, on one or two threads, on simulated files delivered in chunks, with"
        " open, read, close or decode errors at sampled points; non-trivial when a read was short or a fault fired"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 2]))
        nt = r.choice([1, 1, 2])
        plan = {"grammars": [g[0] for g in gs], "tasks": []}
        n = 0
        for ti in range(nt):
            ops = []
            for _ in range(r.choice([1, 1, 2])):
                gid = r.randrange(len(gs))
                spec, inputs = gs[gid]
                for _ in range(20):
                    ex = r.choice(sorted(inputs))
                    text = ctx.string(r, inputs, ex, spec)
                    if r.random() < 0.3:
                        text = text + "\n" + ctx.string(r, inputs, ex, spec)
                    if r.random() < 0.15:
                        i = r.randrange(len(text) + 1)
                        text = text[:i] + r.choice(["\u00e9", "\u6f22", "\U0001f600"]) + text[i:]
                    if r.random() < 0.12:
                        # WHAT SOME READERS LEAVE OUT, OR TAKE FOR AN END
                        i = r.choice([0, 0, len(text), r.randrange(len(text) + 1)])
                        text = text[:i] + r.choice(["\ufeff", "\x00", "\x1a", "\x0c", "\x1c", "\x85", "\u2028", "\n", "  ", "\n\n"]) + text[i:]
                    big = r.random() < 0.08
                    if big:
                        # LONGER THAN ANY BUFFER ON THE WAY
                        pad = r.choice([" ", "\n", " \t"]) * r.choice([200, 2500, 4200, 17000, 33000, 66000])
                        i = r.choice([0, 0, 0, len(text), r.randrange(len(text) + 1)])
                        text = text[:i] + pad + text[i:]
                    data = text.encode("utf8")
                    if r.random() < 0.15:
                        data = data.replace(b"\n", r.choice([b"\r\n", b"\r"]))
                    want = data.decode("utf8").replace("\r\n", "\n").replace("\r", "\n")
                    all_ = r.random() < 0.5
                    refop = {"k": "call", "g": [gid, ex], "p": "el", "e": "parse_all" if all_ else "parse", "s": want}
                    ref = ctx.refs.get(spec, refop)
                    if ref is not None and ref["st"] < 20000:
                        break
                else:
                    continue
                mode = r.choice(["path", "path", "path", "pathlike", "given", "given", "handle"])
                f = {"mode": mode, "path": "/sim/f%d" % n}
                n += 1
                if mode == "given":
                    f["text"] = want
                    if r.random() < 0.4:
                        f["short"] = [r.choice([1, 1, 2, 3, 1 << 40]) for _ in range(r.choice([1, 2, 3, 5]))]
                    if r.random() < 0.35:
                        f["read_fault"] = r.choice(["EIO", "ValueError", "AttributeError", "KeyboardInterrupt", "UnicodeDecodeError", "EISDIR", "MemoryError", "TypeError"])
                else:
                    f["data"] = data.decode("latin1")
                    f["buffer"] = r.choice([1, 2, 7, 16, 8192])
                    f["chunk"] = r.choice([1, 3, 8, 8192])
                    f["chunks"] = [r.randrange(1, 9) for _ in range(r.randrange(0, 30))]
                    if big:
                        f["buffer"], f["chunk"] = r.choice([512, 8192]), r.choice([500, 8192])
                    k = r.random()
                    if mode == "handle":
                        k = 0.15 + k * 0.25 if k < 0.5 else k
                    if k < 0.12:
                        f["open"] = r.choice(["ENOENT", "EACCES", "EISDIR", "EIO", "KeyboardInterrupt"])
                    elif k < 0.4:
                        f["faults"] = {str(r.randrange(1, 2 + len(data) // 4)): r.choice(["EIO", "EINTR", "MemoryError", "KeyboardInterrupt", "EISDIR"])}
                    elif k < 0.55 and mode != "handle":
                        f["close"] = r.choice(["EIO", "ENOSPC", "KeyboardInterrupt"])
                    elif k < 0.7:
                        i = r.randrange(len(data) + 1)
                        bad = data[:i] + r.choice([b"\xff", b"\xc3", b"\xe6\xbc", b"\x80"]) + data[i:]
                        f["data"] = bad.decode("latin1")
                op = {"k": "file", "g": [gid, ex], "file": f, "all": all_, "want": refop, "id": ctx.id(), "limit": ref["st"] * 20 + 60000}
                if r.random() < 0.1 and ref["c"]:
                    op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "raise": r.choice(["ValueError", "KeyboardInterrupt"])}]
                if mode in ("path", "pathlike") and r.random() < 0.25:
                    op["fault"] = {"kind": r.choice(["KeyboardInterrupt", "MemoryError"]), "entry": ctx.entry(r, spec, refop)}
                ops.append(op)
            plan["tasks"].append(ops)
        plan["entries"] = True
        if nt > 1:
            out = []
            for _ in range(r.choice([1, 2, 3])):
                ti = r.randrange(nt)
                if plan["tasks"][ti]:
                    out.append([ti, r.randrange(len(plan["tasks"][ti])), r.randrange(1, 80), 1 - ti, 0])
            plan["pre"] = out
        gid = r.randrange(len(gs))
        plan["post"] = [ctx.call(r, gid, *gs[gid])]
        return plan

    def expected(self, op):
        """-> ("error", names) or ("text", text)"""
        f = op["file"]
        if f["mode"] == "given":
            return "text", f["text"]
        try:
            text = f["data"].encode("latin1").decode("utf8")
        except UnicodeDecodeError:
            return "undecodable", None
        return "text", text.replace("\r\n", "\n").replace("\r", "\n")

    def judge(self, plan, rep):
        v = self.judge_common.dead(rep)
        if v:
            return v
        for p in rep.get("problems", []):
            return {"class": p[0], "what": json.dumps(p)}
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], self.judge_common.all_tasks(plan))):
            for rec, op in zip(recs, ops):
                if op["k"] == "call":
                    v = self.judge_common.one(plan, rec, op, {}, True, None)
                elif op["k"] == "file":
                    v = self.one_file(plan, rec, op)
                if v:
                    v["task"] = ti
                    return v
        return None

    def one_file(self, plan, rec, op):
        o = rec["o"]
        what, text = self.expected(op)
        fired = [f for f in rec.get("f", []) if f not in ("read:short", "read:EINTR")]
        files = rec.get("files") or []
        given = op["file"]["mode"] in ("given", "handle")
        if given:
            if rec["given"][0]:
                return {"class": "closed", "what": "the file that was given got closed"}
        else:
            if files.count("open") != files.count("close") and not any(f.startswith("entry:") for f in fired):
                return {"class": "not closed", "what": json.dumps([files, fired])}
            end = [i for i, f in enumerate(files) if f in ("returned", "raised")]
            if end and "close" in files[end[0] :] and not any(f.startswith("entry:") for f in fired):
                return {"class": "not closed", "what": "still open at the end of the call: " + json.dumps([files, fired])}
            if files.count("close") > 1 or files.count("open") > 1:
                return {"class": "closed twice", "what": json.dumps([files, fired])}
            if "match" in files and "close" in files and files.index("match") < files.index("close"):
                return {"class": "matching before close", "what": json.dumps(files)}
        for f in fired:
            where, kind = f.split(":", 1)
            name = {
                "EIO": "OSError", "ENOSPC": "OSError", "ENOENT": "FileNotFoundError", "EACCES": "PermissionError",
                "EISDIR": "IsADirectoryError", "EPIPE": "BrokenPipeError",
            }.get(kind, kind)
            if where in ("open", "read", "close"):
                if any(x.startswith(("read:", "entry:", "open:")) for x in fired if x != f) and where == "close":
                    continue
                if what == "undecodable":
                    if o[0] != "E":
                        return {"class": "file fault", "what": json.dumps([fired, o])[:300]}
                    continue
                if o[0] != "E" or (o[1] != name and name not in o[2]):
                    return {"class": "file fault", "what": "%s gave %s" % (f, json.dumps(o)[:300])}
                if "match" in files:
                    return {"class": "matched a truncated file", "what": json.dumps([f, files])}
        if fired:
            if any(f.startswith("cb:") for f in fired) and o[0] != "E":
                return {"class": "file callback", "what": json.dumps([fired, o])[:300]}
            if any(f.startswith("entry:") for f in fired):
                kind = [f for f in fired if f.startswith("entry:")][0].split(":")[1]
                ref = self.judge_common.ref(plan, op["want"])
                if kind == "KeyboardInterrupt" and o[:2] != ["E", kind] or (o[0] != "E" and ref and o != ref["o"]):
                    return {"class": "file interrupted", "what": json.dumps([fired, o])[:300]}
            return None
        if what == "undecodable":
            if o[0] != "E" or (o[1] != "UnicodeDecodeError" and "UnicodeDecodeError" not in o[2]):
                return {"class": "undecodable", "what": json.dumps(o)[:300]}
            return None
        want = dict(op["want"], s=text)
        ref = self.judge_common.ref(plan, want)
        if ref is None:
            return None
        if o != ref["o"]:
            return {"class": "outcome", "what": diff(o, ref["o"])}
        if rec.get("t", []) != ref["t"]:
            return {"class": "callbacks", "what": diff(rec.get("t", []), ref["t"])}
        return None

    def nontrivial(self, plan, rep):
        return fired(rep)


# ---- C09 ---------------------------------------------------------------------------------------------------------------
class C09(Prop):
    quick = 4500
    thorough = 100000
    hash_seeds = [1, 7, 42, 1234, 99991, 271828, 3, 4000000000]
    rule = (
        "a run is one to four calls, with reads of results and errors, in a process with another hash seed, other"
        " simulated addresses, other heap contents, collections at every k-th step, addresses reused after grammars are"
        " dropped, or a deep caller's stack; non-trivial when at least one of these differed from the reference process;"
        " distinct by plan"
    )

    def __init__(self, refs):
        Prop.__init__(self, refs)
        self.zygotes = {}

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 2]), ["deep"] if r.random() < 0.06 else None, rnd_p=0.4)
        plan = {"grammars": [g[0] for g in gs], "tasks": [[]], "env": {}}
        ops = plan["tasks"][0]
        plan["hashseed"] = self.hash_seeds[ctx.index % len(self.hash_seeds)] if r.random() < 0.6 else 0
        if r.random() < 0.5:
            plan["env"]["ids"] = r.getrandbits(30) + 1
        if r.random() < 0.4:
            plan["env"]["heap"] = r.getrandbits(20) + 1
        if r.random() < 0.15:
            plan["env"]["gc_every"] = r.choice([7, 31, 101, 401])
        for _ in range(r.choice([1, 2, 3])):
            gid = r.randrange(len(gs))
            op = ctx.call(r, gid, *gs[gid])
            if op["k"] != "call":
                continue
            if plan["env"].get("gc_every") and ctx.refs.get(gs[gid][0], op)["st"] > 3000:
                continue
            k = r.random()
            if k < 0.2:
                op["depth"] = r.choice([50, 200, 300, 600, 800])
            op["keep"] = "k%d" % len(ops)
            ops.append(op)
            if not op.get("depth") and r.random() < 0.35:
                # THE SAME, WHERE THE STACK ENDS
                for _ in range(r.choice([1, 3, 6])):
                    x = dict(op, headroom=r.choice([r.randrange(6, 60), r.randrange(20, 120), r.randrange(20, 300)]), id=ctx.id())
                    x.pop("keep")
                    ops.append(x)
            if r.random() < 0.6:
                read = r.choice(["str", "str", "repr", "message", "best", "causes", "items", "type", "pos"])
                ops.append({"k": "read", "slot": op["keep"], "r": read, "id": ctx.id()})
                d = {"k": "read", "slot": op["keep"], "r": read, "id": ctx.id()}
                if r.random() < 0.7:
                    d["depth"] = r.choice([20, 60, 100, 200, 400, 700, 850])
                if r.random() < 0.4:
                    # WHERE THE STACK ENDS IS A PLACE OF ITS OWN: SEVERAL READINGS
                    for _ in range(r.choice([1, 2, 6])):
                        d.pop("depth", None)
                        ops.append(dict(d, headroom=r.choice([r.randrange(2, 30), r.randrange(10, 90), r.randrange(10, 250)]), id=ctx.id()))
                else:
                    ops.append(d)
            if r.random() < 0.3:
                ops.append({"k": "forget", "g": [gid, "main"], "id": ctx.id()})
                ops.append({"k": "build", "g": [gid, "main"], "id": ctx.id()})
        return plan

    def run(self, plan):
        if plan.get("hashseed"):
            return self.zygote(plan["hashseed"]).run(plan)
        return run_child(plan)

    def zygote(self, seed):
        z = self.zygotes.get(seed)
        if z is None:
            z = self.zygotes[seed] = driver.Zygote(seed)
        return z

    def judge(self, plan, rep):
        v = self.judge_common.dead(rep)
        if v:
            return v
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], plan["tasks"])):
            reads = {}
            for rec, op in zip(recs, ops):
                if op["k"] == "call":
                    if (op.get("depth") or op.get("headroom")) and rec["o"][0] == "E" and "RecursionError" in [rec["o"][1]] + rec["o"][2]:
                        continue
                    v = self.judge_common.one(plan, rec, op, {}, True, None)
                    if v:
                        return v
                elif op["k"] == "read":
                    o = rec["o"]
                    key = op["slot"], op["r"]
                    if op.get("depth") or op.get("headroom"):
                        if (o == ["raised", "RecursionError"] or o[:2] == ["E", "RecursionError"]):
                            continue
                    if key in reads and reads[key] != o:
                        return {"class": "read", "what": "%s at depth %s: %s" % (op["r"], op.get("depth"), diff(o, reads[key]))}
                    reads.setdefault(key, o)
        return None

    def nontrivial(self, plan, rep):
        return bool(plan.get("hashseed") or plan["env"] or any(o.get("depth") for o in all_ops(plan)))


# ---- C10 ---------------------------------------------------------------------------------------------------------------
class C10(Prop):
    quick = 5000
    thorough = 120000
    rule = (
        "a run is a history of two to ten derivations (also failing or interrupted ones) and calls over a shared pool of"
        " expressions, each followed by calls whose outcome is compared with a fresh expression's; non-trivial when at"
        " least one derivation succeeded before a compared call"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 2, 2]))
        plan = {"grammars": [g[0] for g in gs], "tasks": [[]], "entries": True}
        ops = plan["tasks"][0]
        hows = sorted(derive.D)
        subset = r.sample(hows, r.choice([2, 4, len(hows)])) + r.sample(derive.CLOSE, r.choice([1, 3, 12]))
        for _ in range(r.randrange(2, 11)):
            gid = r.randrange(len(gs))
            ex = r.choice(sorted(gs[gid][1]))
            k = r.random()
            if k < 0.6:
                h = r.randrange(len(gs))
                op = {"k": "derive", "g": [gid, ex], "h": [h, r.choice(sorted(gs[h][1]))], "how": r.choice(subset), "id": ctx.id(), "limit": 2000000}
                for key in ("path", "hpath"):
                    if r.random() < 0.5:
                        op[key] = [r.randrange(8) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6]))]
                if r.random() < 0.15:
                    # A Forward, DEFINED AFTER OTHERS ARE DERIVED FROM IT
                    op["how"] = "later"
                    op["first"] = [r.choice(r.choice([hows, subset, derive.CLOSE])) for _ in range(r.choice([1, 1, 2, 4]))]
                elif op["how"] in derive.CLOSE and r.random() < 0.4:
                    # THEN CHANGE WHAT IS DERIVED IN PLACE
                    op["then"] = r.sample(["append", "append", "pname", "fail"], r.choice([1, 2]))
                if r.random() < 0.35 and op["how"] in derive.USABLE + ["later"]:
                    op["use"] = ctx.string(r, gs[gid][1], ex, gs[gid][0])
                elif r.random() < 0.15:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 60)}
                ops.append(op)
            elif k < 0.85:
                op = ctx.call(r, gid, *gs[gid])
                if op["k"] == "call" and r.random() < 0.2:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 60) if r.random() < 0.5 else ctx.entry(r, gs[gid][0], op)}
                ops.append(op)
            else:
                ops.append({"k": "describe", "g": [gid, ex], "id": ctx.id()})
        for gid, g in enumerate(gs):
            for ex in sorted(g[1])[:3]:
                ops.append({"k": "describe", "g": [gid, ex], "id": ctx.id()})
                ops.append(ctx.call(r, gid, *g, export=ex, p="el"))
                if r.random() < 0.4:
                    ops.append(ctx.call(r, gid, *g, export=ex))
        if r.random() < 0.35:
            self.threads(ctx, r, plan, [sorted(g[1]) for g in gs])
        return plan

    def threads(self, ctx, r, plan, exports_of):
        """deriving and using at the same time"""
        ops = plan["tasks"][0]
        plan["tasks"] = [[], [], []]
        first = [o for o in ops if o["k"] != "derive"]
        spread = r.random()
        for o in ops:
            if o["k"] == "derive":
                # ONE THREAD BUILDS, BECAUSE ALL THREADS SEE THE WHITESPACE CONTEXT IT IS IN
                ti = 0
                if r.random() < spread:
                    ti = r.choice([0, 1, 2])
                    if ti and o["how"] not in derive.PURE:
                        o["how"] = r.choice(derive.PURE)
                        o.pop("use", None)
                plan["tasks"][ti].append(o)
        if r.random() < 0.5:
            # SEVERAL THREADS ASK FOR THE SAME
            gs = [(plan["grammars"][g], {e: [""] for e in exports}) for g, exports in enumerate(exports_of)]
            op = derivation(ctx, r, gs, derive.PURE)
            for ti, t in enumerate(plan["tasks"]):
                o = dict(op, id=ctx.id())
                if ti == 0 and r.random() < 0.5:
                    o["how"] = r.choice(derive.ASKING)
                elif r.random() < 0.5:
                    o["how"] = r.choice(derive.PURE)
                t.insert(r.randrange(len(t) + 1), o)
        if r.random() < 0.5:
            r.shuffle(first)
        keep = r.randrange(1, 5)
        plan["tasks"][1] += first[:keep]
        plan["post"] = first[keep : keep + 4]
        plan["tasks"] = [t for t in plan["tasks"] if t]
        if len(plan["tasks"]) > 1:
            ctx.preemptions(r, plan, r.choice([1, 2, 2, 3, 4]))

    def judge(self, plan, rep):
        v = self.judge_common(plan, rep)
        if v:
            return v
        # WHAT IS DERIVED DOES NOT DEPEND ON WHAT ELSE HAPPENED
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], plan["tasks"])):
            for rec, op in zip(recs, ops):
                v = self.judge_common.derived(plan, rec, op)
                if v:
                    v["task"] = ti
                    return v
        return None

    def nontrivial(self, plan, rep):
        return any(rec.get("ok") for recs in rep["tasks"] for rec in recs)


# ---- C11 ---------------------------------------------------------------------------------------------------------------
COMPUTE = ["copy", "copy", "copy", "add", "add", "sum", "slice", "many", "list", "value", "items", "iter", "missing"]
CAUSE_KINDS = ["causes", "exprs", "message"]
READ_KINDS = sorted(set(driver.model.READS) | set(driver.model.ERROR_READS))


class C11(Prop):
    quick = 4500
    thorough = 100000
    rule = (
        "a run keeps several results and errors, then reads, modifies and re-reads them in any order on one to three"
        " threads, between further calls, also modifying results from inside parse actions; non-trivial when something"
        " kept was read again after another call or modification; reads are preempted at sampled points"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 2])) if r.random() < 0.93 else [ctx.grammar(r, 0, ["watched"])]
        plan = {"grammars": [g[0] for g in gs], "setup": [], "tasks": []}
        kept = []
        for i in range(r.randrange(2, 5)):
            gid = r.randrange(len(gs))
            op = ctx.call(r, gid, *gs[gid])
            if op["k"] != "call":
                continue
            op["keep"] = "k%d" % i
            if r.random() < 0.35:
                op["share"] = True
            ref = ctx.refs.get(gs[gid][0], op)
            if r.random() < 0.15 and ref["c"]:
                op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "mutate": r.choice(["append", "clear", "set", "deep", "missing", "erase"])}]
                op["nojudge"] = True
            if r.random() < 0.25:
                # NOBODY LOOKS AT IT BEFORE THE READS BELOW
                op.update(blind=True, nojudge=True)
                op.pop("hooks", None)
            plan["setup"].append(op)
            kept.append(op["keep"])
            fails = [j + 1 for j, x in enumerate(ref["t"][: ref["c"]]) if str(x[0]).startswith("!")]
            if fails and not op.get("hooks") and r.random() < 0.5:
                # THE ERROR GIVEN TO A FAIL ACTION, MAYBE LOOKED AT THERE
                slot = "c%d" % i
                op["hooks"] = [{"n": r.choice(fails), "keepcause": slot}]
                if r.random() < 0.3:
                    op["hooks"][0]["do"] = [{"k": "read", "slot": slot, "r": r.choice(READ_KINDS), "id": ctx.id()}]
                kept.append(slot)
        if r.random() < 0.3:
            gid = r.randrange(len(gs))
            o = ctx.open(r, gid, *gs[gid], "it")
            if o:
                plan["setup"].append(o)
        mutated = []
        post_reads = []
        nt = r.choice([1, 1, 2, 3])
        if nt == 1 and kept:
            for _ in range(r.choice([0, 1, 1, 2])):
                mutated.append(r.choice(kept))
        for ti in range(nt):
            ops = []
            for _ in range(r.randrange(2, 8)):
                k = r.random()
                gid = r.randrange(len(gs))
                if k < 0.5 and kept:
                    ops.append({"k": "read", "slot": r.choice(kept), "r": r.choice(READ_KINDS), "id": ctx.id(), "limit": 2000000})
                elif k < 0.6 and kept:
                    ops.append({"k": "snapshot", "slot": r.choice(kept), "id": ctx.id(), "limit": 2000000})
                elif k < 0.7 and mutated:
                    ops.append({"k": "mutate", "slot": mutated[r.randrange(len(mutated))], "how": r.choice(["append", "clear", "set", "setname", "del", "deep", "missing", "erase"]), "id": ctx.id()})
                elif k < 0.78 and kept:
                    ops.append({
                        "k": "compute", "slot": r.choice(kept), "with": r.choice(kept), "how": r.choice(COMPUTE), "id": ctx.id(),
                        "then": r.choice(["append", "clear", "set", "missing"]), "limit": 2000000,
                    })
                elif k < 0.82:
                    x = {"k": "derive", "g": [gid, sorted(gs[gid][1])[0]], "how": r.choice(["str", "name", "plus", "regex", "streamline"]), "id": ctx.id()}
                    x["h"] = x["g"]
                    ops.append(x)
                else:
                    op = ctx.call(r, gid, *gs[gid])
                    if op["k"] == "call":
                        ref = ctx.refs.get(gs[gid][0], op)
                        k = r.random()
                        if k < 0.2 and ref["c"]:
                            op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "mutate": r.choice(["append", "clear", "set", "deep", "missing", "erase"])}]
                            op["nojudge"] = True
                        elif k < 0.3 and kept and ref["c"]:
                            op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "do": [{"k": "read", "slot": r.choice(kept), "r": r.choice(READ_KINDS), "id": ctx.id()}]}]
                    ops.append(op)
            plan["tasks"].append(ops)
        if nt > 1:
            self.preempt(ctx, r, plan)
            blind = [o["keep"] for o in plan["setup"] if o.get("blind")]
            if blind and r.random() < 0.7:
                # TWO THREADS ARE THE FIRST TO LOOK
                slot = r.choice(blind)
                a, b = r.sample(range(nt), 2)
                for ti in (a, b):
                    plan["tasks"][ti].insert(0, {"k": "read", "slot": slot, "r": r.choice(READ_KINDS), "id": ctx.id(), "limit": 2000000})
                plan["tasks"][b][0]["r"] = r.choice([plan["tasks"][a][0]["r"], r.choice(READ_KINDS)])
                plan["pre"] = [[p[0], p[1] + (p[0] in (a, b))] + p[2:] for p in plan["pre"]]
                plan["pre"].insert(0, [a, 0, r.choice([r.randrange(1, 12), r.randrange(1, 30), r.randrange(1, 300)]), b, r.choice([0, r.randrange(1, 40)])])
                post_reads = [dict(plan["tasks"][ti][0], id=ctx.id()) for ti in (a, b)]
        post = list(post_reads)
        for k in kept:
            post.append({"k": "snapshot", "slot": k, "id": ctx.id(), "limit": 2000000})
            if r.random() < 0.3:
                post.append({"k": "read", "slot": k, "r": r.choice(READ_KINDS), "id": ctx.id(), "limit": 2000000})
            if r.random() < 0.3:
                # READING ONE THING DOES NOT CHANGE ANOTHER
                a, b = r.choice(READ_KINDS + CAUSE_KINDS * 4), r.choice(READ_KINDS)
                for x in (a, b, a):
                    post.insert(0 if r.random() < 0.1 else len(post), {"k": "read", "slot": k, "r": x, "id": ctx.id(), "limit": 2000000})
        gid = r.randrange(len(gs))
        post.append(ctx.call(r, gid, *gs[gid]))
        ex = r.choice(sorted(gs[gid][1]))
        post.append({"k": "derive", "g": [gid, ex], "h": [gid, ex], "how": r.choice(["str", "repr"]), "id": ctx.id(), "limit": 2000000})
        post.append(ctx.call(r, gid, *gs[gid], s=r.choice(["\x00", "", "?", "a a a a", "1 1 1"]), e="parse"))
        plan["post"] = post
        return plan

    def preempt(self, ctx, r, plan):
        ctx.preemptions(r, plan, r.choice([1, 2, 3, 4]))
        for p in plan["pre"]:
            op = plan["tasks"][p[0]][p[1]]
            if op["k"] in ("read", "snapshot"):
                p[2] = r.choice([r.randrange(1, 30), r.randrange(1, 400)])

    def judge(self, plan, rep):
        v = self.judge_common(plan, rep)
        if v:
            return v
        first, reads, dirty = {}, {}, set()
        tasks = self.judge_common.all_tasks(plan)
        if plan.get("post"):
            for rec, op in zip(rep["tasks"][-1], plan["post"]):
                v = self.judge_common.derived(plan, rec, op)
                if v:
                    return v
        # WHAT IS MODIFIED: ONLY SINGLE THREADED PLANS DO THAT
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], tasks)):
            for rec, op in walk(recs, ops):
                if op["k"] == "call" and op.get("keep") and op["keep"] not in first and not op.get("blind"):
                    first[op["keep"]] = rec["o"]
                elif op["k"] == "mutate":
                    dirty.add(op["slot"])
                    first.pop(op["slot"], None)
                    for k in [k for k in reads if k[0] == op["slot"]]:
                        del reads[k]
                elif op["k"] == "snapshot":
                    o = rec["o"]
                    if o == ["gone"]:
                        continue
                    want = first.setdefault(op["slot"], o)
                    if o != want:
                        return {"class": "changed", "what": "what %s holds: %s" % (op["slot"], diff(o, want)), "task": ti}
                elif op["k"] == "read":
                    o = rec["o"]
                    if o == ["gone"]:
                        continue
                    want = reads.setdefault((op["slot"], op["r"]), o)
                    if o != want:
                        return {"class": "read differs", "what": "%s of %s: %s" % (op["r"], op["slot"], diff(o, want)), "task": ti}
        return None

    def nontrivial(self, plan, rep):
        return any(o["k"] in ("read", "snapshot") for ops in plan["tasks"] for o in ops)


# ---- C12 ---------------------------------------------------------------------------------------------------------------
class C12(Prop):
    quick = 4500
    thorough = 100000
    rule = (
        "a run is two to four threads mixing calls, suspended iterators, nested calls, sessions, building, and faults at"
        " function entries, in callbacks and while waiting for the lock; then a fresh thread makes a call; non-trivial"
        " when a thread had to wait for another, or a fault fired"
    )

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 2]))
        nt = r.choice([2, 2, 3, 4])
        plan = {"grammars": [g[0] for g in gs], "tasks": [], "entries": True}
        if r.random() < 0.3:
            plan["finalize"] = [[g, e] for g in range(len(gs)) for e in sorted(gs[g][1])]
        n = 0
        for ti in range(nt):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                gid = r.randrange(len(gs))
                spec, inputs = gs[gid]
                k = r.random()
                if k < 0.15:
                    o = ctx.open(r, gid, spec, inputs, "s%d" % n)
                    if o:
                        ops.append(o)
                        p = {"k": "pull", "slot": o["slot"], "n": r.choice([1, 2, 9]), "id": ctx.id()}
                        if r.random() < 0.3:
                            p["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 200)}
                        ops.append(p)
                        if ti < nt - 1 and r.random() < 0.3:
                            ops.append({"k": "await", "task": r.randrange(ti + 1, nt), "count": r.choice([1, 2, 9]), "id": ctx.id()})
                        if r.random() < 0.4:
                            ops.append({"k": r.choice(["close", "drop"]), "slot": o["slot"], "id": ctx.id(), "gc": True})
                        n += 1
                    continue
                if k < 0.25:
                    s = {"k": "session", "type": r.choice(["debugger", "profiler"]), "silent": r.random() < 0.8, "slot": "d%d" % n, "id": ctx.id()}
                    n += 1
                    ops.append(s)
                    ops.append(ctx.call(r, gid, spec, inputs))
                    if ti < nt - 1 and r.random() < 0.5:
                        ops.append({"k": "await", "task": r.randrange(ti + 1, nt), "count": r.choice([1, 2, 9]), "id": ctx.id()})
                    ops.append({"k": "end_session", "slot": s["slot"], "id": ctx.id()})
                    if r.random() < 0.3:
                        ops[-1]["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 12)}
                    for o in ops:
                        o["limit"] = 6000000
                    continue
                op = ctx.call(r, gid, spec, inputs)
                if op["k"] == "call":
                    ref = ctx.refs.get(spec, op)
                    k = r.random()
                    if k < 0.25:
                        op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": ctx.entry(r, spec, op)}
                    elif k < 0.45 and ref["c"]:
                        op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "raise": r.choice(CB_KINDS + BASE_KINDS + ["ParseException"])}]
                    elif k < 0.7 and ref["c"]:
                        do = [ctx.call(r, gid, spec, inputs)]
                        if r.random() < 0.3 and do[0]["k"] == "call":
                            do[0]["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": ctx.entry(r, spec, do[0])}
                        if r.random() < 0.3:
                            o = ctx.open(r, gid, spec, inputs, "s%d" % n)
                            if o:
                                do += [o, {"k": "pull", "slot": o["slot"], "n": 1, "id": ctx.id()}]
                            n += 1
                        op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "do": do}]
                    if r.random() < 0.15:
                        op["wait_fault"] = r.choice(["KeyboardInterrupt", "SystemExit"])
                    if r.random() < 0.06:
                        op["headroom"] = r.choice([r.randrange(6, 50), r.randrange(20, 200)])
                    op["limit"] = 6000000
                ops.append(op)
                if ti < nt - 1 and r.random() < 0.1:
                    ops.append({"k": "await", "task": r.randrange(ti + 1, nt), "count": r.choice([1, 2, 9]), "id": ctx.id()})
            plan["tasks"].append(ops)
        ctx.preemptions(r, plan, r.choice([1, 2, 3, 4, 5]))
        if r.random() < 0.3:
            plan["stall"] = True
        gid = r.randrange(len(gs))
        plan["post"] = [ctx.call(r, gid, *gs[gid])]
        if r.random() < 0.08:
            plan["env"] = {"gc_every": r.choice([13, 57, 301])}
        return plan

    def judge(self, plan, rep):
        v = self.judge_common.dead(rep)
        if v:
            return v
        for p in rep.get("problems", []):
            return {"class": p[0], "what": json.dumps(p)}
        tasks = self.judge_common.all_tasks(plan)
        for recs, ops in zip(rep["tasks"], tasks):
            if len(recs) != len(ops):
                return {"class": "not completed", "what": "%d of %d operations completed" % (len(recs), len(ops))}
        return None

    def nontrivial(self, plan, rep):
        return rep["stats"]["blocks"] > 0 or fired(rep)


# ---- C21 ---------------------------------------------------------------------------------------------------------------
class C21(Prop):
    quick = 20000
    thorough = 400000
    rule = (
        "a run is one to three threads that read character sets for the first time, some interrupted, with one to four"
        " preemptions at sampled steps, followed by reads on another thread; non-trivial when a thread was switched inside"
        " the library, a fault fired, or a set was read after one it is derived from or one derived from it"
    )
    GROUPS = [
        ["Latin1"], ["LatinA", "LatinB"], ["Greek"], ["Cyrillic"], ["Hebrew", "Arabic"], ["Thai"], ["Devanagari"],
        ["Japanese.Hiragana", "Japanese.Katakana"], ["user:one", "user:two", "user:both"], ["user:one", "user:more"],
        ["user:one", "user:base"], ["user:one", "user:two", "user:more", "user:both", "user:base"],
    ]

    def generate(self, ctx, r):
        nt = r.choice([1, 2, 2, 2, 3])
        names = r.choice(self.GROUPS)
        if r.random() < 0.2:
            names = names + r.choice(self.GROUPS)
        attrs = ["alphas", "nums", "alphanums", "printables"]
        attrs = r.sample(attrs, r.choice([1, 2, 4]))

        def read():
            return {"k": "charset", "set": r.choice(names), "attr": r.choice(attrs), "id": ctx.id()}

        plan = {"grammars": [], "tasks": [], "entries": True}
        for ti in range(nt):
            ops = [read() for _ in range(r.choice([1, 1, 2, 3]))]
            for op in ops:
                if r.random() < 0.2:
                    op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.choice([1, 2, 3, r.randrange(1, 40)])}
            plan["tasks"].append(ops)
        if nt > 1:
            pre = []
            for _ in range(r.choice([1, 2, 2, 3, 4])):
                ti = r.randrange(nt)
                oi = r.randrange(len(plan["tasks"][ti]))
                op = plan["tasks"][ti][oi]
                rep = self.alone(op["set"], op["attr"])
                step = r.choice([
                    r.randrange(1, 8), r.randrange(1, rep["st"] + 2), max(0, rep["st"] - r.randrange(6)),
                    r.choice(rep["locs"][r.choice(sorted(rep["locs"]))]), r.choice(rep["locs"][r.choice(sorted(rep["locs"]))]),
                ])
                p = [ti, oi, step, r.choice([x for x in range(nt) if x != ti]), 0]
                if r.random() < 0.5:
                    p[4] = r.randrange(0, 40)
                pre.append(p)
            plan["pre"] = pre
            if r.random() < 0.3:
                plan["stall"] = True
        plan["post"] = [read() for _ in range(3)]
        return plan

    steps = {}

    def alone(self, name, attr):
        """the steps of reading a set in a fresh process"""
        key = name, attr
        if key not in self.steps:
            rep = run_child({"grammars": [], "record": True, "tasks": [[{"k": "charset", "set": name, "attr": attr}]]})
            self.steps[key] = {"st": rep["steps"], "locs": rep["locs"]}
        return self.steps[key]

    def judge(self, plan, rep):
        v = self.judge_common.dead(rep)
        if v:
            return v
        for ti, (recs, ops) in enumerate(zip(rep["tasks"], self.judge_common.all_tasks(plan))):
            for rec, op in zip(recs, ops):
                o = rec["o"]
                f = faulted(rec)
                if f:
                    kind = f[0].split(":")[1]
                    if o[0] == "E" and (o[1] == kind or kind not in ("KeyboardInterrupt", "SystemExit")):
                        continue
                ref = self.refs.custom({"grammars": [], "lines": False, "tasks": [[{"k": "charset", "set": op["set"], "attr": op["attr"]}]]})
                if ref is not None and o != ref["o"]:
                    return {"class": "charset", "what": op["set"] + "." + op["attr"] + diff(o, ref["o"]), "task": ti}
        return None

    def nontrivial(self, plan, rep):
        return rep["stats"]["preempts"] > 0 or fired(rep) or any(o["set"].startswith("user") for o in all_ops(plan))


# ---- C22 ---------------------------------------------------------------------------------------------------------------
class C22(Prop):
    quick = 4000
    thorough = 30000
    rule = (
        "a run is a history of calls, scans, derivations, sessions and contexts, some ended by faults, on one or two"
        " threads, that is repeated six times by the same thread or by new ones, with what the library and the grammars"
        " hold counted after each; non-trivial when a fault fired or a grammar, session, context or scan came and went"
    )
    MANY, LAST = 300, 30

    def generate(self, ctx, r):
        gs = pick_grammars(ctx, r, r.choice([1, 1, 2]))
        nt = r.choice([1, 1, 1, 2])
        plan = {"grammars": [g[0] for g in gs], "tasks": [], "entries": True}
        shared = [ctx.string(r, g[1], sorted(g[1])[0], g[0]) for g in gs]
        if r.random() < 0.5:
            plan["vary"] = True
        for ti in range(nt):
            ops = []
            for i in range(r.choice([1, 1, 2, 3])):
                k = r.random()
                gid = r.randrange(len(gs))
                if k < 0.6 or nt > 1:
                    op = self.call(ctx, r, gs, gid, shared)
                    if op is None:
                        continue
                    ops.append(op)
                elif k < 0.7:
                    o = ctx.open(r, gid, *gs[gid], "s%d" % i, s=shared[gid])
                    if o:
                        ops += [o, {"k": "pull", "slot": "s%d" % i, "n": r.choice([1, 2]), "id": ctx.id()}]
                        if r.random() < 0.5:
                            ops[-1]["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 100)}
                elif k < 0.8:
                    ops.append(derivation(ctx, r, gs, derive.USABLE if r.random() < 0.5 else sorted(derive.D)))
                elif k < 0.88:
                    spec, inputs = ctx.grammar(r, 0, NOCTX)
                    n = len(plan["grammars"])
                    plan["grammars"].append(dict(spec, lazy=True))
                    ex = r.choice(sorted(inputs))
                    ops.append({"k": "build", "g": [n, ex], "fin": r.random() < 0.5, "id": ctx.id()})
                    if r.random() < 0.3:
                        ops[-1]["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": r.randrange(1, 200)}
                    else:
                        ops.append(ctx.call(r, n, spec, inputs, export=ex))
                    ops.append({"k": "forget", "g": [n, ex], "id": ctx.id()})
                elif k < 0.94:
                    s = {"k": "session", "type": r.choice(["debugger", "profiler"]), "slot": "d%d" % i, "id": ctx.id(), "silent": True}
                    op = self.call(ctx, r, gs, gid, shared)
                    ops += [s] + ([op] if op else [])
                    end = {"k": "end_session", "slot": s["slot"], "id": ctx.id()}
                    if r.random() < 0.4:
                        end["error"] = r.choice(["ValueError", "KeyboardInterrupt"])
                    if s["type"] == "profiler" and r.random() < 0.3:
                        end["report"] = r.choice(["ENOSPC", "EIO"])
                    ops.append(end)
                else:
                    ops.append({"k": "enter", "w": r.choice(WHITES), "wid": "w%d" % i, "id": ctx.id()})
                    if r.random() < 0.5:
                        ops.append({"k": "spawn", "shape": r.choice(sorted(driver.model.SHAPES)), "slot": "p%d" % i, "id": ctx.id()})
                    ops.append({"k": "leave", "how": r.choice(["exit", "exit", "error", "release"]), "id": ctx.id()})
            if not ops:
                ops.append(ctx.call(r, 0, *gs[0]))
            plan["tasks"].append(ops)
        if nt == 1 and r.random() < 0.5:
            plan["again"] = 6
        else:
            plan["reps"] = 6
        if nt > 1:
            ctx.preemptions(r, plan, r.choice([1, 2]))
        return plan

    def call(self, ctx, r, gs, gid, shared):
        for _ in range(6):
            op = ctx.call(r, gid, *gs[gid], s=shared[gid] if r.random() < 0.4 else None)
            if op["k"] != "call":
                return None
            ref = ctx.refs.get(gs[gid][0], op)
            if ref["st"] < 5000:
                break
        else:
            return None
        k = r.random()
        if k < 0.35:
            op["fault"] = {"kind": r.choice(PARSE_FAULTS), "entry": ctx.entry(r, gs[gid][0], op)}
            if r.random() < 0.3:
                op["fault"]["entry"] = r.randrange(1, 40)
        elif k < 0.6 and ref["c"]:
            op["hooks"] = [{"n": r.randrange(1, ref["c"] + 1), "raise": r.choice(CB_KINDS + BASE_KINDS + ["ParseException"])}]
            if r.random() < 0.25:
                op["hooks"].insert(0, {"n": op["hooks"][0]["n"], "do": [ctx.call(r, gid, *gs[gid])]})
        elif k < 0.7:
            op["headroom"] = r.choice([r.randrange(6, 50), r.randrange(20, 200)])
        if r.random() < 0.3:
            op["keep"] = "k"
        return op

    @staticmethod
    def grows(sizes, last):
        s = sizes[-last:]
        return len(s) >= last and all(a < b for a, b in zip(s, s[1:]))

    def judge(self, plan, rep):
        if rep.get("dead"):
            self.judge_common.dead(dict(rep, dead=dict(rep["dead"])))
            raise Undecided("not about what is held")
        if not self.grows(rep["sizes"], 5):
            return None
        # STILL, WHEN REPEATED MANY TIMES?
        key = "again" if "again" in plan else "reps"
        rep = run_child(dict(plan, **{key: self.MANY}))
        if rep.get("dead"):
            raise Undecided("too long to tell")
        if not self.grows(rep["sizes"], self.LAST):
            return None
        a, b = rep["held"]
        return {
            "class": "grows",
            "what": "%d more with every repetition, after %d: %s" % (
                rep["sizes"][-1] - rep["sizes"][-2], self.MANY,
                json.dumps({k: n - a.get(k, 0) for k, n in sorted(b.items()) if n > a.get(k, 0)}),
            ),
        }

    def nontrivial(self, plan, rep):
        return fired(rep) or any(o["k"] in ("build", "session", "enter", "open", "derive") or o.get("headroom") for o in all_ops(plan))


PROPS = {c.__name__: c for c in (C21, C22, C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12)}
