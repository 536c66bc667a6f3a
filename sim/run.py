"""
Deterministic simulation of mo-parsing: one property per invocation.

  run.py C01                     explore; VERIF_SEED and VERIF_TIER decide what
  run.py C01 --replay FILE       run one recorded plan
  run.py C01 --selftest N        run N plans twice, with different worker counts and hash seeds, compare

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed
"""
import hashlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYTHON = "/opt/venv/bin/python"

if "--zygote" not in sys.argv and os.environ.get("SIM_CLEAN") != "1":
    # AN ENVIRONMENT OF OUR OWN
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(SIM_CLEAN="1", PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"), PYTHONUTF8="1")
    os.execve(PYTHON, [PYTHON, "-s", os.path.join(HERE, "run.py")] + sys.argv[1:], env)

if "--zygote" in sys.argv:
    PROTOCOL = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)

sys.path.insert(0, HERE)
import boot  # noqa: E402
import driver  # noqa: E402
import engine  # noqa: E402
import gc  # noqa: E402
import props  # noqa: E402
from driver import HarnessError, Undecided, minimise, plan_hash  # noqa: E402

START = time.monotonic()
STREAMS = 8
COMPONENTS = {
    "real": "all of mo_parsing (parsing, whitespace, results, errors, Debugger, Profiler), CPython threads, io.BufferedReader/TextIOWrapper",
    "stubbed": "threading.RLock/Lock of the library (simulated, same semantics), the raw file under parse_file, stdout, the"
    " profiler's File, Date, jx.sort and process_time, id() as seen by the library (C09 only)",
}


def prepare():
    engine.setup_monitoring(boot.PKG)
    gc.collect()
    gc.freeze()


def zygote():
    out = PROTOCOL
    prepare()
    for line in sys.stdin.buffer:
        rep = driver.run_child(json.loads(line))
        out.write(json.dumps(rep).encode() + b"\n")
        out.flush()


def make_plan(prop, ctx, seed, i):
    ctx.index = i
    ctx.uid = 0
    r = random.Random("%s %s %s" % (prop.__class__.__name__, seed, i))
    plan = prop.generate(ctx, r)
    plan["index"] = i
    return plan


def sequences(plan, rep):
    """what makes this run different from others"""
    t = json.dumps([
        [g.get("b") for g in plan["grammars"]], rep.get("order"), rep.get("fired"),
        [[(x.get("k"), x.get("o"), x.get("at"), x.get("f"), x.get("n")) for x in t] for t in rep.get("tasks", [])],
    ])
    return hashlib.md5(t.encode()).hexdigest()[:16]


class Worker(object):
    def __init__(self, name, seed, tier, streams, count, out, budget):
        self.name = name
        self.seed = seed
        self.tier = tier
        self.streams = streams
        self.count = count
        self.out = out
        self.budget = budget

    def send(self, msg):
        data = json.dumps(msg).encode() + b"\n"
        view = memoryview(data)
        while view:
            n = os.write(self.out, view[: 1 << 16])
            view = view[n:]

    def main(self):
        refs = driver.Refs()
        prop = props.PROPS[self.name](refs)
        ctx = driver.Ctx(self.seed, refs, 6 if self.tier == "quick" else 60, self.tier)
        s = {
            "evaluations": 0, "nontrivial": 0, "steps": 0, "fired": {}, "preempts": 0, "blocks": 0, "switches": 0,
            "seqs": set(), "orders": set(), "at": set(), "switched": set(), "sim_seconds": 0.0, "samples": [], "gc": 0,
            "grammars": set(), "dropped": 0, "undecided": 0,
        }
        self.stats = s
        self.refs = refs
        for i in range(self.count):
            if i % STREAMS not in self.streams:
                continue
            if time.monotonic() - START > self.budget:
                s["dropped"] += 1
                continue
            plan = make_plan(prop, ctx, self.seed, i)
            try:
                rep = prop.run(plan)
                v = prop.judge(plan, rep)
            except Undecided as cause:
                s["undecided"] += 1
                if s["undecided"] > 3:
                    raise HarnessError("runs that do not end: " + str(cause))
                continue
            except HarnessError as cause:
                write_replay(self.name, {
                    "property": self.name, "seed": self.seed, "index": i, "violation": {"error": str(cause)}, "plan": plan,
                })
                raise HarnessError("run %d: %s" % (i, cause))
            if v:
                replay = {"property": self.name, "seed": self.seed, "index": i, "violation": v, "plan": plan}
                small, sv, n = minimise(plan, v, prop.evaluate)
                replay.update(plan=small, violation=sv, original=plan, reductions=n)
                self.send({"violation": replay})
                break
            self.count_run(prop, plan, rep)
        for z in getattr(prop, "zygotes", {}).values():
            z.close()
        s["references"] = refs.runs
        self.send({"stats": {k: sorted(v) if isinstance(v, set) else v for k, v in s.items()}})

    def count_run(self, prop, plan, rep):
        s = self.stats
        s["evaluations"] += 1
        s["steps"] += rep.get("steps", 0)
        s["sim_seconds"] += rep.get("now", 0)
        for k, n in rep.get("fired", {}).items():
            s["fired"][k] = s["fired"].get(k, 0) + n
        for k in ("preempts", "blocks", "switches"):
            s[k] += rep["stats"][k]
        s["gc"] += rep.get("gc", 0)
        for g in plan["grammars"]:
            s["grammars"].add(g["b"] if g["b"] != "rnd" else "rnd" + hashlib.md5(json.dumps(g["ast"]).encode()).hexdigest()[:6])
        for o in rep.get("order", []):
            if ".py" in o[1]:
                s["switched"].add(o[1])
        if rep["stats"]["switches"]:
            s["orders"].add(hashlib.md5(json.dumps(rep["order"]).encode()).hexdigest()[:16])
        for t in rep["tasks"]:
            for rec in t:
                for a in rec.get("at", []):
                    s["at"].add(a)
        if prop.nontrivial(plan, rep):
            s["nontrivial"] += 1
            s["seqs"].add(sequences(plan, rep))
            if len(s["samples"]) < 1 and len(json.dumps(plan)) < 2500:
                s["samples"].append(plan)


def explore(name, seed, tier):
    cls = props.PROPS[name]
    count = int(os.environ.get("SIM_RUNS") or (cls.quick if tier == "quick" else cls.thorough))
    workers = int(os.environ.get("SIM_WORKERS") or min(STREAMS, os.cpu_count() or 1))
    budget = float(os.environ.get("SIM_BUDGET") or (400 if tier == "quick" else 6 * 3600))
    prepare()
    pipes = {}
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                Worker(name, seed, tier, {x for x in range(STREAMS) if x % workers == k}, count, w, budget).main()
            except HarnessError as cause:
                os.write(w, json.dumps({"error": str(cause)[:20000]}).encode() + b"\n")
            except BaseException:
                import traceback
                os.write(w, json.dumps({"error": traceback.format_exc()}).encode() + b"\n")
            finally:
                os._exit(0)
        os.close(w)
        pipes[r] = (pid, b"")
    stats, violations, errors = [], [], []
    deadline = None
    live = dict(pipes)
    while live:
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            pid, buf = live[fd]
            data = os.read(fd, 1 << 20)
            if not data:
                del live[fd]
                os.close(fd)
                continue
            buf += data
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                msg = json.loads(line)
                if "violation" in msg:
                    violations.append(msg["violation"])
                    deadline = deadline or time.monotonic() + 10
                elif "error" in msg:
                    errors.append(msg["error"])
                else:
                    stats.append(msg["stats"])
            live[fd] = (pid, buf)
        if deadline and time.monotonic() > deadline:
            break
    for fd, (pid, _) in pipes.items():
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    return cls, stats, violations, errors, workers, len(stats) == workers


def main():
    name = sys.argv[1]
    if name == "--zygote":
        try:
            return zygote()
        except BrokenPipeError:
            return 0
    if "--replay" in sys.argv:
        return replay(name, sys.argv[sys.argv.index("--replay") + 1])
    if "--selftest" in sys.argv:
        return selftest(name, int(sys.argv[sys.argv.index("--selftest") + 1]))
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    print("property %s seed %d tier %s" % (name, seed, tier), flush=True)
    cls, stats, violations, errors, workers, complete = explore(name, seed, tier)
    known = load_known(name)
    real, seen = [], {}
    for v in sorted(violations, key=lambda v: v["index"]):
        k = match_known(v, known)
        if k:
            seen[k["id"]] = k
        else:
            real.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (name, k["what"]))
    replay_file = None
    for v in real:
        path = write_replay(name, v)
        ok = confirm(name, path)
        if not ok and "original" in v:
            path = write_replay(name, dict(v, plan=v["original"]))
            ok = confirm(name, path)
        if ok:
            replay_file = path
            print("what: " + json.dumps(v["violation"])[:2000])
            break
        errors.append("violation did not replay: " + json.dumps(v["violation"])[:2000])
    write_evidence(name, seed, tier, cls, stats, len(real), workers)
    if replay_file:
        print("VIOLATION property=%s replay=%s" % (name, replay_file), flush=True)
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    total = sum(s["evaluations"] for s in stats)
    if not complete or not total:
        print("ERROR: a worker was lost", file=sys.stderr)
        return 2
    print("%d runs, none violates %s; %.1f s" % (total, name, time.monotonic() - START))
    return 0


def write_replay(name, v):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    v = {k: v[k] for k in ("property", "seed", "index", "violation", "plan")}
    path = os.path.join(d, "%s-%s.json" % (name, plan_hash(v["plan"])[:12]))
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def confirm(name, path):
    env = {k: v for k, v in os.environ.items() if k != "SIM_CLEAN"}
    p = subprocess.run([PYTHON, os.path.join(HERE, "run.py"), name, "--replay", path], env=env, capture_output=True, timeout=200)
    return p.returncode == 1


def replay(name, path):
    with open(path) as f:
        v = json.load(f)
    prepare()
    prop = props.PROPS[name](driver.Refs())
    got = prop.evaluate(v["plan"])
    for z in getattr(prop, "zygotes", {}).values():
        z.close()
    if got:
        print(json.dumps(got))
        print("VIOLATION property=%s replay=%s" % (name, path))
        return 1
    print("the plan does not violate %s" % name)
    return 0


# ---- known findings ------------------------------------------------------------------------------------------------------
def load_known(name):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == name]


def match_known(v, known):
    return None


# ---- evidence ------------------------------------------------------------------------------------------------------------
def write_evidence(name, seed, tier, cls, stats, violations, workers):
    wall = time.monotonic() - START

    def total(k):
        return sum(s[k] for s in stats)

    def union(k):
        out = set()
        for s in stats:
            out.update(s[k])
        return out

    faults = {}
    for s in stats:
        for k, n in s["fired"].items():
            faults[k] = faults.get(k, 0) + n
    samples = [x for s in stats for x in s["samples"]][:3]
    runs = total("evaluations") if stats else 0
    ev = {
        "property": name, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": violations,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(union("seqs")) if stats else 0,
            "rule": cls.rule,
            "samples": samples,
            "nontrivial_runs": total("nontrivial") if stats else 0,
            "runs_skipped_for_time": total("dropped") if stats else 0,
            "runs_undecided": total("undecided") if stats else 0,
            "reference_runs": total("references") if stats else 0,
            "runs_per_hour": int(runs / wall * 3600),
            "seeds_per_hour": int(runs / wall * 3600),
            "seeds": "one per run: (property, VERIF_SEED, index)",
            "simulated_steps": total("steps") if stats else 0,
            "simulated_time": "library lines executed under the scheduler; clock reads advance %.3f simulated seconds" % (total("sim_seconds") if stats else 0),
            "faults_injected": dict(sorted(faults.items())),
            "distinct_functions_faulted": len(union("at")) if stats else 0,
            "preemptions": total("preempts") if stats else 0,
            "lock_waits": total("blocks") if stats else 0,
            "context_switches": total("switches") if stats else 0,
            "distinct_interleavings": len(union("orders")) if stats else 0,
            "distinct_switch_locations": len(union("switched")) if stats else 0,
            "distinct_grammars": len(union("grammars")) if stats else 0,
            "forced_collections": total("gc") if stats else 0,
            "workers": workers,
            "components": COMPONENTS,
        },
        "assumptions": [
            "CPython 3.12 with the GIL: a switch can occur between any two byte codes; switches inside C code are not modelled",
            "the undisturbed outcome is taken from the same code in a fresh process (metamorphic oracle)",
        ],
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + name + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, name + ".json"))


# ---- determinism -----------------------------------------------------------------------------------------------------------
def selftest(name, count):
    """digest of every plan and report, from several processes"""
    if "--digest" in sys.argv:
        prepare()
        refs = driver.Refs()
        prop = props.PROPS[name](refs)
        seed = int(os.environ.get("VERIF_SEED") or 1)
        ctx = driver.Ctx(seed, refs, 6, "quick")
        first = int(sys.argv[sys.argv.index("--digest") + 1])
        for i in range(first, count, int(sys.argv[sys.argv.index("--digest") + 2])):
            plan = make_plan(prop, ctx, seed, i)
            rep = prop.run(plan)
            print(i, plan_hash(plan), hashlib.md5(json.dumps(rep, sort_keys=True).encode()).hexdigest())
        return 0
    base = [PYTHON, os.path.join(HERE, "run.py"), name, "--selftest", str(count), "--digest"]
    results = []
    for hs, parts in (("0", 8), ("0", 4), ("77", 8)):
        env = dict(os.environ, SIM_HASHSEED=hs)
        env.pop("SIM_CLEAN", None)
        ps = [subprocess.Popen(base + [str(k), str(parts)], env=env, stdout=subprocess.PIPE) for k in range(parts)]
        lines = []
        for p in ps:
            lines += p.communicate()[0].decode().splitlines()
        results.append(dict((int(x.split()[0]), x) for x in lines))
    bad = 0
    for i in sorted(results[0]):
        if len({r.get(i) for r in results}) != 1:
            bad += 1
            print("differs", [r.get(i) for r in results])
    print("%s: %d of %d runs differ" % (name, bad, len(results[0])))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code or 0)
