"""writes MANIFEST.json and known_findings.json"""
import json

TECH = "deterministic simulation with fault injection: "
HOW = {
    "C01": "seeded preemptive schedules of client threads (line and byte-code granularity) over simulated locks; every call compared with its outcome alone",
    "C02": "seeded histories and schedules of suspended iterators among other calls; yielded sequence compared with the iterator drained at once",
    "C03": "seeded re-entrant operations inside callbacks, up to three deep; outer and nested outcomes compared with each alone",
    "C04": "seeded faults (interrupt, memory, stack, callback error or rejection) at function entries and callback invocations of one call; its outcome must be an error or the undisturbed result",
    "C05": "seeded histories of faulted calls followed by undisturbed calls, compared with a fresh process",
    "C06": "seeded histories of entering, leaving, releasing, configuring and building in whitespace contexts with faults and preempted parsing threads, against a stack model",
    "C07": "seeded nested and overlapping debugger/profiler sessions with failing stdout, clock and report, compared with unobserved calls",
    "C08": "simulated file device with short reads, open/read/close/decode errors and preemptions, compared with parse_string of the content",
    "C09": "the same calls under seeded hash orders, simulated object addresses, address reuse, heap contents, forced collections and caller stack depths",
    "C10": "seeded histories of derivations (also failing or interrupted) over shared expressions, each compared with a freshly built expression",
    "C11": "seeded histories and schedules of reads and modifications of held results and errors among other calls",
    "C12": "seeded schedules with suspended iterators, nested calls, sessions and faults also while waiting for the lock; deadlock and progress bounds checked by the simulated scheduler",
    "C21": "seeded schedules (line and byte-code granularity) of first readings with interrupts, compared with a reading in a fresh process",
    "C22": "seeded histories with faults, repeated by one thread or by new ones; the objects reachable from the library and the expressions are counted after every repetition",
}
NOTE = (
    "Seeded search, not enumeration: every run is exactly repeatable from its plan, but only sampled schedules, faults and"
    " inputs are explored. The oracle is the same library in an undisturbed fresh process, so a defect that is always"
    " present, whatever the schedule, fault or history, is out of reach here. Trusted: CPython 3.12, the simulated lock,"
    " the harness."
)
NA = (
    "a pure function of grammar and input: no schedule, clock, I/O, fault, history or process condition enters, so"
    " simulation has nothing to decide that an ordinary input test would not"
)
SPECIAL = {
    "C20": "termination depends on grammar and input alone; the step bound of every simulated run is relative to the undisturbed"
    " run (C12), so it can not tell whether the undisturbed run itself would end",
}
FIXED = """
C01 0471e8a Parser construction prepared expressions outside the lock and pushed the no-whitespace context, visible to other threads
C02 9bed778 scan_string and split stepped without the lock: state of other parses leaked into a suspended scan
C03 83ef49f a parse nested in a callback reset the state of the outer parse and did not give it back
C03 f37c4e6 indented_block kept its indentation stack in the grammar: nested, interrupted or concurrent parses corrupted it
C04 debaaf9 NotAny whose expression has no regular expression took every exception for no match
C04 b599eb5 SkipTo(fail_on=) took every exception, also KeyboardInterrupt, for no match
C11 14e1712 Optional handed the same default object to every result
C06 ee3848e PrecededBy looked behind with the whitespace current at matching time
C06 af75a10 counted_array repeated with the whitespace current at matching time
C10 7721c51 counted_array renamed the int_expr it was given
C04 c79b427 Or failed with an internal error when its second try of an alternative fell short of the first
C10 9c07e6d And completed a pending skip inside the expression it was given
C09 32fb467 infix_notation chose operators by object address
C09 c234665 skip memos were keyed by the address of a whitespace, which a later one can have too
C06 c70580e entering a context that failed, releasing the wrong one, and an interrupted skip left wrong whitespace state behind
C08 d975332 an AttributeError from read() of the given file was taken for "this is a filename"
C11 0b7ec53 a list or result returned by a parse action was adopted, and modified, instead of copied
C09 4f9ec23 the text of a nested result depended on how deep the caller's stack was
C11 9cab3c0 the text of a Forward depended on whether it had been rendered before, also after a failure
C07 56818dc Debugger and Profiler changed what they observed, stayed active after a failing end, and mixed up overlapping sessions
C06 7722370 compiling a Regex with groups pushed the no-whitespace context
C05 1f4c81d preparing an expression marked it prepared before it was, so its first use gave another error than later ones, also after an interrupt
C10 94a6c9a append() on a copy of an expression changed the original
C06 966748a the whitespace leading a MatchAll was the one current when it was finalized, not the one it was built with
C11 b8bfbf3 an expression being prepared by one thread looked prepared to the others, which then parsed with it half prepared
C11 330037e the empty result given for a missing name was one object shared by all results, so a name set on it appeared everywhere
C05 045426f counted_array used elsewhere parsed with the count last read in another place, instead of failing as in a fresh process
C04 c749c73 White did not fail at the end of the string but raised IndexError, so what followed a rejection depended on where it was
C01 74ee4d6 the flags that guard a Forward or Whitespace against endless recursion were seen by other threads, which took a wrong minimum length, regex or whitespace
C22 d95d2bb each use of a Forward in a parser made it hold one more expression for ever
C21 6ffab8a two threads reading a character set for the first time reset each other's memo: KeyError
C04 b1b88c1 MemoryError and RecursionError raised while an expression was prepared were swallowed, and the expression prepared another way
C09 adee658 repr of results near the end of the stack swallowed the RecursionError and left parts out
C11 e854c11 setting or deleting a name in a copy, or sum, of results erased that name in the parts shared with the original
C10 0f3ebcb append() to alternatives, or a copy of them, was ignored once they were streamlined by use
"""
FINDINGS = []

ids = [json.loads(line)["id"] for line in open("properties.jsonl")]
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'sim'); import boot\"",
    "checks": [
        {
            "property": i,
            "quick_cmd": "/opt/venv/bin/python sim/run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python sim/run.py " + i,
            "technique": TECH + HOW[i],
            "level": "exploration",
            "level_note": NOTE,
        }
        for i in ids if i in HOW
    ],
    "not_applicable": [{"property": i, "reason": SPECIAL.get(i, NA)} for i in ids if i not in HOW],
    "notes": "No hooks in /repo: sys.monitoring and the module seams the code already has are enough. known_findings.json lists what was found and repaired.",
}
json.dump(manifest, open("MANIFEST.json", "w"), indent=1)
fixed = []
for line in FIXED.strip().splitlines():
    p, c, what = line.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, what))
json.dump({"findings": FINDINGS, "fixed": fixed}, open("known_findings.json", "w"), indent=1)
