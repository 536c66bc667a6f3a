"""Writes properties.jsonl (kept as source so that the wording lives in one readable place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
M="mo_parsing/"
p("C01","Concurrent calls give what each call gives alone",
"When several threads call parse, parse_string, search_string, transform_string, scan_string, split or matches at the same time, every call returns the value (tokens, names, positions, parse-action arguments) or raises the parse error that the same call gives when nothing else is running. This holds whichever expressions, finalized parsers, whitespace rules and input strings the threads share, and it includes the first use of an expression, when it is still being prepared for parsing.",
["schedules","inputs"],"Every interleaving, at instruction granularity, of two to four threads making one to several calls over shared and private grammars and strings.",
"The suite is single-threaded: no test ever runs two calls at once, so the lock, the skip memo shared by all users of a whitespace, and the preparation step are never contended.",
[M+"core.py",M+"whitespaces.py",M+"enhancement.py",M+"regex.py",M+"helpers.py"],
[("one re-entrant lock around every public parsing call",M+"core.py entrypoint/locker"),("skip memo keyed on the current string object",M+"whitespaces.py Whitespace.skip"),("streamline on first use",M+"core.py Parser.__init__")],
[("Whitespace.content/skips","whitespace positions memoised for one string",M+"whitespaces.py"),("Forward recursion flags","in-progress markers on shared expressions",M+"enhancement.py"),("whitespaces.CURRENT and its stack","the context new expressions are built in",M+"whitespaces.py"),("_indent_stack, num_captures","global state of a running parse",M+"helpers.py, regex.py")],
["return value or exception of each call","arguments seen by parse actions"])
p("C02","A lazy scan is unaffected by anything done between its steps",
"An iterator obtained from scan_string or split yields the same sequence as when it is drained at once, no matter which other library calls (same or other parser, same or other string, succeeding or failing, on this or another thread) run between or during its steps. Abandoning, closing or never starting an iterator has no effect on any other call.",
["schedules","histories","fault_sequences"],"Every placement of pulls, closes and drops of one to several live iterators among other calls, on one or more threads, including other threads preempted mid-step, and whatever whitespace context is current at a step.",
"Tests drain every iterator immediately, on one thread, with nothing in between.",
[M+"core.py",M+"whitespaces.py",M+"helpers.py"],
[("generators that resume matching on every pull",M+"core.py Parser._scan_string, _split"),("lock and per-parse reset around an entry",M+"core.py entrypoint")],
[("suspended generator frame","position in the string between pulls",M+"core.py"),("Whitespace.content/skips","memo rebuilt when the string changes",M+"whitespaces.py")],
["sequence of items yielded","outcome of the calls made in between"])
p("C03","Callbacks may use the library without disturbing the running parse",
"A parse action, condition or fail action may itself parse, search, transform, split, scan partially, compile a Regex or build expressions, with the same or another parser, and may catch the parse errors that produces. The enclosing call gives the outcome it gives when the callback does none of this, and the inner call gives the outcome it gives at top level.",
["histories","inputs","schedules"],"Every callback site of every grammar, every inner operation (including on the grammar being parsed), nested to several levels, at any callback invocation of the parse.",
"No test parses from inside a parse action with a grammar that keeps per-parse state, or with the parser that is already running.",
[M+"core.py",M+"helpers.py",M+"regex.py",M+"utils.py",M+"whitespaces.py"],
[("re-entrant lock",M+"core.py locker"),("per-entry reset of global parse state",M+"core.py _reset_actions; helpers.py reset_stack; regex.py _reset"),("callback wrapper",M+"utils.py wrap_parse_action")],
[("_indent_stack","open indentation levels of the running parse",M+"helpers.py"),("PEER/DEDENT forwards, counted_array forward","grammar parts redefined while parsing",M+"helpers.py")],
["outcome of enclosing and inner call"])
p("C04","Faults during matching surface as errors, never as a different result",
"If a callback raises something that is not a parse failure, or an interrupt, stack exhaustion or memory failure strikes at any moment of matching, the call raises (KeyboardInterrupt and SystemExit arrive as themselves); it never returns a value other than the undisturbed one and never reports the fault as a parse failure. If a callback rejects with a parse failure at any of its invocations, also inconsistently between invocations, the call ends with a proper result or a ParseException and with nothing else (only transform_string, whose last step joins strings, may also refuse matched values that are not strings with its TypeError).",
["fault_sequences","inputs"],"Every fault kind at every function entry of the matching phase and at every callback invocation, for every construct that tries alternatives or looks ahead.",
"Tests inject no faults; handlers that catch too much, and code that assumes two tries of the same alternative agree, are only reached when a fault lands inside them.",
[M+"core.py",M+"enhancement.py",M+"expressions.py",M+"utils.py",M+"debug.py",M+"profile.py"],
[("only ParseException means no-match",M+"expressions.py, enhancement.py parse_impl methods"),("callback errors wrapped, not converted to parse failures",M+"utils.py wrap_parse_action")],
[],["type of the exception at the call","value returned despite the fault"])
p("C05","Calls leave no residue",
"What a call gives depends only on its parser, its arguments and the whitespace context in force, not on the calls made before it: after any history of calls that succeeded, failed to match, were interrupted, ran out of stack or had a callback raise, at any point, every parser gives on every string what it gives in a fresh process. In particular no lock stays held and no parse state, memo or half-finished preparation is left behind.",
["histories","fault_sequences","crash_points","inputs"],"Every sequence of calls over shared grammars and strings, with a fault at any function entry or callback of any call, also during first-use preparation of an expression.",
"Each test makes one or two calls with fresh grammars and never resumes after an interrupt; long mixed histories on shared grammars are not covered.",
[M+"core.py",M+"whitespaces.py",M+"enhancement.py",M+"expressions.py",M+"helpers.py",M+"regex.py",M+"utils.py"],
[("reset of global state on entry",M+"core.py entrypoint"),("memo valid for one string object only",M+"whitespaces.py skip"),("try/finally around in-progress markers",M+"enhancement.py Forward")],
[("Whitespace.content/skips","memo of the last string",M+"whitespaces.py"),("Forward flags and redefinable forwards","in-progress markers, counted_array/indented_block definitions",M+"enhancement.py, helpers.py"),("streamlined/min_length_cache","preparation progress",M+"core.py, expressions.py")],
["outcome of later calls","another thread can still call"])
p("C06","Whitespace contexts unwind exactly, and parsers keep their rules",
"Leaving a Whitespace context, normally or because of any exception, makes current again exactly the context that was current on entry, and releasing out of order fails without changing what is current. Parsing never changes the current context, not even for a moment, as seen by other threads that are building expressions. A finalized parser matches by the whitespace rules in force when its parts were built, whatever contexts are entered or left afterwards, and however other contexts are configured.",
["histories","schedules","fault_sequences"],"Every properly or improperly nested sequence of enter/leave/release with exceptions at any point, interleaved with building, finalizing and parsing, also with parsing threads preempted anywhere while one thread builds.",
"Tests nest contexts one deep, on one thread, and parse in the context they built in.",
[M+"whitespaces.py",M+"core.py",M+"enhancement.py",M+"expressions.py",M+"helpers.py"],
[("stack of contexts",M+"whitespaces.py __enter__/__exit__/release"),("context captured in expression configuration",M+"expressions.py And, enhancement.py Many"),("context chosen at finalize",M+"core.py Parser.__init__")],
[("CURRENT, whitespace_stack, copies","the active context and how to undo it",M+"whitespaces.py")],
["which whitespace a newly built expression skips","outcome of parsing under another context"])
p("C07","Debugging and profiling observe without changing anything",
"While a Debugger session is active, and while a Profiler is, every call gives the same value or parse error and every callback sees the same arguments in the same order as without it. However sessions end (normally, by an exception from the parse, or by a failing debug output or report file), nest, or overlap between threads, the failure is reported to its own caller, and once the last session has ended the library behaves exactly as before the first.",
["histories","schedules","fault_sequences"],"Every nesting and cross-thread overlap of sessions with calls, silent or printing, with output failing at any write and the profiler's clock and report file misbehaving.",
"One test enters one silent Debugger around one call; the Profiler is never run.",
[M+"debug.py",M+"profile.py",M+"core.py"],
[("swap of the matching entry for a session",M+"debug.py __enter__/__exit__; profile.py"),("re-implementation of the match-and-run-actions step",M+"debug.py debug_parse; profile.py _profile_parse")],
[("ParserElement._parse, DEBUGGER","which matching entry is installed",M+"debug.py, profile.py, core.py")],
["outcome and callback trace inside and after sessions","writes to stdout"])
p("C08","parse_file parses exactly the whole file or reports why it could not",
"parse_file on a path or an open file gives exactly what parse_string gives on the file's complete text with the same parse_all, or raises the error that opening, reading or closing met; it never parses a truncated text and never masks the error by another. A file it opened itself is closed, once, before matching starts and also when anything fails; a file it was given stays open.",
["fault_sequences","inputs","schedules"],"Every sequence of short reads, interrupted reads, open/read/close errors and decode errors, at any byte, for paths and file objects, from one or several threads.",
"Tests read one small real file; the error paths and short reads are not exercised.",
[M+"core.py"],[("read whole content, then parse",M+"core.py ParserElement.parse_file")],
[],["return value or exception","open and close events of the simulated file"])
p("C09","The process environment does not influence outcomes",
"The same grammar definition and input give the same value, parse error and callback trace whatever the hash randomization, the addresses objects happen to get or reuse, when garbage collection runs, and how deep the caller's stack is; the only permitted difference is an out-of-stack error when the stack really runs out. This includes rendering results and errors as text.",
["configurations","inputs","fault_sequences"],"Every hash seed, every assignment of addresses and hash order to grammar objects, every reuse of a dead object's address, every collection point, every caller depth.",
"The suite runs with one hash seed at one stack depth, and the heap layout is whatever it happens to be.",
[M+"infix.py",M+"expressions.py",M+"core.py",M+"results.py",M+"tokens.py",M+"utils.py"],
[("identity hash of expressions and sets of them",M+"core.py ParserElement.__hash__, infix.py"),("lookup by id",M+"infix.py norm, expressions.py MatchAll"),("stack-depth guard when rendering",M+"results.py __str__")],
[],["outcomes across simulated environments"])
p("C10","Expressions are immutable: use and derivation never change them",
"Once built, an expression keeps matching the same way and keeps its names and actions, whatever is later derived from it (combined, repeated, negated, named, copied, given actions or conditions, suppressed, finalized) or done with it or with anything sharing its parts, including attempts that raise. Only an explicit in-place request on that object (<<, set_parser_name, setFailAction, add_parse_action on a Forward, stop_on, append) may change it.",
["histories","programs","fault_sequences"],"Every history of building, deriving, failing derivations, finalizing and parsing over a shared pool of expressions.",
"Tests build a grammar, use it once and drop it; sub-expressions reused across several larger grammars after parsing are rarely checked again.",
[M+"core.py",M+"enhancement.py",M+"expressions.py",M+"tokens.py",M+"regex.py",M+"infix.py"],
[("copy before change",M+"core.py copy, set_token_name, __truediv__, add_condition"),("streamline returns a new element",M+"expressions.py, enhancement.py streamline")],
[("exprs lists, parse_action lists, config tuples","shared between copies",M+"core.py, expressions.py")],
["outcome of an expression before and after derivations"])
p("C11","Results and errors are private snapshots",
"A result or parse error, once handed out, does not change because of later or concurrent calls, and changing it (setting or deleting names, editing its token list), also from within a parse action, changes no other result and no later parse. Reading it - indexing, iterating, listing, comparing, rendering, asking for the error's message, position or causes - changes nothing and gives the same answer every time, in any order and on any thread.",
["histories","schedules","inputs"],"Every history of calls, reads and modifications over the results and errors of shared grammars, with reads preempted anywhere by other threads' calls and reads.",
"Tests inspect a result once, right after the call, and do not parse again with the same grammar after modifying a result.",
[M+"results.py",M+"exceptions.py",M+"enhancement.py",M+"utils.py",M+"expressions.py"],
[("fresh token lists per match",M+"tokens.py, enhancement.py, expressions.py parse_impl"),("lazily computed causes and messages",M+"exceptions.py"),("rendering of recursive expressions",M+"enhancement.py Forward.__str__")],
[("default values of Optional, failures lists","could be shared between results",M+"enhancement.py, utils.py")],
["repeated reads of held results and errors","later parse outcomes"])
p("C12","No call blocks forever",
"Whatever other threads do - hold half-consumed scans, keep results, be inside callbacks that parse, fail, be interrupted at any moment of matching, end a debugging session - every call that is made completes once the calls running before it on other threads have ended; no schedule ends with threads waiting for each other, and nested calls never wait for their own thread.",
["schedules","fault_sequences","crash_points"],"Every interleaving of two to four threads with nested calls, suspended iterators, failing and interrupted calls; threads with a suspended iterator or a running session may wait for other threads; callbacks that wait for another thread to parse are excluded.",
"No test uses threads, so a lock leaked on an error path, held across a lazy step, or taken twice would pass the whole suite.",
[M+"core.py",M+"debug.py"],[("re-entrant lock released by with",M+"core.py entrypoint")],
[("locker","serialises parsing",M+"core.py")],["every simulated thread finishes; the lock is free at the end"])
p("C21","Character sets read the same, whoever reads them first",
"alphas, nums, alphanums and printables of a unicode_set (those of parsing_unicode and ones a user derives) give the same string whenever they are read: at first or again, by one thread or by several at the same time, before or after the sets it inherits from or that inherit from it, and after a reading that was interrupted or failed. A reading never fails because of another one.",
["schedules","histories","fault_sequences"],"Every interleaving of first readings by several threads, every order of reading related sets, an interrupt at any function entry of a reading.",
"Tests read each set once, on one thread, and always in the same order.",
[M+"utils.py"],[("computed at first reading and remembered per class",M+"utils.py _lazyclassproperty")],
[("_intern","remembered sets of a class",M+"utils.py")],["the string, or the error, each reading gives"])
p("C22","Repeated use does not pile anything up",
"What the library and long-lived expressions hold on to is bounded by the expressions, contexts and sessions that are alive, not by how often they were used: repeating a history of parses, scans, derivations, contexts, sessions and short-lived grammars, however its calls end (matched, failed, interrupted, out of stack, abandoned) and on whatever threads, does not make it grow from one repetition to the next without end.",
["histories","fault_sequences","schedules"],"Every history that a long-running program may repeat, with a fault at any function entry or callback.",
"A test runs once in a short-lived process; what is left behind costs it nothing.",
[M+"core.py",M+"enhancement.py",M+"expressions.py",M+"whitespaces.py",M+"helpers.py",M+"debug.py",M+"profile.py"],
[("memo of one string only",M+"whitespaces.py skip"),("try/finally around what is registered for a while",M+"core.py, debug.py, profile.py, whitespaces.py"),("expressions refer to their parts, not to their users",M+"enhancement.py Forward")],
[("module-level lists, thread-local markers, attributes of expressions","registered sessions, contexts, preparations, memos",M+"core.py, debug.py, whitespaces.py, utils.py")],
["number of objects reachable from the library and the expressions after each repetition"])
# --- outside the technique
def na(id,title,statement,text,files,mech):
    p(id,title,statement,["inputs","programs"],text,"Tests sample a few grammars and strings each; the property ranges over all of them.",files,mech)
na("C13","Combinators match by PEG rules","Sequence, ordered choice, longest choice, each-in-any-order, repetition with bounds, optional, lookahead, lookbehind, negation and skip-to accept exactly the prefixes and produce exactly the tokens that PEG semantics with whitespace skipping define.","All grammars and input strings.",[M+"expressions.py",M+"enhancement.py",M+"tokens.py"],[("parse_impl",M+"expressions.py, enhancement.py")])
na("C14","Generated regular expressions accept the grammar's language","When an expression can be rendered as a regular expression, the regular expression matches exactly the strings the expression matches; and Regex built from a pattern matches and captures as the re module does.","All regular grammars, patterns and strings.",[M+"regex.py",M+"tokens.py",M+"enhancement.py",M+"utils.py"],[("__regex__",M+"tokens.py, enhancement.py, expressions.py")])
na("C15","Preparation and fast dispatch preserve the language","Streamlining an expression and dispatching alternatives on their first characters never changes which strings match, what they match to, or which alternative wins.","All grammars and input strings.",[M+"expressions.py",M+"enhancement.py"],[("streamline, faster, Fast",M+"expressions.py")])
na("C16","Infix notation respects precedence and associativity","infix_notation groups every operator sequence by the declared precedence, associativity and arity, and parentheses override it.","All operator tables and expressions.",[M+"infix.py"],[("make_tree",M+"infix.py")])
na("C17","Parse errors point at the furthest real failure","The error raised for an unmatched string names the furthest position at which a required element failed, with line and column of that position.","All grammars and strings.",[M+"exceptions.py",M+"core.py"],[("best_cause, compare_causes",M+"exceptions.py")])
na("C18","Names address exactly the tokens they were given to","Looking a name up in a result finds all tokens matched under that name outside groups and only those, and iteration yields each token once in order.","All grammars, strings and names.",[M+"results.py"],[("_get_item_by_name, items, __iter__",M+"results.py")])
na("C19","Scan, search, transform and split partition the string","Matches are reported left to right without overlap, and the text between matches plus the matches is the whole string.","All grammars and strings.",[M+"core.py"],[("_scan_string, _transformString, _split",M+"core.py")])
na("C20","Every parse of a finite string terminates","For every grammar that is not left-recursive and every finite string, matching ends.","All grammars and strings.",[M+"enhancement.py",M+"expressions.py"],[("loop progress in Many, SkipTo; check_recursion",M+"enhancement.py")])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
