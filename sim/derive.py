"""
What may be done with an expression without changing it: D[name](base, other, run) -> the derived expression.
Attempts that are expected to raise are in here too.
"""
import mo_parsing
from mo_parsing import *
from mo_parsing.helpers import (
    QuotedString, counted_array, nested_expr, originalTextFor, located_expr, dict_of, indented_block,
)
from mo_parsing.enhancement import OpenDict
from mo_parsing.infix import delimited_list, infix_notation, one_of

D = {}


def d(f):
    D[f.__name__.rstrip("_")] = f
    return f


def expr(name):
    def deco(f):
        D[name] = f
        return f

    return deco


def simple(name, f):
    D[name] = f


def noop_action(t):
    return t


simple("plus", lambda b, o, r: b + o)
simple("plus_left", lambda b, o, r: o + b)
simple("plus_str", lambda b, o, r: b + "zz")
simple("str_plus", lambda b, o, r: "zz" + b)
simple("plus_twice", lambda b, o, r: b + o + b)
simple("plus_flat", lambda b, o, r: (b + "k") + (o + "k") + b)
simple("or", lambda b, o, r: b | o)
simple("or_left", lambda b, o, r: o | b)
simple("or_str", lambda b, o, r: b | "zz" | b)
simple("xor", lambda b, o, r: b ^ o)
simple("and_", lambda b, o, r: b & o)
simple("and_str", lambda b, o, r: b & "zz")
simple("not", lambda b, o, r: ~b)
simple("not_not", lambda b, o, r: ~~b)
simple("times", lambda b, o, r: b * 2)
simple("times_range", lambda b, o, r: b * (1, 3))
simple("times_open", lambda b, o, r: b * (2, None))
simple("getitem", lambda b, o, r: b[3])
simple("slice", lambda b, o, r: b[1:2])
simple("ellipsis", lambda b, o, r: b[...])
simple("minus", lambda b, o, r: b - o)
simple("str_minus", lambda b, o, r: "zz" - b)
simple("pending", lambda b, o, r: b + ... + o)
simple("pending_left", lambda b, o, r: ... + b)
simple("pending_or", lambda b, o, r: (b | ...) + o)
simple("name", lambda b, o, r: b("other_name"))
simple("rename", lambda b, o, r: b("other_name")("another"))
simple("set_token_name", lambda b, o, r: b.set_token_name("tn"))
simple("copy", lambda b, o, r: b.copy())
simple("copy_copy", lambda b, o, r: b.copy().copy()("x"))
simple("copy_named", lambda b, o, r: b.copy().set_parser_name("renamed copy"))
simple("copy_fail_action", lambda b, o, r: b.copy().setFailAction(lambda *a: None))
simple("truediv", lambda b, o, r: b / (lambda t: "CHANGED"))
simple("truediv_const", lambda b, o, r: b / "constant")
simple("truediv_twice", lambda b, o, r: b / noop_action / noop_action)
simple("clear_actions", lambda b, o, r: b.clear_parse_action())
simple("clear_then_act", lambda b, o, r: b.clear_parse_action() / noop_action)
simple("condition", lambda b, o, r: b.add_condition(lambda t: False, message="never"))
simple("condition_try", lambda b, o, r: b.add_condition(lambda t: True, callDuringTry=True))
simple("condition_fatal", lambda b, o, r: b.add_condition(lambda t: False, message="fatal", fatal=True))
simple("conditions", lambda b, o, r: b.add_condition(lambda t: True, lambda t: len(t) > 0, callDuringTry=True) / noop_action)
simple("suppress", lambda b, o, r: b.suppress())
simple("suppress_suppress", lambda b, o, r: Suppress(b.suppress()))
simple("replace_with", lambda b, o, r: b.replace_with("z"))
simple("finalize", lambda b, o, r: b.finalize())
simple("finalize_named", lambda b, o, r: b("fin").finalize())
simple("streamline", lambda b, o, r: b.streamline())
simple("copy_streamline", lambda b, o, r: b.copy().streamline())
simple("str", lambda b, o, r: str(b))
simple("repr", lambda b, o, r: repr(b))
simple("regex", lambda b, o, r: b.__regex__())
simple("regex_plus", lambda b, o, r: (b + o).__regex__())
simple("expecting", lambda b, o, r: b.expecting())
simple("same_name", lambda b, o, r: b(_name_inside(b)))
simple("group_same_name", lambda b, o, r: Group(b)(b.token_name or "n")(b.token_name or "n"))
simple("sub", lambda b, o, r: _find(b, Regex).sub("S"))
simple("condition_none", lambda b, o, r: b.add_condition(callDuringTry=True))
simple("fail_action_copy", lambda b, o, r: b("x").setFailAction(lambda *a: None))
simple("many_of_many", lambda b, o, r: (_find(b, Many) * (1, 3)))
simple("many_slice", lambda b, o, r: _find(b, Many)[1:])
simple("min_length", lambda b, o, r: b.min_length())
simple("check_recursion", lambda b, o, r: b.check_recursion())
simple("whitespace", lambda b, o, r: b.whitespace)
simple("is_annotated", lambda b, o, r: b.is_annotated())
simple("reverse", lambda b, o, r: b.reverse())
simple("group", lambda b, o, r: Group(b))
simple("group_named", lambda b, o, r: Group(b)("g"))
simple("optional", lambda b, o, r: Optional(b))
simple("optional_default", lambda b, o, r: Optional(b, default=["x", "y"]))
simple("zero_or_more", lambda b, o, r: ZeroOrMore("q" + b))
simple("one_or_more", lambda b, o, r: OneOrMore("q" + b, stop_on=o))
simple("stop_on", lambda b, o, r: OneOrMore("q" + b).stop_on("END"))
simple("stop_on_self", lambda b, o, r: (OneOrMore(Word("q")).stop_on(b)) + b)
simple("many", lambda b, o, r: Many(b, min_match=2, max_match=3))
simple("skip_to", lambda b, o, r: SkipTo(b))
simple("skip_to_include", lambda b, o, r: SkipTo(b, include=True))
simple("skip_to_all", lambda b, o, r: SkipTo(o, ignore=b, fail_on=b))
simple("preceded_by", lambda b, o, r: PrecededBy(b) + o)
simple("look_ahead", lambda b, o, r: LookAhead(b) + b)
simple("combine", lambda b, o, r: Combine(b))
simple("combine_sep", lambda b, o, r: Combine(b + o, separator="_"))
simple("dict", lambda b, o, r: Dict(Group(b + o)))
simple("open_dict", lambda b, o, r: OpenDict(Group(b)))
simple("dict_of", lambda b, o, r: dict_of(b, o))
simple("original", lambda b, o, r: originalTextFor(b))
simple("located", lambda b, o, r: located_expr(b))
simple("nested", lambda b, o, r: nested_expr("(", ")", content=b))
simple("nested_delims", lambda b, o, r: nested_expr(b, o))
simple("nested_ignore", lambda b, o, r: nested_expr("(", ")", ignore_expr=b))
simple("counted", lambda b, o, r: counted_array(b))
simple("counted_by", lambda b, o, r: counted_array(o, int_expr=b))
simple("delimited", lambda b, o, r: delimited_list(b))
simple("delimited_by", lambda b, o, r: delimited_list(o, separator=b))
simple("delimited_combine", lambda b, o, r: delimited_list(b, ".", combine=True))
simple("indented", lambda b, o, r: indented_block(b))
simple("infix", lambda b, o, r: infix_notation(b, [("+", 2, LEFT_ASSOC), (o, 1, RIGHT_ASSOC)]))
simple("infix_ops", lambda b, o, r: infix_notation(Word("xyz"), [(b, 2, LEFT_ASSOC, noop_action), (o, 1, LEFT_ASSOC)]))
simple("infix_ternary", lambda b, o, r: infix_notation(Word("xyz"), [((b, o), 3, RIGHT_ASSOC)]))
simple("infix_parens", lambda b, o, r: infix_notation(Word("xyz"), [("+", 2, LEFT_ASSOC)], lpar=b, rpar=o))
simple("forward", lambda b, o, r: _forward(b, o))
simple("forward_recursive", lambda b, o, r: _forward_recursive(b, o))
simple("forward_init", lambda b, o, r: Forward(b)("f"))
simple("and_list", lambda b, o, r: And([b, o, b], mo_parsing.whitespaces.CURRENT).streamline())
simple("first_list", lambda b, o, r: MatchFirst([b, o, "zz", b]).streamline())
simple("or_list", lambda b, o, r: Or([b, o]).streamline())
simple("all_list", lambda b, o, r: MatchAll([b, Optional(o)]).streamline())
simple("first_nested", lambda b, o, r: ((b | "k") | (o | b)).streamline())
simple("other_whitespace", lambda b, o, r: _in_whitespace(b, o, "."))
simple("no_whitespace", lambda b, o, r: _in_whitespace(b, o, ""))
simple("ignoring", lambda b, o, r: _ignoring(b, o))
simple("leave_whitespace", lambda b, o, r: b.leave_whitespace())
simple("leave_many", lambda b, o, r: OneOrMore(b + o).leave_whitespace())
simple("leave_incomplete", lambda b, o, r: Forward().leave_whitespace())
simple("leave_incomplete_in", lambda b, o, r: (b + Optional(Forward())).leave_whitespace())
simple("combine_incomplete", lambda b, o, r: Combine(b + Group(Forward())))
simple("hash", lambda b, o, r: [hash(b), {b: 1}, b == o, b != o])
simple("matches", lambda b, o, r: b.matches("\x00 nothing"))
simple("dir", lambda b, o, r: [getattr(b, n, None) for n in ("exprs", "expr", "parser_config", "parse_action")])

# THESE RAISE
simple("bad_times", lambda b, o, r: b * -1)
simple("bad_range", lambda b, o, r: b * (3, 1))
simple("bad_times_type", lambda b, o, r: b * "x")
simple("bad_plus", lambda b, o, r: b + 5)
simple("bad_or", lambda b, o, r: b | 5)
simple("bad_xor", lambda b, o, r: b ^ object())
simple("bad_and", lambda b, o, r: b & 5.5)
simple("bad_minus", lambda b, o, r: b - [])
simple("bad_optional", lambda b, o, r: Optional(5))
simple("bad_infix", lambda b, o, r: infix_notation(b, [(o, 7, LEFT_ASSOC)]))
simple("bad_infix_assoc", lambda b, o, r: infix_notation(b, [(o, 2, "left")]))
simple("bad_counted", lambda b, o, r: counted_array(b, int_expr=5))
simple("bad_nested", lambda b, o, r: nested_expr("(", "("))
simple("bad_first", lambda b, o, r: MatchFirst([b, 5]))
simple("bad_list", lambda b, o, r: And([b, o, object()], mo_parsing.whitespaces.CURRENT))
simple("bad_forward", lambda b, o, r: Forward() << 5)
simple("bad_recursion", lambda b, o, r: _left_recursive(b, o))
simple("bad_action", lambda b, o, r: b.copy().add_parse_action(5) if not _is_forward(b) else None)
simple("bad_condition", lambda b, o, r: b.add_condition(5))
simple("bad_many", lambda b, o, r: Many(b, min_match=3, max_match=1))
simple("bad_skip", lambda b, o, r: SkipTo(5, ignore=b))


def _is_forward(b):
    return isinstance(b, Forward)


@expr("add_parse_action")
def add_parse_action(b, o, r):
    if _is_forward(b):
        return None  # CHANGES IN PLACE, BY CONTRACT
    return b.add_parse_action(lambda t: "CHANGED", callDuringTry=True)


@expr("copy_append")
def copy_append(b, o, r):
    e = b.copy()
    if hasattr(e, "append") and hasattr(e, "exprs"):
        e.append(o)
    return e


@expr("plus_append")
def plus_append(b, o, r):
    e = b + o
    e.append(o)
    return e


@expr("or_append")
def or_append(b, o, r):
    if b is o:
        return None  # b | b IS b, AND append() CHANGES IN PLACE BY CONTRACT
    e = b | o
    e.append(Literal("zz"))
    return e


def _find(b, cls, depth=0):
    """the first part of this kind"""
    if isinstance(b, cls):
        return b
    if depth > 8:
        return None
    for x in list(getattr(b, "exprs", None) or []) + [getattr(b, "expr", None)]:
        if isinstance(x, mo_parsing.core.ParserElement):
            x = _find(x, cls, depth + 1)
            if x is not None:
                return x
    return None


def _name_inside(b, depth=0):
    x = getattr(b, "expr", None)
    if isinstance(x, mo_parsing.core.ParserElement) and depth < 6:
        return x.token_name or _name_inside(x, depth + 1)
    for x in getattr(b, "exprs", None) or []:
        if getattr(x, "token_name", None):
            return x.token_name
    return b.token_name or "n"


def _forward(b, o):
    f = Forward()
    f << (b + Optional(o))
    return f("fwd")


def _forward_recursive(b, o):
    f = Forward()
    f << (b + Optional("(" + f + ")"))
    return f + o


def _left_recursive(b, o):
    f = Forward()
    f << (f + b | b)
    return f


def _in_whitespace(b, o, white):
    with Whitespace(white):
        return OneOrMore("q" + b + o)


def _ignoring(b, o):
    with Whitespace() as w:
        w.add_ignore(b)
        return o + o




# THESE ALSO MATCH IN BOUNDED TIME, WHATEVER THE PARTS ARE
USABLE = [
    "plus", "plus_left", "plus_str", "str_plus", "plus_twice", "plus_flat", "or", "or_left", "or_str", "xor", "not", "minus",
    "name", "rename", "copy", "copy_copy", "copy_named", "copy_fail_action", "truediv", "truediv_const", "truediv_twice",
    "clear_actions", "clear_then_act", "condition", "suppress", "finalize", "streamline", "copy_streamline", "group",
    "group_named", "optional", "optional_default", "skip_to", "skip_to_include", "preceded_by", "look_ahead", "combine",
    "combine_sep", "dict", "open_dict", "original", "located", "and_list", "first_list", "or_list", "first_nested",
    "other_whitespace", "forward", "forward_init", "add_parse_action", "copy_append", "plus_append", "or_append",
    "stop_on_self", "pending", "pending_left", "replace_with",
]

# THESE ASK ABOUT AN EXPRESSION
ASKING = [
    "not", "not_not", "stop_on_self", "preceded_by", "regex", "regex_plus", "expecting", "min_length", "check_recursion", "whitespace",
    "str", "repr", "reverse", "leave_whitespace", "finalize", "streamline", "look_ahead", "skip_to", "infix_parens", "many_slice", "is_annotated",
]

# THESE ARE INSIDE ANOTHER WHITESPACE FOR A WHILE
CONTEXTUAL = [
    "leave_whitespace", "leave_many", "leave_incomplete", "leave_incomplete_in", "combine", "combine_sep", "combine_incomplete", "minus",
    "str_minus", "bad_minus", "pending", "pending_left", "pending_or", "other_whitespace", "ignoring", "nested", "nested_delims",
    "nested_ignore", "bad_nested", "indented", "skip_to", "skip_to_all", "bad_skip", "original", "delimited_combine", "finalize_named",
    "copy_streamline", "times_range", "infix_parens", "not", "stop_on_self", "preceded_by", "regex_plus", "infix", "bad_list",
]

# THESE BUILD NOTHING, ANY THREAD MAY DO THIS ANY TIME
PURE = [
    "regex", "expecting", "min_length", "check_recursion", "whitespace", "str", "repr", "streamline", "finalize", "is_annotated",
    "hash", "dir", "matches",
]

# THESE COPY THE EXPRESSION ITSELF, THEN CHANGE THE COPY
CLOSE = [
    "name", "rename", "set_token_name", "copy_named", "copy_fail_action", "truediv", "truediv_const", "truediv_twice", "clear_actions",
    "clear_then_act", "condition", "condition_try", "condition_fatal", "conditions", "suppress", "replace_with", "add_parse_action",
    "copy_append", "plus_append", "or_append", "leave_whitespace", "finalize_named", "copy_streamline",
]
