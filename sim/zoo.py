"""
The grammars the simulated clients use.

Every builder takes cb, a factory of callbacks (see model.Callbacks), and returns {export name: expression}.
Z maps a builder's name to (function, {export: inputs}); inputs are matched, nearly matched and garbage.
"""
from mo_parsing import *
from mo_parsing import whitespaces
from mo_parsing.debug import Debugger
from mo_parsing.helpers import *
from mo_parsing.infix import one_of, delimited_list, infix_notation
from mo_parsing.utils import alphas, nums, alphanums, printables, hexnums

Z = {}


def zoo(**inputs):
    def deco(f):
        Z[f.__name__] = (f, inputs)
        return f

    return deco


def up(t):
    return "".join(str(x) for x in t).upper()


@zoo(main=["hello, world!", "hello world", "  Hi ,  Bob  !x", "a,b!c,d!", "", "123"])
def greeting(cb):
    return {"main": Word(alphas)("greeting") + "," + Word(alphas)("person") / cb("p", up) + "!"}


@zoo(
    main=["1+2*3", "(1+2)*3-4", "1+", "((2))", "1 + x", "-", "2*(3+4)*5 6"],
    term=["2*3", "2/", "(4)"],
)
def arith(cb):
    expr = Forward()
    num = Word(nums) / cb("num", lambda t: int(t[0]))
    atom = num | Suppress("(") + expr + Suppress(")")
    term = atom + ZeroOrMore((Literal("*") | "/") + atom)
    expr << Group(term + ZeroOrMore((Literal("+") | "-") + term))
    return {"main": expr / cb("sum"), "term": Group(term)("t") / cb("term")}


@zoo(main=["1+2*3^2", "-a*b!", "a and not b or c", "(a+b)*c", "a+", "not not x", "a ? b : c"])
def infix(cb):
    operand = Word(alphas) | Word(nums) / cb("int", lambda t: int(t[0]))
    return {
        "main": infix_notation(
            operand,
            [
                ("!", 1, LEFT_ASSOC),
                ("^", 2, RIGHT_ASSOC),
                ("-", 1, RIGHT_ASSOC),
                (one_of("* /"), 2, LEFT_ASSOC, cb("mul")),
                (one_of("+ -"), 2, LEFT_ASSOC, cb("add")),
                (("?", ":"), 3, RIGHT_ASSOC),
            ],
        )
    }


@zoo(main=["not true and p or q", "p and", "(p or q) and not r", "and", "true"])
def bools(cb):
    kw = [Keyword(k) for k in ("and", "or", "not", "true")]
    AND, OR, NOT, TRUE = kw
    ident = ~(AND | OR | NOT) + Word(alphas) / cb("id")
    return {
        "main": infix_notation(
            TRUE / cb("t", lambda: True) | ident,
            [(NOT, 1, RIGHT_ASSOC), (AND, 2, LEFT_ASSOC, cb("and")), (OR, 2, LEFT_ASSOC, cb("or"))],
        )
    }


@zoo(main=['{"a": [1, 2.5, true], "b": {}}', '{"a":}', "[]", '[1, "x", null', '{"k": {"k": [[]]}}'])
def json(cb):
    value = Forward()
    string = QuotedString('"') / cb("str")
    number = Regex(r"-?\d+(?:\.\d+)?") / cb("num", lambda t: float(t[0]))
    true = Keyword("true") / (lambda: True)
    null = Keyword("null") / (lambda: [None])
    array = Group(Suppress("[") + Optional(delimited_list(value)) + Suppress("]"))("array")
    member = Group(string("key") + Suppress(":") + value("value"))
    obj = Group(Suppress("{") + Optional(delimited_list(member)) + Suppress("}"))("object")
    value << (string | number | true | null | array | obj)
    return {"main": value / cb("v")}


@zoo(main=["3 a b c d", "2 a", "0 x", "1 a 2 b c", "x"], twice=["2 a b 1 c", "1 a 1", "0 0"])
def counted(cb):
    item = Word(alphas) / cb("item", up)
    size = Word("01") / cb("bin", lambda t: int(t[0], 2))
    a = counted_array(item)
    return {"main": a, "twice": Group(a)("x") + Group(counted_array(item, int_expr=size))("y")}


@zoo(
    main=[
        "def a\n  x\n  y\nz", "def a\n  def b\n    x\n  y\n", "def a\nx", "def a\n  x\n   y\n", "  x", "def a\n    x\n  y",
        "x\ny\n", "def a\n  x\ndef b\n    y\n    def c\n     z\nw",
    ],
)
def indented(cb):
    with Whitespace(" \t"):
        stmt = Forward()
        ident = ~Keyword("def") + Word(alphas) / cb("id")
        block = Keyword("def") + Word(alphas)("fn") + indented_block(stmt)
        stmt << (Group(block)("block") | ident)
        return {"main": OneOrMore(indented_block(stmt, indent=False) / cb("blk"))}


@zoo(main=["(a (b c) d)", "(a (b", "()", "((()))x", "('(' a)", "a"], square=["[x[y]]", "[", "[a b]"])
def nested(cb):
    return {"main": nested_expr() / cb("n"), "square": nested_expr("[", "]")("sq")}


@zoo(
    main=["select a, b from t where x = 1", "select * from t", "SELECT a from", "select a b from t where", "x"],
    col=["a.b", "a", "."],
)
def sql(cb):
    SELECT, FROM, WHERE = [CaselessKeyword(k) for k in ("select", "from", "where")]
    reserved = SELECT | FROM | WHERE
    ident = ~reserved + Word(alphas, alphanums + "_")
    col = delimited_list(ident, ".", combine=True) / cb("col")
    cols = Group(delimited_list(col))("columns") | Literal("*")("columns")
    cond = Group(col("left") + one_of("= < > <> <=")("op") + (Word(nums) | col)("right")) / cb("cond")
    return {
        "main": SELECT + cols + FROM + col("table") + Optional(Suppress(WHERE) + cond("where")),
        "col": col,
    }


@zoo(main=["a=1,b=2", "a=1,a=2", "a=", "a=1,b", "x=zz"])
def attrs(cb):
    key = Word(alphas) / cb("k")
    val = Word(alphanums)
    return {"main": dict_of(key, Suppress("=") + val + Optional(Suppress(","))) / cb("d")}


@zoo(main=["red: 3 blue: 4", "blue: 4", "blue: 4 red: 1 green: 7", "red: x", "red: 1 red: 2 blue: 3"])
def each(cb):
    n = Word(nums) / cb("n", lambda t: int(t[0]))
    red = Group("red:" + n)("red")
    blue = Group("blue:" + n)("blue")
    green = Optional(Group("green:" + n)("green"))
    return {"main": (red & blue & green) / cb("all")}


@zoo(main=["abc", "ab", "a1", "123", "12.5", "abcd efg", "!"])
def longest(cb):
    return {
        "main": (
            Literal("ab") / cb("l") ^ Word(alphas) / cb("w") ^ Regex(r"\d+") / cb("i", lambda t: int(t[0])) ^ Regex(r"\d+\.\d+") / cb("f", lambda t: float(t[0]))
        )("v")
    }


@zoo(main=["abc END x", "abc", "(END) END", "'END' b END", "a;END", ""], keep=["a b END", "END"])
def skipto(cb):
    end = Keyword("END") / cb("end")
    return {
        "main": SkipTo(end, ignore=quoted_string, fail_on=";")("body") / cb("body") + end("stop"),
        "keep": SkipTo(end, include=True)("body") + Optional(Word(alphas), default="none")("tail"),
    }


@zoo(main=["start 1 2 end", "start end", "start 1 2", "1 end"])
def pending(cb):
    return {"main": Literal("start") + ... + Literal("end") / cb("e")}


@zoo(main=["x", "x y", "", "1 2", "x 1"])
def defaults(cb):
    return {
        "main": Optional(Word(alphas), default="none")("w") / cb("w") + Optional(Word(nums), default=["a", "b"])("n")
    }


@zoo(main=["a;b;c", "1;2;x", ";", "a;;b"])
def alternatives(cb):
    return {
        "main": delimited_list(
            Keyword("a") / cb("a", lambda: "A") | Keyword("b") / cb("b") | "cc" | "c" | CaselessLiteral("dx") | Word(nums)("num") / cb("n"),
            separator=";",
        )
    }


@zoo(main=["ab12", "ab 12", "12", "abc 1x", "ab1c2"])
def adjacent(cb):
    with NO_WHITESPACE:
        tok = Combine(Word(alphas) + Word(nums)) / cb("tok", up)
    return {"main": OneOrMore(tok)("toks")}


@zoo(main=["a /* c */ b", "a b // x\n c", "a /* c", "/* */ a"])
def comments(cb):
    with Whitespace() as w:
        w.add_ignore(cppStyleComment)
        words = OneOrMore(Word(alphas) / cb("w"))
    return {"main": words}


@zoo(main=["12 abc", "a12", "$12", "#12 x", "12"])
def look(cb):
    return {
        "main": (Literal("$") | Literal("#")) + PrecededBy(Literal("$")) + Word(nums)("n") / cb("n")
        | LookAhead(Word(alphas)("peek") / cb("peek")) + Word(alphanums)("w")
        | NotAny(Literal("#")) + Word(printables)("other") / cb("o")
    }


@zoo(main=["<b>x</b>", "<b class='k'>x y</b>", "<B/>", "<b", "x <b>y</b>"])
def html(cb):
    o, c = makeHTMLTags("b")
    return {"main": (o / cb("open")) + Optional(SkipTo(c)("body") / cb("body")) + Optional(c)}


@zoo(main=["2020-01-02", "2020-13", "1999", "20", "2020-01-02 2021-02-03"])
def dates(cb):
    d = Regex(r"(?P<year>\d{4})(?:-(?P<month>\d\d)(?:-(?P<day>\d\d))?)?").capture_groups()
    return {"main": OneOrMore(Group(d / cb("date"))("date"))}


@zoo(main=["1.2.3.4", "::1", "1:2:3:4:5:6:7:8", "1/2", "3 1/2", "0x", "12 abc"], num=["1e5", "12", "1.5", "x"], csv=["a, b c,,'d'", "", ","])
def common(cb):
    return {
        "main": (ipv4_address("v4") | ipv6_address("v6") | fraction / cb("f"))("addr"),
        "num": number / cb("n"),
        "csv": comma_separated_list / cb("c"),
    }


@zoo(main=["aab", "a", "aaaa", "aaab", "b"], lim=["1 2 3", "1", "1 2 3 4 5", "1 2 END 3"])
def repeats(cb):
    a = Literal("a") / cb("a")
    return {
        "main": (a[2:3] + Literal("b")("b") / cb("b")) | (a * 4)("four"),
        "lim": Many(Word(nums) / cb("n"), min_match=2, max_match=4)("ns") + Optional(Keyword("END")),
    }


@zoo(main=["a b c . d", "a .", ".", "1"], guard=["x = 1", "x = y", "x", "= 1"])
def guarded(cb):
    ident = Word(alphas) / cb("id")
    return {
        "main": OneOrMore(ident, stop_on=".")("words") + ".",
        "guard": ident("var") + Literal("=") - Word(nums)("num") / cb("num") | ident + Word(nums),
    }


@zoo(main=["1 22 333", "4444 1", "abc", "55555"])
def conditions(cb):
    short = Word(nums).add_condition(cb.cond("short", lambda t: len(t[0]) < 3), message="too long")
    even = Word(nums).add_condition(cb.cond("even", lambda t: len(t[0]) % 2 == 0)) / cb("even")
    return {"main": OneOrMore((short | even) / cb("n"))}


@zoo(main=["a+b", "a", "+", "a+1"])
def failing(cb):
    w = Word(alphas).setFailAction(cb.fail("w"))
    plus = Literal("+").setFailAction(cb.fail("plus"))
    return {"main": (w + plus + w("right") | w) / cb("x")}


@zoo(
    main=["a 1; 2; a;", "a 1", ";;", "b"], many=["a a 1 1 1 end", "1 end", "a", "end"], neg=["b x b", "x", "xb", "1"], skip=["q ; 'a;' b", "q 'x;' ;", "q ! ;", "q"],
    choice=["a b c", "a c a b", "a d"], each=["1 a", "a 1 ;", "a", "1 1"], ops=["a, b + c, d", "a + ", "a,", "+"], seen=["ab a1", "b1", "a"], deep=["((a))", "(1", "()"],
    alts=["a 1;", "a b", "a (b)", "a (1; a", "a (1 a", "(", "a 1 b c;"],
)
def watched(cb):
    """a fail action in every place"""
    n = [0]

    def f(e):
        n[0] += 1
        return e.setFailAction(cb.fail("f%d" % n[0]))

    def lit(x):
        return f(Literal(x))

    def word():
        return f(Word(alphas))

    def num():
        return f(Word(nums))

    fwd = Forward()
    fwd << f(Group(lit("(") + (num() | fwd | word()) + lit(")")) / cb("fwd"))
    return {
        "main": OneOrMore(Optional(lit("a")) + Optional(num(), default="d") + lit(";")),
        "many": ZeroOrMore(lit("a")) + Many(num(), min_match=1, max_match=2) + ZeroOrMore(word(), stop_on=lit("end")) + lit("end"),
        "neg": OneOrMore((~lit("x") + f(Char(alphas)) | lit("x")) / cb("n")),
        "skip": word() + SkipTo(lit(";"), ignore=f(QuotedString("'")), fail_on=lit("!"))("skipped") + lit(";"),
        "choice": OneOrMore((lit("a") + lit("b")) ^ (lit("a") + lit("c")) ^ lit("c") / cb("c")),
        "each": (num() & word() & Optional(lit(";"))) / cb("each"),
        # ERRORS WITH CAUSES THAT HAVE CAUSES
        "alts": f(f((lit("a") | lit("b")) + f(num() | Group(lit("(") + f(num() + lit(";") | word())))) | (lit("a") + f(lit("(") + word() + lit("]")))) + lit(";"),
        "ops": delimited_list(infix_notation(word(), [("+", 2, LEFT_ASSOC, cb("plus"))])),
        "seen": OneOrMore(LookAhead(lit("a")) + word() | PrecededBy(lit("a")) + num() | word() | num()),
        "deep": fwd("deep") / cb("deep"),
    }


@zoo(main=["x + y", "x", "(x+(y))", "(x"])
def recursion(cb):
    a, b = Forward(), Forward()
    a << (Word(alphas) / cb("w") | "(" + b + ")")
    b << Group(a + ZeroOrMore("+" + a)) / cb("b")
    return {"main": b("expr")}


@zoo(main=["'it''s' \"q\\\"q\"", "'x", "'a\\nb'", "''", "' a ' ' b'", "' a '"])
def quoting(cb):
    return {
        "main": OneOrMore(
            QuotedString("'", esc_quote="''") / cb("s") | QuotedString('"', esc_char="\\", multiline=True) / cb("d")
        )
    }


@zoo(main=["line1\nline2\n", "a b\nc", "\n", "end"], words=["a bc d", "ab", " "])
def lines(cb):
    with Whitespace(" \t"):
        line = Group(OneOrMore(Word(alphanums)))("line") + LineEnd().suppress()
        body = OneOrMore(line / cb("line"))
    return {
        "main": body + StringEnd(),
        "words": OneOrMore(WordStart() + Word(alphas)("w") + WordEnd() / cb("we")),
    }


@zoo(main=["ab", "a b", "abab", "ba"], loc=["a b", "x"])
def original(cb):
    pair = Word("a")("first") + Word("b")("second") / cb("b")
    return {"main": originalTextFor(pair) / cb("o"), "loc": located_expr(Word(alphas) / cb("w"))("loc")}


@zoo(main=["a", "b 1", "z", "b", "a b 1 a"])
def shared(cb):
    # PARTS SHARED BY SEVERAL EXPRESSIONS
    n = Word(nums)("n") / cb("n", lambda t: int(t[0]))
    b = Literal("b") + n
    alt = Literal("a") / cb("a") | b
    return {"main": OneOrMore(alt)("all"), "b": Group(b)("b"), "alt": alt("alt"), "n": n}


Z["shared"][1].update(b=["b 1", "b", "1"], alt=["a", "b 2", "q"], n=["1", "x"])


@zoo(main=["one two", "one", "two one"], re=["aXb", "ab", "a12"])
def regexes(cb):
    return {
        "main": Regex(r"(?P<first>one|two) (?P<second>one|two)").capture_groups() / cb("g"),
        "re": Regex(r"a([A-Z]|\d+)b?") / cb("r"),
    }


@zoo(main=["word1 x", "x word2 y", "none"], tr=["the quick fox", "1 2", ""])
def transforms(cb):
    return {
        "main": one_of(["word1", "word2", "word"]) / cb("r", lambda t: "<" + t[0] + ">"),
        "tr": Word(alphas) / cb("t", lambda t: t[0].title()),
    }


@zoo(main=["k1:v1 k2:v2", "k1:", "k1:v1 k1:v2"])
def opendict(cb):
    return {"main": OpenDict(OneOrMore(Group(Word(alphanums) / cb("k") + Suppress(":") + Word(alphanums)))) / cb("o")}


@zoo(main=["a.b.c", "a.", "a.b c", ".b"])
def combined(cb):
    ident = Word(alphas, alphanums)
    return {"main": Combine(ident / cb("i") + ZeroOrMore("." + ident), separator="")("path") / cb("p")}


@zoo(main=["x y", "y", "x", "y x"])
def lookahead_stack(cb):
    x = Literal("x") / cb("x")
    y = Literal("y") / cb("y")
    return {"main": ~y + x + FollowedBy(y)("peek") + y("y") | y + ~x | x / cb("only")}


@zoo(main=["if a then b else c", "if a then if b then c else d", "if a", "x"])
def keywords(cb):
    IF, THEN, ELSE = map(Keyword, ("if", "then", "else"))
    stmt = Forward()
    ident = ~(IF | THEN | ELSE) + Word(alphas)("id") / cb("id")
    stmt << (Group(IF + ident("cond") + THEN + stmt("then") + Optional(ELSE + stmt("else")))("if") | ident)
    return {"main": stmt / cb("stmt")}


@zoo(main=["12 apples", "x", "7"], both=["1 a", "a 1", "a"])
def convert(cb):
    return {
        "main": integer("count") / cb("c") + Optional(identifier("what") / cb("w", up)),
        "both": (integer & identifier("id")) / cb("both"),
    }


@zoo(
    main=["a b 12 c", "12", "a 1 2", "ab", "a 123 4 5"], alt=["x 12 y", "12 x", "x y", "1 1 1"], n=["12", "x", "7 7"],
    stop=["a b 12", "12", "a 1 b 123"], neg=["a b", "12 a", "a 12"],
)
def trying(cb):
    # CALLBACKS THAT ALSO RUN WHEN A MATCH IS ONLY TRIED
    n = Word(nums).add_parse_action(cb("n", lambda t: int(t[0])), callDuringTry=True)
    short = n.add_condition(cb.cond("short", lambda t: t[0] < 100), callDuringTry=True)
    word = Word(alphas) / cb("w")
    return {
        "main": SkipTo(short)("skipped") + short("n") + Optional(LookAhead(n)("peek") + SkipTo(StringEnd())),
        "alt": OneOrMore((short + word) ^ (n + n) ^ (word + short) ^ word ^ n)("all"),
        "n": n("n"),
        "stop": OneOrMore(word | n, stop_on=short)("words") + short,
        "neg": OneOrMore(~short + Word(alphanums))("rest"),
    }


@zoo(
    main=["set a", "set 1", "set x = 1", "set", "set ab on", "get a", "set off", "set 12 x"],
    many=["x 1 x 7 y 2", "x a x 33", "x", "z 1 w 1 x 2"],
)
def prefixes(cb):
    # MANY ALTERNATIVES BEGINNING ALIKE
    SET, GET = Keyword("set"), Keyword("get")
    w, n = Word(alphas) / cb("w"), Word(nums) / cb("n", lambda t: int(t[0]))
    main = (
        (SET + w("var") + "=" + n)("assign") / cb("assign")
        | (SET + Keyword("off"))("off") / cb("off")
        | (SET + w + Keyword("on"))("on") / cb("on")
        | (SET + n + w)("nw")
        | (SET + n)("n")
        | (SET + w)("w") / cb("sw")
        | (GET + w)("get")
        | SET("bare") / cb("bare")
    )
    x = lambda c: Literal("x") + c
    many = OneOrMore(
        Group(
            x("1")("one") | x("2")("two") | x("33")("three") | x(Word(nums))("other") / cb("other") | x("a")("a") | Literal("y") + "2"
            | Literal("z") + "1" | Literal("w") + "1" | Literal("x")("x")
        )
    )
    return {"main": main, "many": many}


@zoo(main=["x c a", "x", "a b c d x", "c x", "x x", "d c"], rep=["a b a b ! b", "! a", "a b", "b a !"])
def bag(cb):
    # MORE OPTIONAL PARTS IN ANY ORDER
    parts = [Optional(Literal(c) / cb(c), default=c.upper()) for c in "abcd"]
    main = parts[0] & parts[1] & parts[2] & parts[3] & Literal("x")("x")
    rep = ZeroOrMore(Literal("a"))("as") & ZeroOrMore(Literal("b") / cb("b"))("bs") & Literal("!") & Optional(Word(nums), default=["0", "00"])("n")
    return {"main": main / cb("all"), "rep": rep("rep")}


@zoo(main=["_a__b_", "a b", "__a", "(a_(b)_c)", "(a"], top=["_a_b", "__", "_1"])
def underscore(cb):
    with Whitespace("_"):
        f = Forward()
        f << OneOrMore(Word(alphas) / cb("w") | Literal("(") + f + ")")
        g = Forward()
        g << (Word(alphas)("w") + Optional(g)) / cb("g")
    return {"main": f, "top": g("top")}


@zoo(
    main=["$12 ab", "12 ab", "(12) x", "((7)) y", "$x 1", "ab"], back=["ab1", "(a)b2", "1", "b1", "cc 3"], stop=["a b (c) 1", "a 1", "(a) (b) 2", "1"],
    skip=["x y (z) 1;", "1;", "x 1 (q);", "x"],
)
def looking(cb):
    # LOOKING AROUND WITH EXPRESSIONS THAT HAVE CALLBACKS AND NO REGEX
    num, word = Forward(), Forward()
    num << (Word(nums).add_parse_action(cb("num"), callDuringTry=True) | Literal("(") + num + ")")
    letters = Word(alphas).add_condition(cb.cond("letters", lambda t: len(t[0]) < 3), callDuringTry=True)
    word << (letters.add_parse_action(cb("word"), callDuringTry=True) | Literal("(") + word + ")")
    return {
        "main": OneOrMore(~num + Char("$(")("open") | LookAhead(num) + Word(printables)("n") / cb("n") | ~word + ")" | Word(alphas)("w") / cb("w")),
        "back": OneOrMore(Word(alphas)("w") / cb("w") | Char("()")) + PrecededBy(word, retreat=3) + Word(nums)("n") / cb("n"),
        "stop": OneOrMore(~num + word)("words") + num("n"),
        "skip": SkipTo(num, fail_on=word + ";")("body") + Optional(num, default=["none"])("n") + ZeroOrMore(~word + Char(";")),
    }


@zoo(main=["a b c", "a b", "a 1", "a", "b a b 1", "1 2 3"], loose=["a b 1 x", "a a a", "x", "b", "1 x"], nested=["a b", "aab", "ab ab 1", "b"])
def reparse(cb):
    # ALTERNATIVES THAT MAY MATCH LESS, OR NOT AT ALL, THE SECOND TIME
    a = Literal("a") / cb("a")
    b = (Literal("b") / cb("b")).add_condition(cb.cond("b", lambda t: True))
    n = Word(nums).add_condition(cb.cond("n", lambda t: True)) / cb("num", lambda t: int(t[0]))
    one = a + Optional(b, default="nob")("b") + Optional(Literal("c") / cb("c"))
    two = OneOrMore(a / cb("aa") | n)("an") + Optional(b)
    three = Many(b | n, min_match=1, max_match=3)("bn")
    return {
        "main": OneOrMore(one ^ two("two") + ~Literal("zz") ^ three / cb("three") ^ "c")("all"),
        "loose": (Optional(a)("x") ^ ZeroOrMore(a | b)("y") ^ Optional(b) + n("z")) / cb("or") + ZeroOrMore(Word(alphanums)),
        "nested": OneOrMore((a ^ a + b ^ (a ^ a + a) + b) / cb("in") | b ^ n),
    }


@zoo(main=["-a+b!", "a?b:c", "--a*b", "a!!", "(a?b:c)+-d", "a+", "a?b", "-1 * (2 + x)!"], words=["not a and b", "a or not (b and c)", "a in b", "not", "a and"])
def operators(cb):
    operand = Word(alphas) / cb("id") | Word(nums) / cb("int", lambda t: int(t[0]))
    name = ~one_of("not and or in") + Word(alphas) / cb("name")
    return {
        "main": infix_notation(
            operand,
            [
                ("!", 1, LEFT_ASSOC, cb("fact")), ("-", 1, RIGHT_ASSOC, cb("neg", lambda t: ("-", t.value()))), (Suppress("*"), 2, LEFT_ASSOC, cb("mul")),
                ("+", 2, LEFT_ASSOC, cb("add")), (("?", ":"), 3, RIGHT_ASSOC, cb("if")),
            ],
        ),
        "words": infix_notation(
            name,
            [
                (Keyword("in"), 2, LEFT_ASSOC), (Keyword("not"), 1, RIGHT_ASSOC, cb("not")), (Keyword("and"), 2, LEFT_ASSOC, cb("and")),
                (Keyword("or"), 2, RIGHT_ASSOC, cb("or")),
            ],
        )("expr") / cb("expr"),
    }


@zoo(main=["<<a <<b c>> d>>", "<<>>", "<<a", "<<a 'x>>' b>>"], text=["begin a begin b end end", "begin end", "begin a"], ign=["{a /* } */ {b}}", "{}", "{/* x */}", "{a"])
def delimited(cb):
    return {
        "main": nested_expr("<<", ">>")("n") / cb("n"),
        "text": nested_expr("begin", "end") / cb("t"),
        "ign": nested_expr("{", "}", ignore_expr=cStyleComment)("i") / cb("i"),
    }


@zoo(
    main=["<td class='x' id=1>", "<td id=1>", "<td class='y'>", "<td class=x>z</td>", "<tr>"], date=["1999-12-31", "1999-13-31", "2000-01-01 2001-02-03", "x"],
    up=["ab cd", "ab", "1"], quote=["'ab' \"c\"", "''", "ab"],
)
def helping(cb):
    start, end = makeHTMLTags("td")
    tag = (start / with_attribute(**{"class": "x"})) / cb("x") | (start / with_class("y")) / cb("y") | start / with_attribute(id=with_attribute.ANY_VALUE)
    return {
        "main": tag("tag") + Optional(SkipTo(end)("body") / cb("body") + end.suppress()),
        "date": OneOrMore(iso8601_date / convertToDate() / cb("date")),
        "up": OneOrMore(Word(alphas) / upcase_tokens / cb("up")),
        "quote": OneOrMore(quoted_string / remove_quotes / cb("q"))("qs"),
    }


@zoo(main=["ATCATCGAATGGA", "ATCXTCGAATGGA", "XXX ATCATCGAATGGB", ""], white=["a\t b", "a  b", "ab", "a \n b"], chars=["ab;c", ";", "a b", "aaaaaaa;"], case=["Select a", "SELECT From b", "selected", "fROM"])
def tokens(cb):
    with NO_WHITESPACE:
        white = Word(alphas)("a") + White(" \t", min=1, max=3)("ws") / cb("ws") + Word(alphas)("b")
    return {
        "main": OneOrMore(CloseMatch("ATCATCGAATGGA", 2)("m") / cb("m") | Word("X")),
        "white": white,
        "chars": OneOrMore(CharsNotIn(";")("c") / cb("c") | Suppress(";")),
        "case": OneOrMore(one_of("select from", caseless=True, as_keyword=True) / cb("kw") | CaselessLiteral("sel") / cb("sel") | Word(alphas) / cb("id")),
    }


@zoo(main=["2 3 a b c 1 d", "1 0", "0", "2 1 a", "1 2 a b c"], rec=["2 1 0 0", "0", "1 1 0", "2 0", "1 2 0 0 0"], two=["2 a b 1 c", "1 a 2 b", "0 0"])
def counting(cb):
    n = Word(nums) / cb("n", lambda t: int(t[0]))
    f = Forward()
    f << counted_array(Group(f) / cb("f"))
    items = Word(alphas)("w") / cb("w")
    return {
        "main": counted_array(Group(counted_array(items))("in") / cb("in"))("out"),
        "rec": f("rec"),
        "two": (counted_array(items, int_expr=n)("x") + counted_array(items, int_expr=n)("y")) / cb("two"),
    }


@zoo(main=["a\nb", " a\n b\n", "a b\n c", ""], ends=["ab cd", "ab", " ab ", "a1b"], start=["ab", " ab", "x"])
def places(cb):
    with Whitespace(" "):
        line = LineStart() + Word(alphas)("w") / cb("w") + Optional(LineEnd()("e") / cb("e"))
        main = OneOrMore(line | Literal("\n"))
    return {
        "main": main,
        "ends": ZeroOrMore(WordStart(alphas) + Char(alphas)("c") / cb("c") | Char(alphas) + WordEnd(alphas)("end") / cb("end") | Char(printables)),
        "start": Literal("ab")("x") / cb("x") + StringEnd(),
    }


@zoo(main=["x1", "x0 7", "x", "x9 b", "y"], deep=["ab", "cb", "d", "a", "hz"])
def crowd(cb):
    # MANY CAUSES
    main = MatchFirst([Regex("x%d" % i) + Regex("[a-%s]" % "abcdefghijklmno"[i])(c) for i, c in enumerate("abcdefghijklmno")])
    f = Forward()
    f << MatchFirst([(Regex(c) / cb(c)) + (Char("b")(c) | Char("a") + f) for c in "abcdefghijklmno"])
    return {"main": main / cb("main"), "deep": f}


@zoo(
    main=["  abc", " xyz  ", "   x y", "1", "", " a b c d e f"], num=["  12 3", "   7", "x"], re=[" a1", "  b2 c3", "9"],
    lit=["   if", "if if", " i"], kw=["  end ", "ends"], close=["  ABCD", " ABXD", "AXXD"], none=["", "  ", " x"],
)
def single(cb):
    """each is one token, and nothing happens to it"""
    return {
        "main": Word(alphas), "num": Word(nums)("n"), "re": Regex("(?P<l>[a-z])(?P<d>[0-9])"), "lit": Literal("if"), "kw": Keyword("end")("k"),
        "close": CloseMatch("ABCD", 1), "none": Empty(),
    }


def plain(name):
    """is this zoo grammar suitable for long scans"""
    return name not in ("indented",)


@zoo(
    main=["(" * 12 + "a" + ")" * 12, "((((((((((()))))))))))", "(a(b(c(d(e(f(g(h(i(j)))))))))) ", "((((((((((a)))))))))", "(((((((((("],
    list=["[[[[[[[[[[1]]]]]]]]]]", "[1[2[3[4[5[6[7[8[9]]]]]]]]]", "[[[[[[[[["],
)
def deep(cb):
    e = Forward()
    e << Group("(" + Optional(Word(alphas)("w") | e) + ZeroOrMore(e) + ")")("p")
    f = Forward()
    f << Group(Suppress("[") + (ZeroOrMore(Word(nums) / cb("n", lambda t: int(t[0])) | f)) + Suppress("]"))
    return {"main": e / cb("main"), "list": f}


EXPORTS = [(name, export) for name in sorted(Z) for export in sorted(Z[name][1])]
