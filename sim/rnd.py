"""
Random grammars: generation (as JSON), construction, and inputs that nearly match.

Grammars are never left recursive, and never repeat something that matches nothing.
"""
import mo_parsing
from mo_parsing import *
from mo_parsing.helpers import QuotedString, counted_array, nested_expr, originalTextFor, located_expr, dict_of
from mo_parsing.infix import delimited_list, infix_notation, one_of
from mo_parsing.results import ParseResults
from mo_parsing.utils import alphas, nums, alphanums

SETS = {"alphas": alphas, "nums": nums, "alphanums": alphanums, "ab": "ab", "xyz": "xyz"}
LITS = ["a", "b", "c", "if", "x", "y", "+", "-", "(", ")", ";", ",", "=", "==", "ab", "abc", "END", "1"]
WORDS = ["if", "then", "end", "and", "x", "ab"]
ACTIONS = {
    "none": None,
    "up": lambda t: "".join(str(x) for x in t).upper(),
    "list": lambda t: [len(t), "k"],
    "same": lambda t: t,
    "const": lambda: "C",
    # NOT A PART OF THE RESULT, WHICH MAY END EARLIER: AN ERROR OF THE ACTION
    "first": lambda t: t[0] if len(t) and not isinstance(t[0], ParseResults) else None,
    "where": lambda t, i, s: [i, s[i : i + 2]],
    "empty": lambda: [],
    "value": lambda t: t.value(),
}
CONDS = {
    "short": lambda t: sum(len(str(x)) for x in t) < 4,
    "some": lambda t: len(t) > 0,
    "no_x": lambda t: "x" not in "".join(str(x) for x in t),
    "even": lambda t: len("".join(str(x) for x in t)) % 2 == 0,
}
REGEXES = [r"\d+", r"[a-c]+", r"(?P<l>[a-z])(?P<d>\d)", r"a|bc", r"x(y|z)?", r"\w+"]


# ---- generation ------------------------------------------------------------------------------------------------------
class Gen(object):
    def __init__(self, r, size=None):
        self.r = r
        self.n = 0
        self.labels = 0
        self.parts = []
        self.null = []  # nullable, per part
        self.size = size or r.randrange(6, 26)

    def label(self):
        self.labels += 1
        return "L" + str(self.labels)

    def token(self):
        r = self.r
        k = r.randrange(20)
        if k < 6:
            return ["lit", r.choice(LITS)]
        if k < 10:
            return ["word", r.choice(list(SETS))]
        if k < 11:
            return ["wordn", r.choice(["alphas", "nums"]), r.choice([[1, 2, None], [2, None, None], [None, None, 2]])]
        if k < 13:
            return ["kw", r.choice(WORDS)]
        if k < 14:
            return ["ckw", r.choice(WORDS)]
        if k < 15:
            return ["clit", r.choice(["a", "Ab", "END"])]
        if k < 17:
            return ["re", r.choice(REGEXES)]
        if k < 18:
            return ["char", r.choice(["ab", "+-", "012"])]
        if k < 19:
            return ["q", r.choice("'\"")]
        return ["oneof", r.sample(["+", "-", "*", "+=", "<", "<=", "ab", "abc"], 3)]

    def node(self, depth, consumed, fwd):
        """-> node"""
        r = self.r
        self.n += 1
        if depth <= 0 or self.n > self.size:
            if fwd and consumed and r.random() < 0.3:
                return ["fwd", r.choice(fwd)]
            if self.parts and r.random() < 0.3:
                return ["ref", r.randrange(len(self.parts))]
            return self.decorate(self.token())
        k = r.randrange(100)
        if k < 22:
            n = r.randrange(2, 5)
            acc = []
            c = consumed
            for _ in range(n):
                x = self.node(depth - 1, c, fwd)
                acc.append(x)
                c = c or not self.nullable(x)
            out = ["and", acc]
        elif k < 36:
            out = ["first", [self.node(depth - 1, consumed, fwd) for _ in range(r.randrange(2, 5))]]
            if r.random() < 0.25:
                # ALTERNATIVES BEGINNING ALIKE
                pre = ["lit", r.choice(LITS)]
                out[1] = [self.decorate(["and", [pre, self.decorate(self.token())]]) for _ in range(r.randrange(3, 6))] + out[1][:1]
        elif k < 42:
            out = ["or", [self.node(depth - 1, consumed, fwd) for _ in range(r.randrange(2, 4))]]
        elif k < 45:
            out = ["all", [self.solid(self.node(depth - 1, consumed, fwd)) for _ in range(2)]]
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                out[1].append(["opt", self.token(), r.choice([None, "dflt", ["d1", "d2"]])])
        elif k < 51:
            out = ["opt", self.node(depth - 1, consumed, fwd), r.choice([None, None, "dflt", ["d1", "d2"]])]
        elif k < 57:
            out = [r.choice(["zom", "oom"]), self.solid(self.node(depth - 1, consumed, fwd))]
        elif k < 60:
            out = ["many", self.solid(self.node(depth - 1, consumed, fwd)), r.randrange(0, 3), r.choice([2, 3, None])]
        elif k < 62:
            out = ["x", self.solid(self.node(depth - 1, consumed, fwd)), r.randrange(0, 3), r.choice([2, 3, None])]
        elif k < 68:
            out = ["group", self.node(depth - 1, consumed, fwd)]
            if r.random() < 0.25:
                # A GROUP OF OTHER THAN RESULTS, AND SEVERAL OF THEM
                out = ["act", out, self.label(), r.choice(["list", "where", "up", "empty"])]
                if r.random() < 0.5:
                    out = [r.choice(["zom", "oom"]), self.solid(out)]
        elif k < 71:
            out = ["sup", self.node(depth - 1, consumed, fwd)]
        elif k < 74:
            out = ["comb", ["and", [self.token(), self.token()]]]
        elif k < 77:
            out = ["look", self.node(depth - 1, consumed, fwd)]
            out = ["and", [out, self.solid(self.node(depth - 1, consumed, fwd))]]
        elif k < 80:
            out = ["and", [["not", self.decorate(self.token())], self.solid(self.node(depth - 1, consumed, fwd))]]
        elif k < 83:
            out = ["and", [["skip", self.decorate(self.token()), r.random() < 0.4], ["lit", ";"]]]
        elif k < 85:
            out = ["pend", self.token(), self.decorate(self.token())]
        elif k < 88:
            out = ["dl", self.solid(self.node(depth - 1, consumed, fwd)), r.choice(",;")]
        elif k < 90:
            out = ["guard", self.token(), self.node(depth - 1, True, fwd)]
        elif k < 92:
            out = ["count", ["word", "alphas"]]
        elif k < 93:
            out = ["nested", r.choice(["()", "[]", "<>"])]
        elif k < 94:
            out = [r.choice(["orig", "loc"]), self.node(depth - 1, consumed, fwd)]
        elif k < 96:
            out = ["infix", self.token(), r.choice([["+", "-"], ["*", "+"], ["and", "or"]])]
        elif k < 97:
            out = ["dict", ["word", "alphas"], ["word", "alphanums"]]
        elif k < 98:
            out = ["stop", self.token(), "END"]
        else:
            out = ["ws", r.choice([{"white": " "}, {"white": ""}, {"white": " \n\t", "ignore": "#"}]), ["oom", self.token()]]
        return self.decorate(out)

    def decorate(self, x):
        r = self.r
        k = r.random()
        if k < 0.22:
            x = ["name", x, r.choice(["n", "m", "v", "w"])]
        if 0.15 < k < 0.4:
            x = ["act", x, self.label(), r.choice(list(ACTIONS))]
        elif 0.4 < k < 0.46:
            x = ["cond", x, self.label(), r.choice(list(CONDS))]
        elif 0.46 < k < 0.49:
            x = ["failact", x, self.label()]
        elif 0.49 < k < 0.52:
            x = ["pname", x, r.choice(["thing", "part"])]
        elif 0.52 < k < 0.56:
            x = ["cact", x, self.label(), r.choice(list(ACTIONS))]
        elif 0.56 < k < 0.59:
            x = ["ccond", x, self.label(), r.choice(list(CONDS))]
        elif 0.59 < k < 0.62:
            x = ["failact", x, self.label()]
        return x

    def solid(self, x):
        return x if not self.nullable(x) else ["and", [["lit", self.r.choice(LITS)], x]]

    def nullable(self, x):
        k = x[0]
        if k in ("lit", "word", "wordn", "kw", "ckw", "clit", "char", "q", "oneof", "comb", "count", "nested", "guard", "dict", "pend", "stop", "infix"):
            return False
        if k == "re":
            return False
        if k in ("and", "all"):
            return all(self.nullable(y) for y in x[1])
        if k in ("first", "or"):
            return any(self.nullable(y) for y in x[1])
        if k in ("opt", "zom", "look", "not", "skip", "orig", "loc"):
            return True
        if k in ("oom", "group", "sup", "name", "act", "cond", "failact", "pname", "cact", "ccond", "dl"):
            return self.nullable(x[1])
        if k in ("many", "x"):
            return x[2] == 0 or self.nullable(x[1])
        if k == "ws":
            return self.nullable(x[2])
        if k == "ref":
            return self.null[x[1]]
        if k == "fwd":
            return True
        raise Exception(k)

    def grammar(self):
        r = self.r
        count = r.choice([1, 1, 2, 2, 3])
        for i in range(count):
            self.n = 0
            fwd = [i] if r.random() < 0.5 else []
            x = self.node(r.randrange(2, 5), False, fwd)
            self.parts.append(x)
            self.null.append(self.nullable(x))
        exports = {"main": count - 1}
        for i in range(count - 1):
            exports["p" + str(i)] = i
        return {"parts": self.parts, "exports": exports}


# ---- construction ------------------------------------------------------------------------------------------------------
def build(ast, cb):
    parts = []
    forwards = {}

    def mk(x):
        k = x[0]
        if k == "lit":
            return Literal(x[1])
        if k == "word":
            return Word(SETS[x[1]])
        if k == "wordn":
            mi, ma, ex = x[2]
            kw = {}
            if mi:
                kw["min"] = mi
            if ma:
                kw["max"] = ma
            if ex:
                kw["exact"] = ex
            return Word(SETS[x[1]], **kw)
        if k == "kw":
            return Keyword(x[1])
        if k == "ckw":
            return CaselessKeyword(x[1])
        if k == "clit":
            return CaselessLiteral(x[1])
        if k == "re":
            return Regex(x[1])
        if k == "char":
            return Char(x[1])
        if k == "q":
            return QuotedString(x[1])
        if k == "oneof":
            return one_of(x[1])
        if k == "and":
            acc = mk(x[1][0])
            for y in x[1][1:]:
                acc = acc + mk(y)
            return acc
        if k == "first":
            acc = mk(x[1][0])
            for y in x[1][1:]:
                acc = acc | mk(y)
            return acc
        if k == "or":
            acc = mk(x[1][0])
            for y in x[1][1:]:
                acc = acc ^ mk(y)
            return acc
        if k == "all":
            acc = mk(x[1][0])
            for y in x[1][1:]:
                acc = acc & mk(y)
            return acc
        if k == "opt":
            return Optional(mk(x[1]), default=x[2])
        if k == "zom":
            return ZeroOrMore(mk(x[1]))
        if k == "oom":
            return OneOrMore(mk(x[1]))
        if k == "many":
            kw = {} if x[3] is None else {"max_match": max(x[2], x[3])}
            return Many(mk(x[1]), min_match=x[2], **kw)
        if k == "x":
            return mk(x[1])[x[2] : (None if x[3] is None else max(x[2], x[3]))]
        if k == "group":
            return Group(mk(x[1]))
        if k == "sup":
            return mk(x[1]).suppress()
        if k == "comb":
            with NO_WHITESPACE:
                return Combine(mk(x[1]))
        if k == "look":
            return LookAhead(mk(x[1]))
        if k == "not":
            return ~mk(x[1])
        if k == "skip":
            return SkipTo(mk(x[1]), include=x[2])
        if k == "pend":
            return mk(x[1]) + ... + mk(x[2])
        if k == "dl":
            return delimited_list(mk(x[1]), separator=x[2])
        if k == "guard":
            return mk(x[1]) - mk(x[2])
        if k == "count":
            return counted_array(mk(x[1]))
        if k == "nested":
            return nested_expr(x[1][0], x[1][1])
        if k == "orig":
            return originalTextFor(mk(x[1]))
        if k == "loc":
            return located_expr(mk(x[1]))
        if k == "infix":
            return infix_notation(mk(x[1]), [(x[2][0], 2, LEFT_ASSOC, cb("in0")), (x[2][1], 2, RIGHT_ASSOC)])
        if k == "dict":
            return dict_of(mk(x[1]), Suppress("=") + mk(x[2]))
        if k == "stop":
            return OneOrMore(mk(x[1]), stop_on=x[2]) + Literal(x[2])
        if k == "ws":
            w = Whitespace(x[1]["white"])
            with w as c:
                if x[1].get("ignore"):
                    c.add_ignore(Literal(x[1]["ignore"]))
                return mk(x[2])
        if k == "name":
            return mk(x[1])(x[2])
        if k == "act":
            return mk(x[1]) / cb(x[2], ACTIONS[x[3]])
        if k == "cact":
            e = mk(x[1])
            if isinstance(e, Forward):
                return e / cb(x[2], ACTIONS[x[3]])
            return e.add_parse_action(cb(x[2], ACTIONS[x[3]]), callDuringTry=True)
        if k == "cond":
            return mk(x[1]).add_condition(cb.cond(x[2], CONDS[x[3]]))
        if k == "ccond":
            return mk(x[1]).add_condition(cb.cond(x[2], CONDS[x[3]]), callDuringTry=True)
        if k == "failact":
            return mk(x[1]).copy().setFailAction(cb.fail(x[2]))
        if k == "pname":
            return mk(x[1]).copy().set_parser_name(x[2])
        if k == "ref":
            return parts[x[1]]
        if k == "fwd":
            if x[1] not in forwards:
                forwards[x[1]] = Forward()
            return forwards[x[1]]
        raise Exception(k)

    for i, p in enumerate(ast["parts"]):
        e = mk(p)
        if i in forwards:
            f = forwards[i]
            f << e
            e = f
        parts.append(e)
    return {name: parts[i] for name, i in ast["exports"].items()}


# ---- inputs --------------------------------------------------------------------------------------------------------------
def sample(r, ast, export="main"):
    parts = ast["parts"]
    budget = [60]

    def words(s):
        return "".join(r.choice(s) for _ in range(r.randrange(1, 4)))

    def go(x, depth=0):
        budget[0] -= 1
        if budget[0] < 0 or depth > 14:
            return r.choice(["a", "1", "x", ""])
        k = x[0]
        if k in ("lit", "kw"):
            return x[1]
        if k in ("ckw", "clit"):
            return x[1].upper() if r.random() < 0.5 else x[1]
        if k in ("word", "wordn"):
            return words(SETS[x[1]])
        if k == "re":
            return r.choice({r"\d+": ["12", "7"], r"[a-c]+": ["abc", "b"], r"a|bc": ["a", "bc"], r"x(y|z)?": ["x", "xz"], r"\w+": ["w1", "_"]}.get(x[1], ["a1", "z9"]))
        if k == "char":
            return r.choice(x[1])
        if k == "q":
            return x[1] + words("ab c") + x[1]
        if k == "oneof":
            return r.choice(x[1])
        if k in ("and",):
            return join(*[go(y, depth + 1) for y in x[1]])
        if k in ("first", "or"):
            return go(r.choice(x[1]), depth + 1)
        if k == "all":
            ys = list(x[1])
            r.shuffle(ys)
            return join(*[go(y, depth + 1) for y in ys])
        if k == "opt":
            return go(x[1], depth + 1) if r.random() < 0.6 else ""
        if k in ("zom", "oom"):
            return join(*[go(x[1], depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3]))])
        if k in ("many", "x"):
            return join(*[go(x[1], depth + 1) for _ in range(r.choice([x[2], x[2] + 1, x[2] + 2]))])
        if k in ("look", "not", "skip"):
            if k == "skip":
                return join(words("pq "), go(x[1], depth + 1)) if r.random() < 0.5 or x[2] else words("pq ")
            return ""
        if k == "comb":
            return "".join(go(y, depth + 1) for y in x[1][1])
        if k == "pend":
            return join(go(x[1], depth + 1), words("pq "), go(x[2], depth + 1))
        if k == "dl":
            return (x[2] + " ").join(go(x[1], depth + 1) for _ in range(r.randrange(1, 4)))
        if k == "guard":
            return join(go(x[1], depth + 1), go(x[2], depth + 1))
        if k == "count":
            n = r.randrange(0, 4)
            return join(str(n), *["ab"[: 1 + i % 2] for i in range(n)])
        if k == "nested":
            return x[1][0] + r.choice(["", "a", "a b", x[1][0] + "a" + x[1][1]]) + x[1][1]
        if k == "infix":
            acc = [go(x[1], depth + 1)]
            for _ in range(r.randrange(0, 3)):
                acc += [r.choice(x[2]), go(x[1], depth + 1)]
            return join(*acc)
        if k == "dict":
            return join(*[words("kv") + "=" + words("12") for _ in range(r.randrange(1, 3))])
        if k == "stop":
            return join(*([go(x[1], depth + 1) for _ in range(r.randrange(1, 3))] + ["END"]))
        if k == "ws":
            return go(x[2], depth + 1)
        if k in ("ref", "fwd"):
            return go(parts[x[1]], depth + 1)
        return go(x[1], depth + 1)

    def join(*a):
        return r.choice([" ", " ", " ", "", "\n"]).join(y for y in a if y)

    s = go(parts[ast["exports"][export]])
    return mutate(r, s) if r.random() < 0.35 else s


def mutate(r, s):
    for _ in range(r.randrange(1, 3)):
        k = r.randrange(6)
        i = r.randrange(len(s) + 1)
        if k == 0:
            s = s[:i] + s[i + 1 :]
        elif k == 1:
            s = s[:i] + r.choice("ab1 x+;(),=\n") + s[i:]
        elif k == 2:
            s = s[:i]
        elif k == 3:
            s = s + " " + s
        elif k == 4:
            j = r.randrange(len(s) + 1)
            s = s[: min(i, j)] + s[max(i, j) :]
        else:
            s = " " + s + "\n"
    return s[:160]
