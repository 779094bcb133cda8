# encoding: utf-8
"""failures"""
import itertools

from mc import peg
from mc.build import Builder, attempt, run, FAIL, And, CharsNotIn, ParseException, ParseResults
from mc.family import *
from mc.universe import strings, part, trees
from mo_parsing.utils import line, lineno, col
from mo_parsing.whitespaces import NO_WHITESPACE

PID = "C13"
LEVEL = "model_checking"
RULE = (
    "every grammar of up to N nodes over the listed terminals and combinators, with and without parser names and conditions, every text of up to L characters, with and without parse_all: "
    "a result or a ParseException; for every one of these its position, expectation, line, column, message, text forms and search against the reference run and the text"
)
ASSUMPTIONS = [
    "bounds: grammar size, alphabet and text length as in the plan",
    "the position is compared with the furthest place where a part of the grammar was tried and failed in the reference run (parts of look-ahead do not count)",
]

A, B = lit("a"), lit("b")
LEAVES = (A, lit("ab"), word("ab"))
MORE = (A, ("kw", "ab", None), ("clit", "Ab"), ("char", "", "a"), ("notin", "b", 2, 2), ("any",), ("white", " ", 1, 0), ("nomatch",), ("le",), ("se",), ("ls",), ("wend", "ab"), ("re", "a+b"), ("empty",), word("a", "b", 2, 2), ("close", "aba", 1))
UNARY = (opt, many(0, BIG), many(1, BIG), many(2, 2), many(2, BIG), many(1, 2), neg, look, group, name("x"))
WRAP = UNARY + (supp, comb, lambda e: ("skipto", e, True), lambda e: ("cond", "even", e), lambda e: ("pname", "P", e), lambda e: ("act", "refuse", e), lambda e: ("rec", alt(seq(B, ("self",)), e)))
FEW = (opt, many(0, BIG), many(1, BIG), neg, group, lambda e: ("pname", "P", e), lambda e: ("cond", "even", e))
BINARY = (seq, alt, lor, lambda e, f: ('all', e, f))
TERMINALS = {"lit", "clit", "kw", "ckw", "word", "char", "notin", "any", "white", "nomatch", "ls", "le", "ss", "se", "wstart", "wend", "re", "close", "not", "behind", "many", "skipto", "cond", "act"}

ASIDE = {"not", "look", "skipto"}


class Model(peg.Model):
    __slots__ = ["fails", "aside"]

    def __init__(self, s):
        peg.Model.__init__(self, s)
        self.fails = []
        self.aside = []  # failures of parts that are only looked at

    def match(self, a, p, ws=peg.STD, env=None):
        k = a[0]
        mark = len(self.fails)
        r = peg.Model.match(self, a, p, ws, env)
        if k in ASIDE or (r is None and k in ("cond", "act") and self.match(a[2], p, ws, env) is not None):
            # failures of what is only looked at, or matched and then refused
            self.aside.extend(self.fails[mark:])
            del self.fails[mark:]
        if r is None and k in TERMINALS:
            self.fails.append(p)
        return r

    def m_pname(self, a, p, ws, env):
        return self.match(a[2], p, ws, env)

    def m_act(self, a, p, ws, env):
        self.match(a[2], p, ws, env)
        return None


class Build(Builder):
    def b_pname(self, n, e):
        return self(e).set_parser_name(n)

    def b_act(self, ident, e):
        def refuse(tokens, loc, string):
            raise ParseException(tokens.type, loc, string, msg="refused")

        return self(e).add_parse_action(refuse)


def universe(u):
    n, which = u
    if which == "long":
        for k in range(1, n + 1):
            for t in trees(k, (A, B, lit("ab")), (opt, many(1, BIG), neg), BINARY[:3], ()):
                if not peg.nullable(t):
                    yield ("many", t, 1, BIG)
                    yield seq(("many", t, 0, BIG), lit("c"))
                    yield ("many", alt(seq(A, lit("("), B), t), 1, BIG)
        return
    leaves, unary = {"main": (LEAVES, UNARY), "more": (MORE, WRAP), "few": (LEAVES[:2], FEW)}[which]
    for k in range(1, n + 1):
        for t in trees(k, leaves, unary, BINARY if which != 'few' else BINARY[:3], ()):
            yield t


LONG = ("a", "b", "ab", "a ", "ab b ")


def texts(u, alphabet, n):
    if u[1] != "long":
        return list(strings(alphabet, n))
    # many parts, so that there are many failures to choose from
    return [unit * k + t for unit in LONG for k in alphabet for t in strings("abc(", n)]


PLAN = {
    "quick": [((2, "long"), (12, 33), 2, 16), ((3, "main"), "ab \n", 3, 8), ((2, "more"), "ab \n", 3, 8), ((3, "more"), "ab\n", 2, 32), ((4, "few"), "ab ", 3, 24)],
    "thorough": [((3, "long"), (10, 16, 31, 32, 65), 2, 512), ((4, "main"), "ab \n", 3, 128), ((2, "more"), "ab \n", 4, 16), ((3, "more"), "ab \n", 3, 128), ((5, "few"), "ab ", 3, 256), ((4, "few"), "ab ", 4, 64)],
}


def shards(tier):
    return [(tier, i, j, row[-1]) for i, row in enumerate(PLAN[tier]) for j in range(row[-1])]


def one(ast, style, inputs, rep):
    case = (ast, style, "", False)
    rep.begin(case)
    ok, parser = attempt(lambda: Build(style)(ast).finalize())
    rep.end()
    if not ok and repr(ast).count("'name'") > 1 and "already set in one of the other" in repr(parser):
        rep.outcome("refused")  # the same name for a repetition and for what it repeats
        return
    if not ok:
        rep.violation(case, "the grammar can be made", parser)
        return
    rep.add("grammars")
    for s in inputs:
        m = Model(s)
        start = m.skip(0, peg.STD)
        node = m.match(ast, start, peg.STD)
        rest = m.skip(node[4], peg.STD) if node is not None else None
        rep.add("states", len(m.memo) + 1)
        rep.add("transitions", m.steps)
        for whole in (False, True):
            case = (ast, style, s, whole)
            rep.begin(case)
            rep.add("traces_validated_against_impl")
            try:
                got = parser.parse(s, parse_all=whole)
            except ParseException as cause:
                ok, problem = attempt(lambda: inspect(cause, s, start, m.fails + [rest] if rest is not None else m.fails, m.aside, rep))
                if not ok:
                    rep.violation(case, "the failure can be inspected", problem)
                elif problem:
                    rep.violation(case, problem[0], problem[1], note=problem[2])
                continue
            except Exception as cause:
                rep.violation(case, "a result or ParseException", repr(cause)[:300])
                continue
            rep.outcome("match")
            if not isinstance(got, ParseResults):
                rep.violation(case, "ParseResults", repr(got))
        rep.end()


def inspect(e, s, start, fails, aside, rep):
    """-> what is wrong: expected, got, what"""
    loc = e.loc
    if not isinstance(loc, int) or not 0 <= loc <= len(s):
        return "within 0..%d" % len(s), loc, "position"
    if loc < start:
        return "at or after the start %d" % start, loc, "position"
    furthest = max(fails) if fails else start
    if loc != furthest and not (loc > furthest and loc in aside):
        return furthest, loc, "the furthest place of failure"
    rep.outcome("failed at the end" if loc == len(s) else "failed inside" if loc else "failed at the start")

    before = s[:loc]
    expected_line = before.count("\n") + 1
    expected_col = loc - (before.rfind("\n") + 1) + 1
    text = s.split("\n")[expected_line - 1]
    have = (e.lineno, e.line)
    if have != (expected_line, text):
        return (expected_line, text), have, "lineno and line"
    if not (e.col == e.column == expected_col):
        return expected_col, (e.col, e.column), "col and column"

    message = str(e)
    found = "found end of text" if loc == len(s) else "found " + quoted(s[loc : loc + 10])
    for piece in (found, "(at char %d)" % loc, "(line:%d, col:%d)" % (expected_line, expected_col)):
        if piece not in message:
            return piece, message, "message"
    if not message.startswith("Expecting ") and " (" not in message:
        return "what was expected", message, "message"
    if e.message not in repr(e):
        return e.message, repr(e), "repr"
    if message not in e or "no such thing" in e or ParseException not in e:
        return "found", message, "search in the failure"
    c = expected_col - 1
    if e.mark_inputline() != (text[:c] + ">!<" + text[c:]).strip():
        return (text[:c] + ">!<" + text[c:]).strip(), e.mark_inputline(), "mark_inputline"
    if e.string != s:
        return s, e.string, "string"
    if not {"lineno", "col", "line"} <= set(dir(e)):
        return "lineno col line", dir(e), "dir"
    for c in e.causes:
        if isinstance(c, ParseException) and not start <= c.loc <= loc:
            return "between %d and %d" % (start, loc), c.loc, "positions of the causes"


def quoted(t):
    import json

    return json.dumps(t)


def run_shard(shard, tier, rep):
    t, i, j, k = shard
    u, alphabet, n, _ = PLAN[t][i]
    inputs = texts(u, alphabet, n)
    for x, ast in enumerate(part(universe(u), j, k)):
        one(ast, "op" if x % 2 else "ctor", inputs, rep)
        if x == 0 and j == 0:
            rep.sample("%r on %r" % (ast, inputs[-1]))


def replay(case, rep):
    one(case[0], case[1], [case[2]], rep)
