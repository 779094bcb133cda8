# encoding: utf-8
"""look-behind"""
from mc import peg, conform
from mc.build import build, attempt, tree
from mc.family import *
from mc.universe import trees, strings, part
from checks.c07 import tops, verify

PID = "C27"
LEVEL = "model_checking"
RULE = (
    "PrecededBy over every expression of up to N nodes (and over terminals of every kind), with and without a limit to how far it looks back, in every context of the list, negated and repeated, where white space is significant and where it is not, "
    "on every input of up to L characters: success, end, tokens and names against the reference, and every match that scanning finds"
)
ASSUMPTIONS = [
    "bounds: expression size, alphabet and input length as in the plan",
    "what is looked back for sees the text up to the position only, except for literals, keywords and single characters, which are matched at their one place in the whole text",
    "expressions that end by looking further ahead (LineEnd, SkipTo, look-ahead at their end) are not looked back for",
]

LEAVES = (lit("a"), lit("ab"), word("ab"), ("char", "ab", ""))
KINDS = (
    ("clit", "A"), ("clit", "Ab"), ("kw", "a", None), ("ckw", "AB", None), ("char", "", "a"), ("word", "a", "b"), ("word", "ab", "ab", 2, 2), ("word", "ab", "ab", 2, 0), ("word", "ab", "ab", 1, 2), ("notin", "a", 1, 0), ("notin", "a", 2, 2),
    ("re", "a+b"), ("re", "a|bb"), ("re", "a?"), ("any",), ("empty",), ("nomatch",), ("white", " ", 1, 0), ("wstart", "ab"), ("wend", "ab"), ("ss",), ("look", lit("a")), ("not", lit("a")), ("behind", lit("a")), ("close", "ab", 1),
    ("all", lit("a"), opt(lit("b"))), ("rec", alt(seq(lit("a"), ("self",)), lit("b"))), ("act", "upper", word("ab")), ("cond", "two", word("ab")), ("opt", lit("a"), "dflt"),
)
UNARY = (opt, many(0, BIG), many(1, BIG), many(2, 2), group, supp, named("x"), comb)
BINARY = (seq, alt, lor)


def targets(n):
    return trees(n, LEAVES, UNARY, BINARY) + (KINDS if n == 1 else ())


B, W, A = lit("b"), word("ab"), lit("a")
AS = many(1, BIG)(A)


def contexts(e):
    for g in (("behind", e), ("behind", e, 1), ("behind", e, 2)):
        if len(g) > 2 and e[0] in ("lit", "clit", "kw", "ckw", "char", "look", "not", "behind", "wstart", "wend", "ss", "empty", "name"):
            continue  # not needed
        yield g
        yield seq(g, W)
        yield seq(A, g, B)
        yield seq(AS, g, opt(B))
        yield seq(W, g, opt(W))
        yield seq(seq(A, B), g, opt(A))
        yield seq(A, opt(B), g, W)
        yield seq(opt(A), neg(g), W)
        yield seq(A, group(seq(g, opt(B))), opt(A))
        yield many(1, BIG)(seq(("char", "ab", ""), g))
        yield alt(seq(A, g, B), seq(W, opt(B)))
        yield lor(seq(A, g, B), seq(A, B, B))
        yield seq(A, name("y")(g), opt(B))
        yield seq(A, look(g), opt(B))
        yield seq(A, g, g, B)


def universe(u):
    kind, n = u.split("-")
    for e in targets(int(n)):
        for g in contexts(e):
            yield ("ws", peg.NOWS, g) if kind == "tight" else g


class Behind(conform.Conformance):
    def one(self, ast, style, parser, s):
        conform.Conformance.one(self, ast, style, parser, s)
        # everything in a text
        case = (ast, style, s, False)
        ws = self.top(ast)
        m = peg.Model(s)
        want = []
        at = 0
        while at <= len(s):
            start = m.skip(at, ws)
            r = m.match(ast, start, peg.STD)
            if r is None or r[4] <= start:
                at = start + 1
            else:
                at = r[4]
            if r is not None:
                want.append((start, r[4]))
        self.rep.add("transitions", m.steps)
        self.rep.add("traces_validated_against_impl")
        ok, have = attempt(lambda: [(b, e) for _, b, e in parser.scan_string(s)])
        if want != have:
            self.rep.violation(case, want, have, note="scan")

    def top(self, ast):
        t = verify(tops(ast, (0, peg.STD)))
        return t[1] if t else peg.STD


F = Family(
    {
        "quick": [("free-1", "abA ", 3, 8, 0), ("free-2", "ab ", 4, 8, 0), ("tight-1", "ab ", 4, 8, 0), ("tight-2", "ab ", 3, 8, 0), ("free-3", "ab", 3, 32, 0), ("tight-3", "ab", 3, 32, 0)],
        "thorough": [("free-1", "abA \n", 5, 32, 1), ("tight-1", "abA \n", 5, 32, 1), ("free-2", "ab ", 6, 32, 1), ("tight-2", "ab ", 6, 32, 1), ("free-3", "ab ", 5, 256, 0), ("tight-3", "ab ", 5, 256, 0)],
    },
    universe,
    {"recog", "end", "tree", "names"},
    names=("x", "y"),
    klass=Behind,
)
shards, run_shard, replay = F.shards, F.run_shard, F.replay
