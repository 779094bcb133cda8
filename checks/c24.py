# encoding: utf-8
"""indented_block"""
from mc import peg, conform
from mc.build import Builder, ParseException, Literal
from mo_parsing import OneOrMore
from mc.family import *
from mo_parsing.helpers import indented_block

PID = "C24"
LEVEL = "model_checking"
RULE = (
    "a set of grammars with blocks (recursive, optional, in both kinds of alternatives, before and after failing alternatives, looked ahead for, named, at the left margin, followed by more), with and without newlines in the whitespace and with comments ignored, "
    "on every text of up to K lines over indents and statements, and every text of up to L characters: end, tree, names and failure against a reference with an explicit stack of columns that is part of the state; one parser for all texts"
)
ASSUMPTIONS = [
    "bounds: the grammars in the check, number of lines, indents and length as in the plan",
    "columns count characters; a block may end at its own column, when the statement there is not one of the block's",
]


class Model(peg.Model):
    """the columns of the blocks around are part of the state"""

    __slots__ = ["cols"]

    def __init__(self, s):
        peg.Model.__init__(self, s)
        self.cols = (1,)

    def match(self, a, p, ws=peg.STD, env=None):
        self.steps += 1
        key = (id(a), p, id(ws), id(env), self.cols)
        got = self.memo.get(key, self)
        if got is not self:
            if got is peg.LeftRecursion:
                raise peg.LeftRecursion()
            return got
        self.memo[key] = peg.LeftRecursion
        cols = self.cols
        got = getattr(self, "m_" + a[0])(a, p, ws, env)
        self.cols = cols
        self.memo[key] = got
        return got

    def col(self, p):
        return p - (self.s.rfind("\n", 0, p) + 1) + 1

    def empty(self, p):
        return [peg.PLAIN, "", [], p, p]

    def m_peer(self, a, p, ws, env):
        if p >= self.n or self.col(p) == self.cols[-1]:
            return self.empty(p)

    def m_dedent(self, a, p, ws, env):
        if p >= self.n or self.col(p) in self.cols:
            return self.empty(p)

    def m_nest(self, a, p, ws, env):
        return self.match(a[1], p, ws, env)

    def m_block(self, a, p, ws, env):
        # ('block', statement, indented?)
        e, indented = a[1:]
        parts = PARTS.get(a)
        if parts is None:
            lines = ("many", ("supp", ("le",)), 1, BIG)
            parts = PARTS[a] = (
                ("opt", lines),
                ("seq", ("many", ("seq", ("peer",), ("group", e), ("opt", lines)), 1, BIG), ("dedent",)),
                {},
            )
        own = parts[2].setdefault(ws, ws)
        first = self.match(parts[0], p, own, env)
        at = first[4]
        if at > p:
            at = self.skip(at, own)
        c = self.col(at)
        if not (c > self.cols[-1] if indented else c == self.cols[-1]):
            return None
        outside = self.cols
        self.cols = outside + (c,)
        try:
            r = self.match(parts[1], at, own, env)
        finally:
            self.cols = outside
        if r is not None:
            return [peg.GROUP, "", r[2], p, r[4]]


PARTS = {}


class Build(Builder):
    def b_block(self, e, indented):
        return indented_block(self(e)) if indented else indented_block(self(e), False)

    def b_nest(self, e):
        """an action that parses blocks, and begins a scan of blocks"""
        inner = OneOrMore("d" + indented_block(Literal("a"))).finalize()

        def action(tokens, loc, string):
            inner.parse("d\n    a\n    a")
            for text in ("d\n   a\n    a", "d\na"):
                try:
                    inner.parse(text, parse_all=True)
                except ParseException:
                    pass
            next(inner.scan_string("d\n   a d\n   a"))

        return self(e).add_parse_action(action)


A, D, E = lit("a"), lit("d"), lit("e")
SELF = ("self",)


def block(e, indented=True):
    return ("block", e, indented)


def rec(e):
    return ("rec", e)


STMTS = (
    rec(alt(group(seq(D, block(SELF))), A)),
    rec(lor(seq(D, block(SELF)), A)),
    rec(alt(seq(D, opt(("name", "x", block(SELF)))), A)),
    rec(alt(seq(D, block(SELF), A), seq(D, block(alt(SELF, E)), E), seq(D, block(SELF)), A)),
    rec(lor(seq(D, block(SELF), A), seq(D, block(A)), seq(D, A), A)),
    rec(alt(seq(look(seq(D, block(A))), D, block(A)), seq(neg(seq(D, block(A))), D, block(SELF)), A)),
    rec(alt(seq(D, block(SELF), opt(seq(E, block(SELF)))), A)),
    rec(alt(seq(D, block(seq(A, block(A)))), A)),
    rec(alt(seq(D, block(many(1, BIG)(block(seq(A, opt(block(SELF))), False)))), A)),
    rec(alt(seq(("nest", D), block(SELF)), ("nest", A))),
    rec(alt(("all", seq(D, block(A)), E), A)),
)


def universe(what):
    out = []
    for s in STMTS:
        out.append(block(s, False))
        out.append(many(1, BIG)(s))
        out.append(seq(opt(s), block(s)))
        if what == "few":
            out.pop()
    if what == "lines":
        return [("ws", LINES, g) for g in out]
    if what == "few_lines":
        return [("ws", LINES, g) for g in out[::2]]
    if what == "comments":
        return [("ws", COMMENTS, g) for g in out]
    return out


LINES = (" ", None)
COMMENTS = (" \n", ("semi",))


class Blocks(conform.Conformance):
    MODEL = Model
    BUILDER = Build

    def top(self, ast):
        return ast[1] if ast[0] == "ws" else self.top_ws


def lines(indents, statements):
    return tuple(" " * i + s + "\n" for s in statements for i in indents)


FEW = lines(range(3), "ad") + (" \n",)
MORE = lines(range(4), "ade") + ("\n", "  \n")
SAME = lines(range(2), ("a", "a a", "d a", "d  a", "e"))
NOTED = lines(range(2), "ad") + ("  ; ", ";\n")
PLAN = {
    "quick": [("few", FEW, 4, 30, False), ("few_lines", FEW, 3, 16, False), ("all", "da\n ", 5, 16, False), ("lines", "da\n ", 5, 16, False), ("all", SAME, 2, 8, False), ("lines", SAME, 2, 8, False), ("comments", NOTED, 3, 16, False)],
    "thorough": [("all", FEW, 5, 30, False), ("lines", FEW, 5, 30, False), ("all", MORE, 4, 30, False), ("lines", MORE, 4, 30, False), ("all", "dae\n ", 7, 30, False), ("lines", "dae\n ", 7, 30, False), ("all", SAME, 4, 30, False), ("lines", SAME, 4, 30, False), ("comments", NOTED, 5, 30, False)],
}
_family = Family(PLAN, universe, {"recog", "end", "tree", "names", "all"}, names=("x",), klass=Blocks)
shards = _family.shards
run_shard = _family.run_shard
replay = _family.replay
