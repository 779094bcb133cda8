# encoding: utf-8
"""SkipTo and `...`"""
import itertools

from mc import peg, conform
from mc.build import Builder, SkipTo, And, Literal
from mc.family import *
from mc.universe import trees

PID = "C25"
LEVEL = "model_checking"
RULE = (
    "SkipTo over every target of up to N nodes, with and without include, every ignore and fail_on expression of the lists, inside every context of the list, and every way to write `...`, "
    "on every input of up to L characters, against the reference"
)
ASSUMPTIONS = [
    "bounds: size of target, ignore and fail_on expressions, alphabet and input length as in the plan",
    "whitespace directly before the target is not part of the skipped text; conditions on the target are decided as in look-ahead (callDuringTry)",
]

A, B, C = lit("a"), lit("b"), lit("c")
LEAVES = (A, B, lit("ab"), word("ab"), ("empty",), ("se",), ("nomatch",))
UNARY = (opt, many(1, BIG), neg, look, group, name("x"), supp, comb)
IGNORE = (None, C, seq(C, B), ("many", C, 1, 2), opt(C), ("re", "c[^b]*b"), group(seq(C, A)), look(C))
FAILS = (None, C, seq(B, C), word("c"), ("rec", alt(C, seq(B, ("self",)))))

CONTEXT = (
    lambda s, t: seq(A, s),
    lambda s, t: seq(s, t),
    lambda s, t: seq(A, s, t),
    lambda s, t: seq(s, opt(C)),
    lambda s, t: seq(s, C),
    lambda s, t: ("many", s, 0, BIG),
    lambda s, t: ("many", seq(s, t), 0, BIG),
    lambda s, t: ("many", seq(A, s), 1, 2),
    lambda s, t: opt(s),
    lambda s, t: ("opt", s, "none"),
    lambda s, t: alt(s, B),
    lambda s, t: alt(C, s, B),
    lambda s, t: lor(s, C, word("abc")),
    lambda s, t: group(s),
    lambda s, t: seq(group(s), t),
    lambda s, t: comb(s),
    lambda s, t: supp(s),
    lambda s, t: look(s),
    lambda s, t: neg(s),
    lambda s, t: ("name", "x", s),
    lambda s, t: seq(("name", "x", s), ("name", "y", t)),
    lambda s, t: ("act", "join", s),
    lambda s, t: ("cond", "even", s),
    lambda s, t: ("rec", s),
    lambda s, t: ("skipto", s, False),
    lambda s, t: ("skipto", s, True),
)


def std(e):
    return ("ws", peg.STD, e)


# made where whitespace is skipped, used where it is not
MIXED = (
    lambda s, t: ("ws", peg.NOWS, seq(std(s), std(t))),
    lambda s, t: ("ws", peg.NOWS, seq(std(A), std(s), C)),
    lambda s, t: ("ws", peg.NOWS, seq(std(s), lit(" "), t)),
    lambda s, t: ("ws", peg.NOWS, ("many", seq(std(s), t), 1, BIG)),
    lambda s, t: seq(("ws", peg.NOWS, s), t),
    lambda s, t: ("ws", peg.NOWS, seq(A, s, t)),
)


def targets(n):
    return [t for t in itertools.chain(*(trees(k, LEAVES, UNARY, (seq, alt, lor, lambda e, f: ("all", e, f)), ()) for k in range(1, n + 1)))]


def skips(ts, ignores, fails):
    for t in ts:
        for inc in (False, True):
            for i in ignores:
                for f in fails:
                    if f is not None:
                        yield t, ("skipto", t, inc, i, f)
                    elif i is not None:
                        yield t, ("skipto", t, inc, i)
                    else:
                        yield t, ("skipto", t, inc)




def sequences(n):
    items = (A, B, opt(C), seq(B, C), alt(B, C), group(B), word("bc"), ("name", "x", B))
    for k in range(2, n + 1):
        for p in itertools.product(items, repeat=k):
            # dots before any of them, not before the first unless built by constructor
            for where in itertools.product((0, 1), repeat=k):
                if any(where):
                    yield ("dotted", where) + p
            if k == 2:
                yield ("ordots",) + p
    for p in itertools.product(items, repeat=3):
        yield ("ordots",) + p


def universe(kind):
    k, n = kind.split("-")
    n = int(n)
    if k == "plain":
        return (s for _, s in skips(targets(n), (None,), (None,)))
    if k == "full":
        return (s for _, s in skips(targets(n), IGNORE, FAILS))
    if k == "context":
        return (c(s, t) for t, s in skips(targets(n), IGNORE[:2] + (opt(C),), FAILS[:2]) for c in CONTEXT if ok(c(s, t)))
    if k == "mixed":
        return (c(s, t) for t, s in skips(targets(n), IGNORE[:2] + (opt(C),), FAILS[:2]) for c in MIXED if not peg.nullable(t))
    if k == "dots":
        return sequences(n)
    raise Exception()


def ok(e):
    return not (e[0] == "many" and e[2] and peg.nullable(e[1]))


class Model(peg.Model):
    __slots__ = []

    def m_dotted(self, a, p, ws, env):
        where, es = a[1], a[2:]
        return self.match(keep(("seq",) + tuple(itertools.chain(*(
            (("name", "_skipped", ("skipto", e, False)), e) if w else (e,)
            for w, e in zip(where, es)
        )))), p, ws, env)

    def m_ordots(self, a, p, ws, env):
        # before + (e | ...) + after
        es = a[1:]
        if len(es) == 2:
            es = (A,) + es
        before, e, after = es
        return self.match(keep(seq(before, opt(e), ("name", "_skipped", ("skipto", after, False)), after)), p, ws, env)


KEPT = {}


def keep(e):
    return KEPT.setdefault(e, e)


class DotBuilder(Builder):
    def b_dotted(self, where, *es):
        if self.op:
            out = None
            for w, e in zip(where, es):
                e = self(e)
                if out is None:
                    out = ... + e if w else e
                elif w:
                    out = out + ...
                    out = out + e
                else:
                    out = out + e
            return out
        parts = []
        for w, e in zip(where, es):
            if w:
                parts.append(...)
            parts.append(self(e))
        return And(parts)

    def b_ordots(self, *es):
        if len(es) == 2:
            es = (A,) + es
        before, e, after = map(self, es)
        if self.op:
            return before + (e | ...) + after
        first = before + (e | ...)
        first + Literal("never")  # what is made from a part does not change the part
        return first + after


class Dotted(conform.Conformance):
    MODEL = Model
    BUILDER = DotBuilder

    def top(self, ast):
        return ast[1] if ast[0] == "ws" else self.top_ws

    def details(self, case, node, got, s):
        a = case[0]
        while a[0] in ("group", "name", "seq"):
            a = a[-1]
        if a[0] == "skipto" and not a[2] and got.end != node[4]:
            # it ends where what it looks for begins
            self.rep.violation(case, node[4], got.end, note="end of skipped text")
            return
        conform.Conformance.details(self, case, node, got, s)


F = Family(
    {
        "quick": [("plain-2", "abc ", 4, 8, 1), ("plain-3", "ab ", 3, 32, 0), ("full-1", "abc ", 4, 16, 0), ("full-2", "abc", 3, 32, 0), ("context-1", "abc ", 3, 32, 0), ("mixed-1", "abc ", 4, 16, 0), ("dots-2", "abc ", 4, 16, 1), ("dots-3", "abc", 3, 32, 0)],
        "thorough": [("plain-3", "abc ", 5, 64, 1), ("plain-4", "abc ", 3, 256, 0), ("full-1", "abc ", 6, 64, 1), ("full-2", "abc ", 4, 256, 1), ("context-1", "abc ", 5, 128, 1), ("context-2", "abc", 4, 256, 0), ("mixed-1", "abc ", 5, 64, 1), ("mixed-2", "abc ", 4, 256, 0), ("dots-3", "abc ", 5, 128, 1)],
    },
    universe,
    {"recog", "end", "tree", "names", "list"},
    names=("x", "y", "_skipped"),
    klass=Dotted,
)
shards, run_shard, replay = F.shards, F.run_shard, F.replay
