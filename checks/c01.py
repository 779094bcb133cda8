# encoding: utf-8
import io
import os
import tempfile

from mc import peg, conform
from mc.build import Builder, Whitespace, attempt, tree, ParseException, Literal
from mo_parsing import And, Or, MatchFirst, MatchAll, Many, ZeroOrMore, OneOrMore, Optional, NotAny, Forward
from mc.universe import strings, trees, part

PID = "C01"
LEVEL = "model_checking"
TECH = "explicit-state: reference PEG model over all small grammars x all short inputs, every trace replayed on the library"
RULE = (
    "every grammar of up to N nodes over the listed terminals and combinators, in two construction styles, "
    "on every input of up to L characters: accept/reject, end of match, and parse_all, against a reference PEG; "
    "every way to write a repetition, option, sequence or choice, as what it stands for; "
    "the same through every way in (expression or parser; parse, parse_string, matches, parse_file of a file or of its name)"
)
ASSUMPTIONS = [
    "bounds: grammar size, alphabet and input length as in `shards`",
    "repetition with a minimum over an expression that can match the empty text is left out (a count of empty matches is not defined)",
]

A, AB, B = ("lit", "a"), ("lit", "ab"), ("lit", "b")
W = ("word", "ab")
BIG = peg.BIG


def many(lo, hi):
    def make(e):
        if peg.nullable(e) and lo > 0:
            return None
        return ("many", e, lo, hi)

    return make


def rec(e):
    if not peg.contains(e, ("self",)) or peg.contains(e, ("rec",)):
        return None
    a = ("rec", e)
    return None if peg.left_recursive(a) else a


UNARY = (
    lambda e: ("opt", e),
    many(0, BIG),
    many(1, BIG),
    many(2, 2),
    many(1, 2),
    many(2, BIG),
    many(0, 2),
    lambda e: ("not", e),
    lambda e: ("look", e),
    lambda e: ("group", e),
    lambda e: ("supp", e),
)
BINARY = (
    lambda e, f: ("seq", e, f),
    lambda e, f: ("alt", e, f),
    lambda e, f: ("or", e, f),
)
TERNARY = (
    lambda e, f, g: ("seq", e, f, g),
    lambda e, f, g: ("alt", e, f, g),
    lambda e, f, g: ("or", e, f, g),
)


def universe(name):
    if name.startswith("core"):
        n = int(name[4:])
        return trees(n, (A, AB, B, W), UNARY, BINARY, TERNARY)
    if name.startswith("none"):
        # sequences and choices of nothing
        empty = (("seq",), ("alt",), ("or",), ("all",))
        un = (UNARY[0], many(0, BIG), UNARY[7], UNARY[8], UNARY[9], UNARY[10], lambda e: ("name", "x", e), lambda e: ("act", "join", e))
        return tuple(e for e in trees(int(name[4:]), (A, W) + empty, un, BINARY + (lambda e, f: ("all", e, f),)) if any(hollow(x) for x in walk(e)))
    if name.startswith("rec"):
        n = int(name[3:])
        un = (UNARY[0], UNARY[1], UNARY[2], UNARY[7], UNARY[8])
        return tuple(
            x for e in trees(n, (A, B, ("self",)), un, BINARY, TERNARY[:2])
            for x in [rec(e)] if x is not None
        )
    raise Exception(name)


def walk(e):
    yield e
    for x in peg.subs(e):
        yield from walk(x)


def hollow(e):
    return len(e) == 1 and e[0] in ("seq", "alt", "or", "all")


def times(lo, hi):
    return lambda a: ("many", a, lo, hi)


L = ("lit", "b")
SPELLINGS = {
    # text of it: (how the library is called, what it stands for)
    "e*2": (lambda e: e * 2, times(2, 2)),
    "2*e": (lambda e: 2 * e, times(2, 2)),
    "e*1": (lambda e: e * 1, times(1, 1)),
    "e*0": (lambda e: e * 0, times(0, 0)),
    "e*(2,)": (lambda e: e * (2,), times(2, BIG)),
    "e*(1,)": (lambda e: e * (1,), times(1, BIG)),
    "e*(0,)": (lambda e: e * (0,), times(0, BIG)),
    "e*(2,None)": (lambda e: e * (2, None), times(2, BIG)),
    "e*(None,2)": (lambda e: e * (None, 2), times(0, 2)),
    "e*(None,None)": (lambda e: e * (None, None), times(0, BIG)),
    "e*(1,2)": (lambda e: e * (1, 2), times(1, 2)),
    "(1,2)*e": (lambda e: (1, 2) * e, times(1, 2)),
    "e*(2,2)": (lambda e: e * (2, 2), times(2, 2)),
    "e*(0,0)": (lambda e: e * (0, 0), times(0, 0)),
    "e*(2,...)": (lambda e: e * (2, ...), times(2, BIG)),
    "e*(...,2)": (lambda e: e * (..., 2), times(0, 2)),
    "e*(...,...)": (lambda e: e * (..., ...), times(0, BIG)),
    "e[2]": (lambda e: e[2], times(2, 2)),
    "e[...]": (lambda e: e[...], times(0, BIG)),
    "e[1,...]": (lambda e: e[1, ...], times(1, BIG)),
    "e[...,2]": (lambda e: e[..., 2], times(0, 2)),
    "e[1,2]": (lambda e: e[1, 2], times(1, 2)),
    "e[1:]": (lambda e: e[1:], times(1, BIG)),
    "e[:2]": (lambda e: e[:2], times(0, 2)),
    "e[1:2]": (lambda e: e[1:2], times(1, 2)),
    "e[:]": (lambda e: e[:], times(0, BIG)),
    "e[...:2]": (lambda e: e[...:2], times(0, 2)),
    "e[1:...]": (lambda e: e[1:...], times(1, BIG)),
    "Many(e)": (lambda e: Many(e, min_match=0), times(0, BIG)),
    "Many(e, exact=2)": (lambda e: Many(e, exact=2), times(2, 2)),
    "Many(e, min_match=2)": (lambda e: Many(e, min_match=2), times(2, BIG)),
    "Many(e, 1..3)": (lambda e: Many(e, min_match=1, max_match=3), times(1, 3)),
    "ZeroOrMore(e)": (lambda e: ZeroOrMore(e), times(0, BIG)),
    "OneOrMore(e)": (lambda e: OneOrMore(e), times(1, BIG)),
    "Optional(e)": (lambda e: Optional(e), lambda a: ("opt", a)),
    "e+s": (lambda e: e + "b", lambda a: ("seq", a, L)),
    "s+e": (lambda e: "b" + e, lambda a: ("seq", L, a)),
    "s+e+s": (lambda e: "b" + e + "b", lambda a: ("seq", L, a, L)),
    "And([e, s])": (lambda e: And([e, "b"]), lambda a: ("seq", a, L)),
    "And([e])": (lambda e: And([e]), lambda a: a),
    "e|s": (lambda e: e | "b", lambda a: ("alt", a, L)),
    "s|e": (lambda e: "b" | e, lambda a: ("alt", L, a)),
    "MatchFirst([s, e])": (lambda e: MatchFirst(["b", e]), lambda a: ("alt", L, a)),
    "MatchFirst([e])": (lambda e: MatchFirst([e]), lambda a: a),
    "e^s": (lambda e: e ^ "b", lambda a: ("or", a, L)),
    "s^e": (lambda e: "b" ^ e, lambda a: ("or", L, a)),
    "Or([s, e])": (lambda e: Or(["b", e]), lambda a: ("or", L, a)),
    "~e+s": (lambda e: ~e + "b", lambda a: ("seq", ("not", a), L)),
    "~e": (lambda e: ~e, lambda a: ("not", a)),
    "NotAny(e)": (lambda e: NotAny(e), lambda a: ("not", a)),
    "sum": (lambda e: sum([e, Literal("b")], Literal("b")), lambda a: ("seq", L, a, L)),
    "e|=s": (lambda e: augmented(e, "|"), lambda a: ("alt", a, L)),
    "e+=s": (lambda e: augmented(e, "+"), lambda a: ("seq", a, L)),
    "e^=s": (lambda e: augmented(e, "^"), lambda a: ("or", a, L)),
    "s&e": (lambda e: "b" & e, lambda a: ("all", L, a)),
    "e&s": (lambda e: e & "b", lambda a: ("all", a, L)),
    "s|(e|s)": (lambda e: "b" | (e | "a"), lambda a: ("alt", L, ("alt", a, A))),
    "(s|e)|s": (lambda e: ("b" | e) | "a", lambda a: ("alt", ("alt", L, a), A)),
    "And(tuple)": (lambda e: And((e, "b")), lambda a: ("seq", a, L)),
    "And(generator)": (lambda e: And(x for x in ["b", e]), lambda a: ("seq", L, a)),
    "MatchFirst(generator)": (lambda e: MatchFirst(x for x in [e, "b"]), lambda a: ("alt", a, L)),
    "Or(tuple)": (lambda e: Or((e, "b")), lambda a: ("or", a, L)),
    "And(e)": (lambda e: And(e), lambda a: a),
    "MatchFirst(e)": (lambda e: MatchFirst(e), lambda a: a),
    "Or(e)": (lambda e: Or(e), lambda a: a),
    "MatchAll(e)": (lambda e: MatchAll(e), lambda a: ("all", a)),
    "e+And([])": (lambda e: e + And([]), lambda a: ("seq", a, ("seq",))),
    "e|MatchFirst([])": (lambda e: e | MatchFirst([]), lambda a: ("alt", a, ("alt",))),
    "MatchFirst([])|e": (lambda e: MatchFirst([]) | e, lambda a: ("alt", ("alt",), a)),
    "e^Or([])": (lambda e: e ^ Or([]), lambda a: ("or", a, ("or",))),
    "Forward(e)": (lambda e: Forward(e), lambda a: a),
    "Forward()<<Forward(e)": (lambda e: Forward() << Forward(e), lambda a: a),
    "e.suppress()": (lambda e: e.suppress(), lambda a: ("supp", a)),
}
AFTER = {
    "alone": (lambda e: e, lambda a: a),
    "followed": (lambda e: e + "b", lambda a: ("seq", a, L)),
    "lead": (lambda e: "b" + e, lambda a: ("seq", L, a)),
    "twice": (lambda e: e + e, lambda a: ("seq", a, a)),
}


def augmented(e, op):
    f = e
    if op == "|":
        f |= "b"
    elif op == "+":
        f += "b"
    else:
        f ^= "b"
    return f


class Spelled(object):
    def __init__(self, style, share):
        self.style = style

    def __call__(self, ast):
        leaf, key, after = self.style
        return AFTER[after][0](SPELLINGS[key][0](Builder("ctor")(leaf)))


class Spellings(conform.Conformance):
    BUILDER = Spelled


def spellings(leaf, inputs, rep):
    c = Spellings(rep, {"recog", "end", "all", "tree"})
    for key, (_, means) in SPELLINGS.items():
        for after, (_, around) in AFTER.items():
            ast = means(leaf)
            if ast[0] == "many" and peg.nullable(leaf) and ast[2]:
                continue
            c.grammar(around(ast), (leaf, key, after), inputs)


BLANK = (" ", None)
settle_blank = lambda s, p: conform.settle(s, p, " ")


def shards(tier):
    plan = [("core1", "ab ", 5, 1), ("core2", "ab ", 5, 1), ("core3", "ab ", 5, 8)]
    if tier == "quick":
        plan += [("core4", "ab ", 4, 32), ("rec3", "ab ", 5, 4), ("rec4", "ab ", 4, 8), ("rec5", "ab", 5, 16)]
        plan += [("ends-core2", "a \r\n", 6, 2), ("ends-core3", "ab\r\n", 4, 8), ("ways-core2", "ab ", 3, 1), ("ways-core3", "ab", 3, 4), ("spell-core2", "ab ", 3, 8), ("spell-core1", "ab ", 5, 8), ("none2", "ab ", 3, 1), ("none3", "ab ", 3, 4)]
    else:
        plan += [("core4", "ab ", 6, 128), ("core5", "ab ", 4, 256), ("rec3", "ab ", 6, 4), ("rec4", "ab ", 6, 16), ("rec5", "ab ", 5, 64), ("rec6", "ab", 6, 128)]
        plan += [("ends-core2", "ab \r\n", 6, 8), ("ends-core3", "ab \r\n", 5, 64), ("ways-core3", "ab ", 4, 32), ("ways-rec4", "ab ", 3, 16), ("spell-core1", "ab ", 6, 4), ("spell-core2", "ab ", 5, 16), ("spell-core3", "ab ", 4, 128), ("none3", "ab ", 5, 8), ("none4", "ab ", 3, 64)]
    return [(u, al, n, i, k) for u, al, n, k in plan for i in range(k)]


class Blank(object):
    """made and finalized in a context where only blanks are insignificant"""

    def __init__(self, style, share):
        self.builder = Builder(style, share)

    def __call__(self, ast):
        self.ast = ast
        return self

    def finalize(self):
        with Whitespace(" "):
            return self.builder(self.ast).finalize()


class Ends(conform.Conformance):
    BUILDER = Blank


def run_shard(shard, tier, rep):
    u, alphabet, n, i, k = shard
    inputs = list(strings(alphabet, n))
    kind, _, u = u.rpartition("-")
    if kind == "ends":
        c = Ends(rep, {"recog", "end", "all"}, BLANK, (), settle_blank)
        for j, ast in enumerate(part(universe(u), i, k)):
            c.grammar(ast, "op" if j % 2 else "ctor", inputs)
        return
    if kind == "spell":
        for ast in part(universe(u), i, k):
            spellings(ast, inputs, rep)
        return
    if kind == "ways":
        for j, ast in enumerate(part(universe(u), i, k)):
            ways(ast, "op" if j % 2 else "ctor", inputs, rep)
        return
    c = conform.Conformance(rep, {"recog", "end"})
    call = conform.Conformance(rep, {"recog", "end", "all"})
    for j, ast in enumerate(part(universe(u), i, k)):
        style = "op" if j % 2 else "ctor"
        if u in ("core1", "core2", "core3", "rec3", "none2", "none3"):
            call.grammar(ast, "ctor", inputs)
            call.grammar(ast, "op", inputs)
        else:
            c.grammar(ast, style, inputs)
        if j == 0 and i == 0:
            rep.sample("%r on %r" % (ast, inputs[-1]))


def from_file(p, s, all_):
    fd, path = tempfile.mkstemp(prefix="c01")
    try:
        with os.fdopen(fd, "w", newline="") as f:
            f.write(s)
        return p.parse_file(path, parse_all=all_)
    finally:
        os.remove(path)


WAYS = {
    "parse": lambda p, s, all_: p.parse(s, parse_all=all_),
    "parse, positional": lambda p, s, all_: p.parse(s, all_),
    "parse_string": lambda p, s, all_: p.parse_string(s, parse_all=all_),
    "matches": lambda p, s, all_: p.matches(s, parse_all=all_),
    "file": lambda p, s, all_: p.parse_file(io.StringIO(s), parse_all=all_),
    "file, positional": lambda p, s, all_: p.parse_file(io.StringIO(s), all_),
    "file name": from_file,
}
NONE_GIVEN = {
    "parse": (False, lambda p, s: p.parse(s)),
    "parse_string": (False, lambda p, s: p.parse_string(s)),
    "matches": (True, lambda p, s: p.matches(s)),
    "file": (False, lambda p, s: p.parse_file(io.StringIO(s))),
}
PARSER_WAYS = ("parse", "parse, positional", "parse_string")


def ways(ast, style, inputs, rep):
    case = (ast, style, "", "ways")
    rep.begin(case)
    ok, made = attempt(lambda: (Builder(style)(ast), Builder(style)(ast).finalize()))
    if not ok:
        rep.violation(case, "the grammar can be made", made)
        return
    e, parser = made
    rep.add("grammars")
    for s in inputs:
        case = (ast, style, s, "ways")
        rep.begin(case, 60)
        m = peg.Model(s)
        node = m.match(ast, m.skip(0, peg.STD))
        rep.add("states", len(m.memo) + 1)
        rep.add("transitions", m.steps)
        accepts = {False: node is not None, True: node is not None and conform.accepts_all(m, node[4])}
        calls = [
            (name, all_, lambda fn=fn, p=p, all_=all_: fn(p, s, all_))
            for all_ in (False, True)
            for name, fn in WAYS.items()
            for p in ((e, parser) if name in PARSER_WAYS else (e,))
        ] + [(name + ", no option", all_, lambda fn=fn: fn(e, s)) for name, (all_, fn) in NONE_GIVEN.items()]
        first = None
        for name, all_, call in calls:
            rep.add("traces_validated_against_impl")
            try:
                got = call()
                got = got if got is True or got is False else (True, got.start, got.end, tree(got))
            except ParseException:
                got = None
            except Exception as cause:
                got = repr(cause)
            if name.startswith("matches"):
                want, have = accepts[all_], got
            else:
                want, have = accepts[all_], got[0] if isinstance(got, tuple) else False if got is None else got
                if want is have is True:
                    # all of them give the same result
                    first = first or got
                    want, have = first, got
            if want != have or type(want) != type(have):
                rep.violation(case, want, have, note="%s, parse_all %s" % (name, all_))
                break
        rep.outcome("match, all" if accepts[True] else "match" if accepts[False] else "no match")
    rep.end()


def replay(case, rep):
    ast, style, s, parse_all = case
    if parse_all == "ways":
        return ways(ast, style, [s], rep)
    if isinstance(style, tuple):
        return Spellings(rep, {"recog", "end", "all", "tree"}).grammar(ast, style, [s])
    c = conform.Conformance(rep, {"recog", "end", "all"})
    c.grammar(ast, style, [s])
    c = Ends(rep, {"recog", "end", "all"}, BLANK, (), settle_blank)
    c.grammar(ast, style, [s])
