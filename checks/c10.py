# encoding: utf-8
"""the regular-expression form of grammars"""
import itertools
import re

from mc import peg, conform
from mc.build import Builder, attempt, run, FAIL, tree
from mc.family import *
from mc.universe import strings, part, trees
from mo_parsing.whitespaces import NO_WHITESPACE

PID = "C10"
LEVEL = "model_checking"
RULE = (
    "every expression of up to N nodes over every terminal that has a regular expression, sequence, choice, repetition with bounds and stop, option, look-ahead and the wrappers, "
    "every position of every text of up to L characters: the regular expression run by Python's re against the grammar; and the expression as stop_on and as ignored expression against the reference"
)
ASSUMPTIONS = [
    "bounds: size, alphabet and text length as in the plan",
    "a regular expression gives back what it took when what follows does not match, a grammar does not: where the reading with giving back differs from the one without, nothing is compared",
]

A, B = lit("a"), lit("b")
TERMINALS = (
    A, lit("ab"), lit("."), lit("a|b"), ("clit", "aB"), ("kw", "a", None), ("kw", "ab", "b"), ("ckw", "A", None), word("ab"), word("a", "ab"), word("a", "b", 2, 3), word("a.", None, 1, None, "a"), word("ab", None, 2, 2), word("-a", "]^"),
    ("char", "ab", ""), ("char", "", "a"), ("char", "a-", ""), ("char", "^]", ""), ("char", "", "^]"), ("notin", "a", 1, 0), ("notin", "b", 2, 2), ("notin", "a ", 1, 2), ("any",), ("white", " \n", 1, 0), ("white", " ", 1, 2),
    ("empty",), ("nomatch",), ("ls",), ("le",), ("wstart", "ab"), ("wend", "ab"), ("re", "a|b"), ("re", "a*"), ("re", "[^a]+"), ("re", "(a)b|a"),
)
LEAVES = (A, lit("ab"), word("ab"), ("char", "ab", ""), ("re", "a|b"), ("empty",))
FEW = (A, lit("ab"), ("re", "a|b"))
STOP = lambda e: ("many", ("any",), 0, BIG, e)
def once(make):
    """a repetition of a look-behind is refused"""
    return lambda e: None if e[0] == "behind" else make(e)


UNARY = (once(opt), once(many(0, BIG)), once(many(1, BIG)), once(many(1, 2)), once(many(2, 2)), once(many(0, 2)), once(many(0, 1)), once(many(1, 1)), once(many(2, 3)), once(many(2, BIG)), neg, look, STOP, group, supp, comb, name("x"), lambda e: ("rec", e), lambda e: ("skipto", e, False), lambda e: ("skipto", e, True), lambda e: ("behind", e) if e[0] in ("lit", "char") else None)
SOME = (opt, many(0, BIG), many(1, BIG), many(1, 2), many(2, 2), neg, look, STOP, group)
BINARY = (seq, alt, lor)


def universe(u):
    n, which = u
    leaves, unary = {"terminals": (TERMINALS, UNARY), "leaves": (LEAVES, UNARY), "few": (FEW, SOME)}[which]
    for k in range(1, n + 1):
        for t in trees(k, leaves, unary, BINARY, ()):
            yield t


class Backtrack(object):
    """the same grammar read as a regular expression: every way to match, in order of preference"""

    def __init__(self, s):
        self.s = s
        self.n = len(s)
        self.model = peg.Model(s)
        self.steps = 0

    def ends(self, a, p, ws, env=None):
        self.steps += 1
        fn = getattr(self, "e_" + a[0], None)
        if fn is None:
            r = self.model.match(a, p, ws, env)
            return [] if r is None else [r[4]]
        return list(dict.fromkeys(fn(a, p, ws)))

    def matches(self, a, p, ws):
        return bool(self.ends(a, p, ws))

    def shorter(self, a, p, ok):
        """a terminal gives back what it took as long as the rest is still one"""
        r = self.model.match(a, p)
        if r is None:
            # the rest of a longer one may do: the same terminal on a shorter text
            return [q for q in range(self.n, p - 1, -1) if ok(q)]
        return [r[4]] + [q for q in range(self.n, p - 1, -1) if q != r[4] and ok(q)]

    def cut(self, a, p, q):
        r = peg.Model(self.s[:q]).match(a, p)
        return r is not None and r[4] == q

    def e_word(self, a, p, ws):
        return self.shorter(a, p, lambda q: self.cut(a, p, q))

    e_notin = e_white = e_word

    def e_re(self, a, p, ws):
        compiled = re.compile(a[1], re.DOTALL)
        return self.shorter(a, p, lambda q: compiled.fullmatch(self.s, p, q) is not None)

    def skips(self, p, ws):
        """whitespace is given back as well"""
        return range(self.model.skip(p, ws), p - 1, -1)

    def e_seq(self, a, p, ws):
        front = [(p, p)]  # where the next starts looking, and the end of what is matched
        for e in a[1:]:
            more = []
            for at, end in front:
                for start in self.skips(end, ws) if end > p else (end,):
                    for q in self.ends(e, start, ws):
                        more.append((q, end if q == start else q))
            front = list(dict.fromkeys(more))
        return [end for _, end in front]

    def e_alt(self, a, p, ws):
        return [q for e in a[1:] for q in self.ends(e, p, ws)]

    def e_or(self, a, p, ws):
        out = self.e_alt(a, p, ws)
        return out

    def e_many(self, a, p, ws):
        e, mn, mx = a[1:4]
        stop = a[4] if len(a) > 4 else None

        def go(count, end):
            out = []
            for at in self.skips(end, ws):
                if count < mx and not (stop is not None and self.matches(stop, at, ws)):
                    for q in self.ends(e, at, ws):
                        if q > at:
                            out.extend(go(count + 1, q))
            if count >= mn:
                out.append(end)
            return out

        return go(0, p)

    def e_opt(self, a, p, ws):
        return self.ends(a[1], p, ws) + [p]

    def e_not(self, a, p, ws):
        return [] if self.matches(a[1], p, ws) else [p]

    def e_look(self, a, p, ws):
        return [p] if self.matches(a[1], p, ws) else []

    def e_group(self, a, p, ws):
        return self.ends(a[1], p, ws)

    e_supp = e_comb = e_rec = e_group

    def e_name(self, a, p, ws):
        return self.ends(a[2], p, ws)

    def e_skipto(self, a, p, ws):
        out = []
        for q in range(p, self.n + 1):
            for at in self.skips(q, ws):
                for r in self.ends(a[1], at, ws):
                    out.append(r if a[2] else at)
        return out


def plain_reading(ast, ws):
    """
    may the regular expression have to put whitespace where the grammar has none, or the other way around?
    Before a part of a sequence whitespace is only skipped when something came before it.
    """
    if not ws[0]:
        return True
    k = ast[0]
    if k == "seq" and any(peg.nullable(e) for e in ast[1:]):
        return False
    if k == "many" and (peg.nullable(ast[1]) or ast[2] == ast[3] == 1):
        return False
    return all(plain_reading(e, ws) for e in peg.subs(ast))


def regex_of(style, ast):
    try:
        pattern = Builder(style)(ast).__regex__()[1]
    except NotImplementedError:
        return None
    except (TypeError, AttributeError) as cause:
        if "NotImplemented" in str(cause) or "__regex__" in str(cause):
            return None  # none of its own
        raise
    return re.compile(pattern, re.DOTALL)


PLAN = {
    "quick": [
        ((1, "terminals"), "ab. -\n]^|", 2, 4), ((2, "terminals"), "ab \n", 3, 16), ((3, "terminals"), "ab ", 2, 32), ((3, "leaves"), "ab", 3, 16), ((4, "few"), "ab", 3, 24),
    ],
    "thorough": [
        ((1, "terminals"), "ab. -\n]^|$_", 3, 16), ((2, "terminals"), "ab. \n", 4, 64), ((3, "terminals"), "ab \n", 3, 256), ((4, "leaves"), "ab", 4, 256), ((5, "few"), "ab", 3, 512), ((4, "few"), "ab ", 4, 128),
    ],
}

# stop_on and ignore
USE = {"quick": [((2, "terminals"), "ab \n", 3, 16), ((3, "few"), "ab ", 3, 8)], "thorough": [((3, "terminals"), "ab ", 3, 128), ((4, "few"), "ab ", 4, 128)]}

USES = (
    lambda e: ("many", ("any",), 0, BIG, e),
    lambda e: ("many", alt(A, B), 1, 2, e),
    lambda e: seq(("many", word("ab", None, 1, 1), 0, BIG, e), alt(e, ("empty",))),
    lambda e: seq(neg(e), ("any",)),
)


def shards(tier):
    out = []
    for i, row in enumerate(PLAN[tier]):
        out.extend(("form", tier, i, j, row[-1]) for j in range(row[-1]))
    for i, row in enumerate(USE[tier]):
        out.extend(("use", tier, i, j, row[-1]) for j in range(row[-1]))
    return out


def form(ast, ws, style, inputs, rep):
    case = ("form", ast, ws, style, "", 0)
    rep.begin(case)
    ok, regex = attempt(lambda: regex_of(style, ast))
    if not ok:
        rep.violation(case, "a regular expression, or none", regex)
        return
    if regex is None:
        rep.outcome("none offered")
        return
    rep.add("grammars")
    for s in inputs:
        m = peg.Model(s)
        b = Backtrack(s)
        for i in range(len(s) + 1):
            case = ("form", ast, ws, style, s, i)
            rep.begin(case)
            node = m.match(ast, i, ws)
            ends = b.ends(ast, i, ws)
            one = node[4] if node else None
            two = ends[0] if ends else None
            if one != two:
                rep.add("readings_differ")
                continue
            found = regex.match(s, i)
            got = found.end() if found else None
            rep.add("traces_validated_against_impl")
            rep.outcome("match" if found else "no match")
            if one != got:
                rep.violation(case, one, got, note=regex.pattern)
                return
        rep.add("states", len(m.memo))
        rep.add("transitions", m.steps + b.steps)
    rep.end()


class Decided(conform.Conformance):
    """only where the reading with giving back decides the same"""

    def one(self, ast, style, parser, s):
        m, b = peg.Model(s), Backtrack(s)
        e = self.part
        for i in range(len(s) + 1):
            if (m.match(e, i, self.ws) is not None) != b.matches(e, i, self.ws):
                self.rep.add("readings_differ")
                return
        conform.Conformance.one(self, ast, style, parser, s)


def use(e, ws, inputs, rep):
    rep.begin(("use", e, ws))
    ok, regex = attempt(lambda: regex_of("ctor", e))
    if not ok:
        rep.violation(("use", e, ws), "a regular expression, or none", regex)
        return
    if regex is None:
        return
    c = Decided(Tagged(rep, ws, e), {"end", "tree"}, ws, (), (lambda s, p: p) if not ws[0] else conform.settle)
    c.part = e
    for u in USES:
        c.grammar(u(e), "ctor", inputs)


class Tagged(object):
    def __init__(self, rep, ws, e):
        self.rep, self.ws, self.e = rep, ws, e

    def begin(self, case):
        self.rep.begin(("use", self.e, self.ws))

    def violation(self, case, expected, got, note=""):
        self.rep.violation(("use", self.e, self.ws, case[2]), expected, got, note="%r %s" % (case, note))

    def __getattr__(self, n):
        return getattr(self.rep, n)


def context(ws):
    return NO_WHITESPACE if not ws[0] else conform_std


class Nothing(object):
    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


conform_std = Nothing()


def run_shard(shard, tier, rep):
    what, t, i, j, k = shard
    u, alphabet, n, _ = (PLAN if what == "form" else USE)[t][i]
    inputs = list(strings(alphabet, n))
    for x, ast in enumerate(part(universe(u), j, k)):
        for ws in (peg.NOWS, peg.STD):
            if not plain_reading(ast, ws):
                continue
            with context(ws):
                if what == "form":
                    form(ast, ws, "op" if x % 2 else "ctor", inputs, rep)
                else:
                    use(ast, ws, inputs, rep)
        if x == 0 and j == 0:
            rep.sample("%r at every position of %d texts over %r" % (ast, len(inputs), alphabet))


def replay(case, rep):
    ws = peg.NOWS if not case[2][0] else peg.STD
    with context(ws):
        if case[0] == "form":
            form(case[1], ws, case[3], [case[4]], rep)
        else:
            use(case[1], ws, list(strings("ab \n", 3)), rep)
