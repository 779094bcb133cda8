# encoding: utf-8
"""deriving an expression from another leaves the other as it was"""
import contextlib
import io
import itertools

from mc.build import attempt, outcome, snapshot, ParseException
from mc.universe import part
from mo_parsing import *
from mo_parsing import whitespaces
from mo_parsing.enhancement import OpenDict, Many
from mo_parsing.tokens import Empty, Char
from mo_parsing.helpers import (
    counted_array, nested_expr, indented_block, delimited_list, originalTextFor, located_expr, dict_of, ungroup,
)
from mo_parsing.infix import infix_notation, LEFT_ASSOC, RIGHT_ASSOC

PID = "C05"
LEVEL = "exploration"
RULE = (
    "every sequence of up to N steps, each a derivation (of every kind, unary from any expression made so far, binary from any two) or an observation (finalizing, parsing, scanning, printing, asking for its regex) of any expression made so far, "
    "starting with every base expression: afterwards every expression made answers on every text as one made by itself, by its own derivations alone, out of fresh parts. An outcome is non-trivial when the text was matched"
)
ASSUMPTIONS = [
    "bounds: base expressions, derivations and texts listed in the check; number of steps",
    "set_parser_name and setFailAction change the expression they are called on, as documented; leave_whitespace is not covered",
    "the expression given to matchPreviousLiteral/Expr remembers what it matched, as documented",
]

TEXTS = ("a", "b", "ab", "a b a", "aab b", "1", "")


def upper(t):
    return [x.upper() if isinstance(x, str) else x for x in t]


def wrap(t):
    return ["<%s>" % x if isinstance(x, str) else x for x in t]


def short(t):
    return len(list(t)) < 2


def recursive():
    f = Forward()
    f << "a" + Optional(f)
    return f


def late():
    f = Forward()
    e = Group(f) | "b"
    f << Word("a")
    return e


BASES = {
    "literal": lambda: Literal("a"),
    "word": lambda: Word("ab"),
    "named": lambda: Word("ab")("n"),
    "acted": lambda: Word("ab").add_parse_action(wrap),
    "keyword": lambda: Keyword("a"),
    "caseless": lambda: CaselessLiteral("A"),
    "char": lambda: Char("ab"),
    "regex": lambda: Regex("(?P<r>a)b?"),
    "seq": lambda: Literal("a") + Literal("b"),
    "namedseq": lambda: Literal("a")("n") + Literal("b"),
    "alt": lambda: Literal("a") | Literal("b"),
    "longest": lambda: Literal("a") ^ Literal("ab"),
    "all": lambda: Literal("a") & Literal("b"),
    "some": lambda: OneOrMore(Char("ab")),
    "any": lambda: ZeroOrMore(Literal("a")("n")),
    "option": lambda: Optional("a", default="d"),
    "group": lambda: Group(OneOrMore(Word("ab", exact=1))),
    "suppressed": lambda: Suppress("a"),
    "combined": lambda: Combine(Literal("a") + "b"),
    "not": lambda: ~Literal("b"),
    "empty": lambda: Empty(),
    "recursive": recursive,
    "late": late,
    "skip": lambda: SkipTo("b"),
    "block": lambda: indented_block(Literal("a")),
    "infix": lambda: infix_notation(Word("ab", exact=1), [("-", 2, LEFT_ASSOC)]),
}


def under(white, fn):
    def derive(*es):
        with Whitespace(white):
            return fn(*es)

    return derive


def ignoring(e):
    with Whitespace() as w:
        w.add_ignore(e)
        return OneOrMore(Word("ab"))


def defined(e):
    f = Forward()
    f << e
    return f


UNARY = {
    "x": lambda e: e("x"),
    "y": lambda e: e.set_token_name("y"),
    "wrap": lambda e: e.add_parse_action(wrap),
    "upper": lambda e: e / upper,
    "const": lambda e: e / 5,
    "sub": lambda e: e.sub("_"),
    "cond": lambda e: e.add_condition(short),
    "trycond": lambda e: e.add_condition(short, callDuringTry=True, message="too long"),
    "clear": lambda e: e.clear_parse_action(),
    "copy": lambda e: e.copy(),
    "suppress": lambda e: e.suppress(),
    "Suppress": Suppress,
    "Group": Group,
    "Combine": Combine,
    "not": lambda e: ~e + Word("ab"),
    "look": lambda e: FollowedBy(e) + Word("ab"),
    "twice": lambda e: e * 2,
    "some": lambda e: e[1:],
    "Some": OneOrMore,
    "Any": lambda e: ZeroOrMore(e, stop_on="b"),
    "Optional": lambda e: Optional(e, default="none"),
    "streamline": lambda e: e.streamline(),
    "defined": defined,
    "list": lambda e: delimited_list(e),
    "skipto": lambda e: SkipTo(e, include=True),
    "rest": lambda e: e + ... + Literal("b"),
    "text": originalTextFor,
    "located": located_expr,
    "ungroup": ungroup,
    "Dict": lambda e: Dict(Group(e)),
    "block": indented_block,
    "array": lambda e: counted_array(e, int_expr=Word("b") / (lambda t: len(t[0]))),
    "nested": lambda e: nested_expr("a", "b", content=e),
    "infix": lambda e: infix_notation(e, [("-", 1, RIGHT_ASSOC), ("+", 2, LEFT_ASSOC)]),
    "ignored": ignoring,
    "tight": under("", lambda e: e + "b"),
    "tightmany": under("", lambda e: OneOrMore(e)),
    "guarded": lambda e: "a" - e,
}
BINARY = {
    "+": lambda e, f: e + f,
    "|": lambda e, f: e | f,
    "^": lambda e, f: e ^ f,
    "&": lambda e, f: e & f,
    "tight+": under("", lambda e, f: e + f),
    "stop": lambda e, f: OneOrMore(e, stop_on=f),
}


def quietly(fn):
    def look(e):
        with contextlib.redirect_stdout(io.StringIO()):
            outcome(lambda: fn(e))

    return look


LOOKS = {
    "finalize": quietly(lambda e: e.finalize()),
    "tightly": quietly(under("", lambda e: e.finalize().parse("a b"))),
    "parse": quietly(lambda e: e.parse("a b a")),
    "whole": quietly(lambda e: e.parse("1", parse_all=True)),
    "scan": quietly(lambda e: list(e.scan_string("a b 1 ab"))),
    "search": quietly(lambda e: e.search_string("1a b")),
    "transform": quietly(lambda e: e.transform_string("1a b")),
    "split": quietly(lambda e: list(e.split("1a b"))),
    "str": quietly(lambda e: str(e)),
    "regex": quietly(lambda e: e.__regex__()),
    "min": quietly(lambda e: (e.min_length(), e.expecting(), e.is_annotated(), e.whitespace)),
    "check": quietly(lambda e: e.check_recursion()),
    "matches": quietly(lambda e: (e.matches("a"), e == e, hash(e))),
}
SHORT = ("x", "wrap", "cond", "clear", "Suppress", "Group", "Combine", "Some", "Optional", "streamline", "tight", "not")
SHORT_LOOKS = ("parse", "tightly", "str", "regex")
SHORT_BASES = ("word", "acted", "seq", "namedseq", "alt", "some", "option", "group", "suppressed", "recursive", "regex", "any")
QUICK = (
    "x", "wrap", "const", "cond", "clear", "copy", "suppress", "Group", "Combine", "not", "twice", "Some", "Any", "Optional", "streamline", "defined", "list", "skipto", "text", "block", "array", "infix", "ignored", "tight",
)
PLAN = {"quick": [("most", 2, 64)], "thorough": [("full", 2, 64), ("short", 3, 512)]}
USED = {
    "full": (tuple(BASES), tuple(UNARY), tuple(BINARY), tuple(LOOKS)),
    "most": (tuple(BASES), QUICK, ("+", "|", "&"), ("finalize", "tightly", "scan", "str", "regex")),
    "short": (SHORT_BASES, SHORT, ("+", "|"), SHORT_LOOKS),
}


def shards(tier):
    return [(tier, row[0], row[1], j, row[2]) for row in PLAN[tier] for j in range(row[2])]


def steps(used, made):
    """what may be done when so many expressions were made"""
    _, unary, binary, looks = used
    for i in range(made):
        for u in unary:
            yield (u, i)
        for o in looks:
            yield (o, i)
        for j in range(made):
            for b in binary:
                yield (b, i, j)


def histories(used, n):
    def go(h, made):
        if len(h) == n:
            yield h
            return
        for s in steps(used, made):
            if s[0] in LOOKS and len(h) == n - 1:
                # nothing is made of it: only what it does to the others, which is what it does alone
                if n > 1 and s[1] != made - 1:
                    continue
            yield from go(h + (s,), made + (s[0] not in LOOKS))

    for base in used[0]:
        for h in go((), 1):
            yield base, h


def make(step, pool):
    fn = UNARY.get(step[0]) or BINARY[step[0]]
    return fn(*(pool[i] for i in step[1:]))


def recipe(base, made, k):
    """the derivations that expression k is made by, renumbered; what is used twice is one expression"""
    needed = set()

    def need(i):
        if i not in needed:
            needed.add(i)
            if i:
                for j in made[i - 1][1:]:
                    need(j)

    need(k)
    number = {i: n for n, i in enumerate(sorted(needed | {0}))}
    return (base,) + tuple((made[i - 1][0],) + tuple(number[j] for j in made[i - 1][1:]) for i in sorted(needed) if i)


def fresh(r):
    pool = [BASES[r[0]]()]
    for s in r[1:]:
        pool.append(make(s, pool))
    return pool[-1]


def answers(e):
    ok, parser = attempt(lambda: e.finalize())
    if not ok:
        return ("can not finalize", parser[1])
    # what failures name depends on how many objects say the same thing
    return tuple(outcome(lambda: snapshot(parser.parse(s)))[:2] for s in TEXTS)


def expected(t, memo):
    got = memo.get(t)
    if got is None:
        if len(memo) > 20000:
            memo.clear()
        with contextlib.redirect_stdout(io.StringIO()):
            ok, e = attempt(lambda: fresh(t))
            got = memo[t] = answers(e) if ok else ("refused", e[1])
    return got


def one(base, h, rep, memo):
    case = (base, h)
    rep.begin(case)
    pool = [BASES[base]()]
    made = []
    with contextlib.redirect_stdout(io.StringIO()):
        for s in h:
            if s[0] in LOOKS:
                LOOKS[s[0]](pool[s[1]])
                continue
            ok, e = attempt(lambda: make(s, pool))
            made.append(s)
            if not ok:
                want = expected(recipe(base, made, len(made)), memo)
                if want[0] != "refused":
                    rep.violation(case, want, e, note="derivation refused")
                    return
                rep.outcome("refused")
                rep.end()
                return
            pool.append(e)
        for k, e in enumerate(pool):
            got = answers(e)
            want = expected(recipe(base, made, k), memo)
            rep.add("evaluations", len(TEXTS))
            if got != want:
                rep.violation(case, want, got, note="expression %d: %r" % (k, recipe(base, made, k)))
                return
            if any(g[0] == "gave" for g in got):
                rep.add("distinct_nontrivial")
    rep.outcome("%d expressions" % len(pool))
    rep.end()


def run_shard(shard, tier, rep):
    _, which, n, j, k = shard
    memo = {}
    for x, (base, h) in enumerate(part(histories(USED[which], n), j, k)):
        rep.add("histories")
        one(base, h, rep, memo)
        if x == 20:
            rep.sample("%s then %r" % (base, h))


def replay(case, rep):
    base, h = case
    one(base, h, rep, {})
