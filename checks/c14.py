# encoding: utf-8
import functools

from mc import peg, conform
from mc.build import Builder, attempt, run, tree, FAIL, ParseException, ParseResults, val
from mc.family import *
from mc.universe import trees, strings, part

PID = "C14"
LEVEL = "model_checking"
RULE = (
    "every grammar of up to N nodes with parse actions (keeping, replacing by one value, by a list, by nothing, chained) and conditions (also as actions that raise ParseException) on any "
    "sub-expressions, every input of up to L characters: success, end, tokens against the reference; every call of an action is checked to be a real match of its expression, with its start, its tokens and the text"
)
ASSUMPTIONS = [
    "bounds: grammar size, alphabet and input length as in the plan",
    "how often an action runs during look-ahead and backtracking is not specified; that it runs only for matches of its expression is",
]


def act(i):
    return lambda e: ("act", i, e)


def cond(i):
    return lambda e: ("cond", i, e)


LEAVES = (lit("a"), word("ab"), ("act", "upper", lit("b")), ("cond", "two", word("ab")), ("act", "zero", lit("a")))
FALSY = (("act", "nothing", lit("a")), ("act", "false", word("ab")), ("act", "nones", lit("b")))
UNARY = (
    opt,
    many(0, BIG),
    many(1, 2),
    many(1, 1),
    group,
    supp,
    look,
    neg,
    named("x"),
    act("upper"),
    act("join"),
    act("drop"),
    act("pair"),
    act("none"),
    act("nothing"),
    cond("even"),
    cond("never"),
)
BINARY = (seq, alt, lor)


def universe(u):
    if u.startswith("rec"):
        out = []
        for e in trees(int(u[3:]), (lit("a"), ("act", "upper", lit("b")), ("self",)), (opt, act("join"), act("pair"), cond("even"), group), (seq, alt), (seq,)):
            if peg.contains(e, ("self",)) and peg.contains(e, ("act", "cond")) and not peg.left_recursive(("rec", e)):
                out.append(("rec", e))
        return out
    if u.startswith("fal"):
        out = trees(int(u[3:]), FALSY + (lit("a"),), (opt, many(0, BIG), group, supp, named("x"), act("nothing"), act("false"), act("nones"), act("none")), BINARY)
        return [e for e in out if peg.contains(e, ("act", "cond"))]
    out = trees(int(u[3:]), LEAVES, UNARY, BINARY)
    return [e for e in out if peg.contains(e, ("act", "cond"))]


class Keeper(object):
    """its instances can be called, and so can its methods"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, t, i, s):
        return self.fn(t, i, s)

    def zero(self):
        return self.fn(None, None, None)

    def one(self, t):
        return self.fn(t, None, None)

    def two(self, t, i):
        return self.fn(t, i, None)

    def rest(self, *args):
        return self.fn(*args)


class Caller(object):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, tokens):
        return self.fn(tokens, None, None)


def static(fn):
    class Holder(object):
        @staticmethod
        def some(tokens, start):
            return fn(tokens, start, None)

    return Holder


def klass(fn):
    class Holder(object):
        @classmethod
        def some(cls, tokens, start, string):
            return fn(tokens, start, string)

    return Holder


def wrapped(fn):
    @functools.wraps(fn)
    def other(tokens, start):
        return fn(tokens, start, None)

    del other.__wrapped__
    return other


def keywords(fn):
    def some(tokens, *, start="not given"):
        assert start == "not given"
        return fn(tokens, None, None)

    return some


def options(fn):
    def some(tokens, start=None, **more):
        assert not more
        return fn(tokens, start, None)

    return some


def begins(fn):
    def some(tokens, *more):
        return fn(tokens, *more)

    return some


#: every kind of thing that can be called
FORMS = {
    "one": lambda fn: lambda t: fn(t, None, None),
    "two": lambda fn: lambda t, i: fn(t, i, None),
    "three": lambda fn: lambda t, i, s: fn(t, i, s),
    "any": lambda fn: lambda *args: fn(*args),
    "begins": begins,
    "options": options,
    "keywords": keywords,
    "wrapped": wrapped,
    "method1": lambda fn: Keeper(fn).one,
    "method2": lambda fn: Keeper(fn).two,
    "methods": lambda fn: Keeper(fn).rest,
    "object3": Keeper,
    "object1": Caller,
    "static": lambda fn: static(fn).some,
    "staticmethod": lambda fn: static(fn).__dict__["some"],
    "static of object": lambda fn: static(fn)().some,
    "class method": lambda fn: klass(fn).some,
    "class method of object": lambda fn: klass(fn)().some,
    "partial": lambda fn: functools.partial(lambda n, t, i: fn(t, i, None), 0),
    "partial named": lambda fn: functools.partial(lambda t, i, s, n: fn(t, i, s), n=0),
}

#: built in functions, without anything around them; and what is no function at all
BUILT_IN = {"len": len, "sorted": sorted, "list": list, "tuple": tuple, "any": any, "all": all, "min": min, "max": max, "str join": "-".join, "set": set, "bool": bool}
CONSTANTS = {"five": 5, "word": "w", "no": None, "two": (1, 2), "yes": True}


class Made(object):
    """a class as action: the new object is the token"""

    def __init__(self, tokens, start, string):
        self.seen = tuple(tokens), start, string

    def __eq__(self, other):
        return isinstance(other, Made) and self.seen == other.seen

    def __hash__(self):
        return hash(self.seen)

    def __repr__(self):
        return "Made%r" % (self.seen,)


class Called(Made):
    def __init__(self, tokens):
        self.seen = tuple(tokens)

    def __call__(self, tokens):
        return "called"


class Model(peg.Model):
    __slots__ = []

    def m_plain(self, a, p, ws, env):
        _, what, e = a
        r = self.match(e, p, ws, env)
        if r is not None:
            tokens = list(peg.items(r[2]))
            if what in BUILT_IN:
                got = BUILT_IN[what](tokens)
            elif what in CONSTANTS:
                got = CONSTANTS[what]
                return [r[0], r[1], [got], r[3], r[4]]
            elif what == "made":
                got = Made(tokens, p, self.s)
            else:
                got = Called(tokens)
            return [r[0], r[1], list(got) if isinstance(got, (list, tuple)) else [got], r[3], r[4]]


peg.KINDS.add("plain")


class Watching(Builder):
    """actions of every arity; conditions also as actions that raise"""

    def __init__(self, style, calls, form=None):
        Builder.__init__(self, style)
        self.calls = calls
        self.form = form
        self.n = 0

    def b_act(self, ident, e):
        fn = peg.ACTIONS[ident]
        ast = e
        calls = self.calls
        self.n += 1

        def seen(tokens, start, string):
            calls.append((ast, start, tree(tokens), string))
            return fn(list(tokens))

        if self.form:
            action = FORMS[self.form](seen)
        elif self.n % 3 == 0:
            def action(tokens, start, string):
                return seen(tokens, start, string)
        elif self.n % 3 == 1:
            def action(tokens, start):
                return seen(tokens, start, None)
        else:
            def action(tokens):
                return seen(tokens, None, None)
        if self.op:
            return self(e) / action
        return self(e).add_parse_action(action)

    def b_cond(self, ident, e):
        fn = peg.CONDITIONS[ident]
        if self.form:
            return self(e).add_condition(FORMS[self.form](lambda t, i, s: fn(list(t))))
        if self.op:
            def action(tokens, start, string):
                if not fn(list(tokens)):
                    raise ParseException(tokens.type, start, string)

            return self(e).add_parse_action(action)
        return self(e).add_condition(lambda tokens: fn(list(tokens)))


class PlainBuilder(Builder):
    def b_plain(self, what, e):
        if what in CONSTANTS:
            return self(e) / CONSTANTS[what]
        fn = {"made": Made, "called": Called}.get(what) or BUILT_IN[what]
        return self(e) / fn if self.op else self(e).add_parse_action(fn)


class Plain(conform.Conformance):
    MODEL = Model
    BUILDER = PlainBuilder


class Actions(conform.Conformance):
    form = None

    def grammar(self, ast, style, inputs, share=None):
        rep = self.rep
        rep.begin((ast, style, "", False))
        self.calls = []
        ok, parser = attempt(lambda: Watching(style, self.calls, self.form)(ast).finalize())
        rep.end()
        if not ok:
            rep.violation((ast, style, "", False), "the grammar can be made", parser)
            return
        rep.add("grammars")
        env = ast if ast[0] == "rec" else None
        for s in inputs:
            del self.calls[:]
            self.one(ast, style, parser, s)
            m = peg.Model(s)
            memo = {}
            for e, start, tokens, string in self.calls:
                rep.add("action_calls")
                if string is not None and string != s:
                    rep.violation((ast, style, s, False), s, string, note="text given to an action")
                    break
                if start is None:
                    starts = range(len(s) + 1)
                else:
                    starts = (start,)
                key = (e, start)
                if key not in memo:
                    memo[key] = [
                        given(r)
                        for p in starts
                        for r in [m.match(e, p, peg.STD, env)]
                        if r is not None
                    ]
                if tokens not in memo[key]:
                    rep.violation((ast, style, s, False), memo[key], (e, start, tokens), note="tokens given to an action")
                    break


def given(r):
    x = peg.nested([r])
    return x[0] if r[0] & peg.GROUP else x


F = Family(
    {
        "quick": [("act1", "ab ", 4, 1, 1), ("act2", "ab ", 4, 4, 1), ("act3", "ab ", 4, 48, 0), ("act4", "ab", 2, 48, 0), ("rec3", "ab", 4, 2, 1), ("rec4", "ab", 4, 8, 0), ("fal3", "ab ", 4, 8, 0)],
        "thorough": [("act2", "ab ", 5, 16, 1), ("act3", "ab ", 5, 128, 1), ("act4", "ab ", 4, 1024, 0), ("rec4", "ab ", 5, 16, 1), ("rec5", "ab", 5, 64, 0), ("fal4", "ab ", 4, 256, 0)],
    },
    universe,
    {"recog", "end", "tree", "names"},
    names=("x",),
    klass=Actions,
)


def plain(n):
    """what is not wrapped, over one or more tokens, in every context"""
    for what in tuple(BUILT_IN) + tuple(CONSTANTS) + ("made", "called"):
        for e in (lit("a"), word("ab"), ("many", word("ab"), 1, BIG), seq(word("ab"), opt(lit("b"))), alt(seq(lit("a"), lit("b")), lit("b")), ("many", lit("a"), 1, 2)):
            x = ("plain", what, e)
            yield x
            yield seq(lit("b"), x)
            yield seq(x, lit("b"))
            yield seq(opt(x), lit("b"))
            yield alt(seq(x, lit("b")), x)
            yield ("or", x, lit("a"))
            yield ("many", x, 0, BIG)
            yield ("many", seq(x, opt(lit("b"))), 0, BIG)
            yield group(x)
            yield ("name", "x", x)
            yield seq(("name", "x", x), opt(lit("b")))
            yield supp(x)
            yield ("act", "none", x)


P = Family(
    {"quick": [("plain1", "ab ", 4, 8, 1)], "thorough": [("plain1", "ab ", 6, 64, 1)]}, lambda u: plain(1), {"recog", "end", "tree", "names"}, names=("x",), klass=Plain,
)


def even(tokens):
    return len(list(tokens)) % 2 == 0


def two(tokens):
    return bool(tokens) and len(tokens[0]) == 2


class TryBuilder(Builder):
    """("try", how, e): e with actions and conditions of which some are called during try"""

    def __init__(self, style, calls):
        Builder.__init__(self, style)
        self.calls = calls

    def b_try(self, how, e):
        x = self(e)

        def note(tokens, start, string):
            self.calls.append((how, e, start, tree(tokens)))

        def refuse(tokens, start, string):
            note(tokens, start, string)
            if not two(list(tokens)):
                raise ParseException(tokens.type, start, string)

        def ask(tokens, start, string):
            note(tokens, start, string)
            return two(list(tokens))

        return TRIES[how][1](x, note, refuse, ask)


#: how -> are the condition and the action called during try?
TRIES = {
    "action": (False, lambda x, note, refuse, ask: x.add_parse_action(note)),
    "slash": (False, lambda x, note, refuse, ask: x / note / refuse),
    "condition": (False, lambda x, note, refuse, ask: x.add_condition(ask)),
    "try action": (True, lambda x, note, refuse, ask: x.add_parse_action(refuse, callDuringTry=True)),
    "try condition": (True, lambda x, note, refuse, ask: x.add_condition(ask, callDuringTry=True)),
    "try, condition": (True, lambda x, note, refuse, ask: x.add_parse_action(note, callDuringTry=True).add_condition(ask)),
    "try condition, action": (True, lambda x, note, refuse, ask: x.add_condition(ask, callDuringTry=True).add_parse_action(note)),
    "try, slash": (True, lambda x, note, refuse, ask: x.add_parse_action(note, callDuringTry=True) / refuse),
    "try, name": (True, lambda x, note, refuse, ask: x.add_condition(ask, callDuringTry=True)("n")),
    "condition, try": (True, lambda x, note, refuse, ask: x.add_condition(ask).add_parse_action(note, callDuringTry=True)),
    "try, cleared": (None, lambda x, note, refuse, ask: x.add_parse_action(refuse, callDuringTry=True).clear_parse_action()),
}


@functools.lru_cache(None)
def meaning(e):
    """what is looked for"""
    if e[0] == "try":
        return ("cond", "two", meaning(e[2])) if TRIES[e[1]][0] else meaning(e[2])
    return (e[0],) + tuple(meaning(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e[1:])


def tries(tier):
    """targets of SkipTo, with at least one action"""
    small = (lit("a"), word("ab"), lit("b"))
    marked = [("try", how, e) for how in TRIES for e in (word("ab"), lit("a"), seq(lit("a"), lit("b")), ("many", lit("a"), 1, BIG), alt(lit("ab"), lit("b")), ("many", word("ab"), 1, 2), group(lit("a")))]
    for m in marked:
        yield m
        for x in (m, group(m), named("x")(m), opt(m), ("many", m, 1, BIG), ("many", m, 0, 2), look(m), supp(m), ("comb", m, ""), ("rec", m)):
            yield x
            yield seq(x, lit("b"))
            yield seq(lit("b"), x)
            yield alt(x, lit("b"))
            yield alt(seq(x, lit("b")), lit("a"))
            yield alt(seq(lit("b"), lit("b")), x)
    few = [("try", how, e) for how in TRIES for e in (word("ab"), lit("a"))]
    for m in few:
        for n in few:
            yield seq(m, n)
            yield alt(m, n)
            yield ("try", n[1], group(seq(m, lit("b")))) if tier != "quick" else alt(seq(m, lit("b")), n)


def trying(e, style, inputs, rep):
    case = (e, style, None)
    rep.begin(case)
    calls = []
    ok, parser = attempt(lambda: TryBuilder(style, calls)(("skipto", e, False)).finalize())
    rep.end()
    if not ok:
        rep.violation(case, "the grammar can be made", parser)
        return
    rep.add("grammars")
    target = meaning(e)
    env = target if target[0] == "rec" else None
    for s in inputs:
        case = (e, style, s)
        rep.begin(case)
        del calls[:]
        m = peg.Model(s)
        want = next((p for p in range(len(s) + 1) if m.match(target, p, peg.STD, env) is not None), None)
        got = attempt(lambda: parser.parse(s))
        rep.add("evaluations")
        rep.end()
        if want is None:
            rep.outcome("no match")
            if got[0] or got[1][1] != "ParseException":
                rep.violation(case, "no match", got)
                continue
        else:
            rep.outcome("gave")
            rep.add("distinct_nontrivial")
            if not got[0] or list(got[1]) != ([s[:want]] if want else []):
                rep.violation(case, s[:want], got)
                continue
        for how, x, start, tokens in calls:
            rep.add("action_calls")
            if not TRIES[how][0]:
                rep.violation(case, "not called while only looked for", (how, x, start, tokens))
                break
            r = m.match(meaning(x), start, peg.STD, None)
            if r is None or given(r) != tokens:
                rep.violation(case, r and given(r), (how, x, start, tokens), note="tokens given to an action")
                break


def universe_of_forms(tier):
    return [e for u in (("act1", "act2", "fal2") if tier == "quick" else ("act1", "act2", "fal2", "act3")) for e in universe(u)]


def shards(tier):
    return [("main",) + s for s in F.shards(tier)] + [("plain",) + s for s in P.shards(tier)] + [("form", f) for f in FORMS] + [("try", j, 8) for j in range(8)]


class Formed(object):
    """cases say which form"""

    def __init__(self, rep, form):
        self.rep = rep
        self.form = form

    def __getattr__(self, name):
        return getattr(self.rep, name)

    def begin(self, case):
        self.rep.begin((self.form, case))

    def violation(self, case, *a, **kw):
        self.rep.violation((self.form, case), *a, **kw)


def run_shard(shard, tier, rep):
    if shard[0] == "try":
        for i, e in enumerate(part(list(tries(tier)), shard[1], shard[2])):
            for style in ("ctor", "op"):
                trying(e, style, list(strings("ab", 5 if tier == "quick" else 8)), Formed(rep, "try"))
    elif shard[0] == "form":
        walk(shard[1], universe_of_forms(tier), list(strings("ab ", 3 if tier == "quick" else 4)), ("ctor", "op"), Formed(rep, shard[1]))
    else:
        {"main": F, "plain": P}[shard[0]].run_shard(shard[1:], tier, Formed(rep, shard[0]))


def walk(form, asts, inputs, styles, rep):
    c = F.conformance(rep)
    c.form = form
    for ast in asts:
        for style in styles:
            c.grammar(ast, style, inputs)


def replay(case, rep):
    which, case = case
    if which in ("main", "plain"):
        {"main": F, "plain": P}[which].replay(case, Formed(rep, which))
    elif which == "try":
        trying(case[0], case[1], [case[2]] if case[2] is not None else list(strings("ab", 5)), Formed(rep, "try"))
    else:
        walk(which, [case[0]], [case[2]], [case[1]], Formed(rep, which))
