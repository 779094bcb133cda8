# encoding: utf-8
"""grammars of one, two and three rules that may refer to each other"""
import itertools

from mc import peg, conform
from mc.build import Builder, attempt, run, FAIL, Forward, tree
from mc.family import *
from mc.universe import trees, strings, part

PID = "C17"
LEVEL = "model_checking"
RULE = (
    "every grammar of one, two or three rules with bodies of up to N nodes, rules defined in every order: refused exactly when some rule can reach itself "
    "before anything is consumed (least fixpoint); every accepted grammar is run on every input of up to L characters, must answer, and answers as the reference"
)
ASSUMPTIONS = [
    "bounds: number of rules, size of bodies, alphabet and input length as in the plan",
    "a grammar may be refused when it is defined or when its parser is made",
]

REFS = (("ref", 0), ("ref", 1), ("ref", 2))
UNARY = (opt, many(0, BIG), many(1, BIG), neg, look, group)
BINARY = (seq, alt)
TERNARY = (seq,)


def bodies(n, rules, leaves=(lit("a"), ("empty",)), unary=UNARY, binary=BINARY, ternary=TERNARY):
    out = []
    for k in range(1, n + 1):
        out.extend(trees(k, leaves + REFS[:rules], unary, binary, ternary))
    return out


SMALL = (lit("a"),)
FEW = (opt, many(1, BIG))


def universe(name):
    kind, n = name.split("-")
    n = int(n)
    if kind == "one":
        for b in bodies(n, 1, leaves=(lit("a"), lit("b"), ("empty",))):
            yield (b,)
    elif kind == "kinds":
        # recursion inside every combinator
        a, x = lit("a"), ("ref", 0)
        for inner in (x, seq(a, x), seq(opt(a), x), seq(x, a), alt(a, x), alt(a, seq(a, x)), opt(seq(a, x)), opt(x)):
            for w in (
                lambda e: e, opt, many(0, BIG), lambda e: ("many", e, 1, BIG), lambda e: ("many", e, 2, 3), lambda e: ("many", e, 0, 2), neg, look, group, supp, comb, named("x"),
                lambda e: ("skipto", e, True), lambda e: ("skipto", e, False), lambda e: seq(e, a), lambda e: seq(a, e), lambda e: alt(a, e), lambda e: alt(e, a), lambda e: lor(a, e), lambda e: lor(e, a, lit("b")),
                lambda e: ("all", a, e), lambda e: ("all", e, lit("b")), lambda e: ("act", "none", e), lambda e: ("cond", "always", e), lambda e: alt(a, lit("b"), e), lambda e: alt(e, a, lit("b")),
                lambda e: seq(neg(a), e), lambda e: seq(look(a), e), lambda e: seq(opt(a), e), lambda e: seq(supp(a), e), lambda e: seq(("many", a, 0, BIG), e),
            ):
                e = w(inner)
                yield (e,)
                yield (("ref", 1), e)
                yield (seq(("ref", 1), a), e)
                yield (e, seq(a, ("ref", 0)))
    elif kind == "prefix":
        # what may be in front of the recursion, of every kind
        a, b, x = lit("a"), lit("b"), ("ref", 0)
        oa, ob = opt(a), opt(b)
        some = (
            a, ("clit", "A"), ("kw", "a", None), ("ckw", "a", None), word("ab"), ("word", "a", "b", 2, 3), ("char", "a", ""), ("char", "", "a"), ("notin", "b", 1, 0), ("notin", "b", 2, 2), ("any",), ("white", " ", 1, 0), ("close", "ab", 1),
            ("empty",), ("ls",), ("le",), ("ss",), ("se",), ("wstart", "a"), ("wend", "a"), ("re", "a"), ("re", "a*"), ("re", "a|"), ("re", "(a)?b"), ("re", "(?=a)"), ("re", "a{0,2}"), ("re", "a{1,2}"),
            oa, ("opt", a, "dflt"), seq(oa, ob), seq(oa, b), seq(a, ob), ("many", a, 0, BIG), ("many", a, 0, 2), ("many", a, 1, BIG), ("many", a, 2, 2), ("many", oa, 0, BIG),
        )
        two = (alt, lor, seq, lambda e, f: ("all", e, f))
        for e in list(some):
            some += (neg(e), look(e), group(e), supp(e), comb(e), ("name", "x", e), ("act", "none", e), ("cond", "always", e), ("rec", e), ("skipto", e, True), ("skipto", e, False))
        for f, g in itertools.product((a, oa, b, ob, ("empty",), seq(oa, ob)), repeat=2):
            for t in two:
                some += (t(f, g), group(t(f, g)))
                for h in (a, ob):
                    some += (t(f, g, h) if t is not two[-1] else ("all", f, g, h),)
        for e in some:
            if peg.nullable(e) is None:
                continue
            yield (alt(seq(e, x, lit("c")), lit("d")),)
            yield (lor(lit("d"), seq(e, x)),)
            if n:
                yield (seq(e, ("ref", 1)), opt(x))
    elif kind == "two":
        bs = bodies(n, 2)
        for p in itertools.product(bs, repeat=2):
            yield p
    elif kind == "pair":
        bs = bodies(n, 2, leaves=SMALL, unary=FEW)
        for p in itertools.product(bs, repeat=2):
            yield p
    elif kind == "three":
        bs = [b for b in bodies(n, 3, leaves=SMALL, unary=(opt,), ternary=())]
        for p in itertools.product(bs, repeat=3):
            yield p
    else:
        raise Exception(name)


def nullables(rules):
    """least fixpoint"""
    known = [False] * len(rules)

    def null(e):
        k = e[0]
        if k == "ref":
            return known[e[1]]
        if k in ("seq", "all"):
            return all(map(null, e[1:]))
        if k in ("alt", "or"):
            return any(map(null, e[1:]))
        if k == "many":
            return e[2] == 0 or null(e[1])
        if k in ("group", "supp", "comb"):
            return null(e[1])
        if k in ("name", "act", "cond", "ws"):
            return null(e[2])
        if k == "skipto":
            return not e[2] or null(e[1])
        return peg.nullable(e)

    while True:
        new = [null(b) for b in rules]
        if new == known:
            return known, null
        known[:] = new


def left(e, null):
    """the rules that may be tried before anything is consumed"""
    k = e[0]
    if k == "ref":
        yield e[1]
    elif k == "seq":
        for x in e[1:]:
            yield from left(x, null)
            if not null(x):
                return
    else:
        for x in e[1:]:
            if isinstance(x, tuple) and x and x[0] in KINDS:
                yield from left(x, null)


KINDS = peg.KINDS | {"ref"}


def refs(e):
    if e[0] == "ref":
        yield e[1]
    for x in e[1:]:
        if isinstance(x, tuple) and x and x[0] in KINDS:
            yield from refs(x)


def reachable(rules):
    """the rules that the first one needs"""
    seen, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo.extend(refs(rules[i]))
    return seen


def left_recursive(rules, among=None):
    """some rule (of these) can be tried again before anything is consumed"""
    if among is None:
        among = range(len(rules))
    _, null = nullables(rules)
    reach = [set(left(b, null)) for b in rules]
    changed = True
    while changed:
        changed = False
        for r in reach:
            more = set(itertools.chain(*(reach[j] for j in r))) - r
            if more:
                r |= more
                changed = True
    return any(i in reach[i] for i in among)


class Model(peg.Model):
    __slots__ = ["rules"]

    def m_ref(self, a, p, ws, env):
        r = self.match(self.rules[a[1]], p, ws, env)
        if r is not None:
            return [peg.PLAIN, "", [r], r[3], r[4]]


class RuleBuilder(Builder):
    def b_ref(self, i):
        return self.rules[i]


def make(rules, order, style):
    b = RuleBuilder(style)
    b.rules = fs = [Forward() for _ in rules]
    for i in order:
        if b.op:
            fs[i] <<= b(rules[i])
        else:
            fs[i] << b(rules[i])
    return fs[0].finalize()


def subject_to_count(e):
    """repetition with a minimum of something that may match nothing: what counts as one is not defined"""
    return e[0] == "many" and e[2] > 0 or any(subject_to_count(x) for x in e[1:] if isinstance(x, tuple))


def one(rules, style, orders, inputs, rep):
    expected = left_recursive(rules, reachable(rules))
    allowed = left_recursive(rules)  # a rule that is not used may still be refused when it is defined
    _, null = nullables(rules)
    for order in orders:
        case = (rules, style, order, "")
        rep.begin(case)
        ok, parser = attempt(lambda: make(rules, order, style))
        rep.add("definitions")
        refused = not ok and "RecursiveGrammarException" in str(parser)
        if not ok and not refused:
            rep.violation(case, "the grammar can be made" if not expected else "RecursiveGrammarException", parser)
            return
        if refused != expected and not (refused and allowed):
            rep.violation(case, "refused" if expected else "accepted", "refused" if refused else "accepted")
            return
        if refused:
            rep.outcome("refused")
            rep.add("states")
            rep.add("transitions")
            rep.add("traces_validated_against_impl")
            continue
        rep.outcome("accepted")
        if order != orders[0]:
            some = inputs[-3:]
        else:
            some = inputs
        vague = any(any_vague(b, null) for b in rules)
        for s in some:
            case = (rules, style, order, s)
            rep.begin(case, 10)
            got = run(parser, s)
            m = Model(s)
            m.rules = rules
            start = m.skip(0, peg.STD)
            node = m.match(("ref", 0), start)
            rep.add("states", len(m.memo))
            rep.add("transitions", m.steps)
            rep.add("traces_validated_against_impl")
            if isinstance(got, tuple) and got is not FAIL:
                rep.violation(case, conform.show(node), got)
                return
            if vague:
                continue  # it answered
            if (got is FAIL) != (node is None) or node is not None and conform.settle(s, got.end) != conform.settle(s, node[4]):
                rep.violation(case, conform.show(node), got if got is FAIL else ("match", got.end, tree(got)))
                return
    rep.end()


def any_vague(e, null):
    return e[0] == "many" and e[2] > 0 and null(e[1]) or any(any_vague(x, null) for x in e[1:] if isinstance(x, tuple))


PLAN = {
    "quick": [("one-5", "ab ", 3, 16), ("kinds-0", "ab", 5, 16), ("prefix-0", "abd", 3, 8), ("two-2", "a ", 4, 16), ("two-3", "ab", 2, 64), ("pair-3", "a", 4, 32), ("three-2", "a", 3, 8)],
    "thorough": [("one-5", "ab ", 5, 64), ("one-6", "ab", 3, 256), ("kinds-0", "ab ", 6, 32), ("prefix-1", "abcd", 4, 32), ("two-3", "a ", 4, 512), ("pair-4", "a", 5, 512), ("three-2", "a", 5, 32), ("three-3", "a", 3, 1024)],
}


def shards(tier):
    return [(u, al, n, i, k) for u, al, n, k in PLAN[tier] for i in range(k)]


def run_shard(shard, tier, rep):
    u, alphabet, n, i, k = shard
    inputs = list(strings(alphabet, n))
    for j, rules in enumerate(part(universe(u), i, k)):
        orders = list(itertools.permutations(range(len(rules))))
        one(rules, ("ctor", "op")[j % 2], orders, inputs, rep)
        if i == j == 0:
            rep.sample("%r over %r" % (rules, inputs[-1]))


def replay(case, rep):
    rules, style, order, s = case
    one(rules, style, [order], [s], rep)
