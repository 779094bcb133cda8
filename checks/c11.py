# encoding: utf-8
from mc import peg, conform
from mc.build import Builder, build, attempt, tree, val, run, ParseResults, FAIL
from mc.family import *
from mc.universe import trees, strings, part

PID = "C11"
LEVEL = "model_checking"
RULE = (
    "every grammar of up to N nodes in which terminals and sub-expressions are grouped, on every input of up to L characters: start and end of the result, of every nested group, of located_expr, "
    "of scan_string and of the arguments of parse actions against the reference derivation; line, lineno and col of every position of every text"
)
ASSUMPTIONS = [
    "bounds: grammar size, alphabet and input length as in the plan",
    "the end of a match that ends in something that matched nothing is compared modulo the whitespace before it",
]

G = group
LEAVES = (G(lit("a")), lit("b"), G(word("ab")))
UNARY = (opt, many(0, BIG), many(1, 2), group, look, neg, supp, comb)
BINARY = (seq, alt)


def universe(name):
    if name.startswith("rec"):
        out = []
        for e in trees(int(name[3:]), (G(lit("a")), lit("b"), ("self",)), (opt, many(0, BIG), group), (seq, alt), (seq,)):
            if peg.contains(e, ("self",)) and not peg.left_recursive(("rec", e)):
                out.append(("rec", e))
        return out
    return trees(int(name[3:]), LEAVES, UNARY, BINARY, (seq,))


ZERO = ("opt", "not", "look", "empty")


def loose(a):
    return peg.contains(a, ZERO) or any_many0(a)


def any_many0(a):
    return a[0] == "many" and a[2] == 0 or any(map(any_many0, peg.subs(a)))


def shape(kids):
    """groups with their spans"""
    out = []
    for k in peg.items(kids):
        if isinstance(k, list):
            out.append((k[3], k[4], shape(k[2])))
        else:
            out.append(k)
    return out


def observed(r):
    return [(t.start, t.end, observed(t)) if isinstance(t, ParseResults) else t for t in r]


def settled(x, s):
    return [(t[0], conform.settle(s, t[1]), settled(t[2], s)) if isinstance(t, tuple) else t for t in x]


def well_nested(spans, b, e):
    """children lie inside their parent, in order"""
    at = b
    for t in spans:
        if isinstance(t, tuple):
            if not (at <= t[0] <= t[1] <= e) or not well_nested(t[2], t[0], t[1]):
                return False
            at = t[1]
    return True


class Seen(object):
    """parse actions that write down what they are given"""

    def __init__(self):
        self.calls = []

    def __call__(self, tokens, start, string):
        self.calls.append((start, tokens.start, tokens.end, string))


def one(ast, style, inputs, rep):
    n = max(map(len, inputs))
    rep.begin((ast, style, "", ""))
    seen = Seen()

    def make():
        from mo_parsing.helpers import located_expr

        e = build(ast, style)
        p = e.finalize()
        q = located_expr(build(ast, style)).finalize()
        # the whole in a group with an action, after something else
        a = Group(build(ast, style)).add_parse_action(lambda t, i, s: seen(t, i, s)).finalize()
        # the same, right after something in a context that does not skip what is in front of it
        with NO_WHITESPACE:
            with Whitespace():
                inner = build(ast, style).add_parse_action(lambda t, i, s: seen(t, i, s))
            b = And([Literal("q"), inner]).finalize()
        return p, q, a, b

    from mo_parsing import Group, And, Literal, Whitespace
    from mo_parsing.whitespaces import NO_WHITESPACE

    ok, parsers = attempt(make)
    if not ok:
        rep.violation((ast, style, "", ""), "the grammar can be made", parsers)
        return
    p, q, a, b = parsers
    rep.add("grammars")
    fix = (lambda x, s: settled(x, s)) if loose(ast) else (lambda x, s: x)
    for s in inputs:
        case = (ast, style, s, "")
        rep.begin(case)
        m = peg.Model(s)
        start = m.skip(0, peg.STD)
        node = m.match(ast, start)
        rep.add("states", len(m.memo) + 1)
        rep.add("transitions", m.steps)
        rep.add("traces_validated_against_impl")
        got = run(p, s)
        if isinstance(got, tuple) or node is None:
            if not (node is None and got is FAIL):
                rep.violation(case, conform.show(node), got if isinstance(got, tuple) else "match")
            continue
        top = shape([node])
        if node[0] & peg.GROUP:
            top = top[0][2]
        want = fix([(start, node[4], top)], s)
        have = fix([(got.start, got.end, observed(got))], s)
        if want != have:
            rep.violation(case, want, have, note="positions of groups")
            continue
        if not well_nested(observed(got), got.start, got.end):
            rep.violation(case, "nested spans", observed(got))
            continue
        rep.outcome("%d groups" % sum(isinstance(t, tuple) for t in top))
        # located_expr
        rep.begin((ast, style, s, "located_expr"))
        got = run(q, s)
        if isinstance(got, tuple):
            rep.violation((ast, style, s, "located_expr"), "match", got)
            continue
        have = fix([(got["locn_start"], got["locn_end"], [])], s)
        want = fix([(start, node[4], [])], s)
        if have != want:
            rep.violation((ast, style, s, "located_expr"), want, have)
            continue
        # the arguments of an action
        rep.begin((ast, style, s, "action"))
        del seen.calls[:]
        got = run(a, s)
        have = [fix([(i, e, [i == b, t == s])], s) for i, b, e, t in seen.calls]
        want = [fix([(start, node[4], [True, True])], s)]
        if isinstance(got, tuple) or have != want:
            rep.violation((ast, style, s, "action"), want, have)
            continue
        # and right after something
        if len(s) < n:
            t = "q" + s
            rep.begin((ast, style, s, "after"))
            m = peg.Model(t)
            node = m.match(("seq", lit("q"), ("ws", peg.STD, ast)), 0, peg.NOWS)
            rep.add("states", len(m.memo) + 1)
            rep.add("transitions", m.steps)
            del seen.calls[:]
            got = run(b, t)
            have = [fix([(i, b_, [])], t) + fix([(b_, e, [u == t])], t) for i, b_, e, u in seen.calls]
            if node is None:
                want = []
            else:
                kid = node[2][1] if len(node[2]) > 1 else None
                if kid is None:
                    continue  # it matched nothing
                want = [fix([(kid[3], kid[3], [])], t) + fix([(kid[3], kid[4], [True])], t)]
            if isinstance(got, tuple) and got is not FAIL or (got is FAIL) != (node is None) or have != want:
                rep.violation((ast, style, s, "after"), want, have)
    rep.end()


PLAN = {
    "quick": [("pos1", "ab ", 4, 1, 1), ("pos2", "ab ", 4, 4, 1), ("pos3", "ab ", 4, 32, 0), ("pos4", "ab ", 3, 32, 0), ("rec3", "ab ", 4, 1, 1), ("rec4", "ab ", 4, 4, 0), ("lines", "a\n", 10, 1, 0), ("lines", "a\r\n\t", 6, 1, 0)],
    "thorough": [("pos3", "ab \n", 5, 128, 1), ("pos4", "ab ", 5, 512, 0), ("rec5", "ab ", 5, 64, 1), ("lines", "a\n", 14, 1, 0), ("lines", "a\r\n\t", 8, 1, 0)],
}
F = Family(PLAN, universe, {"recog"})
shards = F.shards


def lines(s, rep):
    from mo_parsing.utils import col, line, lineno

    rep.begin(("lines", s))
    rep.add("states", len(s) + 1)
    rep.add("transitions", len(s))
    rep.add("traces_validated_against_impl")
    row, column = 1, 1
    texts = s.split("\n")
    for i in range(len(s) + 1):
        want = (row, column, texts[row - 1])
        ok, have = attempt(lambda: (lineno(i, s), col(i, s), line(i, s)))
        if not ok or have != want:
            rep.violation(("lines", s, i), want, have)
            break
        if i < len(s) and s[i] == "\n":
            row, column = row + 1, 1
        else:
            column += 1
    rep.outcome("%d lines" % row)
    rep.end()


def run_shard(shard, tier, rep):
    u, alphabet, n, i, k, both = shard
    inputs = list(strings(alphabet, n))
    if u == "lines":
        for s in inputs:
            lines(s, rep)
        return
    for j, ast in enumerate(part(universe(u), i, k)):
        for style in ("ctor", "op") if both else (("ctor", "op")[j % 2],):
            one(ast, style, inputs, rep)
        if i == j == 0:
            rep.sample("%r over %r" % (ast, inputs[-1]))


def replay(case, rep):
    if case[0] == "lines":
        lines(case[1], rep)
    else:
        one(case[0], case[1], [case[2]], rep)
