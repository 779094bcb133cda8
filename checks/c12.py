# encoding: utf-8
"""the scanning automaton over the reference PEG"""
from mc import peg
from mc.build import build, attempt, tree, val, FAIL
from mc.family import *
from mc.universe import trees, strings, part

PID = "C12"
LEVEL = "model_checking"
RULE = (
    "every grammar of up to N nodes (with groups, suppression, options, look-ahead, empty matches and actions), every input of up to L characters: scan_string with every "
    "limit and with overlap, search_string, split (every limit, with and without separators), transform_string, all against the scanning automaton"
)
ASSUMPTIONS = [
    "bounds: grammar size, alphabet and input length as in the plan",
    "scanning skips whitespace before each attempt, goes on at the end of a match, and one character further where nothing was found or nothing consumed",
    "end positions of matches are compared exactly, except that an option that is absent at the end may or may not include the whitespace before it",
]

LEAVES = (lit("a"), lit("b"), word("ab"))
UNARY = (
    opt,
    many(0, BIG),
    many(1, BIG),
    many(2, 2),
    group,
    supp,
    look,
    neg,
    lambda e: ("act", "upper", e) if not peg.contains(e, ("act", "supp", "group")) else None,
    lambda e: ("act", "drop", e) if not peg.contains(e, ("act",)) else None,
)
BINARY = (seq, alt, lor)
EXTRA = (("any",), ("empty",), ("le",), ("ls",), ("se",), ("ss",), ("white", " ", 1, 0), seq(("any",), ("any",)), ("wstart", "ab"), ("wend", "ab"), ("re", "a*"), ("re", "ab?"), ("notin", "a", 1, 0))


def universe(name):
    if name == "extra":
        out = []
        for e in EXTRA:
            out.append(e)
            out += [opt(e), group(e), ("act", "upper", e)]
            for f in LEAVES + EXTRA:
                out.append(seq(e, f))
                out.append(alt(f, e))
        return out
    return trees(int(name[4:]), LEAVES, UNARY, BINARY)


def scan(ast, s, overlap=False):
    """-> [(node, start, end)]"""
    m = peg.Model(s)
    found = []
    at = 0
    while at <= len(s):
        start = m.skip(at, peg.STD)
        r = m.match(ast, start)
        if r is None:
            at = start + 1
        else:
            found.append((r, start, r[4]))
            at = start + 1 if overlap or r[4] <= start else r[4]
    return found, m


def content(node):
    x = peg.nested([node])
    return x[0] if node[0] & peg.GROUP and not node[1] else x


def text_of(node):
    return "".join(str(t) for t in peg.leaves([node]))


def check(ast, style, parser, s, rep):
    def bad(what, want, have):
        rep.violation((ast, style, s, what), want, have)

    found, m = scan(ast, s)
    rep.add("states", len(m.memo) + 1)
    rep.add("transitions", m.steps + len(found))
    rep.add("traces_validated_against_impl")
    rep.outcome("%d matches" % len(found))
    want = [(content(r), b, e) for r, b, e in found]

    def observe(what, fn, want):
        ok, have = attempt(fn)
        if not ok or have != want:
            bad(what, want, have)
            return False
        return True

    rows = lambda it: [(tree(t), b, e) for t, b, e in it]
    if not observe("scan", lambda: rows(parser.scan_string(s)), want):
        return
    for k in range(0, len(found) + 2):
        if not observe(("scan", k), lambda: rows(parser.scan_string(s, max_matches=k)), want[:k]):
            return
    over, m2 = scan(ast, s, True)
    over = [(content(r), b, e) for r, b, e in over]
    rep.add("transitions", m2.steps)
    if not observe("overlap", lambda: rows(parser.scan_string(s, overlap=True)), over):
        return
    for k in (1, 2):
        if not observe(("overlap", k), lambda: rows(parser.scan_string(s, max_matches=k, overlap=True)), over[:k]):
            return

    # each match is what parsing at that position gives (no symbols before it)
    for k in (None, 1):
        use = found if k is None else found[:k]
        flat = []
        for r, b, e in use:
            flat.append(peg.nested([r]))  # each match in a group of its own
        kw = {} if k is None else {"max_matches": k}
        if not observe(("search", k), lambda: [tree(t) for t in parser.search_string(s, **kw)], flat):
            return

    for k in [None] + list(range(0, len(found) + 1)):
        use = found if k is None else found[:k]
        pieces, last = [], 0
        both = []
        for r, b, e in use:
            pieces.append(s[last:b])
            both += [s[last:b], content(r)]
            last = e
        pieces.append(s[last:])
        both.append(s[last:])
        kw = {} if k is None else {"maxsplit": k}
        if not observe(("split", k), lambda: list(parser.split(s, **kw)), pieces):
            return
        if not observe(("split with separators", k), lambda: [val(t) for t in parser.split(s, include_separators=True, **kw)], both):
            return

    out, last = [], 0
    for r, b, e in found:
        out.append(s[last:b])
        out.append(text_of(r))
        last = e
    out.append(s[last:])
    observe("transform", lambda: parser.transform_string(s), "".join(out))


PLAN = {
    "quick": [("scan1", "ab ", 4, 1, 1), ("scan2", "ab ", 4, 4, 1), ("scan3", "ab ", 4, 32, 0), ("scan4", "ab ", 2, 32, 0), ("extra", "ab \n", 3, 8, 1)],
    "thorough": [("scan2", "ab ", 6, 32, 1), ("scan3", "ab ", 5, 128, 1), ("scan4", "ab ", 4, 512, 0), ("extra", "ab \n", 4, 64, 1)],
}
F = Family(PLAN, universe, {"recog"})
shards = F.shards


def one(ast, style, inputs, rep):
    rep.begin((ast, style, "", ""))
    # an expression is asked as well as its parser
    ok, parser = attempt(lambda: build(ast, style) if style == "op" else build(ast, style).finalize())
    if not ok:
        rep.violation((ast, style, "", ""), "the grammar can be made", parser)
        return
    rep.add("grammars")
    for s in inputs:
        rep.begin((ast, style, s, ""))
        check(ast, style, parser, s, rep)
    rep.end()


def run_shard(shard, tier, rep):
    u, alphabet, n, i, k, both = shard
    inputs = list(strings(alphabet, n))
    for j, ast in enumerate(part(universe(u), i, k)):
        for style in ("ctor", "op") if both else (("ctor", "op")[j % 2],):
            one(ast, style, inputs, rep)
        if i == j == 0:
            rep.sample("%r over %r" % (ast, inputs[-1]))


def replay(case, rep):
    one(case[0], case[1], [case[2]], rep)
