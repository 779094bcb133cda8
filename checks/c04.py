# encoding: utf-8
import itertools

from mc import peg
from mc.family import *

PID = "C04"
LEVEL = "model_checking"
RULE = (
    "every ordered list of k alternatives from a pool of expressions, under | and ^, nested and flat, alone and inside a sequence, on every input of up to "
    "L characters: success, end, tokens and names against the reference, which tries the alternatives one by one"
)
ASSUMPTIONS = [
    "bounds: pools, list length, alphabet and input length as in `shards`",
    "letters outside ASCII whose lower and upper case differ in length (or map outside the alphabet) are not in the alphabet",
]

CHAIN = ("rec", alt(seq(lit("a"), ("self",)), lit("b")))
# alternatives with distinct starts, shared prefixes, case, negations, emptiness, structure
POOL = (
    lit("a"),
    lit("ab"),
    lit("b"),
    ("clit", "A"),
    ("kw", "a", None),
    word("ab"),
    ("word", "a", "b"),
    ("re", "a|bb"),
    seq(lit("a"), lit("b")),
    seq(opt(lit("a")), lit("b")),
    seq(neg(lit("ab")), word("ab")),
    ("name", "x", lit("a")),
    group(word("b")),
    opt(lit("b")),
    CHAIN,
)
# fewer, for longer lists
POOL4 = (
    lit("a"),
    lit("ab"),
    ("clit", "B"),
    ("kw", "b", None),
    ("word", "b", "ab"),
    seq(lit("a"), opt(lit("b"))),
    ("name", "x", ("re", "[ab]b")),
    ("char", "", "a"),
)
# terminals whose set of first characters is computed in different ways
FIRST = (
    ("char", "b", ""),
    ("char", "", "a"),
    ("notin", "a", 1, 0),
    ("any",),
    ("word", "ab", "ab", 2, 0),
    ("word", "ab", None, 1, 0, "a"),
    ("ckw", "b", None),
    ("close", "ab", 1),
    ("re", "(?:a)?b"),
    ("re", "[^a]"),
    ("re", "(?i:b)a"),
    many(1, 2)(lit("b")),
    many(0, BIG)(lit("a")),
    ("empty",),
    ("look", lit("b")),
    seq(look(word("ab")), lit("a")),
    ("skipto", lit("b"), True),
    ("all", lit("b"), lit("a")),
    comb(seq(lit("b"), lit("a"))),
    supp(lit("b")),
    ("act", "join", lit("b")),
    ("cond", "two", word("ab")),
    alt(lit("b"), lit("a")),
    lor(lit("b"), lit("ba")),
    ("le",),
    ("se",),
    ("nomatch",),
)
# sequences by which parts may match nothing, in every place and of every kind
PARTS = tuple(
    seq(*(o if i in at else lit(c) for i, c in enumerate("aba")))
    for o in (opt(lit("b")), ("opt", lit("a"), "dflt"), many(0, BIG)(lit("a")), ("empty",), neg(lit("b")), look(word("ab")), comb(opt(lit("b"))), opt(("clit", "B")), alt(lit("b"), ("empty",)), ("re", "b?"), supp(opt(lit("a"))), ("all", opt(lit("a")), opt(lit("b"))))
    for at in ((0,), (1,), (0, 1))
) + (
    seq(opt(lit("a")), opt(lit("b")), lit("d")),
    seq(opt(lit("a")), alt(lit("b"), lit("d"))),
    seq(lor(opt(lit("a")), lit("b")), lit("d")),
    opt(seq(lit("a"), lit("b"))),
    many(1, 2)(seq(opt(lit("a")), lit("b"))),
    group(seq(opt(lit("a")), lit("b"))),
    ("name", "x", seq(opt(lit("a")), lit("b"))),
    supp(seq(opt(lit("a")), lit("b"))),
    ("rec", seq(opt(lit("a")), alt(lit("b"), seq(lit("d"), ("self",))))),
)


def contexts(choice):
    yield choice
    yield seq(choice, opt(word("ab")))


def universe(name):
    if name in ("first3", "or3"):
        op = alt if name == "first3" else lor
        for es in itertools.product(POOL, repeat=3):
            if len(set(es)) == 3:
                yield from contexts(op(*es))
    elif name in ("first2", "or2"):
        op = alt if name == "first2" else lor
        for es in itertools.product(POOL + FIRST, repeat=2):
            yield from contexts(op(*es))
    elif name in ("first4", "or4", "first5"):
        op = lor if name == "or4" else alt
        for es in itertools.product(POOL4, repeat=int(name[-1])):
            if len(set(es)) == len(es):
                yield op(*es)
    elif name in ("kind3", "kor3"):
        # every kind of terminal in every position, between two ordinary ones
        op = alt if name == "kind3" else lor
        for e in FIRST:
            for f, g in itertools.product((lit("a"), lit("b"), ("kw", "ab", None), word("ab")), repeat=2):
                yield op(e, f, g)
                yield op(f, e, g)
                yield op(f, g, e)
    elif name in ("fast", "ofast", "fast2"):
        # among alternatives with other starts, by which the library makes a shortlist of those that can match
        op = lor if name == "ofast" else alt
        C, D, E = lit("c"), lit("da"), lit("cb")
        if name == "fast2":
            pairs = itertools.product(POOL + FIRST + PARTS, repeat=2)
        else:
            pairs = [(e, f) for e in POOL + FIRST + PARTS for f in (lit("a"), ("ckw", "b", None))]
        for e, f in pairs:
            yield op(e, C, D, f)
            yield op(C, e, f, D, E)
            yield op(E, D, f, C, e)
            yield op(f, e, ("clit", "D"), C)
    elif name == "kind4":
        for e, h in itertools.product(FIRST, repeat=2):
            for f, g in itertools.product((lit("a"), lit("ab"), word("ab")), repeat=2):
                yield alt(f, e, g, h)
                yield alt(e, f, h, g)
    elif name.startswith("words"):
        # strings that share more or less of their start
        kinds = {
            "l": (lit,), "k": (lambda w: ("kw", w, None),), "c": (lambda w: ("clit", w),),
            "s": (lambda w: seq(lit(w[:1]), lit(w[1:])) if w[1:] else lit(w),),
        }
        kinds["m"] = kinds["l"] + kinds["k"] + kinds["c"]
        op = lor if name[5] == "o" else alt
        pool = list(strings("ab", 3, 1))
        for ws in itertools.permutations(pool, int(name[7])):
            for ks in itertools.product(kinds[name[6]], repeat=len(ws)):
                yield op(*(k(w) for k, w in zip(ks, ws)))
    elif name == "mixed":
        # | inside ^ and ^ inside |, grouped from the left and from the right
        small = POOL4[:6]
        for e, f, g in itertools.product(small, repeat=3):
            if len({e, f, g}) == 3:
                yield alt(lor(e, f), g)
                yield alt(e, lor(f, g))
                yield lor(alt(e, f), g)
                yield lor(e, alt(f, g))
                yield alt(alt(e, f), g)
                yield alt(e, alt(f, g))
                yield alt(("name", "y", alt(e, f)), g)
                yield alt(group(alt(e, f)), g, lit("b"))
                yield ("many", alt(e, f, g), 0, BIG)
                yield opt(lor(e, f, g))
    else:
        raise Exception()


def settle(s, p):
    from mc.conform import settle
    return settle(s, p)


F = Family(
    {
        "quick": [("fast", "abdA", 3, 16, 0), ("ofast", "abd", 3, 8, 0), ("first2", "abA ", 3, 16, 1), ("or2", "ab ", 3, 8, 0), ("first3", "abA", 3, 64, 0), ("or3", "ab", 3, 32, 0), ("kind3", "abA", 3, 16, 0), ("kor3", "ab", 3, 4, 0), ("first4", "ab", 4, 16, 0), ("mixed", "abB", 3, 16, 0), ("wordsal4", "ab", 4, 32, 0), ("wordsok3", "ab ", 3, 4, 0), ("wordsac3", "abB", 3, 4, 0), ("wordsas3", "ab", 4, 4, 0)],
        "thorough": [("fast", "abcdA ", 4, 64, 1), ("ofast", "abcdA", 4, 64, 1), ("fast2", "abcd", 3, 128, 0), ("first2", "abA ", 5, 64, 1), ("or2", "abA ", 5, 64, 1), ("first3", "abA ", 5, 512, 0), ("or3", "abA ", 4, 256, 1), ("kind3", "abA ", 5, 64, 1), ("kor3", "abA ", 5, 64, 0), ("first4", "abB ", 5, 128, 1), ("or4", "abB ", 5, 128, 0), ("mixed", "abB ", 5, 64, 1), ("kind4", "abB", 4, 256, 0), ("first5", "abB", 4, 128, 0), ("wordsal4", "ab ", 5, 128, 1), ("wordsal5", "ab", 4, 256, 0), ("wordsol4", "ab", 4, 64, 0), ("wordsak4", "ab ", 4, 64, 0), ("wordsas4", "ab ", 4, 64, 0), ("wordsam3", "abB", 4, 64, 0)],
    },
    lambda u: universe(u),
    {"recog", "end", "tree", "names"},
    names=("x", "y"),
)
shards, run_shard, replay = F.shards, F.run_shard, F.replay
