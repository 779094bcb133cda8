# encoding: utf-8
"""MatchAll: the members in any order"""
import itertools

from mc import peg, conform
from mc.build import build, run, tree, attempt, FAIL
from mc.family import *
from mc.universe import strings, part

PID = "C21"
LEVEL = "model_checking"
RULE = (
    "every list of two, three and four members (terminals, sequences, options, repetitions of every kind, groups, names, defaults, alternatives, look-ahead, empty, conditions, actions), "
    "alone and inside other expressions, on every input of up to L characters, against the reference; and every permutation of members that start differently answers the same"
)
ASSUMPTIONS = [
    "bounds: number and kind of members, alphabet and input length as in the plan",
    "members that start alike are tried in the order they are written; nested unnamed & is one list of members",
]

A, B, C = lit("a"), lit("b"), lit("c")
MEMBERS = (
    A,
    B,
    C,
    lit("ab"),
    word("ab"),
    seq(A, B),
    seq(A, opt(C)),
    opt(A),
    opt(B),
    ("opt", A, "dflt"),
    ("opt", C, "D"),
    opt(seq(B, C)),
    ("many", A, 0, BIG),
    ("many", B, 1, BIG),
    ("many", A, 2, 3),
    ("many", B, 0, 2),
    ("many", C, 2, BIG),
    ("many", seq(A, B), 0, BIG),
    group(A),
    group(("many", B, 1, BIG)),
    group(opt(C)),
    ("name", "x", A),
    ("name", "x", B),
    ("name", "y", ("many", C, 0, BIG)),
    ("name", "y", ("many", A, 1, BIG)),
    ("name", "x", opt(C)),
    alt(A, B),
    alt(C, opt(A)),
    lor(A, seq(A, C)),
    supp(B),
    supp(opt(A)),
    look(A),
    neg(B),
    ("empty",),
    comb(seq(B, A)),
    ("act", "upper", A),
    ("act", "upper", opt(B)),
    ("cond", "never", B),
    ("rec", alt(C, seq(A, ("self",)))),
)
FEW = (A, B, C, opt(A), ("opt", B, "dflt"), ("many", C, 0, BIG), ("many", A, 1, BIG), ("many", B, 2, 3), group(seq(A, B)), ("name", "x", B), ("name", "x", ("many", C, 1, BIG)), alt(B, C))
LEAST = (A, B, C, opt(B), ("many", A, 0, BIG), ("many", C, 1, BIG), seq(A, B))

CONTEXT = (
    lambda e: seq(e, C),
    lambda e: seq(A, e),
    lambda e: seq(e, opt(C)),
    lambda e: ("many", e, 0, BIG),
    lambda e: ("many", e, 0, 2),
    lambda e: ("opt", e, "none"),
    group,
    supp,
    comb,
    look,
    neg,
    lambda e: seq(look(e), A),
    lambda e: alt(e, A),
    lambda e: alt(A, e),
    lambda e: lor(A, e, seq(A, B)),
    lambda e: ("name", "z", e),
    lambda e: ("act", "join", e),
    lambda e: ("cond", "even", e),
    lambda e: ("skipto", e, True),
    lambda e: ("rec", e),
    lambda e: ("all", group(e), C),
    lambda e: ("all", C, ("name", "z", e)),
    lambda e: ("all", C, ("act", "upper", e)),
    lambda e: ("all", opt(C), ("opt", e)),
)






def universe(name):
    if name == "two":
        for m in itertools.product(MEMBERS, repeat=2):
            if m[0] is not m[1]:
                yield ("all",) + m
    elif name == "three":
        for m in itertools.product(FEW, repeat=3):
            if len({id(e) for e in m}) == 3:
                yield ("all",) + m
    elif name == "three-all":
        for m in itertools.permutations(MEMBERS, 3):
            yield ("all",) + m
    elif name == "four":
        for m in itertools.permutations(LEAST, 4):
            yield ("all",) + m
    elif name == "five":
        for m in itertools.permutations(LEAST, 5):
            yield ("all",) + m
    elif name == "context":
        for m in itertools.permutations(FEW, 2):
            for c in CONTEXT:
                e = c(("all",) + m)
                if e[0] == "many" and peg.nullable(e[1]) and e[2]:
                    continue
                yield e
    elif name == "context3":
        for m in itertools.permutations(FEW, 3):
            for c in CONTEXT:
                yield c(("all",) + m)
    elif name == "same":
        # the same member twice
        for e in MEMBERS:
            yield ("all", e, e)
            yield ("all", e, A, e)
    else:
        raise Exception(name)


F = Family(
    {
        "quick": [("two", "ab ", 3, 16, 1), ("two", "abc", 3, 16, 1), ("three", "abc", 4, 32, 0), ("four", "abc", 4, 16, 0), ("context", "abc", 3, 32, 0), ("same", "abc", 4, 4, 0)],
        "thorough": [("two", "abc ", 5, 64, 1), ("three", "abc ", 5, 128, 0), ("three-all", "abc", 4, 256, 0), ("four", "abc", 6, 64, 0), ("five", "abc", 6, 128, 0), ("context", "abc ", 5, 64, 1), ("context3", "abc", 4, 128, 0)],
    },
    universe,
    {"recog", "end", "tree", "names", "list"},
    names=("x", "y", "z"),
    share=True,
)

# order does not matter for members that start differently
ORDER = {
    "a": (A, opt(A), ("many", A, 0, BIG), ("many", A, 1, BIG), seq(A, A), group(A)),
    "b": (B, opt(B), ("many", B, 0, BIG), ("many", B, 2, 3), ("name", "x", B)),
    "c": (C, opt(C), seq(C, opt(lit("d"))), ("many", C, 0, BIG)),
}
LENGTH = {"quick": 4, "thorough": 6}


def orders():
    return list(itertools.product(*(ORDER[k] for k in "abc")))


def shards(tier):
    return F.shards(tier) + [("order", LENGTH[tier], i, 8) for i in range(8)]


def bag(r):
    return sorted(map(repr, tree(r)))


def order(members, inputs, rep):
    perms = list(itertools.permutations(members))
    parsers = [build(("all",) + p).finalize() for p in perms]
    for s in inputs:
        first = None
        for p, parser in zip(perms, parsers):
            case = ("order", members, p, s)
            rep.begin(case)
            r = run(parser, s)
            got = r if isinstance(r, tuple) else (conform.settle(s, r.end), tree(r))
            rep.add("traces_validated_against_impl")
            rep.add("states")
            rep.add("transitions")
            if first is None:
                first = got
            elif got != first:
                rep.violation(case, first, got, note="order of members")
                return
    rep.end()


def run_shard(shard, tier, rep):
    if shard[0] == "order":
        _, n, i, k = shard
        inputs = list(strings("abc", n))
        for members in part(orders(), i, k):
            order(members, inputs, rep)
        return
    F.run_shard(shard, tier, rep)


def replay(case, rep):
    if case[0] == "order":
        order(case[1], [case[3]], rep)
    else:
        F.replay(case, rep)
