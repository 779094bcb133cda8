# encoding: utf-8
from mc import peg
from mc.family import *
from mc.universe import trees

PID = "C02"
LEVEL = "model_checking"
RULE = (
    "every grammar of up to N nodes over terminals, sequence, choices, repetition, option with and without default, Group, Suppress, Combine, "
    "look-ahead, on every input of up to L characters: as_list, iteration, length against the tokens of the reference derivation"
)
ASSUMPTIONS = [
    "bounds: grammar size, alphabet and input length as in `shards`",
    "Combine of nothing gives one empty string; Combine is taken to join the leaves of what it combines",
]

LEAVES = (lit("a"), word("ab"), lit("b"))
UNARY = (
    opt,
    lambda e: ("opt", e, "D"),
    lambda e: ("opt", e, "D", "E"),
    many(0, BIG),
    many(1, BIG),
    many(1, 2),
    many(1, 1),
    many(0, 1),
    group,
    supp,
    comb,
    lambda e: ("comb", e, "-"),
    look,
    neg,
)
BINARY = (seq, alt, lor)


def universe(name):
    kind, n = name[:-1], int(name[-1])
    if kind == "toks":
        return trees(n, LEAVES, UNARY, BINARY, (seq, alt))
    if kind == "blank":
        # texts that end in blanks, or are nothing but blanks
        return trees(n, (lit("a "), word("ab "), ("re", " ?"), ("white", " ", 1, 0), lit("a")), (opt, lambda e: ("opt", e, "D "), many(0, BIG), group, supp, comb, lambda e: ("comb", e, " "), lambda e: ("comb", e, "-")), (seq, alt), (seq,))
    if kind == "combs":
        # sequences, within groups, within Combine with a separator
        return trees(n, (lit("a"),), (group, lambda e: ("comb", e, "-"), supp, comb), (seq,), ())
    # fewer terminals, deeper
    return trees(n, (lit("a"), word("ab")), (group, supp, comb, opt, many(0, BIG)), (seq,), (seq,))


F = Family(
    {
        "quick": [("toks1", "ab ", 4, 1, 1), ("toks2", "ab ", 4, 2, 1), ("toks3", "ab ", 4, 16, 1), ("toks4", "ab ", 4, 48, 0), ("deep5", "ab ", 4, 48, 0), ("blank2", "ab ", 4, 4, 1), ("blank3", "ab ", 4, 16, 0), ("combs5", "a ", 6, 2, 1), ("combs7", "a ", 5, 24, 0)],
        "thorough": [("toks3", "ab ", 5, 16, 1), ("toks4", "ab ", 5, 256, 0), ("deep5", "ab ", 4, 64, 0), ("deep6", "ab", 4, 256, 0), ("toks5", "ab", 3, 512, 0), ("blank3", "ab ", 5, 64, 1), ("blank4", "ab ", 4, 256, 0), ("combs8", "a ", 7, 128, 0)],
    },
    universe,
    {"recog", "end", "tree", "list"},
)
shards, run_shard, replay = F.shards, F.run_shard, F.replay
