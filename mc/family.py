# encoding: utf-8
"""checks that walk a universe of grammars x a set of inputs against the reference PEG share this"""
from mc import peg, conform
from mc.universe import strings, part

BIG = peg.BIG


class Family(object):
    """
    plan: {tier: [(universe name, alphabet, max length, number of shards, both styles?)]}
    universe: name -> sequence of grammars
    """

    def __init__(self, plan, universe, what, names=(), ws=peg.STD, settle=conform.settle, share=False, top_ws=None, klass=conform.Conformance):
        self.plan = plan
        self.universe = universe
        self.what = set(what)
        self.names = names
        self.ws = ws
        self.top_ws = top_ws
        self.settle = settle
        self.share = share
        self.klass = klass

    def shards(self, tier):
        return [
            (row[0], row[1], row[2], i, row[3], row[4])
            for row in self.plan[tier]
            for i in range(row[3])
        ]

    def conformance(self, rep):
        return self.klass(rep, self.what, self.ws, self.names, self.settle, self.top_ws)

    def run_shard(self, shard, tier, rep):
        u, alphabet, n, i, k, both = shard
        inputs = list(strings(alphabet, n)) if isinstance(alphabet, str) else [
            "".join(t) for t in strings(alphabet, n)
        ]
        c = self.conformance(rep)
        for j, ast in enumerate(part(self.universe(u), i, k)):
            if both:
                c.grammar(ast, "ctor", inputs, {} if self.share else None)
                c.grammar(ast, "op", inputs, {} if self.share else None)
            else:
                c.grammar(ast, "op" if j % 2 else "ctor", inputs, {} if self.share and j % 4 > 1 else None)
            if j == 0 and i == 0:
                rep.sample("%r on %r" % (ast, inputs[-1]))

    def replay(self, case, rep):
        ast, style, s = case[:3]
        c = self.conformance(rep)
        c.grammar(ast, style, [s])
        if self.share:
            c.grammar(ast, style, [s], {})


def many(lo, hi):
    def make(e):
        if peg.nullable(e) and lo > 0:
            return None
        if lo == hi == 1 and e[0] == "many":
            return None  # exactly one repetition is the repetition
        return ("many", e, lo, hi)

    return make


def opt(e):
    return ("opt", e)


def group(e):
    return ("group", e)


def supp(e):
    return ("supp", e)


def look(e):
    return ("look", e)


def neg(e):
    return ("not", e)


def comb(e):
    return ("comb", e)


def name(n):
    return lambda e: ("name", n, e)


def strip(e, kinds=("name", "act", "cond")):
    while e[0] in kinds:
        e = e[2]
    return e


def named(n):
    def make(e):
        # naming a repetition or option of something with that name is refused by the library
        f = strip(e)
        while f[0] in ("many", "opt"):
            f = strip(f[1], ("act", "cond"))
            if f[0] == "name" and f[1] == n:
                return None
        return ("name", n, e)

    return make


def seq(*es):
    return ("seq",) + es


def alt(*es):
    return ("alt",) + es


def lor(*es):
    return ("or",) + es


def lit(s):
    return ("lit", s)


def word(*a):
    return ("word",) + a
