# encoding: utf-8
from mc import peg, conform
from mc.build import val, tree, ParseResults, Group
from mc.family import *
from mc.universe import trees

PID = "C03"
LEVEL = "model_checking"
RULE = (
    "every grammar of up to N nodes in which two names are placed on any sub-expressions, on every input of up to L characters: "
    "results[n], n in results, keys(), items(), get() for both names and an unused one, at the top and inside every Group, against the reference derivation"
)
ASSUMPTIONS = [
    "bounds: grammar size, alphabet and input length as in `shards`",
]

LEAVES = (lit("a"), word("ab"), ("name", "x", lit("b")), ("name", "y", word("ab")))

UNARY = (
    opt,
    many(0, BIG),
    many(1, 2),
    many(1, 1),
    many(2, 2),
    group,
    supp,
    look,
    comb,
    named("x"),
    named("y"),
)
BINARY = (seq, alt)


def universe(kind):
    n = int(kind[4:])
    if kind.startswith("name"):
        return trees(n, LEAVES, UNARY, BINARY + (lor,), (seq, alt))
    if kind.startswith("path"):
        # long chains of wrappers over a sequence of two named words
        base = (seq(("name", "x", lit("a")), ("name", "y", lit("b"))), seq(("name", "x", lit("a")), ("name", "x", word("ab"))))
        return trees(n, base, (group, named("x"), named("y"), many(0, BIG), opt), (), ())
    if kind.startswith("recn"):
        leaves = (lit("a"), ("name", "x", lit("b")), ("self",))
        unary = (opt, many(0, BIG), group, named("x"), named("y"))
        out = []
        for e in trees(n, leaves, unary, BINARY, (seq, alt)):
            if peg.contains(e, ("self",)):
                r = ("rec", e)
                if not peg.left_recursive(r):
                    if not e[:1] == ("name",) or not peg.contains(e, ("group",)):
                        out.append(r)
                    out.append(("name", "y", r))
                    out.append(seq(("name", "x", r), opt(r)))
        return out
    raise Exception()


def flat(v):
    return [x for t in v for x in flat(t)] if isinstance(v, list) else [v]


class Names(conform.Conformance):
    def check_names(self, case, node, got):
        kids = [node]
        if not node[1] and node[0] & peg.GROUP:
            kids = node[2]
        self.level(case, kids, got)

    def level(self, case, kids, got):
        rep = self.rep
        present = set()
        for n in self.names:
            vals = list(peg.named(kids, n))
            v = got[n]
            if len(vals) == 1:
                want, have = [peg.value(vals[0])], [val(v)]
            else:
                # several values are read by iterating them, which looks through named parts
                want, have = peg.nested(vals), val(v)
            if have != want:
                rep.violation(case, (n, want), have, note="value by name")
                return
            if vals:
                rep.outcome("name with %d values" % len(vals))
            # whether an empty value counts as present is not specified
            isin = n in got
            if isin and not vals or not isin and any(flat(want)):
                rep.violation(case, (n, "in", want), isin, note="membership")
                return
            if isin:
                present.add(n)
            d = got.get(n, self)
            if (d is self) == isin:
                rep.violation(case, (n, "get", want), d, note="get")
                return
        # below every group
        for k, t in zip(peg.items(kids), got):
            if isinstance(k, list) and isinstance(t, ParseResults):
                self.level(case, k[2], t)
        # keys: every name with a value, and none that does not occur
        occur = set(peg.names_of(kids))
        have = list(got.keys())
        if len(set(have)) != len(have) or not present <= set(have) <= occur:
            rep.violation(case, ("keys", sorted(present), sorted(occur)), have, note="keys")
            return
        for n, v in got.items():
            want = [peg.value(v) for v in peg.named(kids, n)]
            have = []
            for t in v:
                if isinstance(t, ParseResults) and not isinstance(t.type, Group):
                    have.extend(tree(t))
                else:
                    have.append(val(t))
            want, have = flat(want), flat(have)
            if have != want and not peg.contains(case[0], ("look",)):
                rep.violation(case, (n, want), have, note="items")
                return


F = Family(
    {
        "quick": [("name1", "ab ", 4, 1, 1), ("name2", "ab ", 4, 2, 1), ("name3", "ab ", 4, 16, 1), ("name4", "ab ", 3, 64, 0), ("path3", "ab ", 4, 2, 1), ("path4", "ab", 4, 4, 1), ("path5", "ab", 4, 16, 0), ("recn3", "ab", 4, 1, 1), ("recn4", "ab", 4, 8, 1), ("recn5", "ab", 4, 16, 0)],
        "thorough": [("name3", "ab ", 5, 16, 1), ("name4", "ab ", 4, 256, 1), ("path5", "ab ", 5, 32, 1), ("path6", "ab", 5, 64, 0), ("name5", "ab", 3, 1024, 0), ("recn5", "ab", 5, 32, 1), ("recn6", "ab", 4, 64, 0)],
    },
    universe,
    {"recog", "end", "tree", "names"},
    names=("x", "y", "z"),
    klass=Names,
)
shards, run_shard, replay = F.shards, F.run_shard, F.replay
