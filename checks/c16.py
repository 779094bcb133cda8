# encoding: utf-8
"""results as a container"""
import copy
import itertools

from mc import peg
from mc.build import Builder, attempt, tree, val, run, ParseResults
from mc.family import *
from mc.universe import strings, part, trees

PID = "C16"
LEVEL = "model_checking"
RULE = (
    "the results of every small grammar with names, groups, annotations by actions, references and repetitions on every text up to a length, and every sequence of up to K edits (assigning a string, list, empty string, number or result; deleting; names there, not there, and in parts) on them: "
    "after each edit every reading (index from both ends, slices, iteration, reversal, length, truth, equality, keys, items, values, get, membership, tree, list, strings, copies) against a reference container; copies taken before an edit still read as before it; the sum of every two results, edited too"
)
ASSUMPTIONS = [
    "bounds: the grammars, texts and edits listed in the check",
    "assigning to a name that is there replaces the first of its tokens where it stands and removes the others, assigning to another adds nothing to the list, and deleting removes the tokens of the name",
    "parts (groups and named parts) are shared by copies",
]

A, B = lit("a"), lit("b")
X, Y = (lambda e: ("name", "x", e)), (lambda e: ("name", "y", e))
W = word("ab")


def rec(e):
    return ("rec", e)


GRAMMARS = (
    X(A),
    seq(X(A), B),
    seq(A, B),
    seq(X(A), X(B)),
    seq(X(A), Y(B)),
    seq(X(A), Y(seq(X(A), B)), X(opt(B))),
    many(1, BIG)(X(W)),
    many(1, BIG)(seq(X(A), Y(B))),
    many(1, BIG)(alt(X(A), Y(B))),
    group(X(A)),
    seq(group(X(A)), X(B)),
    X(group(seq(Y(A), B))),
    seq(X(group(seq(Y(A), B))), Y(group(many(1, BIG)(X(W))))),
    many(1, BIG)(group(seq(X(A), opt(Y(B))))),
    many(1, BIG)(X(group(alt(A, Y(B))))),
    rec(seq(X(A), opt(("self",)))),
    rec(seq(X(A), Y(opt(("self",))))),
    rec(group(seq(X(A), opt(("self",))))),
    rec(X(many(1, BIG)(alt(A, Y(B))))),
    X(rec(seq(A, opt(Y(B))))),
    seq(X(rec(A)), rec(Y(B))),
    seq(rec(group(Y(A))), X(rec(group(B)))),
    seq(look(X(A)), Y(W)),
    seq(supp(X(A)), Y(B)),
    X(supp(A)),
    seq(X(opt(A)), Y(opt(B))),
    seq(X(("opt", A, "")), ("opt", Y(B), "d")),
    X(("comb", many(0, BIG)(A))),
    seq(X(("comb", seq(Y(A), B))), opt(Y(A))),
    ("act", "upper", seq(X(A), B)),
    Y(("act", "upper", X(W))),
    seq(opt(X(opt(Y(A)))), many(0, BIG)(B)),
    lor(seq(X(A), Y(B)), X(A)),
    ("all", X(A), Y(B)),
    ("empty",),
    opt(A),
)
TEXTS = ("a", "ab", "a b a", "aab", "b", "", "abab")
NAMES = ("x", "y", "z")
VALUES = ("v", ["p", "q"], "", 0, [], None)
DELETE = ("del",)


def edits():
    for n in NAMES:
        for v in VALUES:
            yield (n, v)
        yield (n, DELETE)
        yield (n, "part")  # the result of another parse
        yield (n, "own")  # what is read under another name


EDITS = tuple(edits())
FEW = tuple((n, v) for n in NAMES for v in ("v", ["p", "q"], DELETE))
PLAN = {"quick": [("all", 2, 1, 64)], "thorough": [("all", 2, 1, 64), ("few", 3, 1, 128), ("few", 4, 0, 128)]}
ANNOTATION = peg.HIDDEN


# ---- the reference: model nodes [flags, name, kids, start, end]; an annotation is a hidden node with a name
def replaced(kids, name, values):
    out = []
    for k in kids:
        if isinstance(k, list):
            if k[1] == name:
                if not values:
                    continue
                k = [k[0] & peg.HIDDEN, name, values.pop(), k[3], k[4]]
            elif not k[1] and not k[0] & peg.GROUP:
                k = k[:2] + [replaced(k[2], name, values)] + k[3:]
        out.append(k)
    return out


def assign(kids, name, values):
    """values None: delete"""
    v = [] if values is None else [values]
    kids = replaced(kids, name, v)
    if v:
        kids = kids + [[ANNOTATION, name, v[0], -1, 0]]
    return kids


def by_name(kids, name):
    return list(peg.named(kids, name))


def compare(kids, r):
    """-> None or what differs"""
    want = peg.nested(kids)
    n = len(want)
    got = list(r)
    if [val(t) for t in got] != want:
        return "iteration", want, [val(t) for t in got]
    if len(r) != n or r.length() != n:
        return "length", n, (len(r), r.length())
    if [val(t) for t in reversed(r)] != want[::-1]:
        return "reversed", want[::-1], [val(t) for t in reversed(r)]
    for i in range(n):
        if val(r[i]) != want[i] or val(r[i - n]) != want[i]:
            return "item %d" % i, want[i], (val(r[i]), val(r[i - n]))
    for sl in (slice(1, None), slice(None, -1), slice(None, None, 2), slice(-2, None)):
        if [val(t) for t in r[sl]] != want[sl]:
            return "slice %s" % sl, want[sl], [val(t) for t in r[sl]]
    if tree(r) != want:
        return "tree", want, tree(r)
    whole = any(True for _ in peg.items(kids)) or any(True for _ in peg.names_of(kids))
    real = any(True for _ in peg.items(kids)) or any(by_name(kids, k) for k in peg.names_of(kids))
    if bool(r) != whole and (real or not whole):  # a name that holds nothing may count or not
        return "truth", whole, bool(r)
    if not (r == got) or r == got + ["more"] or n and (r == got[:-1] or r == got[:-1] + ["other"]):
        return "equality", got, "not equal to its items, or to something else too"
    if not r == tuple(got) or r != got:
        return "equality", got, "not equal to a tuple of its items"
    texts = all(isinstance(t, str) for t in want)
    if (r == "".join(want if texts else "?")) != texts or r == "".join(want if texts else "") + "?":
        return "equality", want, "with the text of its items"
    if (r == None) != (not r):
        return "equality", bool(r), "with None"
    if n == 1 and not isinstance(want[0], list) and not (r == want[0]):
        return "equality", want, "with its only item"
    if val(r.value()) != plain(want):
        return "value()", plain(want), r.value()
    if not (copy.copy(r) == r):
        return "copy", "equal", "not"
    if any(isinstance(t, list) for t in want):
        pass
    elif r.as_string() != "".join(map(str, want)):
        return "as_string", want, r.as_string()
    keys = list(r.keys())
    names = {k for k in peg.names_of(kids) if by_name(kids, k)}
    if set(keys) != names or len(keys) != len(set(keys)):
        return "keys", names, keys
    if [k for k, _ in r.items()] != keys or [repr(v) for _, v in r.items()] != [repr(v) for v in r.values()]:
        return "items, values", keys, list(r.items())
    for k, v in r.items():
        vals = peg.nested(by_name(kids, k))
        have = [x for t in v for x in ([tree(t)] if is_group(t) else tree(t))]
        if have != vals:
            return "items", vals, have
    for k in NAMES:
        vals = by_name(kids, k)
        v = r[k]
        if len(vals) == 1:
            want, have = [peg.value(vals[0])], [val(v)]
        else:
            want, have = peg.nested(vals), val(v)
        if have != want:
            return "value of %s" % k, want, have
        if (k in r) != bool(vals):
            return "%s in" % k, bool(vals), k in r
        d = r.get(k, "default")
        if (val(d) if vals else d) != (val(v) if vals else "default"):
            return "get %s" % k, val(v), d
        if vals and k not in names:
            return "name without key", k, names
    return None


def plain(items):
    out = [plain(x) if isinstance(x, list) else x for x in items]
    return None if not out else out[0] if len(out) == 1 else out


def is_group(t):
    from mo_parsing import Group

    return isinstance(t, ParseResults) and isinstance(t.type, Group)


def fresh_part():
    from mo_parsing import Literal

    return (Literal("m")("x") + "n").parse("mn")


def edit(e, r, kids):
    """-> kids after; r is changed"""
    name, v = e
    if v == DELETE:
        del r[name]
        return assign(kids, name, None)
    if v is None:
        r[name] = None
        return assign(kids, name, None)
    if v == "part":
        r[name] = fresh_part()
        return assign(kids, name, [[0, "x", ["m"], 0, 1], "n"])
    if v == "own":
        other = NAMES[NAMES.index(name) - 1]
        vals = by_name(kids, other)
        got = r[other]
        r[name] = got
        if not vals:
            return assign(kids, name, None)
        if len(vals) == 1:
            one = vals[0]
            if isinstance(one, list):
                return assign(kids, name, one[2])
            return assign(kids, name, [one])
        return assign(kids, name, vals)
    r[name] = v
    return assign(kids, name, list(v) if isinstance(v, list) else [v])


def roots(g):
    """what may be edited: the results, and the groups in them"""
    parser = Builder("ctor")(g).finalize()
    for s in TEXTS:
        m = peg.Model(s)
        node = m.match(g, 0, peg.STD)
        got = run(parser, s)
        if node is None:
            continue
        kids = [node]
        if not node[1] and node[0] & peg.GROUP:
            kids = node[2]
        yield s, kids, got, m


def one(g, s, h, rep, copies=True):
    case = (g, s, h)
    rep.begin(case)
    ok, problem = attempt(lambda: follow(g, s, h, rep, copies))
    if not ok:
        rep.violation(case, "the edits are made and read", problem)
    elif problem is not None:
        rep.violation(case, problem[1], problem[2], note=problem[0])
    else:
        rep.end()


def everything():
    """(grammar, text, what it holds) of all that match"""
    for g in GRAMMARS:
        for s in TEXTS:
            node = peg.Model(s).match(g, 0, peg.STD)
            if node is not None:
                yield g, s, [node] if node[1] or not node[0] & peg.GROUP else node[2]


ADDED = (None, ("x", "v"), ("y", ["p", "q"]), ("x", DELETE), ("z", "v"))


def added(a, b, e, rep):
    """the sum of two results holds what they hold, one after the other; editing it changes neither"""
    (g, s, k), (h, t, l) = a, b
    case = ("sum", a[:2], b[:2], e)
    rep.begin(case)
    rep.add("states", 3)
    rep.add("transitions", 2)
    rep.add("traces_validated_against_impl")

    def go():
        r, q = (Builder("ctor")(x).finalize().parse(y) for x, y in ((g, s), (h, t)))
        for r_, q_, total in ((r, q, r + q), (r, q, sum([r, q]))):
            kids = k + l
            if e is not None:
                kids = edit(e, total, kids)
            for what, x, y in (("sum", kids, total), ("left", k, r_), ("right", l, q_)):
                problem = compare(x, y)
                if problem:
                    return (what + ": " + problem[0],) + problem[1:]

    ok, problem = attempt(go)
    if not ok:
        rep.violation(case, "the results are added", problem)
    elif problem is not None:
        rep.violation(case, problem[1], problem[2], note=problem[0])
    else:
        rep.outcome("sum")
        rep.end()


_parsers = {}


def follow(g, s, h, rep, copies):
    key = (g, s)
    if key not in _parsers:
        m = peg.Model(s)
        node = m.match(g, 0, peg.STD)
        _parsers[key] = node and (Builder("op" if len(s) % 2 else "ctor")(g).finalize(), node, m.steps)
    if _parsers[key] is None:
        return
    parser, node, steps = _parsers[key]
    r = parser.parse(s)
    kids = [node] if node[1] or not node[0] & peg.GROUP else node[2]
    rep.add("transitions", len(h))
    rep.add("states", len(h) + 1)
    rep.add("traces_validated_against_impl")
    problem = compare(kids, r)
    if problem:
        return ("before: " + problem[0],) + problem[1:]
    before = []
    for e in h:
        before.append((copy.copy(r), kids))
        kids = edit(e, r, kids)
        problem = compare(kids, r)
        if problem:
            return ("after %r: " % (e,) + problem[0],) + problem[1:]
        rep.outcome("%d names" % len(set(peg.names_of(kids))))
    if copies:
        for c, k in before:
            problem = compare(k, c)
            if problem:
                return ("copy: " + problem[0],) + problem[1:]
    return None


def shards(tier):
    return [(tier, "sum", j, 32) for j in range(32)] + [(tier, i, j, row[-1]) for i, row in enumerate(PLAN[tier]) for j in range(row[-1])]


def work(tier, i):
    which, n, _, _ = PLAN[tier][i]
    es = EDITS if which == "all" else FEW
    for g in GRAMMARS:
        for s in TEXTS:
            for h in itertools.product(es, repeat=n):
                yield g, s, h


def run_shard(shard, tier, rep):
    t, i, j, k = shard
    if i == "sum":
        all_ = list(everything())
        for a in part(all_, j, k):
            for b in all_:
                for e in ADDED[:2] if t == "quick" else ADDED:
                    added(a, b, e, rep)
        return
    for x, (g, s, h) in enumerate(part(work(t, i), j, k)):
        one(g, s, h, rep, PLAN[t][i][2])
        if x == 10:
            rep.sample("%r on %r, then %r" % (g, s, h))


def replay(case, rep):
    if case[0] == "sum":
        find = lambda gs: next(x for x in everything() if x[:2] == tuple(gs))
        return added(find(case[1]), find(case[2]), case[3], rep)
    one(case[0], case[1], tuple(case[2]), rep)
