# encoding: utf-8
"""Regex"""
import itertools
import re

from mc import peg, conform
from mc.build import Builder, attempt, run, FAIL, tree, val, Regex, Whitespace, Literal
from mc.family import *
from mc.universe import strings, part, trees
from mo_parsing.whitespaces import NO_WHITESPACE

PID = "C09"
LEVEL = "model_checking"
RULE = (
    "every pattern of up to N nodes over characters, sets, classes, concatenation, choice, capturing, named and plain groups, greedy and lazy repetition, look-ahead and look-behind, "
    "on every text of up to L characters: alone, in every context of the list, with capture_groups() and with every replacement template of the list; Python's re is the model"
)
ASSUMPTIONS = [
    "bounds: pattern size, alphabet and text length as in the plan",
    "patterns are those the library can read: no ^, $, \\b, flags or back references except where listed",
]

LEAVES = ("a", "b", "[ab]", "[^a]", ".", "\\d", "\\w")
MORE = ("a", "[b-c]", "\\W", "\\s", "\\D", "\\S", "\\.", "[\\]a]", "[^\\d]", "ab", "a1", "-", "[a\\-b]", "\\n", "\\t", " ", "[ \\t]", "\\x61", "[\\x61-\\x62]", "(?<=a)b", "(?<=a|b)1", "\\+")
REPS = ("?", "*", "+", "*?", "+?", "{2}", "{1,2}", "{0,1}", "{1,}", "{,1}")


def rep(op):
    return lambda e: ("rep", e, op)


def kind(k):
    return lambda e: (k, e)


UNARY = tuple(rep(o) for o in REPS) + (kind("cap"), kind("named"), kind("plain"), kind("ahead"), kind("nahead"))
FEW = (rep("*"), rep("?"), rep("+"), rep("{2}"), kind("cap"), kind("named"), kind("plain"), kind("ahead"), kind("nahead"))
BINARY = (lambda e, f: ("cat", e, f), lambda e, f: ("bar", e, f))


def render(p):
    names = itertools.count(1)

    def go(p, level):
        """level 0: a choice is fine, 1: a concatenation is, 2: a single item, 3: no repetition either"""
        if isinstance(p, str):
            single = len(re.sub(r"\\x..|\\.|\[(?:\\.|[^\]])*\]|\(.*\)", "x", p)) == 1
            return p if level < 2 or single else "(?:" + p + ")"
        k = p[0]
        if k == "cat":
            out, my = go(p[1], 1) + go(p[2], 1), 1
        elif k == "bar":
            out, my = go(p[1], 0) + "|" + go(p[2], 0), 0
        elif k == "rep":
            out, my = go(p[1], 3) + p[2], 2
        elif k == "cap":
            return "(" + go(p[1], 0) + ")"
        elif k == "named":
            return "(?P<n%d>" % next(names) + go(p[1], 0) + ")"
        elif k == "plain":
            return "(?:" + go(p[1], 0) + ")"
        elif k == "ahead":
            return "(?=" + go(p[1], 0) + ")" if level < 3 else "(?:(?=" + go(p[1], 0) + "))"
        elif k == "nahead":
            return "(?!" + go(p[1], 0) + ")" if level < 3 else "(?:(?!" + go(p[1], 0) + "))"
        if my < level:
            return "(?:" + out + ")"
        return out

    return go(p, 0)


def patterns(n, leaves, unary, pick=None):
    seen = set()
    for k in range(1, n + 1):
        for t in trees(k, leaves, unary, BINARY, ()):
            p = render(t)
            if p not in seen:
                try:
                    re.compile(p)
                except re.error:
                    continue
                seen.add(p)
                yield p


SEP = lit("b")
CONTEXT = (
    lambda r: r,
    lambda r: seq(lit("a"), r),
    lambda r: seq(r, lit("a")),
    lambda r: seq(r, opt(lit("b"))),
    lambda r: alt(r, lit("a"), word("ab1")),
    lambda r: alt(lit("b"), r, lit("a")),
    lambda r: alt(lit("ab"), lit("ba"), lit("1"), r),
    lambda r: alt(seq(r, lit("b")), lit("a"), lit("b"), r),
    lambda r: lor(lit("a"), r, lit("ab")),
    lambda r: ("many", r, 0, BIG),
    lambda r: ("many", alt(r, lit("b")), 0, 2),
    lambda r: ("many", seq(lit("a"), r), 0, BIG),
    lambda r: ("many", lit("a"), 0, BIG, r),
    lambda r: opt(r),
    lambda r: seq(neg(r), ("any",)),
    lambda r: seq(look(r), ("any",)),
    lambda r: group(r),
    lambda r: comb(seq(r, lit("a"))),
    lambda r: ("name", "x", r),
    lambda r: ("skipto", r, True),
    lambda r: ("act", "join", r),
)

TIGHT = ("", ())


def universe(u):
    n, which, contexts = u
    leaves, unary = {"main": (LEAVES, UNARY), "few": (("a", "b", "[^a]"), FEW), "more": (MORE, UNARY), "tiny": (("a", "b"), (rep("*"), rep("?"), kind("cap"), kind("ahead")))}[which]
    for p in patterns(n, leaves, unary):
        r = ("re", p)
        for i, c in enumerate(CONTEXT):
            if not contexts and i:
                break
            yield c(r)


PLAN = {
    "quick": [
        ((3, "main", False), "ab1", 3, 8, False), ((2, "main", True), "ab1", 3, 8, False), ((2, "more", False), "ab1 \n", 3, 16, False), ((1, "more", True), "ab1 \n", 3, 8, False),
        ((3, "few", True), "ab", 3, 32, False), ((4, "few", False), "ab", 3, 16, False),
    ],
    "thorough": [
        ((3, "main", False), "ab1", 4, 32, False), ((3, "main", True), "ab1", 3, 128, False), ((2, "more", True), "ab1 \n", 3, 64, False), ((4, "few", True), "ab", 4, 256, False),
        ((5, "few", False), "ab", 4, 256, False), ((5, "tiny", True), "ab", 4, 64, False), ((3, "more", False), "ab1 \n", 2, 64, False),
    ],
}


FAMILY = Family(PLAN, universe, ("end", "tree", "names"), ("x",), peg.NOWS, lambda s, p, w=None: p)

# ------------------------------------------------------------------ groups and templates
FUNCTIONS = (lambda m: "<%s|%s>" % (m.group(0), m.groups()), lambda m: "", lambda m: m.group(0)[1:], lambda m: 0)
TEMPLATES = ("", "x", "<\\1>", "\\2\\1", "\\g<1>x", "\\g<n1>", "-\\1-\\g<n1>-")
CAPS = (("a", "b"), (kind("cap"), kind("named"), rep("?")))
GROUPS = {
    "quick": [(3, "few", "ab", 3, 32), (2, "main", "ab1", 3, 16), (2, "more", "ab1 \n", 2, 16), (5, "caps", "ab", 3, 16)],
    "thorough": [(4, "few", "ab", 3, 64), (3, "main", "ab1", 4, 64), (5, "few", "ab", 4, 256), (3, "more", "ab1 \n", 2, 128), (6, "caps", "ab", 4, 128), (7, "caps", "ab", 3, 256)],
}


def shards(tier):
    out = [("re",) + s for s in FAMILY.shards(tier)]
    for i, row in enumerate(GROUPS[tier]):
        out.extend(("groups", i, j, row[-1]) for j in range(row[-1]))
    return out


def groups(p, inputs, rep):
    """names and templates, at the start of the text and after one character"""
    case = ("groups", p, "")
    rep.begin(case)
    compiled = re.compile(p, re.DOTALL)
    templates = [t for t in TEMPLATES if usable(compiled, t)]

    def make():
        dot = Builder()(("any",)).suppress()
        forms = [Regex(p).capture_groups()] + [Regex(p).sub(t) for t in templates] + [Regex(p).capture_groups().replace_with(t) for t in templates]
        forms.extend(Regex(p).sub(f) for f in FUNCTIONS)
        return [(f.finalize(), (dot + f).finalize()) for f in forms]

    ok, forms = attempt(make)
    if not ok:
        rep.violation(case, "a grammar", forms)
        return
    rep.add("patterns")
    for s in inputs:
        for at in (0, 1):
            if len(s) < at:
                continue
            found = compiled.match(s, at)
            for i, form in enumerate(forms):
                case = ("groups", p, s, at, i)
                rep.begin(case)
                rep.add("traces_validated_against_impl")
                rep.add("states", 2)
                rep.add("transitions", 1)
                got = run(form[at], s)
                if found is None:
                    expected = FAIL
                    have = got
                    rep.outcome("no match")
                elif i == 0:
                    names = {str(k): v for k, v in enumerate(found.groups(), 1)}
                    names.update(found.groupdict())
                    expected = (found.end(), sorted((k, v) for k, v in names.items() if v is not None), outermost(p, found))
                    have = got
                    if not isinstance(got, tuple):
                        g = got if at == 0 else got[0]
                        have = got.end, sorted((k, one(g[k])) for k in set(g.keys())), None if expected[2] is None else [t for t in g if t != ""]
                    rep.outcome("%d groups" % len(expected[1]))
                else:
                    if i >= len(forms) - len(FUNCTIONS):
                        text = FUNCTIONS[i - len(forms)](found)
                    else:
                        text = found.expand(templates[(i - 1) % len(templates)])
                    expected = (found.end(), [text])
                    have = got
                    if not isinstance(got, tuple):
                        # capture_groups() makes a group
                        have = got.end, bare(tree(got))
                    rep.outcome("replaced")
                if have != expected:
                    rep.violation(case, expected, have, note="" if i == 0 else "template %r" % (templates + templates + ["function"] * len(FUNCTIONS))[i - 1])
                    return
    rep.end()


def outermost(p, found):
    """texts of the groups that are inside no other, when they follow each other"""
    out = []
    depth = 0
    n = 0
    end = 0
    stack = []
    for t in re.findall(r"\\x..|\\.|\[(?:\\.|[^\]])*\]|\(\?P<|\(\?|\(|\)|.", p, re.DOTALL):
        if t in ("(", "(?P<"):
            n += 1
            s, e = found.span(n)
            if not depth and s >= 0:
                if s < end:
                    return None
                end = e
                if e > s:
                    out.append(found.group(n))
            depth += 1
            stack.append(1)
        elif t == "(?":
            stack.append(0)
        elif t == ")":
            depth -= stack.pop()
    return out


def usable(compiled, template):
    try:
        compiled.sub(template, "")
        re.compile(compiled.pattern + "|").match("").expand(template)
    except (re.error, IndexError):
        return False
    return True


def bare(t):
    while len(t) == 1 and isinstance(t[0], list):
        t = t[0]
    return t


def one(v):
    v = val(v)
    return v[0] if isinstance(v, list) and len(v) == 1 else v


def run_shard(shard, tier, rep):
    with NO_WHITESPACE:
        walk(shard, tier, rep)


def walk(shard, tier, rep):
    if shard[0] == "re":
        return FAMILY.run_shard(shard[1:], tier, rep)
    n, which, alphabet, k, _ = GROUPS[tier][shard[1]]
    leaves, unary = {"main": (LEAVES, UNARY), "few": (("a", "b", "[^a]"), FEW), "more": (MORE, UNARY), "caps": CAPS}[which]
    inputs = list(strings(alphabet, k))
    for p in part(patterns(n, leaves, unary), shard[2], shard[3]):
        if "(" in p.replace("(?:", "").replace("(?=", "").replace("(?!", "").replace("(?<", "") or len(p) < 3:
            groups(p, inputs, rep)
        elif "(?" in p:
            groups(p, inputs[: len(inputs) // 3], rep)


def replay(case, rep):
    with NO_WHITESPACE:
        if case[0] == "groups":
            groups(case[1], [case[2]], rep)
        else:
            FAMILY.replay(case, rep)
